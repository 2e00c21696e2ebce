#!/opt/veriftools/pyvenv/bin/python3
import sys, os, importlib.util
H=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,H+"/vc"); sys.path.insert(0,H+"/contracts")
def main():
    a=sys.argv[1:]
    if a==['--selftest']:
        import fw,subprocess
        subprocess.run([fw.CXX,'--version'],check=True,stdout=subprocess.DEVNULL); subprocess.run(['cvc5','--version'],check=True,stdout=subprocess.DEVNULL); print('ok'); return
    pid=a[0]; tier=os.environ.get("VERIF_TIER","quick"); v=2 if '-vv' in a else (1 if '-v' in a else 0); only=None; no=False
    if '--tier' in a: tier=a[a.index('--tier')+1]
    if '--root' in a: only=a[a.index('--root')+1]
    if '--no-oracle' in a: no=True
    import fw
    spec=importlib.util.spec_from_file_location(pid,H+"/contracts/"+pid+".py"); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    sys.exit(fw.main(pid,tier,v,only,no))
main()
