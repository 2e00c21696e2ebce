#!/usr/bin/env python3
"""Make/verify a planted change: tools/seed.py <spec.py>  (spec: id, prop, needs, breaks, edits=[(file,old,new)], demo=C++ text).
Works in a scratch copy of /repo; never touches /repo."""
import sys,os,subprocess,shutil,json,tempfile
V="/verif"; BASE="-std=gnu++17 -DNDEBUG -O1 -w -include /opt/vp/harness/linux_compat.h"
DEMO='''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the planted change
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
COMPAT=/opt/vp/harness/linux_compat.h
clang++-18 -std=gnu++17 -DNDEBUG -O1 -w %s -include $COMPAT -I"$PWD/include" "$D/demo.cpp" -o "$W/demo" -lz -lnuma -pthread || exit 3
cd "$W" && timeout 120 ./demo
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def main():
    g={}; exec(open(sys.argv[1]).read(),g)
    seeds=g['SEEDS']
    only=sys.argv[2:]
    stable=json.load(open("/opt/vp/BASELINE.json"))["stable"]
    W="/tmp/seedwork/w"; shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
    sh("cp -a /repo %s/repo; rm -rf %s/repo/_build; cp -a /opt/vp/harness %s/h; sed -i 's|set(REPO /repo)|set(REPO %s/repo)|' %s/h/CMakeLists.txt; cmake -S %s/h -B %s/b -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18"%((W,)*7))
    R=W+"/repo"
    for sd in seeds:
        if only and sd['id'] not in only: continue
        sh("git -C %s checkout -- ."%R)
        out="%s/seeded/%s"%(V,sd['id']); os.makedirs(out,exist_ok=True)
        open(out+"/demo.cpp","w").write(sd['demo']); open(out+"/demo.sh","w").write(DEMO%sd.get('flags',''))
        os.chmod(out+"/demo.sh",0o755)
        json.dump(dict(property=sd['prop'],needs=sd['needs'],what_it_breaks=sd['breaks']),open(out+"/meta.json","w"),indent=1)
        p0=sh("cd %s && bash %s/demo.sh"%(R,out))
        ok=True
        for f,old,new in sd['edits']:
            p=R+"/include/stdex/"+f; s=open(p,newline='').read()
            crlf='\r\n' in s
            if crlf: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
            if s.count(old)!=1: print(sd['id'],"EDIT MATCHES",s.count(old),old[:80]); ok=False; break
            open(p,"w",newline='').write(s.replace(old,new))
        if not ok: shutil.rmtree(out); continue
        d=sh("git -C %s diff"%R).stdout if False else subprocess.run(["git","-C",R,"diff"],capture_output=True).stdout
        open(out+"/patch.diff","wb").write(d)
        b=sh("ninja -C %s/b"%W)
        if b.returncode: print(sd['id'],"BUILD FAILS",b.stdout[-1500:]); continue
        bad=[]
        for t in stable:
            r=sh("timeout 120 %s/b/driver '%s'"%(W,t))
            if r.returncode: bad.append(t)
        p1=sh("cd %s && bash %s/demo.sh"%(R,out))
        a=sh("git -C /repo apply --check %s/patch.diff"%out)
        print(sd['id'],sd['prop'],"OK" if p0.returncode==0 and p1.returncode not in(0,3) and not bad and a.returncode==0 else "BAD","demo clean rc",p0.returncode,"patched rc",p1.returncode,"failing tests",bad,"apply",a.returncode, (p0.stdout+p0.stderr)[-600:] if p0.returncode else "")
        sh("git -C %s checkout -- ."%R)
    sh("rm -f /tmp/stdex-stream-*.tmp"); shutil.rmtree(W,ignore_errors=True)
main()
