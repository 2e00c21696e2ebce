"""Framework: compile the harness TU from /repo's current tree, run the contract roots, replay on the real code, report."""
import os, sys, re, time, json, signal, subprocess, tempfile, shutil, traceback, multiprocessing as mp
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from exec import *
from models import *
import exec as _exec, models as _models, terms as _terms
import llir
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("STDEX_REPO","/repo")
CXX="clang++-18"
BASE=["-std=gnu++17","-fno-access-control","-DNDEBUG","-include",VERIF+"/tu/linux_compat.h","-I"+REPO+"/include","-I"+VERIF+"/tu","-w"]
IRFLAGS=["-O1","-Xclang","-disable-llvm-passes","-fno-discard-value-names","-gline-tables-only","-fno-vectorize","-S","-emit-llvm"]
class Prop: pass
PROPS={}; CUR=None
def prop(pid,tu=None,oracle=None,oracle_note="",libs=(),assume=(),bounded=(),san="address",oracle_time=(8,90),oracle_flags=(),irflags=None):
    global CUR
    p=Prop(); p.id=pid; p.tu=tu or pid+".cpp"; p.oracle=oracle; p.roots=[]; p.libs=list(libs); p.assume=list(assume); p.bounded=list(bounded); p.san=san; p.oracle_note=oracle_note; p.oracle_time=oracle_time; p.oracle_flags=list(oracle_flags); p.irflags=irflags
    PROPS[pid]=p; CUR=p
def root(name,budget=240,thorough=False,timeout=20000):
    def d(f):
        CUR.roots.append((name,f,budget,thorough,timeout)); return f
    return d
def newstate():
    st=State(); st.mem={}; st.frames=[]; st.pc=None; st.exc=None; st.ghost={}; st.uid=0; st.freed=frozenset(); st.trace=None; st.writes=None; st.lentry=None
    return st
class Ctx:
    def __init__(s,mod,verbose=False,budget=240,timeout=20000):
        s.m=mod; s.ex=Ex(mod,verbose=verbose,budget=budget,timeout=timeout); s.ex.models=list(MODELS); s.st=newstate(); s.covers=0; s.ends=0; s.notes=[]
        s.fncache={}
    # --- building the symbolic pre-state
    def fn(s,pat,pick=None):
        c=[f for f in s.m.funcs.values() if not f.decl and (f.name==pat or re.search(pat,f.dem))]
        if any(f.name==pat for f in c): c=[f for f in c if f.name==pat]
        if len(c)>1 and pick is not None: c=[f for f in c if re.search(pick,f.dem) or re.search(pick,f.name)]
        if len(c)!=1: raise Unsupported("function pattern %r matches %d functions: %s"%(pat,len(c),[f.dem[:120] for f in c][:6]))
        return c[0]
    def var(s,n,w=64): return var(n,w)
    def size(s,n,max=1<<60):
        v=var(n,64); s.st.assume(ult(v,const(max,64))); return v
    def arr(s,name,esize,n,st=None):
        return s.ex.new_arr(st or s.st,name,esize,n)
    def obj(s,name,tyname,init=True,zero=False):
        """symbolic object of an IR struct type"""
        t=s.m.struct(tyname); 
        return s.ex.layout(s.st,t,name,init=name if init else None,zero=zero)
    def cells(s,name,size,arrays=()):
        kids=[(o,o+n*e,s.ex.new_arr(s.st,"%s+%d"%(name,o),e,const(n,64))) for o,n,e in arrays]
        r=s.ex.new_cells(s.st,name,size,kids); return r
    def put(s,p,size,v): rawcell(s.ex,s.st,p,size,v)
    def ptr(s,st,p):
        r,off=s.ex.resolve(p); v=s.ex.load_cells(st,r,val(off),8,ptr=True)
        if isinstance(v,T): v=s.ex.inttoptr(v) if not isc(v) else P(None,v)
        return v if v is not None else P(None,const(0,64))
    def assume(s,*cs):
        for c in cs: s.st.assume(c)
    def loop(s,inv,roles=(),where=None,dec=None,name="loop",**k):
        sp=LoopSpec(inv,list(roles),where=where,dec=dec,name=name,**k); s.ex.loops.append(sp); return sp
    def model(s,pat,h,desc=None):
        rx=re.compile(pat)
        def g(ex,st,name,args,I):
            if desc: ex.assumed.add(desc)
            return h(ex,st,name,args,I)
        s.ex.models.insert(0,(rx,g))
        s.ex.mcache.clear()
    def case(s,K,es):
        """a tautology (K is one of es, or none of them) that asks the prover to split a stuck obligation on it"""
        t=uf('case_%s_%s'%(K.a[0],"_".join(str(e.id) for e in es)),0,*es); s.ex.cases=dict(s.ex.cases); s.ex.cases[t.id]=(K,es); s.caseterms=getattr(s,'caseterms',[])+[t]; return t
    def call(s,fn,args,st=None,pick=None):
        if isinstance(fn,str): fn=s.fn(fn,pick)
        st=(st or s.st).fork()
        s.ex.push(st,fn,list(args),None)
        out=s.ex.run(st)
        return out
    def ends(s,out): return [y for k,y in out if k=='end']
    def cover(s,st,name="reach"):
        r=z3.Solver(); r.set("timeout",20000)
        for c in st.pcs(): r.add(z(c))
        q=r.check()
        if q==z3.sat: s.covers+=1; return True
        if q==z3.unknown: s.covers+=1; s.note("reachability of a path end left undecided by the solver"); return True     # only a proof of unreachability makes a path vacuous
        return False
    def post(s,st,name,f):
        s.ex.check(st,name,f,kind="post")
    def note(s,t): s.notes.append(t)
    def ints(s,st,ranges):
        """integer reading of a state's path condition (see vc/intx.py); ranges: {variable: (lo,hi)} as assumed on the words"""
        from intx import IntX
        return IntX(ranges,st.pcs())
    def ipost(s,X,name,f,cuts=()):
        """obligation decided in integer arithmetic; f: () -> z3 formula over X.signed/X.unsigned of terms; cuts: intermediate facts proved in turn"""
        for i,(n,g) in enumerate([("%s (cut %d)"%(name,i+1),c) for i,c in enumerate(cuts)]+[(name,f)]):
            o=Oblig(n,None,FALSE,0,"","post"); s.ex.obs.append(o); q0,t0=X.nq,X.tq; o.core='z3 (integers)'
            try:
                x=g(); r=None
                for seed in(0,7,21,77):
                    r=X.prove(x,seed=seed)
                    if r is not None: break
            except Unsupported as e: o.status='unknown'; o.name+=" -- "+str(e); continue
            o.status='valid' if r else ('failed' if r is False else 'unknown'); s.ex.nquery+=X.nq-q0; s.ex.tquery+=X.tq-t0; o.t=X.tq-t0
            if r is False: o.name+=" -- counterexample "+", ".join("%s=%s"%(k,X.last.eval(v,model_completion=True)) for k,v in sorted(X.vars.items()))
            if s.ex.v and not r: print("   ob",o.status,o.name)
            if r: X.facts.append(x)
    def int_lemma(s,name,f,*names):
        """a lemma of integer arithmetic (f: z3 integers -> z3 formula), discharged by z3's nonlinear integer arithmetic; instances of it are then assumed by the caller"""
        o=Oblig("integer lemma: "+name,None,FALSE,0,"","lemma"); s.ex.obs.append(o); q=z3.Solver(); q.set("timeout",60000); t=time.time(); q.add(z3.Not(f(*[z3.Int(n) for n in names]))); r=q.check(); o.t=time.time()-t
        o.status='valid' if r==z3.unsat else ('failed' if r==z3.sat else 'unknown'); o.core='z3 (integers)'; s.ex.nquery+=1; s.ex.tquery+=o.t
_mods={}
def compile_ir(tu,wd,irflags=None):
    out=os.path.join(wd,os.path.basename(tu)+".ll")
    p=subprocess.run([CXX]+BASE+(irflags or IRFLAGS)+["-c",os.path.join(VERIF,"tu",tu),"-o",out],capture_output=True,text=True,timeout=300)
    if p.returncode: raise Unsupported("harness TU does not compile: "+p.stderr[:1500])
    return out
class RootResult: pass
def run_root(args):
    pid,name,ll,verbose=args
    p=PROPS[pid]; r=[x for x in p.roots if x[0]==name][0]
    t0=time.time(); res=dict(root=name,obs=[],error=None,inlined=[],assumed=[],loops=[],nq=0,tq=0.0,covers=0,notes=[])
    ctx=None
    if os.environ.get("VT_TRACE"): import faulthandler; faulthandler.dump_traceback_later(float(os.environ["VT_TRACE"]),repeat=True)
    def alarm(*_): raise VCTimeout("budget exceeded outside the solver")
    signal.signal(signal.SIGALRM,alarm); signal.alarm(int(r[2])+60)
    try:
        mod=_mods.get(ll)
        if mod is None: mod=_mods[ll]=llir.Module(ll)
        ctx=Ctx(mod,verbose,r[2],r[4])
        sys.setrecursionlimit(20000)
        r[1](ctx)
        ctx.ex.discharge(ctx.ex.obs)
        if not ctx.ex.obs: raise Unsupported("no obligation was generated")
        if ctx.covers==0: raise Unsupported("vacuity: no path end of this root is reachable")
    except VCTimeout as e: res['error']="timeout: %s"%e
    except Unsupported as e: res['error']="outside the verifier's reach: %s"%e
    except Exception as e: res['error']="internal: "+traceback.format_exc()[-1500:]
    signal.alarm(0)
    if ctx is not None:
        ex=ctx.ex
        for o in ex.obs:
            d=dict(name=o.name,line=o.line,fn=o.fn,kind=o.kind,status=o.status or 'undischarged',t=round(o.t,2),backend=o.core)
            if o.status not in('trivial','valid'):
                try: d['formula']=show(o.f)[:1500]
                except Exception: pass
                if o.model is not None:
                    try: d['model']={str(k):str(o.model[k])[:200] for k in list(o.model.decls())[:60]}
                    except Exception: pass
            res['obs'].append(d)
        res['inlined']=sorted(x for x in ex.inlined if 'stdex::' in x); res['assumed']=sorted(ex.assumed); res['loops']=[list(map(str,l)) for l in ex.loop_log]
        res['nq']=ex.nquery; res['tq']=ex.tquery; res['covers']=ctx.covers; res['notes']=ctx.notes; res['paths']=ex.npaths
    res['wall']=time.time()-t0
    return res
def build_oracle(p,wd):
    out=os.path.join(wd,"oracle_"+p.id)
    cmd=[CXX]+BASE+["-O1","-g1","-fwrapv","-pthread","-I"+VERIF+"/oracle"]
    if p.san: cmd+=["-fsanitize="+p.san,"-fno-sanitize-recover=all","-fno-omit-frame-pointer"]
    cmd+=p.oracle_flags+[os.path.join(VERIF,"oracle",p.oracle),"-o",out]+["-lz","-lnuma"]+p.libs
    r=subprocess.run(cmd,capture_output=True,text=True,timeout=400)
    if r.returncode: return None,r.stderr[:3000]
    return out,None
def run_oracle(p,exe,seed,tier,wd):
    env=dict(os.environ); env["VERIF_SEED"]=str(seed); env["VERIF_TIER"]=tier; env["ORACLE_TIME"]=str(p.oracle_time[1 if tier=='thorough' else 0])
    env["ASAN_OPTIONS"]="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1"; env["UBSAN_OPTIONS"]="print_stacktrace=1"
    sd=os.path.join(wd,"scratch_"+p.id); os.makedirs(sd,exist_ok=True)
    env["TMPDIR"]=sd; env["ORACLE_DIR"]=sd
    to=p.oracle_time[1 if tier=='thorough' else 0]*4+60
    try: r=subprocess.run([exe],capture_output=True,text=True,errors='replace',timeout=to,env=env,cwd=sd)
    except subprocess.TimeoutExpired as e:
        so=e.stdout or b""; so=so.decode('utf-8','replace') if isinstance(so,bytes) else so
        return dict(rc=-1,out=so,err="",fails=["hang: the real code did not return within %d s; last case: %s"%(to,so.strip().split("\n")[-1][:300])],cases=0)
    fails=[l[5:] for l in r.stdout.split("\n") if l.startswith("FAIL ")]
    cases=0
    m=re.search(r'^CASES (\d+)',r.stdout,re.M)
    if m: cases=int(m[1])
    if r.returncode not in(0,1) and not fails: 
        last=[l for l in r.stdout.split("\n") if l.startswith("CASE ")]
        mm=re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|terminate called[^\n]*(\n[^\n]*)?)',r.stderr)
        fails=["key=crash the real code crashed (rc %d): %s %s"%(r.returncode,mm[1] if mm else r.stderr[-300:],last[-1] if last else "")]
    elif r.returncode!=0 and not fails: fails=["key=crash oracle exit %d %s"%(r.returncode,r.stderr[-500:])]
    return dict(rc=r.returncode,out=r.stdout[-4000:],err=r.stderr[-4000:],fails=fails,cases=cases)
def load_known():
    k=[]
    try:
        for l in open(os.path.join(VERIF,"known-findings.txt")):
            l=l.strip()
            m=re.match(r'^property=(\S+) key=(\S+) (.*)$',l)
            if m: k.append(m.groups())
    except FileNotFoundError: pass
    return k
def main(pid,tier,verbose=False,only=None,no_oracle=False):
    t0=time.time(); p=PROPS[pid]; seed=int(os.environ.get("VERIF_SEED","1") or 1)
    wd=tempfile.mkdtemp(prefix="vc_%s_"%pid)
    rd=os.path.join(VERIF,"evidence","replay"); os.makedirs(rd,exist_ok=True)
    try:
        roots=[r for r in p.roots if (tier=='thorough' or not r[3]) and (only is None or re.search(only,r[0]))]
        results=[]; err=None; orc=None; oexe=None; obad=None
        ot=None
        if p.oracle and not no_oracle:
            import threading
            ob={}
            def obody():
                ob['r']=build_oracle(p,wd)
                if ob['r'][0]: ob['run']=run_oracle(p,ob['r'][0],seed,tier,wd)
            ot=threading.Thread(target=obody); ot.start()
        if roots:
            try:
                ll=compile_ir(p.tu,wd,p.irflags)
                if verbose and only:
                    for r in roots: results.append(run_root((pid,r[0],ll,verbose)))
                else:
                    ctxm=mp.get_context("fork")
                    _mods[ll]=llir.Module(ll)
                    with ctxm.Pool(min(8,len(roots)),maxtasksperchild=1) as pool:
                        # time limits: 780 s in all, less once a violation is known (quick tier); what did not finish counts as undischarged
                        it=pool.imap_unordered(run_root,[(pid,r[0],ll,verbose) for r in roots],chunksize=1); todo={r[0]:i for i,r in enumerate(roots)}; order=dict(todo); bad=None; obn=None
                        while todo:
                            lim=780 if tier!='thorough' else 6*3600
                            if bad is not None: lim=min(lim,max(bad+90,300))
                            if obn is not None: lim=min(lim,max(obn+45,150))
                            left=lim-(time.time()-t0)
                            if left<=0: break
                            try: r=it.next(timeout=min(left,5))
                            except mp.TimeoutError: r=None
                            if r is not None:
                                todo.pop(r['root'],None); results.append(r)
                                if bad is None and (r['error'] or any(o['status'] not in('trivial','valid') for o in r['obs'])): bad=time.time()-t0
                            if obn is None and ot is not None and ob.get('run') and ob['run']['fails']: obn=time.time()-t0
                        for n in todo: results.append(dict(root=n,obs=[],error="timeout: not finished within %d s"%(time.time()-t0),inlined=[],assumed=[],loops=[],nq=0,tq=0.0,covers=0,notes=[],wall=0.0))
                        results.sort(key=lambda r: order[r['root']]); pool.terminate()
            except Unsupported as e: err=str(e)
        if ot is not None:
            ot.join(); oexe,obad=ob.get('r',(None,"oracle build crashed"))
            orc=ob.get('run')
            if oexe and orc is None: obad="replay harness crashed"
    finally:
        shutil.rmtree(wd,ignore_errors=True)
    known=load_known(); viol=[]; kf=[]
    nobs=ndis=0; by={}
    failed=[]
    if err: failed.append(dict(root="(extraction)",name=err,status="undischarged",kind="extract",fn="",line=0)); nobs+=1
    for r in results:
        for o in r['obs']:
            nobs+=1
            if o['status'] in('trivial','valid'):
                ndis+=1; b=o['backend'] or 'simplifier'; by[b]=by.get(b,0)+1
            else: failed.append(dict(o,root=r['root']))
        if r['error']:
            nobs+=1; failed.append(dict(root=r['root'],name=r['error'],status='undischarged',kind='reach',fn='',line=0))
    if obad: 
        nobs+=1; failed.append(dict(root="(replay harness)",name="replay harness does not build against the current tree: "+obad[:800],status='undischarged',kind='extract',fn='',line=0))
    ofails=[]
    if orc:
        for f in orc['fails']:
            m=re.match(r'key=(\S+)',f); key=m[1] if m else 'oracle'
            hit=[k for k in known if k[0]==pid and k[1]==key]
            if hit: kf.append(hit[0])
            else: ofails.append(f)
    f2=[]
    for o in failed:
        hit=[k for k in known if k[0]==pid and k[1]==re.sub(r'\s+','_',"%s:%s"%(o['root'],o['name']))]
        if hit: kf.append(hit[0])
        else: f2.append(o)
    failed=f2
    for k in sorted(set(kf)): print("KNOWN-FINDING: property=%s %s"%(pid,k[2]))
    rc=0
    rp=os.path.join(rd,"%s.txt"%pid)
    if failed or ofails:
        rc=1
        with open(rp,"w") as f:
            f.write("property %s\n"%pid)
            for o in failed:
                f.write("FAILED OBLIGATION root=%s name=%s status=%s function=%s line=%s\n"%(o['root'],o['name'],o['status'],o.get('fn'),o.get('line')))
                if 'formula' in o: f.write("   formula: %s\n"%o['formula'])
                if 'model' in o: f.write("   model: %s\n"%json.dumps(o['model'])[:3000])
            if orc:
                f.write("REPLAY ON THE REAL CODE (VERIF_SEED=%d, oracle %s): rc=%s\n"%(seed,p.oracle,orc['rc']))
                for x in orc['fails'][:20]: f.write("   failing input: %s\n"%x)
                f.write(orc['err'][-3000:]+"\n")
        for o in failed[:6]: print("failed obligation: %s: %s (%s, %s line %s)"%(o['root'],o['name'][:300],o['status'],o.get('fn','')[:80],o.get('line')))
        for x in ofails[:3]: print("failing input on the real code: %s"%x[:400])
        print("VIOLATION property=%s replay=%s%s"%(pid,rp,"" if ofails else " no-failing-input-found"))
    elif os.path.exists(rp): os.unlink(rp)
    fns=sorted(set(x for r in results for x in r['inlined']))
    ev=dict(property=pid,tier=tier,seed=seed,level="proof",wall_s=round(time.time()-t0,2),violations=len(failed)+len(ofails),
        assumptions=sorted(set(p.assume)|set(a for r in results for a in r['assumed'])),
        coverage=dict(obligations=nobs,discharged=ndis,checker_cmd="python3-vt /verif/run.py %s --tier %s"%(pid,tier),
            trusted_base=["clang 18 (%s LLVM IR of the current headers)"%(" ".join(p.irflags) if p.irflags else "-O1 -disable-llvm-passes"),"/verif/vc verification-condition generator (llir, exec, mem, terms)","z3 (python bindings), cvc5 1.1.2 on z3 timeouts","assumed contracts listed under assumptions"],
            functions_under_contract=fns,n_functions=len(fns),backends=by,solver_queries=sum(r['nq'] for r in results),solver_time_s=round(sum(r['tq'] for r in results),2),
            roots=[dict(root=r['root'],obligations=len(r['obs']),discharged=sum(o['status'] in('trivial','valid') for o in r['obs']),covers=r['covers'],paths=r.get('paths',0),wall=round(r['wall'],2),loops=len(r['loops']),notes=r['notes']) for r in results],
            bounded_not_proved=p.bounded+([dict(what="replay harness %s: %s"%(p.oracle,p.oracle_note or "seeded directed and random inputs against the real code under sanitizers"),cases=orc['cases'])] if orc else [])))
    with open(os.path.join(VERIF,"evidence",pid+".json"),"w") as f: json.dump(ev,f,indent=1)
    print("%s: %d/%d obligations discharged, %d functions, %d roots, oracle cases %s, %.1fs"%(pid,ndis,nobs,len(fns),len(results),orc['cases'] if orc else '-',time.time()-t0))
    if verbose:
        for r in results:
            print("  root %-40s obs %d wall %.1f err %s"%(r['root'],len(r['obs']),r['wall'],r['error']))
            for l in r['loops']: print("     loop",l)
    return rc
