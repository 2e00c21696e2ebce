import tempfile, os
r"""Verification-condition generator: path-wise symbolic execution of LLVM functions with contracts at calls and
inductive invariants at loop heads (cut points)."""
import re, time, sys, os
import z3
from terms import *
from mem import *
import llir
from llir import CInt,CNull,CUndef,CZero,CAgg,CFloat,GRef,FRef,CExpr,Arg,Inst

class Unsupported(Exception): pass
class VCTimeout(Exception): pass

_uid=[0]
class Frame:
    __slots__=("fn","env","blk","ip","prev","call","names","owner","cut","depth","heads")
    def copy(s,owner):
        f=Frame(); f.fn=s.fn; f.env=dict(s.env); f.blk=s.blk; f.ip=s.ip; f.prev=s.prev; f.call=s.call; f.names=dict(s.names); f.owner=owner; f.cut=dict(s.cut); f.depth=s.depth
        return f
class State:
    __slots__=("mem","frames","pc","exc","ghost","uid","freed","trace","writes","lentry")
    def fork(s):
        n=State(); n.mem=dict(s.mem); n.frames=list(s.frames); n.pc=s.pc; n.exc=s.exc; n.ghost=dict(s.ghost); n.freed=s.freed; n.trace=s.trace; n.writes=s.writes; n.lentry=s.lentry
        _uid[0]+=1; n.uid=_uid[0]; _uid[0]+=1; s.uid=_uid[0]
        return n
    def top(s):
        f=s.frames[-1]
        if f.owner!=s.uid: f=f.copy(s.uid); s.frames[-1]=f
        return f
    def assume(s,c):
        if isinstance(c,bool): c=boolc(c)
        if c is not TRUE: s.pc=(s.pc,c)
    def pcs(s):
        out=[]; p=s.pc
        while p is not None: out.append(p[1]); p=p[0]
        out.reverse(); return out

_symc={}
def _syms(t):
    """symbols of a term: variable names, ('f',name) for uninterpreted functions and array bases"""
    r=_symc.get(t.id)
    if r is not None: return r
    stack=[t]; 
    while stack:
        x=stack[-1]
        if x.id in _symc: stack.pop(); continue
        kids=[k for k in x.a if isinstance(k,T)] if x.op!='forall' else [x.a[1]]
        if x.op=='lin' or any(isinstance(k,tuple) for k in x.a): 
            for k in x.a:
                if isinstance(k,tuple):
                    st2=list(k)
                    while st2:
                        q=st2.pop()
                        if isinstance(q,T): kids.append(q)
                        elif isinstance(q,tuple): st2.extend(q)
        todo=[k for k in kids if k.id not in _symc]
        if todo: stack.extend(todo); continue
        fs=frozenset().union(*[_symc[k.id] for k in kids]) if kids else frozenset()
        if x.op=='v': fs=fs|{x.a[0]}
        elif x.op=='uf': fs=fs|{('f',x.a[0])}
        elif x.op=='sel': fs=fs|{('f',str(x.a[0]))}
        _symc[x.id]=fs; stack.pop()
    return _symc[t.id]
_nlc={}
def _nonlinear(t):
    """multiplications and divisions of two unknowns inside a term"""
    if t.id in _nlc: return _nlc[t.id]
    stack=[t]
    while stack:
        x=stack[-1]
        if x.id in _nlc: stack.pop(); continue
        kids=[]; todo_=[x.a]
        while todo_:
            q=todo_.pop()
            if isinstance(q,T): kids.append(q)
            elif isinstance(q,tuple): todo_.extend(q)
        todo=[k for k in kids if k.id not in _nlc]
        if todo: stack.extend(todo); continue
        fs=frozenset().union(*[_nlc[k.id] for k in kids]) if kids else frozenset()
        if x.op=='mul' or (x.op in('udiv','urem','sdiv','srem') and not isc(x.a[1])): fs=fs|{x}
        _nlc[x.id]=fs; stack.pop()
    return _nlc[t.id]
def abstract_nonlinear(pcs,f):
    """the nonlinear operations as uninterpreted functions of their operands (a weakening: valid here implies valid); None when there are none"""
    nl=set(_nonlinear(f))
    for c in pcs: nl|=_nonlinear(c)
    if not nl: return None
    mp={}; memo={}
    for t in sorted(nl,key=lambda t:t.id): mp[t]=uf('$%s%d'%(t.op,t.w),t.w,*[subst(k,mp,{}) for k in t.a])
    return [subst(c,mp,memo) for c in pcs],subst(f,mp,memo)
class Oblig:
    __slots__=("name","pc","f","line","fn","status","model","kind","t","core")
    def __init__(s,name,pc,f,line=0,fn="",kind="check"): s.name=name; s.pc=pc; s.f=f; s.line=line; s.fn=fn; s.status=None; s.model=None; s.kind=kind; s.t=0; s.core=None

def solve_eqs(pcs,f,cases):
    """eliminate variables introduced by havoc that an assumption defines (x = linear term); equivalence preserving for f not mentioning them otherwise"""
    if any('forall' in (c.op,) for c in pcs): return None
    pcs=list(pcs); cs={k:v for k,v in cases.items()}; did=False; keep={cs[c.id][0] for c in pcs if c.id in cs}
    for _ in range(40):
        pick=None
        for i,c in enumerate(pcs):
            if c.op!='eq' or c.a[0].w==0: continue
            w=c.a[0].w; k,d=lin(sub(c.a[0],c.a[1]))
            if len(d)>6 or any(t.op!='v' for t in d): continue
            vs=[t for t,q in d.items() if t.op=='v' and '!' in t.a[0] and q in(1,(1<<w)-1)]
            for t in sorted(vs,key=lambda t:-t.id):
                rest=mklin(k,{x:y for x,y in d.items() if x is not t},w)
                if t in keep or t.a[0] in _syms(rest): continue
                pick=(i,t,scale(rest,-1) if d[t]==1 else rest); break
            if pick: break
        if pick is None: break
        i,t,e=pick; mp={t:e}; memo={}; nm=t.a[0]; n2=[]
        for j,c in enumerate(pcs):
            if j==i: continue
            if nm in _syms(c):
                c2=subst(c,mp,memo)
                if c.id in cs: K,es=cs[c.id]; cs[c2.id]=(K,[subst(x,mp,memo) for x in es])
                c=c2
            if c is FALSE: return [FALSE],f,cs
            if c is not TRUE: n2.append(c)
        pcs=n2; f=subst(f,mp,memo); did=True
    return (pcs,f,cs) if did else None
class LoopSpec:
    def __init__(s,inv,roles=(),where=None,dec=None,name="loop",houdini=True,when=None,frame=None,assume=None):
        s.inv=inv; s.roles=list(roles); s.where=where; s.dec=dec; s.name=name; s.houdini=houdini; s.when=when; s.assume=assume

class View:
    """read-only access to a state for contracts"""
    def __init__(s,ex,st,entry=None): s.ex=ex; s.st=st; s.entry=entry
    def at(s,r,i): return s.ex.arr(s.st,r)[0].sel(lift(i,64))
    def arr(s,r): return s.ex.arr(s.st,r)[0]
    def len(s,r): return s.ex.arr(s.st,r)[1]
    def cell(s,r,off,size=8): return s.ex.cell(s.st,r,off,size)
    def g(s,name): return s.st.ghost[name]
    def load(s,p,size): return s.ex.load_raw(s.st,p,size)
    @property
    def exc(s): return s.st.exc

def natural_loops(fn):
    if getattr(fn,'_loops',None) is not None: return fn._loops
    B=fn.blocks; n=len(B)
    succ=[[] for _ in B]; pred=[[] for _ in B]
    for b in B:
        t=b.insts[-1]
        if t.op=='br': ss=t.x
        elif t.op=='switch': ss=[t.x[0]]+[d for _,d in t.x[1]]
        elif t.op=='invoke': ss=[t.x[1],t.x[2]]
        else: ss=[]
        for s in ss:
            if s.idx not in succ[b.idx]: succ[b.idx].append(s.idx); pred[s.idx].append(b.idx)
    # dominators (bitsets)
    full=(1<<n)-1; dom=[full]*n; dom[0]=1
    order=[]; seen={0}; st=[(0,iter(succ[0]))]
    while st:
        u,it=st[-1]
        for v in it:
            if v not in seen: seen.add(v); st.append((v,iter(succ[v]))); break
        else: order.append(u); st.pop()
    order.reverse(); fn._rpo={u:i for i,u in enumerate(order)}
    ch=True
    while ch:
        ch=False
        for u in order:
            if u==0: continue
            d=full
            for p in pred[u]:
                if p in seen: d&=dom[p]
            d|=1<<u
            if d!=dom[u]: dom[u]=d; ch=True
    loops={}
    for u in order:
        for v in succ[u]:
            if dom[u]>>v&1:
                body=loops.setdefault(v,{v}); stk=[u]
                while stk:
                    x=stk.pop()
                    if x not in body: body.add(x); stk.extend(p for p in pred[x] if p in seen)
    # Exception paths leave; also add blocks that can only reach ... (not needed)
    fn._loops=loops
    fn._looporder={h:i for i,h in enumerate(sorted(loops, key=lambda h: order.index(h)))}
    return loops

class Ex:
    def __init__(s,mod,models=None,timeout=20000,verbose=0,budget=600):
        s.m=mod; s.models=[]; s.mcache={}; s.obs=[]; s.fails=[]; s.timeout=timeout; s.v=verbose
        s.loops=[]; s.gregs={}; s.nquery=0; s.tquery=0; s.assumed=set(); s.inlined=set(); s.contracted=set()
        s.solver=None; s.sstack=[]; s.t0=time.time(); s.budget=budget; s.strong_budget=budget
        s.unroll={}; s.check_nsw=False; s.max_unroll=4000; s.feas_timeout=1500
        s.dead_paths=0; s.covers=[]; s.abs={}; s.abs_vt={}; s.loop_log=[]
        s.ghost_havoc={}; s.mute=0; s.role_cache={}
        s.max_paths=20000; s.npaths=0; s.interesting=[]; s.Wcache={}; s.decided={}
        s.throw_ok=True; s.root_inputs={}; s.memo_valid={}
        s.keep_unroll=False; s.alloca_ids=set(); s.read_ax={}; s.new_names={}
    # ---- solver ----------------------------------------------------------
    def _time(s):
        if time.time()-s.t0>s.budget: raise VCTimeout("budget %ds exceeded"%s.budget)
    def feasible(s,st,extra=None):
        s._time()
        pcs=st.pcs()
        if extra is not None:
            if extra is FALSE: return False
            if extra is not TRUE: pcs.append(extra)
        if not pcs: return True
        if s.solver is None:
            s.solver=z3.Solver(); s.solver.set("timeout",s.feas_timeout)
        k=0; ss=s.sstack
        while k<len(ss) and k<len(pcs) and ss[k] is pcs[k]: k+=1
        while len(ss)>k: s.solver.pop(); ss.pop()
        for c in pcs[k:]:
            s.solver.push(); s.solver.add(z(c)); ss.append(c)
        t=time.time(); r=s.solver.check(); s.nquery+=1; s.tquery+=time.time()-t
        if s.v>1 and time.time()-t>1: print("   slow feasible %.1f"%(time.time()-t),r,show(pcs[-1])[:200],flush=True)
        return r!=z3.unsat
    def valid(s,pcs,f,timeout=None,model=False):
        r"""is /\pcs => f valid?  -> (True|False|None, model)"""
        s._time()
        if f is TRUE: return True,None
        g=Not(f)
        # cone-of-influence slicing is left to the solver
        t=time.time()
        so=z3.Solver(); so.set("timeout",int(timeout or s.timeout))
        for c in pcs: so.add(z(c))
        so.add(z(g))
        r=so.check(); dt=time.time()-t; s.nquery+=1; s.tquery+=dt
        if r==z3.unsat: return True,None
        if r==z3.sat: return False,so.model()
        return None,None
    def valid_strong(s,pcs,f,timeout=None):
        key=(tuple(c.id for c in pcs),f.id)
        if key in s.memo_valid: return s.memo_valid[key]
        t=time.time(); r=s._valid_strong(pcs,f,timeout)
        if s.v>1 and time.time()-t>0.8: print("   slow %.1fs %s: %s"%(time.time()-t,r[0],show(f)[:300]),flush=True)
        s.memo_valid[key]=r
        return r
    def _valid_strong(s,pcs,f,timeout=None):
        t=time.time(); r=s._valid_strong0(pcs,f,timeout)
        d=os.environ.get("VT_DUMP")
        if d and (r[0] is not True and time.time()-t>5 or time.time()-t>10):
            sv=solve_eqs(pcs,f,s.cases)
            if sv: pcs,f,_=sv
            so=z3.Solver()
            for c in pcs: so.add(z(c))
            so.add(z(Not(f))); s.ndump=getattr(s,'ndump',0)+1
            open("%s/q%d.smt2"%(d,s.ndump),"w").write(so.to_smt2())
        return r
    def race(s,pcs,f,ms):
        """two cvc5 configurations side by side (bit-vectors as integers; bit-blasting); first definite answer"""
        s._time(); t=time.time()
        so=z3.Solver()
        for c in pcs: so.add(z(c))
        so.add(z(Not(f)))
        txt=so.to_smt2()
        if len(txt)>4000000: return None
        txt="(set-logic ALL)\n"+txt
        import subprocess
        ps=[]; res=None
        tf=tempfile.NamedTemporaryFile("w",suffix=".smt2",delete=False); tf.write(txt); tf.close()
        try:
            for opt in (["--solve-bv-as-int=sum"],[]):
                try: ps.append(subprocess.Popen(["cvc5","--lang=smt2","--tlimit=%d"%int(ms)]+opt+[tf.name],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,stdin=subprocess.DEVNULL))
                except FileNotFoundError: return None
            live=list(ps); end=time.time()+ms/1000+0.5
            fds={p.stdout.fileno():p for p in live}
            import select
            while fds and res is None and time.time()<end:
                rd,_,_=select.select(list(fds),[],[],max(0,end-time.time()))
                for fd in rd:
                    p=fds.pop(fd); out=p.stdout.read().decode().strip().split("\n")[0]
                    if out in("unsat","sat"): res=out; break
        finally:
            for p in ps:
                if p.poll() is None: p.kill()
                p.wait(); p.stdout.close()
            os.unlink(tf.name)
        s.tquery+=time.time()-t; s.nquery+=1
        return True if res=="unsat" else False if res=="sat" else None
    def _valid_strong0(s,pcs,f,timeout=None):
        to=timeout or s.timeout
        r,m=s.valid(pcs,f,min(700,to))
        if r is not None: return r,m,'z3'
        ab=abstract_nonlinear(pcs,f)
        if ab is not None:
            r,_=s.valid([c for c in ab[0] if c is not TRUE],ab[1],1500)
            if r is True: return True,None,'z3'
        r=s.race(pcs,f,min(3000,to))
        if r is not None: return r,None,'cvc5'
        if len(pcs)>6:
            sv=solve_eqs(pcs,f,s.cases)
            if sv is not None:
                pcs,f,s.cases=sv
                if f is TRUE or pcs==[FALSE]: return True,None,'simplify'
                r,m=s.valid(pcs,f,min(3000,to))
                if r is not None: return r,m,'z3'
            # sound weakening: a subset of the assumptions may already suffice
            fs=_syms(f); lv=[]
            if not any(isinstance(x,tuple) for x in fs): lv.append([c for c in pcs if not any(isinstance(x,tuple) for x in _syms(c))])
            lv.append([c for c in pcs if _syms(c)&fs])
            for sub in lv:
                if len(sub)<len(pcs):
                    r,m=s.valid(sub,f,4000)
                    if r: return True,None,'z3'
            fs=_syms(f)
            for c in sorted((c for c in pcs if c.id in s.cases),key=lambda c: s.cases[c.id][0].a[0] not in fs):
                cs=s.cases.get(c.id)
                K,es=cs; rest=[x for x in pcs if x is not c]; ok=True
                for e in es:
                    mp={K:e}; memo={}
                    p2=[subst(x,mp,memo) for x in rest]; f2=subst(f,mp,memo)
                    if any(x is FALSE for x in p2) or f2 is TRUE: continue
                    r,_,_=s.valid_strong([x for x in p2 if x is not TRUE],f2,to)
                    if r is not True: ok=False; break
                if ok:
                    r,_,_=s.valid_strong(rest+[ne(K,e) for e in es],f,to)
                    if r is True: return True,None,'z3-cases'
                break
            r,m=s.valid(pcs,f,min(4000,to))
            if r is not None: return r,m,'z3'
        s._time()
        # slice: keep only assumptions sharing symbols (transitively up to 2 hops)
        g=[z(c) for c in pcs]+[z(Not(f))]
        t=time.time()
        for tac in ('qfaufbv',):
            try:
                so=z3.TryFor(z3.Then('simplify','solve-eqs','elim-uncnstr','bv1-blast' if False else 'simplify','smt'),int(to)).solver() if tac=='x' else z3.SolverFor('QF_AUFBV')
                so.set("timeout",int(to))
                for x in g: so.add(x)
                r=so.check()
                if r==z3.unsat: s.tquery+=time.time()-t; s.nquery+=1; return True,None,'z3-qfaufbv'
                if r==z3.sat: s.tquery+=time.time()-t; s.nquery+=1; return False,so.model(),'z3-qfaufbv'
            except z3.Z3Exception: pass
        s.tquery+=time.time()-t
        # cvc5
        import subprocess,tempfile,os
        so=z3.Solver()
        for x in g: so.add(x)
        txt="(set-logic ALL)\n"+so.to_smt2()
        t=time.time()
        try:
            p=subprocess.run(["cvc5","--lang=smt2","--tlimit=%d"%int(to),"-"],input=txt,capture_output=True,text=True,timeout=to/1000+5)
            out=p.stdout.strip().split("\n")[0] if p.stdout.strip() else ""
        except (subprocess.TimeoutExpired,FileNotFoundError): out=""
        s.tquery+=time.time()-t; s.nquery+=1
        if out=="unsat": return True,None,'cvc5'
        if out=="sat": return False,None,'cvc5'
        return None,None,'timeout'
    # ---- obligations -----------------------------------------------------
    def check(s,st,name,f,kind="check"):
        if isinstance(f,bool): f=boolc(f)
        fr=st.frames[-1] if st.frames else None
        line=0; fn=""
        if fr is not None:
            fn=fr.fn.dem
            if fr.ip<len(fr.blk.insts): line=fr.blk.insts[fr.ip].line
        if f is TRUE:
            s.obs.append(Oblig(name,None,TRUE,line,fn,kind)); s.obs[-1].status='trivial'; return
        o=Oblig(name,st.pcs(),f,line,fn,kind); s.obs.append(o)
        st.assume(f)
    def discharge(s,obs,first=False,quiet=False):
        bad=[]
        for o in obs:
            if o.status in('trivial','valid'): continue
            if o.status is None:
                t=time.time()
                r,m,b=s.valid_strong(o.pc,o.f)
                o.t=time.time()-t
                o.status='valid' if r else ('failed' if r is False else 'unknown'); o.model=m; o.core=b
                if s.v and o.status!='valid' and (s.v>1 or not quiet): print("   ob",o.status,o.name,o.line,show(o.f)[:300],flush=True)
            if o.status!='valid':
                bad.append(o)
                if first: return bad
        return bad
    # ---- memory ----------------------------------------------------------
    def new_arr(s,st,name,esize,length,arr=None):
        r=Region(name,'arr',esize)
        st.mem[r.id]=(arr if arr is not None else SArr.fresh(name,8*esize),lift(length,64))
        return r
    def new_cells(s,st,name,size,kids=()):
        r=Region(name,'cells',1,size,kids); st.mem[r.id]={}
        return r
    def layout(s,st,ty,name,init=None,minarr=2,zero=False):
        """region for a typed object; scalars become cells (symbolic when init given as a naming prefix), arrays become kids"""
        if ty.k=='array' and ty.elem.k in('int','float') and ty.n>=minarr:
            r=s.new_arr(st,name,ty.elem.size,ty.n)
            if zero: st.mem[r.id]=(SArr.fn(lambda i,w=ty.elem.size*8: const(0,w),ty.elem.size*8),st.mem[r.id][1])
            return r
        cells={}; kids=[]
        def go(t,off,nm):
            if t.k=='array':
                if t.elem.k in('int','float') and t.n>=minarr:
                    k=s.new_arr(st,nm,t.elem.size,t.n)
                    if zero: st.mem[k.id]=(SArr.fn(lambda i,w=t.elem.size*8: const(0,w),t.elem.size*8),st.mem[k.id][1])
                    kids.append((off,off+t.size,k))
                else:
                    for i in range(t.n): go(t.elem,off+i*t.elem.size,"%s[%d]"%(nm,i))
            elif t.k=='struct':
                for i,(e,o) in enumerate(zip(t.elems or [],t.offs or [])): go(e,off+o,"%s.%d"%(nm,i))
            elif t.k=='ptr':
                if zero: cells[off]=(8,NULL)
            elif t.k in('int','float'):
                if zero: cells[off]=(t.size,const(0,t.size*8))
                elif init is not None: cells[off]=(t.size,var(fresh_name(nm),t.size*8))
        go(ty,0,name)
        r=Region(name,'cells',1,ty.size,kids); 
        for a,b,k in kids: k.parent=(r,a)
        st.mem[r.id]=cells
        return r
    def resolve(s,p):
        r=p.r; off=p.off
        while r is not None and r.kids:
            c,_=lin(off); 
            for a,b,k in r.kids:
                if a<=c<b: r=k; off=off-a; break
            else: break
        return r,off
    def arr(s,st,r):
        if isinstance(r,P): r,_=s.resolve(r)
        return st.mem[r.id]
    def cell(s,st,r,off,size=8):
        c=st.mem[r.id].get(off)
        if c and c[0]==size: return c[1]
        return s.load_cells(st,r,off,size)
    def wlog(s,st,loc):
        if st.writes is not None: st.writes.add(loc)
    def load_cells(s,st,r,off,size,ptr=False):
        cells=st.mem[r.id]
        c=cells.get(off)
        if c is not None and c[0]==size: return c[1]
        if r.size is not None and (off<0 or off+size>r.size): raise Unsupported("cell access out of object %s off %d size %d"%(r,off,size))
        # overlapping?
        ov=[(o,c) for o,c in cells.items() if o<off+size and off<o+c[0]]
        if not ov:
            if ptr: return None
            v=fresh("undef.%s+%d"%(r.name,off),8*size); d=dict(cells); d[off]=(size,v); st.mem[r.id]=d
            return v
        parts=[]; pos=off
        for o,(sz,v) in sorted(ov):
            if isinstance(v,(P,FP,AbsFn)): 
                raise Unsupported("partial pointer read %s+%d"%(r,off))
            if o>pos: parts.append(fresh("undef",8*(o-pos))); pos=o
            lo=pos-o; hi=min(o+sz,off+size)-o
            parts.append(extract(v,8*hi-1,8*lo)); pos=o+hi
        if pos<off+size: parts.append(fresh("undef",8*(off+size-pos)))
        return concat(*reversed(parts))
    def store_cells(s,st,r,off,size,v):
        if r.size is not None and (off<0 or off+size>r.size): raise Unsupported("cell store out of object %s off %d"%(r,off))
        cells=dict(st.mem[r.id])
        ov=[(o,c) for o,c in cells.items() if o<off+size and off<o+c[0] and not(o==off and c[0]==size)]
        for o,(sz,x) in ov:
            del cells[o]
            if isinstance(x,T):
                if o<off: cells[o]=(off-o,extract(x,8*(off-o)-1,0))
                if o+sz>off+size: cells[off+size]=(o+sz-off-size,extract(x,8*sz-1,8*(off+size-o)))
        cells[off]=(size,v); st.mem[r.id]=cells
        s.wlog(st,(r,off,size))
    def bounds(s,st,r,idx,n,what,ln=None):
        L=ln if ln is not None else st.mem[r.id][1]
        if n==1: f=ult(idx,L)
        else: f=And(ule(idx,L),ule(const(n,64),L-idx))
        s.check(st,"%s in bounds of %s"%(what,r.name),f,kind="bounds")
    def load(s,st,p,ty):
        if ty.k=='struct' or ty.k=='array':
            if ty.k=='struct': return [s.load(st,p.plus(o),e) for e,o in zip(ty.elems,ty.offs)]
            return [s.load(st,p.plus(i*ty.elem.size),ty.elem) for i in range(ty.n)]
        if ty.k=='vector': raise Unsupported("vector load")
        if not isinstance(p,P): raise Unsupported("load through %r"%(p,))
        if p.r is None:
            s.check(st,"null pointer read",FALSE,kind="bounds"); return s.fresh_of(ty,"nullread")
        r,off=s.resolve(p)
        if p.r.id in st.freed: s.check(st,"read of freed %s"%p.r.name,FALSE,kind="bounds")
        if r.kind=='custom': return r.info.load(s,st,r,off,ty)
        if r.kind=='absvt':
            if not isc(off): raise Unsupported("symbolic vtable slot")
            return AbsFn(r.info,val(off),s.slot_name(r.info,val(off)))
        sz=1 if (ty.k=='int' and ty.w==1) else ty.size
        if r.kind=='cells':
            if not isc(off): return s.load_sym(st,r,off,sz,ty)
            v=s.load_cells(st,r,val(off),sz,ptr=ty.k=='ptr')
            if ty.k=='ptr':
                if v is None:
                    v=P(Region("undefptr",'undef')); s.store_cells_nolog(st,r,val(off),8,v)
                if isinstance(v,T): v=s.inttoptr(v)
            elif isinstance(v,P): v=s.ptrtoint(v)
        else:
            v=s.load_arr(st,r,off,sz)
            if ty.k=='ptr': v=s.inttoptr(v)
        if ty.k=='int' and ty.w!=8*sz: v=extract(v,ty.w-1,0)
        if ty.k=='int' and ty.w==1: v=s.tobool(v)
        return v
    def store_cells_nolog(s,st,r,off,size,v):
        d=dict(st.mem[r.id]); d[off]=(size,v); st.mem[r.id]=d
    def load_sym(s,st,r,off,sz,ty):
        # symbolic offset inside a cell object: case split over cells of that size
        cells=sorted(o for o,c in st.mem[r.id].items() if c[0]==sz)
        if not cells: raise Unsupported("symbolic offset %s into %r"%(show(off),r))
        s.check(st,"indexed read inside %s"%r.name,Or(*[eq(off,const(o,64)) for o in cells]),kind="bounds")
        v=st.mem[r.id][cells[-1]][1]
        for o in cells[:-1]: v=Ite(eq(off,const(o,64)),st.mem[r.id][o][1],v)
        return v
    def load_raw(s,st,p,size):
        t=llir.Ty('int'); t.w=8*size; t.size=size
        return s.load(st,p,t)
    def load_arr(s,st,r,off,sz,chk=True):
        e=r.esize; A,L=st.mem[r.id]
        if sz>=e and sz%e==0:
            idx=exact_div(off,e)
            if idx is None: idx=s.divide(st,off,e,r)
            n=sz//e
            if chk: s.bounds(st,r,idx,n,"read")
            for ax in s.read_ax.get(r.id,()):
                for k in range(n):
                    c=ax(st,idx+k)
                    if c is not None: st.assume(c)
            if n==1: return A.sel(idx)
            return concat(*[A.sel(idx+k) for k in reversed(range(n))])
        # smaller than element
        c,_=lin(off); sub_=c%e; idx=exact_div(off-sub_,e)
        if idx is None: raise Unsupported("byte access at symbolic sub-offset of %r"%r)
        if sub_+sz>e: raise Unsupported("straddling access")
        if chk: s.bounds(st,r,idx,1,"read")
        return extract(A.sel(idx),8*(sub_+sz)-1,8*sub_)
    def divide(s,st,off,e,r):
        s.check(st,"aligned access to %s"%r.name,eq(urem(off,const(e,64)),const(0,64)),kind="bounds")
        return udiv(off,const(e,64))
    def store(s,st,p,v,ty):
        if ty.k=='struct':
            for x,e,o in zip(v,ty.elems,ty.offs): s.store(st,p.plus(o),x,e)
            return
        if ty.k=='array':
            for i,x in enumerate(v): s.store(st,p.plus(i*ty.elem.size),x,ty.elem)
            return
        if not isinstance(p,P): raise Unsupported("store through %r"%(p,))
        if p.r is None:
            s.check(st,"null pointer write",FALSE,kind="bounds"); return
        r,off=s.resolve(p)
        if p.r.id in st.freed: s.check(st,"write to freed %s"%p.r.name,FALSE,kind="bounds")
        if ty.k=='int' and ty.w==1: v=zext(v,8)
        sz=max(1,ty.size) if ty.k!='int' else (ty.w+7)//8 if ty.w<64 and ty.w not in(8,16,32) else ty.size
        if ty.k=='int' and v.w<8*sz: v=zext(v,8*sz)
        if r.kind=='custom': return r.info.store(s,st,r,off,v,ty)
        if r.kind=='cells':
            if not isc(off): return s.store_sym(st,r,off,sz,v)
            s.store_cells(st,r,val(off),sz,v)
        elif r.kind=='arr': 
            if isinstance(v,P): v=s.ptrtoint(v)
            s.store_arr(st,r,off,sz,v)
        else: raise Unsupported("store to %r"%r)
    def store_sym(s,st,r,off,sz,v):
        cells=sorted(o for o,c in st.mem[r.id].items() if c[0]==sz and isinstance(c[1],T))
        if not cells or not isinstance(v,T): raise Unsupported("symbolic offset store %s into %r"%(show(off),r))
        s.check(st,"indexed write inside %s"%r.name,Or(*[eq(off,const(o,64)) for o in cells]),kind="bounds")
        for o in cells:
            old=st.mem[r.id][o][1]
            s.store_cells(st,r,o,sz,Ite(eq(off,const(o,64)),v,old))
    def store_arr(s,st,r,off,sz,v):
        e=r.esize; A,L=st.mem[r.id]
        if r.info=='const': s.check(st,"write to constant %s"%r.name,FALSE,kind="bounds")
        if sz>=e and sz%e==0:
            idx=exact_div(off,e)
            if idx is None: idx=s.divide(st,off,e,r)
            n=sz//e
            s.bounds(st,r,idx,n,"write")
            for k in range(n): A=A.store(idx+k,extract(v,8*e*(k+1)-1,8*e*k))
        else:
            c,_=lin(off); sub_=c%e; idx=exact_div(off-sub_,e)
            if idx is None or sub_+sz>e: raise Unsupported("sub-element store")
            s.bounds(st,r,idx,1,"write")
            old=A.sel(idx); parts=[]
            if sub_+sz<e: parts.append(extract(old,8*e-1,8*(sub_+sz)))
            parts.append(v)
            if sub_: parts.append(extract(old,8*sub_-1,0))
            A=A.store(idx,concat(*parts))
        st.mem[r.id]=(A,L); s.wlog(st,(r,'arr'))
    def setarr(s,st,r,A,L=None):
        o=st.mem[r.id]
        st.mem[r.id]=(A,o[1] if L is None else lift(L,64)); s.wlog(st,(r,'arr'))
        if L is not None: s.wlog(st,(r,'len'))
    def setghost(s,st,name,v): st.ghost[name]=v; s.wlog(st,('ghost',name))
    def tobool(s,v):
        return ne(v,const(0,v.w)) if v.w!=1 else eq(v,const(1,1))
    def ptrtoint(s,p):
        if isinstance(p,(FP,AbsFn)): return var("&fn_"+str(p),64)
        if p.r is None: return p.off
        return var("&%s#%d"%(p.r.name,p.r.id),64)+p.off
    def inttoptr(s,v):
        if isc(v) and val(v)==0: return NULL
        c,d=lin(v); base=None
        for t,k in d.items():
            if t.op=='v' and t.a[0].startswith('&') and k==1:
                base=t
        if base is not None:
            rid=int(base.a[0].rsplit('#',1)[1])
            return P(s.region_by_id(rid),v-base)
        return P(None,v)
    def region_by_id(s,rid):
        return s._regs[rid]
    _regs={}
    def fresh_of(s,ty,name):
        if ty.k=='int': return fresh(name,0 if ty.w==1 else ty.w)
        if ty.k=='float': return fresh(name,ty.w)
        if ty.k=='ptr': return P(Region(name,'undef'))
        if ty.k=='struct': return [s.fresh_of(e,name) for e in ty.elems]
        if ty.k=='array': return [s.fresh_of(ty.elem,name) for _ in range(ty.n)]
        return None
    def slot_name(s,cls,off):
        vt=s.abs_vt[cls]
        init,_,_=s.m.init(vt)
        arr=init.elems[0] if isinstance(init,CAgg) and init.ty.k=='struct' else init
        e=arr.elems[2+off//8]
        return e.name if isinstance(e,FRef) else '?'
    # ---- globals ---------------------------------------------------------
    def gregion(s,st,name):
        r=s.gregs.get(name)
        if r is None:
            init,isconst,ty=s.m.init(name)
            r=Region("@"+name,'cells',1,ty.size); 
            rs={}
            if ty.k=='array' and ty.elem.k in('int',):
                r=Region("@"+name,'arr',ty.elem.size)
                if isinstance(init,CAgg) and isconst:
                    rs=(SArr.consts([x.v for x in init.elems],ty.elem.w),const(ty.n,64)); r.info='const'
                elif isinstance(init,CZero) and isconst: rs=(SArr.consts([0]*ty.n,ty.elem.w),const(ty.n,64)); r.info='const'
                else: rs=(SArr.fresh(r.name,ty.elem.w),const(ty.n,64))
                r.size=ty.size
            elif init is not None and isconst:
                kids=[]
                def go(v,t,off):
                    if t.k=='struct':
                        for i,(e,o) in enumerate(zip(t.elems,t.offs)): go(v.elems[i] if isinstance(v,CAgg) else (CZero(e) if isinstance(v,CZero) else CUndef(e)),e,off+o)
                    elif t.k=='array':
                        if t.elem.k=='int' and t.n>=2 and isinstance(v,CAgg):
                            k=Region("@%s+%d"%(name,off),'arr',t.elem.size); k.info='const'
                            s.ginit[k.id]=(SArr.consts([x.v for x in v.elems],t.elem.w),const(t.n,64)); kids.append((off,off+t.size,k))
                        else:
                            for i in range(t.n): go(v.elems[i] if isinstance(v,CAgg) else (CZero(t.elem) if isinstance(v,CZero) else CUndef(t.elem)),t.elem,off+i*t.elem.size)
                    elif t.k=='int': rs[off]=(t.size,const(v.v if isinstance(v,CInt) else 0,8*t.size))
                    elif t.k=='ptr': rs[off]=(8,s.constval(st,v))
                    elif t.k=='float': rs[off]=(t.size,fresh("fconst",t.w))
                s.gregs[name]=r
                go(init,ty,0); r.kids=kids; r.info='const'
            s.gregs[name]=r; s.ginit[r.id]=rs
        for rr in [r]+[k for _,_,k in r.kids]:
            if rr.id not in st.mem: st.mem[rr.id]=s.ginit[rr.id]
        return r
    ginit={}
    def constval(s,st,v):
        if isinstance(v,CInt): return const(v.v,v.w) if v.w!=1 else boolc(v.v)
        if isinstance(v,CNull): return NULL
        if isinstance(v,GRef): return P(s.gregion(st,v.name))
        if isinstance(v,FRef): return FP(v.name)
        if isinstance(v,CUndef): return s.fresh_of(v.ty,"undef")
        if isinstance(v,CZero):
            t=v.ty
            if t.k=='struct': return [s.constval(st,CZero(e)) for e in t.elems]
            if t.k=='array': return [s.constval(st,CZero(t.elem)) for _ in range(t.n)]
            if t.k=='ptr': return NULL
            return const(0,t.w)
        if isinstance(v,CAgg): return [s.constval(st,e) for e in v.elems]
        if isinstance(v,CFloat):
            import struct
            b=struct.pack('<d' if v.k==64 else '<f',v.v) if v.k in(32,64) else b'\0'*16
            return const(int.from_bytes(b,'little'),v.k if v.k in(32,64) else 128)
        if isinstance(v,CExpr):
            if v.op=='getelementptr':
                b=s.constval(st,v.ops[0]); return s.gep(b,v.src,[s.constval(st,o) for o in v.ops[1:]])
            if v.op in('bitcast','addrspacecast'): return s.constval(st,v.ops[0])
            if v.op=='ptrtoint': return s.ptrtoint(s.constval(st,v.ops[0]))
            if v.op=='inttoptr': return s.inttoptr(s.constval(st,v.ops[0]))
            if v.op in('add','sub'):
                a,b=[s.constval(st,o) for o in v.ops]; return a+b if v.op=='add' else a-b
        raise Unsupported("constant %r"%(v,))
    def gep(s,b,src,idx):
        if not isinstance(b,P): raise Unsupported("gep on %r"%(b,))
        off=b.off; t=src; first=True
        for i in idx:
            i64=resize(i,64,True) if i.w else i
            if first: off=off+scale(i64,t.size); first=False
            elif t.k=='struct':
                k=val(i); off=off+t.offs[k]; t=t.elems[k]
            elif t.k in('array','vector'):
                if b.r is not None and b.r.kids and isc(off):
                    for a_,b_,k_ in b.r.kids:
                        if a_==val(off): b=P(k_); off=const(0,64); break
                t=t.elem; off=off+scale(i64,t.size)
            else: raise Unsupported("gep type")
        return P(b.r,off)
    # ---- evaluation ------------------------------------------------------
    def ev(s,st,v):
        if isinstance(v,(Inst,Arg)):
            f=st.frames[-1]
            try: return f.env[v]
            except KeyError: raise Unsupported("value %s undefined in %s"%(v.name,f.fn.dem))
        return s.constval(st,v)
    # ---- calls -----------------------------------------------------------
    def model(s,name):
        if name in s.mcache: return s.mcache[name]
        f=s.m.funcs.get(name); dem=f.dem if f else name
        r=None
        for pat,h in s.models:
            if pat.match(dem) or pat.match(name): r=h; break
        s.mcache[name]=r
        return r
    def push(s,st,fn,args,call):
        if len(st.frames)>60: raise Unsupported("call depth")
        f=Frame(); f.fn=fn; f.env={}; f.blk=fn.blocks[0]; f.ip=0; f.prev=None; f.call=call; f.names={}; f.owner=st.uid; f.cut={}; f.depth=len(st.frames)
        for a,v in zip(fn.args,args): f.env[a]=v
        st.frames.append(f)
        s.inlined.add(fn.dem)
    def do_ret(s,st,v):
        """return v from the top frame"""
        f=st.frames.pop()
        call=f.call
        if not st.frames: return 'end'
        t=st.top()
        if call is not None and call.ty.k!='void': t.env[call]=v
        if call is not None and call.op=='invoke': s.goto(st,call.x[1])
        elif call is not None: t.ip+=1
        return None
    def goto(s,st,blk):
        t=st.top(); t.prev=t.blk; t.blk=blk; t.ip=0
        # phis
        if blk.insts and blk.insts[0].op=='phi':
            vals=[]
            for I in blk.insts:
                if I.op!='phi': break
                for v,b in I.ops:
                    if b is t.prev: vals.append((I,s.ev(st,v))); break
                else: raise Unsupported("phi")
            for I,v in vals: t.env[I]=v; t.ip+=1
    def throw(s,st,exc):
        """exc=(typeinfo name, payload) ; unwind from the current instruction of the top frame"""
        st.exc=exc
        while st.frames:
            t=st.frames[-1]
            I=t.blk.insts[t.ip]
            if I.op=='invoke':
                lp=I.x[2]; 
                t=st.top(); s.goto(st,lp); return None
            if len(st.frames)==1: st.frames.pop(); return 'throw'
            st.frames.pop()
        return 'throw'
    def exc_bases(s,ti):
        out=[ti]; seen={ti}
        k=0
        while k<len(out):
            n=out[k]; k+=1
            if n in s.m.globals:
                try: init,_,_=s.m.init(n)
                except Exception: init=None
                if isinstance(init,CAgg):
                    for e in init.elems[2:]:
                        if isinstance(e,GRef) and e.name not in seen: seen.add(e.name); out.append(e.name)
            for b in STD_BASES.get(n,()):
                if b not in seen: seen.add(b); out.append(b)
        return out
    # ---- stepping --------------------------------------------------------
    def run(s,st,stop=None):
        """explore from st; returns list of (kind,state): kind in end/throw/<stop label>"""
        work=[st]; out=[]
        if s.merge: return s.run_merging(work,stop,out)
        while work:
            st=work.pop()
            while True:
                r=s.step(st,work,stop,out)
                if r: break
        return out
    # ---- state merging: states that meet at the same program point become one (values guarded by the branch condition)
    merge=False; nmerged=0; merge_only=None; lifetime_hook=None; lifetimes=False
    def run_merging(s,work,stop,out):
        while work:
            best=min(range(len(work)),key=lambda i: (s.order(work[i]),i)); sig=s.signature(work[best])
            grp=[x for x in work if s.signature(x)==sig]; work[:]=[x for x in work if not any(x is y for y in grp)]
            if len(grp)>1: grp=s.merge_group(grp)
            st=grp.pop(0); work.extend(grp)
            f=st.frames[-1]
            if 'pending' in f.cut:
                p=f.cut['pending']; f=st.top(); del f.cut['pending']
                if f.blk.idx==p: s.enter_loop(st,f.blk,work,stop,out); continue
            while True:
                op=st.frames[-1].blk.insts[st.frames[-1].ip].op
                r=s.step(st,work,stop,out)
                if r: break
                if op in('br','switch','ret','invoke') and work: work.append(st); break
        return s.merge_out(out)
    def merge_group(s,grp):
        """merge states at one program point pairwise, most recently separated first"""
        bad=set()
        if s.merge_only is not None and not s.merge_only(grp[0]): return grp
        while len(grp)>1:
            best=None
            ch=[s.chain(x) for x in grp]
            for i in range(len(grp)):
                for j in range(i+1,len(grp)):
                    if (grp[i].uid,grp[j].uid) in bad: continue
                    n=0
                    for p,q in zip(ch[i],ch[j]):
                        if p is not q: break
                        n+=1
                    if best is None or n>best[0]: best=(n,i,j)
            if best is None: break
            _,i,j=best; m=s.merge2(grp[i],grp[j])
            if m is None: bad.add((grp[i].uid,grp[j].uid)); continue
            grp[i]=m; del grp[j]; s.nmerged+=1
        return grp
    @staticmethod
    def chain(st):
        out=[]; p=st.pc
        while p is not None: out.append(p); p=p[0]
        out.reverse(); return out
    def merge_out(s,out):
        groups={}
        for k,x in out: groups.setdefault((k,s.signature(x)),[]).append(x)
        return [(k,x) for (k,_),g in groups.items() for x in (s.merge_group(g) if len(g)>1 else g)]
    def order(s,st):
        k=[]
        for f in st.frames:
            natural_loops(f.fn); k.append((f.fn._rpo.get(f.blk.idx,1<<20),f.ip))
        k.append((1<<30,0)); return tuple(k)
    @staticmethod
    def signature(st): return tuple((id(f.fn),f.blk.idx,f.ip,id(f.call),tuple(sorted((k,id(v) if not isinstance(v,int) else v) for k,v in f.cut.items()))) for f in st.frames)
    def live_across(s,fn):
        """instructions whose value is used outside their own block"""
        r=getattr(fn,'_xblk',None)
        if r is None:
            r=set(); where={I:b.idx for b in fn.blocks for I in b.insts}
            for b in fn.blocks:
                for I in b.insts:
                    ops=[o[0] for o in I.ops] if I.op=='phi' else I.ops
                    for o in ops:
                        if o in where and (where[o]!=b.idx or I.op=='phi'): r.add(o)
            fn._xblk=r
        return r
    def merge_val(s,g,a,b):
        """None when the values cannot be merged"""
        if a is b: return a
        if isinstance(a,T) and isinstance(b,T) and a.w==b.w: return Ite(g,a,b)
        if isinstance(a,P) and isinstance(b,P):
            if a.r is b.r: return a if a.off is b.off else P(a.r,Ite(g,a.off,b.off))
            return None
        if isinstance(a,SArr) and isinstance(b,SArr) and a.ew==b.ew: return SArr('ite',a.ew,None,(g,a,b))
        if isinstance(a,FP) and isinstance(b,FP) and a.name==b.name: return a
        try: return a if a==b else None
        except Exception: return None
    def merge2(s,a,b):
        if a.exc is not b.exc and a.exc!=b.exc: return None
        if a.freed!=b.freed or a.trace is not b.trace or a.writes is not b.writes or a.lentry is not b.lentry: return None
        nodes={}; p=a.pc
        while p is not None: nodes[id(p)]=p; p=p[0]
        r2=[]; p=b.pc
        while p is not None and id(p) not in nodes: r2.append(p[1]); p=p[0]
        base=p; r1=[]; p=a.pc
        while p is not base: r1.append(p[1]); p=p[0]
        r1.reverse(); r2.reverse()
        if r1 and r2 and (r2[0] is Not(r1[0]) or r1[0] is Not(r2[0])): g=r1.pop(0); r2.pop(0)
        else: g=fresh('path',0)       # the two states as a nondeterministic choice
        if any(c.op=='forall' for c in r1+r2): return None
        al=s.alloca_ids; ng=Not(g)
        for i in a.mem.keys()^b.mem.keys():
            if i not in al: return None
        if a.ghost.keys()!=b.ghost.keys(): return None
        gh={}
        for k,v in a.ghost.items():
            x=s.merge_val(g,v,b.ghost[k])
            if x is None and v is not None: return None
            gh[k]=x
        mem={}
        for i,v in a.mem.items():
            if i not in b.mem: continue
            w=b.mem[i]
            if v is w: mem[i]=v
            elif isinstance(v,tuple):
                A=s.merge_val(g,v[0],w[0]); L=s.merge_val(g,v[1],w[1])
                if A is None or L is None: return None
                mem[i]=(A,L)
            else:
                d={}
                for o in v.keys()|w.keys():
                    x,y=v.get(o),w.get(o)
                    if x is y: d[o]=x; continue
                    if x is None or y is None:
                        other=w if x is None else v; c=x or y
                        if any(o2<o+c[0] and o<o2+c2[0] for o2,c2 in other.items()): return None
                        if isinstance(c[1],T):
                            u=fresh("undef",c[1].w) if c[1].w else None
                            if u is None: return None
                            d[o]=(c[0],Ite(g,c[1],u) if y is None else Ite(g,u,c[1]))
                        elif i not in al: return None
                        continue
                    if x[0]!=y[0]: return None
                    m=s.merge_val(g,x[1],y[1])
                    if m is None: return None
                    d[o]=(x[0],m)
                mem[i]=d
        frames=[]
        n=a.fork()
        for k,(f,h) in enumerate(zip(a.frames,b.frames)):
            if f is h: frames.append(f); continue
            q=f.copy(n.uid); xb=s.live_across(f.fn); env={}
            nph=0
            while nph<f.ip and f.blk.insts[nph].op=='phi': nph+=1
            here=set(f.blk.insts[:f.ip])
            for I,v in f.env.items():
                if I not in h.env: continue
                m=s.merge_val(g,v,h.env[I])
                if m is None and v is not None:
                    if I in xb or I in here: return None
                    continue
                env[I]=m
            q.env=env; frames.append(q)
        for k in range(len(frames)):
            if frames[k].owner!=n.uid and frames[k] is not a.frames[k]: frames[k].owner=n.uid
        n.mem=mem; n.ghost=gh; n.frames=frames; n.pc=base
        s2={c.id for c in r2}; both={c.id for c in r1}&s2
        for c in r1: n.assume(c if c.id in both else Implies(g,c))
        for c in r2:
            if c.id not in both: n.assume(Implies(ng,c))
        return n
    def step(s,st,work,stop,out):
        t=st.top(); I=t.blk.insts[t.ip]; op=I.op; env=t.env
        h=getattr(s,'i_'+op,None)
        if h is None: raise Unsupported("instruction %s in %s"%(op,t.fn.dem))
        return h(st,t,I,work,stop,out)
    def branch_to(s,st,blk,work,stop,out):
        """control transfer inside the top frame; handles loop heads & stop conditions. returns True if st consumed"""
        t=st.top(); src=t.blk
        loops=natural_loops(t.fn)
        # leaving cut loops
        d=len(st.frames)-1
        if stop is not None and stop.depth==d:
            if blk.idx==stop.head: 
                s.goto(st,blk); out.append(('back',st)); return True
            if blk.idx not in stop.body:
                s.goto(st,blk); 
                if blk.idx in loops: t=st.top(); t.cut['pending']=blk.idx
                out.append(('exit',st)); return True
        s.goto(st,blk)
        if blk.idx in loops:
            if s.merge: st.top().cut['pending']=blk.idx; work.append(st); return True
            s.enter_loop(st,blk,work,stop,out); return True
        return False
    def enter_loop(s,st,blk,work,stop,out):
        ex=s.handle_loop(st,blk)
        for k,x in ex:
            if k=='exit': s.resume(x,work,stop,out)
            else: out.append((k,x))
    def resume(s,x,work,stop,out):
        """x left an inner region; check outer stop conditions, pending loop entries"""
        if x.frames and 'inv' in x.frames[-1].cut:
            d=len(x.frames)-1
            if stop is not None and d<stop.depth: out.append(('exit',x)); return
            t=x.top(); c=t.cut.pop('inv')
            if not s.branch_to(x,c.x[1],work,stop,out): work.append(x)
            return
        if stop is not None:
            d=len(x.frames)-1
            if d<stop.depth: out.append(('exit',x)); return
            if d==stop.depth:
                f=x.frames[-1]
                if f.ip==0 or all(i.op=='phi' for i in f.blk.insts[:f.ip]):
                    b=f.blk
                    if f.cut.get('pending')==b.idx or True:
                        if b.idx==stop.head and f.prev is not None and f.prev.idx in stop.body and f.cut.get('entered')!=b.idx: out.append(('back',x)); return
                        if b.idx not in stop.body: out.append(('exit',x)); return
        f=x.frames[-1] if x.frames else None
        if f is not None and 'pending' in f.cut and not s.merge:
            p=f.cut['pending']; f=x.top(); del f.cut['pending']
            if f.blk.idx==p: s.enter_loop(x,f.blk,work,stop,out); return
        work.append(x)
    def frame_popped(s,st,stop,out):
        if stop is not None and len(st.frames)-1<stop.depth: out.append(('exit',st)); return True
        return False
    # terminators
    def i_br(s,st,t,I,work,stop,out):
        if not I.ops: return s.branch_to(st,I.x[0],work,stop,out)
        c=s.ev(st,I.ops[0])
        if c is TRUE: return s.branch_to(st,I.x[0],work,stop,out)
        if c is FALSE: return s.branch_to(st,I.x[1],work,stop,out)
        a=s.feasible(st,c); b=s.feasible(st,Not(c)) if a else True
        if a and b:
            s.npaths+=1
            if s.npaths>s.max_paths: raise Unsupported("too many paths")
            n=st.fork(); n.assume(Not(c)); st.assume(c)
            if not s.branch_to(n,I.x[1],work,stop,out): work.append(n)
            return s.branch_to(st,I.x[0],work,stop,out)
        if a: st.assume(c); return s.branch_to(st,I.x[0],work,stop,out)
        st.assume(Not(c)); return s.branch_to(st,I.x[1],work,stop,out)
    def i_switch(s,st,t,I,work,stop,out):
        c=s.ev(st,I.ops[0]); dflt,cases=I.x
        if c.w==0: c=zext(c,8)
        rest=[]
        for v,b in cases:
            e=eq(c,const(v.v,c.w))
            if e is TRUE: return s.branch_to(st,b,work,stop,out)
            if e is FALSE: continue
            rest.append((e,b))
        # group by target
        tg={}
        for e,b in rest: tg.setdefault(b.idx,[b,[]])[1].append(e)
        neg=And(*[Not(e) for e,_ in rest])
        opts=[(Or(*es),b) for b,es in tg.values()]+[(neg,dflt)]
        opts=[(c2,b) for c2,b in opts if s.feasible(st,c2)]
        if not opts: s.dead_paths+=1; return True
        states=[st]+[None]*(len(opts)-1)
        for k in range(1,len(opts)): states[k]=st.fork(); s.npaths+=1
        for x,(c2,b) in zip(states,opts):
            x.assume(c2)
            if not s.branch_to(x,b,work,stop,out): work.append(x)
        return True
    def i_ret(s,st,t,I,work,stop,out):
        v=s.ev(st,I.ops[0]) if I.ops else None
        if len(st.frames)==1:
            st.ghost['ret']=v; st.frames=[]; out.append(('end',st)); return True
        call=t.call
        s.do_ret_raw(st,v)
        if call.op=='invoke' and stop is not None and len(st.frames)-1<stop.depth: st.top().cut['inv']=call
        if s.frame_popped(st,stop,out): return True
        if call.op=='invoke': return s.branch_to(st,call.x[1],work,stop,out)
        return False
    def do_ret_raw(s,st,v):
        f=st.frames.pop(); call=f.call; t=st.top()
        if call.ty.k!='void': t.env[call]=v
        if call.op=='invoke': 
            pass
        else: t.ip+=1
        return call
    def i_unreachable(s,st,t,I,work,stop,out):
        # after a noreturn call the path is already ended by the call's model; reaching this is UB
        s.check(st,"unreachable code reached (e.g. function end without return)",FALSE,kind="bounds"); return True
    def i_resume(s,st,t,I,work,stop,out):
        st.frames.pop()
        if not st.frames: out.append(('throw',st)); return True
        if stop is not None and len(st.frames)-1<stop.depth:
            # unwinding out of the loop's frame: finish the unwinding, then hand over
            r=s.throw(st,st.exc)
            if r=='throw': out.append(('throw',st)); return True
            out.append(('exit',st)); return True
        return s.unwind(st,stop,out)
    def unwind(s,st,stop,out,work=None):
        r=s.throw(st,st.exc)
        if r=='throw': out.append(('throw',st)); return True
        if stop is not None:
            d=len(st.frames)-1
            if d<stop.depth or (d==stop.depth and st.frames[-1].blk.idx not in stop.body): out.append(('exit',st)); return True
        return False
    def i_landingpad(s,st,t,I,work,stop,out):
        ti=st.exc[0]; sel_=0
        bases=s.exc_bases(ti)
        for c in I.ops:
            if isinstance(c,CNull): sel_=s.typeid(None); break
            if isinstance(c,GRef) and (c.name in bases): sel_=s.typeid(c.name); break
            if isinstance(c,(CAgg,CZero)): continue
        else:
            if not I.x:
                # no match, no cleanup: keep unwinding
                st.frames.pop()
                if not st.frames: out.append(('throw',st)); return True
                if stop is not None and len(st.frames)-1<stop.depth:
                    r=s.throw(st,st.exc); out.append(('throw' if r=='throw' else 'exit',st)); return True
                return s.unwind(st,stop,out)
        t.env[I]=[st.exc[1] if isinstance(st.exc[1],P) else P(Region("exc",'undef')),const(sel_,32)]; t.ip+=1
        return False
    def typeid(s,n):
        if n is None: return 1
        h=s.tids.setdefault(n,len(s.tids)+2); return h
    tids={}
    # data
    def _set(s,t,I,v): t.env[I]=v; t.ip+=1; return False
    def i_alloca(s,st,t,I,work,stop,out):
        ty=I.x; n=s.ev(st,I.ops[0])
        if not(isc(n) and val(n)==1): raise Unsupported("dynamic alloca")
        r=s.layout(st,ty,I.name or "tmp")
        Ex._regs[r.id]=r; s.alloca_ids.add(r.id); s.alloca_ids.update(k.id for _,_,k in r.kids)
        t.names[I.name]=r
        return s._set(t,I,P(r))
    def i_load(s,st,t,I,work,stop,out): 
        v=s.load(st,s.ev(st,I.ops[0]),I.ty); return s._set(t,I,v)
    def i_store(s,st,t,I,work,stop,out):
        s.store(st,s.ev(st,I.ops[1]),s.ev(st,I.ops[0]),I.x); t.ip+=1; return False
    def i_getelementptr(s,st,t,I,work,stop,out):
        b=s.ev(st,I.ops[0]); return s._set(t,I,s.gep(b,I.x,[s.ev(st,o) for o in I.ops[1:]]))
    def _bin(f):
        def g(s,st,t,I,work,stop,out):
            a,b=s.ev(st,I.ops[0]),s.ev(st,I.ops[1])
            return s._set(t,I,f(s,st,I,a,b))
        return g
    def _nsw(s,st,I,a,b,r,f):
        if s.check_nsw and I.x[0]:
            w=a.w; wide=f(sext(a,2*w),sext(b,2*w))
            s.check(st,"no signed overflow (%s)"%I.op,eq(wide,sext(r,2*w)),kind="overflow")
        return r
    i_add=_bin(lambda s,st,I,a,b: Not(Iff(a,b)) if a.w==0 else s._nsw(st,I,a,b,a+b,add))
    i_sub=_bin(lambda s,st,I,a,b: s._nsw(st,I,a,b,a-b,sub))
    i_mul=_bin(lambda s,st,I,a,b: s._nsw(st,I,a,b,mul(a,b),mul))
    def _div(s,st,I,a,b):
        s.check(st,"no division by zero",ne(b,const(0,b.w)),kind="div")
        if I.op in('sdiv','srem') : s.check(st,"no division overflow",Not(And(eq(a,const(1<<(a.w-1),a.w)),eq(b,const(-1,b.w)))),kind="div")
        if I.op=='sdiv' and isc(b) and (I.x or True):
            q=exact_div(a,sval(b)) if (I.x and sval(b)) else None
            if q is not None: return q
        if I.op=='udiv' and I.x and isc(b):
            q=exact_div(a,val(b))
            if q is not None: return q
        if I.op in('urem','udiv') and not isc(b) and getattr(s,'divfacts',None) is not None:
            return s.divmod(st,a,b)[I.op=='urem']
        if I.op in('urem','udiv') and not isc(b) and not(isc(a)) and a.w>=32:
            if s.quick_valid(st.pcs(),Or(ult(a,b),ult(a-b,b))):
                return Ite(ult(a,b),a,a-b) if I.op=='urem' else Ite(ult(a,b),const(0,a.w),const(1,a.w))
        return {'udiv':udiv,'sdiv':sdiv,'urem':urem,'srem':srem}[I.op](a,b)
    def divmod(s,st,a,b):
        """quotient and remainder by an unknown divisor as uninterpreted words, related by the facts of Euclidean division (all true of every a, b!=0; see int_lemma division)"""
        M=s.divfacts
        if not any(x is a and y is b for x,y,_,_ in M): M.append((a,b,fresh("quo",a.w),fresh("rem",a.w)))
        a,b,q,r=[e for e in M if e[0] is a and e[1] is b][0]
        st.assume(And(ult(r,b),ule(r,a),Iff(eq(q,const(0,q.w)),ult(a,b))))
        for x,y,q2,r2 in M:
            if y is b and x is not a:
                for(a1,q1,r1),(a2,qq,rr) in(((a,q,r),(x,q2,r2)),((x,q2,r2),(a,q,r))): st.assume(Implies(ult(q1,qq),And(ule(b,a2-rr),ule(a1-r1,a2-rr-b))))
                st.assume(And(Implies(eq(q,q2),eq(a-r,x-r2)),Implies(ule(a,x),ule(q,q2)),Implies(ule(x,a),ule(q2,q))))
        return q,r
    i_udiv=_bin(lambda s,st,I,a,b: s._div(st,I,a,b)); i_sdiv=i_udiv; i_urem=i_udiv; i_srem=i_udiv
    def _sh(s,st,I,a,b):
        s.check(st,"shift amount below width",ult(b,const(a.w,b.w)),kind="shift")
        return {'shl':shl,'lshr':lshr,'ashr':ashr}[I.op](a,b)
    i_shl=_bin(lambda s,st,I,a,b: s._sh(st,I,a,b)); i_lshr=i_shl; i_ashr=i_shl
    i_and=_bin(lambda s,st,I,a,b: bvand(a,b)); i_or=_bin(lambda s,st,I,a,b: bvor(a,b)); i_xor=_bin(lambda s,st,I,a,b: bvxor(a,b))
    def i_icmp(s,st,t,I,work,stop,out):
        a,b=s.ev(st,I.ops[0]),s.ev(st,I.ops[1]); return s._set(t,I,s.icmp(st,I.x[0],a,b))
    def icmp(s,st,pr,a,b):
        if not isinstance(a,T) or not isinstance(b,T):
            if isinstance(a,(FP,AbsFn)) or isinstance(b,(FP,AbsFn)):
                same=isinstance(a,FP) and isinstance(b,FP) and a.name==b.name
                return boolc(same if pr=='eq' else not same)
            if isinstance(a,T): a=s.inttoptr(a)
            if isinstance(b,T): b=s.inttoptr(b)
            if a.r is b.r: a,b=a.off,b.off
            else:
                for x,y in((a,b),(b,a)):
                    if x.r is not None and x.r.kind=='maybe': # nullable abstract pointer
                        if y.r is None and isc(y.off): 
                            e=x.r.info; return e if pr=='eq' else Not(e)
                    if x.r is not None and x.r.kind=='custom' and y.r is None and isc(y.off) and hasattr(x.r.info,'null'):
                        e=x.r.info.null(x.off); return e if pr=='eq' else Not(e)
                if pr=='eq': return FALSE
                if pr=='ne': return TRUE
                a,b=s.ptrtoint(a),s.ptrtoint(b)
        if a.w==0:
            if pr=='eq': return Iff(a,b)
            if pr=='ne': return Not(Iff(a,b))
            a,b=zext(a,8),zext(b,8)
        return {'eq':eq,'ne':ne,'ult':ult,'ule':ule,'ugt':ugt,'uge':uge,'slt':slt,'sle':sle,'sgt':sgt,'sge':sge}[pr](a,b)
    def i_trunc(s,st,t,I,work,stop,out):
        v=s.ev(st,I.ops[0]); w=I.ty.w
        if w==1: return s._set(t,I,eq(extract(v,0,0),const(1,1)))
        return s._set(t,I,extract(v,w-1,0))
    def i_zext(s,st,t,I,work,stop,out): return s._set(t,I,zext(s.ev(st,I.ops[0]),I.ty.w))
    def i_sext(s,st,t,I,work,stop,out): return s._set(t,I,sext(s.ev(st,I.ops[0]),I.ty.w))
    def i_ptrtoint(s,st,t,I,work,stop,out): return s._set(t,I,resize(s.ptrtoint(s.ev(st,I.ops[0])),I.ty.w))
    def i_inttoptr(s,st,t,I,work,stop,out): return s._set(t,I,s.inttoptr(resize(s.ev(st,I.ops[0]),64)))
    def i_bitcast(s,st,t,I,work,stop,out): return s._set(t,I,s.ev(st,I.ops[0]))
    i_freeze=i_bitcast
    def i_fence(s,st,t,I,work,stop,out): t.ip+=1; return False
    def i_select(s,st,t,I,work,stop,out):
        c,a,b=[s.ev(st,o) for o in I.ops]
        if c is TRUE: return s._set(t,I,a)
        if c is FALSE: return s._set(t,I,b)
        if isinstance(a,T) and isinstance(b,T): return s._set(t,I,Ite(c,a,b))
        if isinstance(a,P) and isinstance(b,P) and a.r is b.r: return s._set(t,I,P(a.r,Ite(c,a.off,b.off)))
        fa,fb=s.feasible(st,c),s.feasible(st,Not(c))
        if fa and fb:
            n=st.fork(); n.assume(Not(c)); nt=n.top(); nt.env[I]=b; nt.ip+=1; work.append(n)
            st.assume(c); t=st.top(); return s._set(t,I,a)
        return s._set(t,I,a if fa else b)
    def i_extractvalue(s,st,t,I,work,stop,out):
        v=s.ev(st,I.ops[0])
        for k in I.x: v=v[k]
        return s._set(t,I,v)
    def i_insertvalue(s,st,t,I,work,stop,out):
        v=s.ev(st,I.ops[0]); x=s.ev(st,I.ops[1])
        def ins(a,p): 
            a=list(a)
            if len(p)==1: a[p[0]]=x
            else: a[p[0]]=ins(a[p[0]],p[1:])
            return a
        return s._set(t,I,ins(v,I.x))
    def i_atomicrmw(s,st,t,I,work,stop,out):
        p=s.ev(st,I.ops[0]); v=s.ev(st,I.ops[1]); op,ty=I.x
        old=s.load(st,p,ty)
        new={0:v,1:old+v if isinstance(old,T) and old.w else v,2:(old-v) if isinstance(old,T) and old.w else v}.get(op)
        if new is None: raise Unsupported("atomicrmw")
        s.store(st,p,new,ty); return s._set(t,I,old)
    # floats: opaque
    def _fl(s,st,t,I,work,stop,out):
        a=[s.ev(st,o) for o in I.ops]
        if I.op=='fcmp': return s._set(t,I,uf("fcmp_"+I.x,0,*a))
        w=I.ty.w if I.ty.k in('int','float') else 64
        return s._set(t,I,uf("f_%s_%d"%(I.op,w),w,*[x if x.w else zext(x,8) for x in a]))
    i_fcmp=i_fadd=i_fsub=i_fmul=i_fdiv=i_fneg=i_sitofp=i_uitofp=i_fptosi=i_fptoui=i_fpext=i_fptrunc=i_frem=_fl
    # calls
    def i_call(s,st,t,I,work,stop,out):
        callee,nd,ud=I.x
        if isinstance(callee,FRef): name=callee.name; tgt=FP(name)
        else: tgt=s.ev(st,callee)
        if isinstance(tgt,AbsFn):
            args=[s.ev(st,o) if o is not None else None for o in I.ops]
            h=s.abs.get(tgt.cls)
            if h is None: raise Unsupported("abstract call %s %s"%(tgt.cls,tgt.name))
            return s.outcomes(st,I,h(s,st,tgt,args,I),work,stop,out)
        if not isinstance(tgt,FP): raise Unsupported("indirect call to %r"%(tgt,))
        name=tgt.name
        if s.lifetimes and name.startswith("llvm.lifetime."):
            q=s.ev(st,I.ops[1])
            if isinstance(q,P) and q.r is not None: ids={q.r.id}|{k.id for _,_,k in q.r.kids}; st.freed=st.freed|ids if '.end' in name else st.freed-ids
        if name.startswith("llvm.lifetime.end") and s.lifetime_hook: s.lifetime_hook(s,st,[s.ev(st,o) for o in I.ops])
        if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime") or name.startswith("llvm.experimental.noalias") or name=="llvm.donothing" or name.startswith("llvm.assume") or name.startswith("llvm.stack"):
            t.ip+=1; return False
        h=s.model(name)
        args=[s.ev(st,o) if o is not None else None for o in I.ops]
        if h is not None:
            return s.outcomes(st,I,h(s,st,name,args,I),work,stop,out)
        fn=s.m.funcs.get(name)
        if fn is None or fn.decl: raise Unsupported("unmodelled call to %s"%(fn.dem if fn else name))
        s.push(st,fn,args,I)
        if 0 in natural_loops(fn): raise Unsupported("loop at entry")
        return False
    i_invoke=i_call
    def outcomes(s,st,I,res,work,stop,out):
        """res: single value / ('throw',ti) / list of ('ret',state,val)|('throw',state,(ti,payload))|('dead',state)"""
        if isinstance(res,tuple) and res and res[0]=='push':
            s.push(st,res[1],res[2],I); return False
        if not(isinstance(res,list) and res and isinstance(res[0],tuple) and res[0][0] in('ret','throw','dead','push')):
            if isinstance(res,list) and not res: return True   # path ends
            res=[('ret',st,res)]
        last=True
        for o in res:
            k,x=o[0],o[1]
            if k=='dead': continue
            if k=='push':
                s.push(x,o[2],o[3],I); work.append(x); continue
            if k=='ret':
                t=x.top()
                if I.ty.k!='void': t.env[I]=o[2]
                if I.op=='invoke':
                    if not s.branch_to(x,I.x[1],work,stop,out): work.append(x)
                else: t.ip+=1; work.append(x)
            else:
                x.exc=o[2]
                if not s.unwind(x,stop,out): work.append(x)
        return True
    # ---- loops -----------------------------------------------------------
    def handle_loop(s,st,blk):
        """st is positioned at a loop head (entered from outside). returns [(kind,state)]"""
        f=st.frames[-1]; fn=f.fn; body=natural_loops(fn)[blk.idx]; depth=len(st.frames)-1
        ordn=fn._looporder[blk.idx]
        key=(fn.name,blk.idx)
        pol=s.decided.get(key)
        force=None
        for pat,n in s.unroll.items():
            if re.search(pat,fn.dem): force=n
        if pol!='cut':
            r=s.try_unroll(st,blk,body,depth,force)
            if r is not None: return r
            s.decided[key]='cut'
        return s.cut(st,blk,body,depth,ordn)
    def try_unroll(s,st,blk,body,depth,force):
        has_spec=any(sp.where and re.search(sp.where[0],st.frames[-1].fn.dem) and (sp.where[1] is None or sp.where[1]==st.frames[-1].fn._looporder[blk.idx]) for sp in s.loops)
        if has_spec and not force: return None
        work=[st.fork()]; res=[]; mark=len(s.obs); dmark=s.npaths
        mute=s.mute
        n=0
        while work:
            n+=1
            if n>(force or s.max_unroll):
                if force: raise Unsupported("unroll bound %s exceeded in %s"%(force,st.frames[-1].fn.dem))
                del s.obs[mark:]; return None
            nxt=[]; exits=0
            for x in work:
                stop=Stop(depth,blk.idx,body)
                for k,y in s.run(x,stop):
                    if k=='back': nxt.append(y)
                    else: res.append((k,y)); exits+=1
            if nxt and exits and not force:
                # symbolic exit: needs an invariant
                real=[k for k,y in res if k=='exit']
                if real:
                    del s.obs[mark:]; return None
            if len(nxt)>200 and not force: del s.obs[mark:]; return None
            work=nxt
        return res
    def writeset_havoc(s,st,W,depth):
        """havoc every location in W in st (locations existing in st)"""
        hv={}
        for loc in sorted(W,key=lambda l:(str(type(l[0])),getattr(l[0],'id',0) if not isinstance(l[0],str) else 0,str(l[1:]))):
            if loc[0]=='ghost':
                v=st.ghost.get(loc[1])
                if isinstance(v,T): st.ghost[loc[1]]=fresh("g."+loc[1],v.w)
                elif isinstance(v,SArr): st.ghost[loc[1]]=SArr.fresh("g."+loc[1],v.ew)
                elif v is None: pass
                else:
                    h=s.ghost_havoc.get(loc[1])
                    if h is None: raise Unsupported("cannot havoc ghost %s"%loc[1])
                    st.ghost[loc[1]]=h(v)
                continue
            r=loc[0]
            if r.id not in st.mem: continue
            if loc[1]=='arr':
                A,L=st.mem[r.id]; st.mem[r.id]=(SArr.fresh(r.name,A.ew),st.mem[r.id][1])
            elif loc[1]=='len':
                A,L=st.mem[r.id]; st.mem[r.id]=(A,fresh(r.name+".len",64))
            else:
                off,size=loc[1],loc[2]
                cells=dict(st.mem[r.id]); c=cells.get(off)
                if c is None: 
                    # remove overlapping
                    for o in [o for o,cc in cells.items() if o<off+size and off<o+cc[0]]: 
                        del cells[o]
                    st.mem[r.id]=cells; continue
                sz,v=c
                if isinstance(v,T): cells[off]=(sz,fresh(r.name+("" if off==0 else "+%d"%off),v.w))
                elif isinstance(v,P):
                    mp=s.ptrjoin.get((r.id,off))
                    if mp is not None: cells[off]=(sz,mp(s,st,v))
                    elif v.r is not None and v.r.kind=='undef': del cells[off]
                    elif (r.id,off) in s.ptrfix: pass
                    else: cells[off]=(sz,P(v.r,fresh(r.name+".off",64)))
                else: del cells[off]
                st.mem[r.id]=cells
    ptrjoin={}; ptrfix=set(); cases={}
    def cut(s,st,blk,body,depth,ordn):
        fn=st.frames[-1].fn
        key=(fn.name,blk.idx,depth)
        W=set(l for l in s.Wcache.get(key,()) if l[0]=='ghost' or l[0].id in st.mem)
        head_phis=[I for I in blk.insts if I.op=='phi']
        if head_phis and not (blk.insts[0].op=='phi' and st.frames[-1].ip==len(head_phis)): raise Unsupported("phi at loop head")
        stop=Stop(depth,blk.idx,body)
        entry=st.fork()
        # 1. write set (fixpoint)
        for _ in range(12):
            x=s.start(st,W,head_phis)
            mark=len(s.obs)
            x.writes=set()
            s.discovering+=1
            try: res=s.run(x,stop)
            finally: s.discovering-=1
            del s.obs[mark:]
            new=set()
            for k,y in res:
                new|=s.relevant(y.writes,entry,depth)
                if k!='back': continue
                # pointer cells whose region changes
            new|=s.relevant(x.writes,entry,depth)
            if new<=W: break
            W|=new
        else: raise Unsupported("write set did not stabilise")
        s.Wcache[key]=set(W)
        outer_writes=st.writes
        if s.discovering and s.fast_discovery:      # an enclosing loop is only collecting its write set: the havocked run (no invariant) over-approximates it
            exits=[(k,y) for k,y in res if k!='back']
            if outer_writes is not None: outer_writes|=W
            for k,y in exits: y.writes=outer_writes
            return exits
        # pointer cells must keep their region
        backs=[y for k,y in res if k=='back']
        if not backs:
            pass
        # 2. invariant attempts
        # pointer stability: a written pointer cell that returns to exactly its head value keeps it
        fixed=set()
        specs=[]
        ex_=[sp for sp in s.loops if sp.where and re.search(sp.where[0],fn.dem) and (sp.where[1] is None or sp.where[1]==ordn)]
        gen=[sp for sp in s.loops if not sp.where]
        oth=[sp for sp in s.loops if sp not in ex_ and sp not in gen]
        attempts=[]
        cands_roles=s.role_terms(entry,W,depth)
        for sp in ex_+gen+oth:
            if sp.when and not sp.when(View(s,entry)): continue
            for asg in s.bindings(sp,cands_roles,entry,key):
                attempts.append((((0,) if (key,sp.name) in s.role_cache else (1,),s.asg_score(sp,asg)),len(attempts),sp,asg))
        attempts.sort(key=lambda t:t[:2])
        smin={}
        for t_ in attempts: smin[id(t_[2])]=min(smin.get(id(t_[2]),99),t_[0][1])
        attempts=[(sp,asg) for _,_,sp,asg in attempts[:200]]
        attempts.append((None,()))
        best=None; tried=0
        tlim=time.time()+s.loop_budget
        for sp,asg in attempts:
            if tried>=s.max_attempts and sp is not None: continue
            if time.time()>tlim and sp is not None and tried: continue
            if sp is not None:
                v=View(s,entry,View(s,entry)); v.r0=[a.get(s,entry,entry) for a in asg]
                try: invs=[boolc(c) if isinstance(c,bool) else c for c in sp.inv(v,*[a.get(s,entry,entry) for a in asg])]
                except (Unsupported,KeyError,AssertionError,AttributeError,IndexError,TypeError) as e:
                    if s.v>1: print("   inv not applicable:",repr(e)[:200])
                    continue
                ok=True
                pcs=entry.pcs()
                for c in invs:
                    if c is TRUE: continue
                    r,_=s.valid(pcs,c,1500)
                    if r is None and (s.asg_score(sp,asg)<=smin[id(sp)]+3): r,_,_=s.valid_strong(pcs,c)
                    if r is not True: ok=False; break
                if not ok: 
                    if s.v>1: print("   init fails for",sp.name,[a.name for a in asg],show(c)[:200])
                    continue
            tried+=1
            r=s.attempt(st,entry,blk,stop,W,head_phis,sp,asg,cands_roles,key)
            if r is None: continue
            fails,obs,exits,wnew=r
            if s.v>1 or (s.v and not fails): print("   loop %s#%d attempt %s %s -> %d fails"%(fn.dem[:60],ordn,sp.name if sp else 'auto',[a.name for a in asg],len(fails)))
            if best is None or len(fails)<len(best[0]): best=(fails,obs,exits,sp,asg)
            if not fails: break
        fails,obs,exits,sp,asg=best
        if not fails and sp is not None: s.role_cache[(key,sp.name)]=[a.name for a in asg]
        s.loop_log.append((fn.dem,ordn,sp.name if sp else 'auto',[a.name for a in asg],len(fails)))
        s.obs.extend(obs)
        if outer_writes is not None:
            outer_writes|=W
        for k,y in exits:
            y.writes=outer_writes
            if outer_writes is not None: pass
        return exits
    read_ax={}; discovering=0; fast_discovery=True
    loop_budget=120; max_attempts=40
    def start(s,st,W,head_phis):
        x=st.fork()
        s.writeset_havoc(x,W,0)
        t=x.top()
        for I in head_phis:
            v=t.env[I]
            if isinstance(v,T): t.env[I]=fresh("phi",v.w)
            elif isinstance(v,P): t.env[I]=P(v.r,fresh("phi",64))
            else: raise Unsupported("phi agg")
        return x
    def relevant(s,writes,entry,depth):
        out=set()
        for l in writes:
            if l[0]=='ghost': 
                if l[1] in entry.ghost: out.add(l)
            elif l[0].id in entry.mem:
                r=l[0]
                # locals of the loop body (allocas executed before) that are dead on entry still count
                out.add(l)
        return out
    def attempt(s,st,entry,blk,stop,W,head_phis,sp,asg,cands_roles,key):
        ev=View(s,entry)
        cands=s.houdini_cands(entry,W,cands_roles,stop.depth) if (sp is None or sp.houdini) else []
        pcs=entry.pcs()
        cands=[(n,g) for n,g in cands if s.quick_valid(pcs,g(View(s,entry,ev),entry))]
        for rnd in range(15):
            x=s.start(st,W,head_phis)
            x.writes=set()
            hv=View(s,x,ev); hv.r0=[a.get(s,entry,entry) for a in asg]
            roles0=[a.get(s,x,entry) for a in asg]
            if sp is not None:
                for c in sp.inv(hv,*roles0): x.assume(c)
                if sp.assume:
                    for c in sp.assume(hv,*roles0): x.assume(c)
            for n,g in cands:
                c=g(hv,x)
                x.assume(c)
            dec0=sp.dec(hv,*roles0) if sp is not None and sp.dec else None
            headst=x.fork(); headst.writes=None
            mark=len(s.obs)
            try: res=s.run(x,stop)
            except Unsupported as e:
                del s.obs[mark:]
                if sp is None: raise
                if s.v: print("   attempt unsupported",e)
                return None
            obs=s.obs[mark:]; del s.obs[mark:]
            exits=[]; drop=set(); backs=[]
            for k,y in res:
                if k=='back': backs.append(y)
                else: exits.append((k,y))
            W2=set()
            for k,y in res: W2|=s.relevant(y.writes,entry,stop.depth)
            W2|=s.relevant(x.writes,entry,stop.depth)
            if not W2<=W: raise Unsupported("write set grew")
            for y in backs:
                ptr_ok=s.ptr_regions_ok(headst,y,W)
                if ptr_ok is not True: 
                    if s.v: print("   pointer region changes across iteration:",ptr_ok)
                    raise Unsupported("pointer region changes in loop: %s"%ptr_ok)
                ypcs=y.pcs()
                live=[(n,g) for n,g in cands if n not in drop]
                if live:
                    drop|=s.houdini_filter(ypcs,[(n,g(View(s,y,ev),y)) for n,g in live])
            if drop:
                cands=[(n,g) for n,g in cands if n not in drop]
                continue
            # stable: add invariant-preservation obligations
            newobs=[]
            if sp is not None:
                for y in backs:
                    roles1=[a.get(s,y,entry) for a in asg]
                    ypcs=y.pcs()
                    extra=[]
                    yv=View(s,y,ev); yv.r0=hv.r0
                    for j,c in enumerate(sp.inv(yv,*roles1)):
                        if isinstance(c,bool): c=boolc(c)
                        newobs.append(Oblig("%s: invariant[%d] preserved"%(sp.name,j),ypcs+extra,c,blk.insts[0].line,st.frames[-1].fn.dem,"inv"))
                        if c is TRUE: newobs[-1].status='trivial'
                    if dec0 is not None:
                        d1=sp.dec(yv,*roles1)
                        newobs.append(Oblig("%s: variant decreases"%sp.name,ypcs,ult(d1,dec0),blk.insts[0].line,st.frames[-1].fn.dem,"dec"))
            # discharge preservation first (cheap rejection), then body obligations
            fails=s.discharge(newobs,first=True,quiet=True)
            if not fails: fails=fails+s.discharge(obs,first=sp is not None,quiet=True)
            newobs+=obs
            return fails,newobs,exits,None
        raise Unsupported("houdini did not stabilise")
    def ptr_regions_ok(s,head,y,W):
        for l in W:
            if l[0]=='ghost' or l[1] in('arr','len'): continue
            r,off,size=l
            a=head.mem.get(r.id,{}).get(off); b=y.mem.get(r.id,{}).get(off)
            if a is None or b is None: continue
            if isinstance(a[1],P) and isinstance(b[1],P) and a[1].r is not b[1].r:
                if s.ptrjoin.get((r.id,off)): continue
                return "%s+%d: %r vs %r"%(r.name,off,a[1],b[1])
            if isinstance(a[1],P)!=isinstance(b[1],P): return "%s+%d kind"%(r.name,off)
            if (r.id,off) in s.ptrfix and isinstance(a[1],P) and a[1].off is not b[1].off: return "%s ptrfix"%r.name
        return True
    def quick_valid(s,pcs,f):
        if f is TRUE: return True
        if f is FALSE: return False
        r,_=s.valid(pcs,f,1000); return r is True
    def houdini_filter(s,pcs,nf):
        bad=set(); live=[(n,f) for n,f in nf if f is not TRUE]
        while live:
            so=z3.Solver(); so.set("timeout",2500)
            for c in pcs: so.add(z(c))
            so.add(z(Not(And(*[f for _,f in live]))))
            t=time.time(); r=so.check(); s.nquery+=1; s.tquery+=time.time()-t
            if r==z3.unsat: break
            if r==z3.unknown:
                # one by one
                for n,f in live:
                    rr,_=s.valid(pcs,f,1000)
                    if rr is not True: bad.add(n)
                break
            m=so.model(); k=len(bad)
            for n,f in live:
                if z3.is_false(m.eval(z(f),model_completion=True)): bad.add(n)
            if len(bad)==k: bad|=set(n for n,_ in live)
            live=[(n,f) for n,f in live if n not in bad]
        return bad
    # roles
    def role_terms(s,entry,W,depth):
        out=[]
        for l in sorted((l for l in W if l[0]!='ghost' and l[1] not in('arr','len')),key=lambda l:(l[0].id,l[1])):
            r,off,size=l
            c=entry.mem[r.id].get(off)
            if c is None: 
                continue
            v=c[1]; nm=r.name if off==0 else "%s+%d"%(r.name,off)
            fd=None
            if isinstance(v,T) and v.w in(8,16,32,64): 
                out.append(Role(nm,r,off,size,'val'))
                out.append(Role(nm+"-entry",r,off,size,'diff'))
                out.append(Role("entry-"+nm,r,off,size,'rdiff'))
            elif isinstance(v,P) and v.r is not None:
                out.append(Role("*"+nm,r,off,size,'poff'))
                out.append(Role("*"+nm+"-entry",r,off,size,'pdiff'))
        return out
    def bindings(s,sp,cands,entry,key):
        import itertools
        n=len(sp.roles)
        if n==0: return [()]
        per=[]
        for rn in sp.roles:
            w=64
            if isinstance(rn,tuple): rn,w=rn
            names=rn.split('|')
            def score(c):
                base=c.r.name
                if c.kind in('val','poff') and (base in names or base.replace('.addr','') in names): return 0
                if (base in names or base.replace('.addr','') in names): return 1
                return 2 if c.kind in('val','pdiff') else 3
            per.append([c.withw(w) for c in sorted(cands,key=score)])
        cached=s.role_cache.get((key,sp.name))
        if not all(per): return []
        combos=list(itertools.islice(itertools.product(*per),4000))
        combos=[c for c in combos if len(set((a.r.id,a.off) for a in c))==len(c)]
        def tot(c): return sum(p.index(a) for p,a in zip(per,c))
        combos.sort(key=tot)
        if cached:
            combos.sort(key=lambda c: [a.name for a in c]!=cached)
        return combos
    def asg_score(s,sp,asg):
        t=0
        for rn,a in zip(sp.roles,asg):
            if isinstance(rn,tuple): rn=rn[0]
            names=rn.split('|'); b=a.r.name; m=b in names or b.replace('.addr','') in names
            if m and a.kind in('val','poff'): t+=0
            elif m: t+=2
            elif a.kind=='val' and a.size==8 and a.off==0: t+=3
            elif a.kind in('val','pdiff'): t+=4
            else: t+=6
        return t
    def houdini_cands(s,entry,W,roles,depth):
        out=[]
        def cell(r,off,size): return lambda st: st.mem[r.id][off][1]
        cs=[]
        for rl in roles:
            if rl.kind=='val': cs.append((rl.name,rl.r,rl.off,False))
            elif rl.kind=='poff': cs.append((rl.name,rl.r,rl.off,True))
        cs=cs[:14]
        def getv(st,r,off,isp):
            v=st.mem[r.id].get(off)
            if v is None: return None
            v=v[1]
            if isp: return v.off if isinstance(v,P) else None
            return v if isinstance(v,T) else None
        terms=list(s.interesting)
        for nm,r,off,isp in cs:
            e=getv(entry,r,off,isp)
            if e is None: continue
            out.append((nm+">=entry",lambda v,st,r=r,off=off,isp=isp,e=e: _safe(lambda: ule(e,getv(st,r,off,isp)))))
            out.append((nm+"<=entry",lambda v,st,r=r,off=off,isp=isp,e=e: _safe(lambda: ule(getv(st,r,off,isp),e))))
            out.append((nm+"==entry",lambda v,st,r=r,off=off,isp=isp,e=e: _safe(lambda: eq(getv(st,r,off,isp),e))))
            if isp:
                reg=entry.mem[r.id][off][1].r
                if reg is not None and reg.kind=='arr' and reg.id in entry.mem:
                    es=reg.esize
                    out.append((nm+"<=len",lambda v,st,r=r,off=off,reg=reg,es=es: _safe(lambda: _inlen(getv(st,r,off,True),es,st.mem[reg.id][1]))))
            for j,b in enumerate(terms):
                if b.w==e.w:
                    out.append((nm+"<=t%d"%j,lambda v,st,r=r,off=off,isp=isp,b=b: _safe(lambda: ule(getv(st,r,off,isp),b))))
                    out.append((nm+">=t%d"%j,lambda v,st,r=r,off=off,isp=isp,b=b: _safe(lambda: ule(b,getv(st,r,off,isp)))))
        # unwritten same-frame cells as bounds
        f=entry.frames[-1] if entry.frames else None
        bnds=[]
        for fr in entry.frames[max(0,depth):depth+1]:
            for n,reg in fr.names.items():
                if reg.kind!='cells' : continue
                for off,(sz,v) in entry.mem.get(reg.id,{}).items():
                    if isinstance(v,T) and v.w==64 and (reg,off,sz) not in W and not isc(v): bnds.append(v)
        bnds=bnds[:6]
        for nm,r,off,isp in cs:
            e=getv(entry,r,off,isp)
            if e is None or e.w!=64: continue
            for j,b in enumerate(bnds):
                out.append((nm+"<=b%d"%j,lambda v,st,r=r,off=off,isp=isp,b=b: _safe(lambda: ule(getv(st,r,off,isp),b))))
        for a in range(len(cs)):
            for b in range(a+1,len(cs)):
                na,ra,oa,pa=cs[a]; nb,rb,ob,pb=cs[b]
                ea,eb=getv(entry,ra,oa,pa),getv(entry,rb,ob,pb)
                if ea is None or eb is None or ea.w!=eb.w: continue
                out.append((na+"~"+nb,lambda v,st,ra=ra,oa=oa,pa=pa,rb=rb,ob=ob,pb=pb,ea=ea,eb=eb: _safe(lambda: eq(getv(st,ra,oa,pa)-ea,getv(st,rb,ob,pb)-eb))))
                out.append((na+"+"+nb,lambda v,st,ra=ra,oa=oa,pa=pa,rb=rb,ob=ob,pb=pb,ea=ea,eb=eb: _safe(lambda: eq(getv(st,ra,oa,pa)+getv(st,rb,ob,pb),ea+eb))))
                out.append((na+"<="+nb,lambda v,st,ra=ra,oa=oa,pa=pa,rb=rb,ob=ob,pb=pb: _safe(lambda: ule(getv(st,ra,oa,pa),getv(st,rb,ob,pb)))))
                out.append((nb+"<="+na,lambda v,st,ra=ra,oa=oa,pa=pa,rb=rb,ob=ob,pb=pb: _safe(lambda: ule(getv(st,rb,ob,pb),getv(st,ra,oa,pa)))))
        out+=s.extra_cands(entry,W,cs,getv) if s.extra_cands else []
        return out
    extra_cands=None
def _safe(f):
    try: return f()
    except (TypeError,AttributeError,AssertionError,KeyError): return TRUE if False else FALSE
def _inlen(off,es,L):
    if es==1: return ule(off,L)
    q=exact_div(off,es)
    if q is not None: return ule(q,L)
    return And(ule(off,scale(L,es)),eq(urem(off,const(es,64)),const(0,64)))
class Stop:
    def __init__(s,d,h,b): s.depth=d; s.head=h; s.body=b
class Role:
    def __init__(s,name,r,off,size,kind,w=64): s.name=name; s.r=r; s.off=off; s.size=size; s.kind=kind; s.w=w
    def withw(s,w): return Role(s.name,s.r,s.off,s.size,s.kind,w)
    def get(s,ex,st,entry):
        v=st.mem[s.r.id][s.off][1]; e=entry.mem[s.r.id][s.off][1]
        if s.kind in('poff','pdiff'):
            es=v.r.esize if v.r.kind=='arr' else 1
            o=v.off if s.kind=='poff' else v.off-e.off
            q=exact_div(o,es)
            if q is None: q=udiv(o,const(es,64))
            return q
        if s.kind=='diff': v=v-e
        elif s.kind=='rdiff': v=e-v
        return resize(v,s.w,False) if s.w else v
STD_BASES={
 "_ZTISt16invalid_argument":["_ZTISt11logic_error"],"_ZTISt12length_error":["_ZTISt11logic_error"],"_ZTISt12out_of_range":["_ZTISt11logic_error"],"_ZTISt12domain_error":["_ZTISt11logic_error"],
 "_ZTISt11logic_error":["_ZTISt9exception"],"_ZTISt13runtime_error":["_ZTISt9exception"],"_ZTISt11range_error":["_ZTISt13runtime_error"],"_ZTISt12system_error":["_ZTISt13runtime_error"],
 "_ZTISt9bad_alloc":["_ZTISt9exception"],"_ZTISt14overflow_error":["_ZTISt13runtime_error"],
}
_orig_init=Region.__init__
def _ri(self,*a,**k):
    _orig_init(self,*a,**k); Ex._regs[self.id]=self
Region.__init__=_ri
