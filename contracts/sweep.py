"""Equality of two large terms by proved cut points: every specification step is matched with a node of the code's term (candidates by
evaluation on random inputs), proved equal by the solver over the already proved cuts, and replaced by a fresh variable on both sides."""
import random
from fw import *
from terms import subst
from exec import _syms
def kids(x): return [k for k in x.a if isinstance(k,T)] if x.op!='lin' else [t for t,_ in x.a[1]]
def order(roots):
    out=[]; seen=set()
    for r in roots:
        st=[(r,False)]
        while st:
            x,d=st.pop()
            if d: out.append(x); continue
            if x.id in seen: continue
            seen.add(x.id); st.append((x,True))
            if x.op not in('v','c','sel','uf'): st.extend((k,False) for k in kids(x))
    return out
def evals(nodes,env,n):
    """environment: atom id -> list of n ints"""
    V={}
    for x in nodes:
        o=x.op; m=(1<<x.w)-1 if x.w else 1; a=x.a; g=lambda k: V[k.id]
        if o=='c': r=[a[0]]*n
        elif o in('v','sel','uf'):
            if x.id not in env: env[x.id]=[random.getrandbits(x.w or 1) for _ in range(n)]
            r=env[x.id]
        elif o=='lin':
            r=[a[0]]*n
            for t,k in a[1]: r=[(p+k*q)&m for p,q in zip(r,g(t))]
        elif o=='and': r=[p&q for p,q in zip(g(a[0]),g(a[1]))]
        elif o=='or': r=[p|q for p,q in zip(g(a[0]),g(a[1]))]
        elif o=='xor':
            r=[0]*n
            for t in a: r=[p^q for p,q in zip(r,g(t))]
        elif o=='ext': r=[(p>>a[2])&m for p in g(a[0])]
        elif o=='concat':
            r=[0]*n
            for t in a: r=[(p<<t.w)|q for p,q in zip(r,g(t))]
        elif o=='zext': r=g(a[0])
        elif o=='mul': r=[(p*q)&m for p,q in zip(g(a[0]),g(a[1]))]
        elif o=='shl': r=[(p<<q)&m if q<x.w else 0 for p,q in zip(g(a[0]),g(a[1]))]
        elif o=='lshr': r=[p>>q if q<x.w else 0 for p,q in zip(g(a[0]),g(a[1]))]
        elif o=='not': r=[1-p for p in g(a[0])]
        elif o=='eq': r=[int(p==q) for p,q in zip(g(a[0]),g(a[1]))]
        elif o=='ult': r=[int(p<q) for p,q in zip(g(a[0]),g(a[1]))]
        elif o=='ule': r=[int(p<=q) for p,q in zip(g(a[0]),g(a[1]))]
        elif o=='and0':
            r=[1]*n
            for t in a: r=[p&q for p,q in zip(r,g(t))]
        elif o=='ite': r=[(p if c else q) for c,p,q in zip(g(a[0]),g(a[1]),g(a[2]))]
        else: raise Unsupported("sweep: "+o)
        V[x.id]=r
    return V
def prove_equal(c,st,name,codes,spec_steps,finals):
    """codes: code terms; spec_steps: generator of (label, function of nothing) run incrementally: spec_steps(cut) must call v=cut(label,term) for each
    step and return the list of final terms.  Posts one obligation per step and one per final."""
    random.seed(1); N=8; env={}
    nodes=order(codes); V=evals(nodes,env,N); sig={}
    for x in nodes:
        if x.op not in('c',): sig.setdefault((x.w,tuple(V[x.id])),[]).append(x)
    cur=list(codes); mp={}; live={'v':V}
    shadow={}   # cut variable id -> random values (those of the node it stands for)
    memo={}; defs=[]
    def cut(label,t):
        """t: spec term over inputs and earlier cut variables"""
        W=evals(order([t]),env,N); s=tuple(W[t.id])
        v=fresh("cut",t.w); env[v.id]=list(s)
        cand=sig.get((t.w,s),[])
        for x in cand:
            if x in mp: continue
            y=rebuild(x)
            if isinstance(y,T) and y is not v:
                e=eq(y,t)
                if e is not TRUE and c.ex.valid([],e,3000)[0] is not True:
                    sy=_syms(e); use=[]
                    for u,d in reversed(defs):
                        if u.a[0] in sy and len(use)<20: use.append(eq(u,d)); sy=sy|_syms(d)
                    e=Implies(And(*use),e)
                c.post(st,"%s: %s"%(name,label),e)
                mp[x]=v; memo.clear(); memo.update(mp)
        defs.append((v,t))
        return v if any(mp.get(x) is v for x in cand) else t
    def rebuild(x): 
        m=dict(mp); m.pop(x,None)
        return subst(x,m,{})
    fin=finals(cut)
    for i,(a,b) in enumerate(zip(codes,fin)): c.post(st,"%s: result word %d"%(name,i),eq(subst(a,mp,{}),b))
