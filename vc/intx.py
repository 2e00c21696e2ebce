"""Integer back end: a machine-word term is read as an integer expression together with obligations that no
operation leaves the range in which both agree; goals are then decided in linear integer arithmetic (z3).
rep(t) is an integer congruent to t modulo 2^w; operations that need the exact (signed or unsigned) value of an
operand first prove that rep(t) lies in that range."""
import z3, time
from terms import *
from exec import Unsupported
INF=None
class IntX:
    def __init__(s,ranges,pcs=(),timeout=20000):
        """ranges: {variable name: (lo,hi)} assumed by the contract (the caller states the same assumption on the words)"""
        s.facts=[]; s.memo={}; s.rng={}; s.timeout=timeout; s.nq=0; s.tq=0.0; s.undecided=[]; s.ranges=ranges; s.vars={}; s.wcache={}
        for p in pcs:
            try: s.facts.append(s.b(p))
            except Unsupported: pass          # an untranslated assumption is dropped: sound
    def prove(s,f,timeout=None,seed=0,rl=None):
        q=z3.Solver(); q.set("timeout",5*(timeout or s.timeout)); q.set("rlimit",rl or 1500*(timeout or s.timeout)); t=time.time()      # bounded by work done, so that a loaded machine decides alike
        if seed: q.set("random_seed",seed)
        for x in s.facts: q.add(x)
        q.add(z3.Not(f)); r=q.check(); s.nq+=1; s.tq+=time.time()-t; s.last=q.model() if r==z3.sat else None
        return True if r==z3.unsat else (False if r==z3.sat else None)
    def within(s,t,lo,hi):
        e,a,b=s.r(t)
        if a is not INF and a>=lo and b<=hi: return True
        k=(t,lo,hi,len(s.facts))
        if k not in s.wcache: s.wcache[k]=s.prove(z3.And(e>=lo,e<=hi))
        if s.wcache[k] is True:
            s.rng[t]=(max(lo,a) if a is not INF else lo,min(hi,b) if a is not INF else hi); return True
        return False
    def signed(s,t):
        if s.within(t,-(1<<t.w-1),(1<<t.w-1)-1): return s.r(t)[0]
        if s.within(t,1<<t.w-1,(3<<t.w-1)-1): return s.r(t)[0]-(1<<t.w)
        raise Unsupported("integer back end: signed overflow not excluded in %s"%show(t)[:120])
    def unsigned(s,t):
        if s.within(t,0,(1<<t.w)-1): return s.r(t)[0]
        if s.within(t,-(1<<t.w),-1): return s.r(t)[0]+(1<<t.w)
        raise Unsupported("integer back end: unsigned wrap-around not excluded in %s"%show(t)[:120])
    def r(s,t):
        m=s.memo.get(t)
        if m is None:
            e,a,b=s._r(t)
            s.memo[t]=e
            if t not in s.rng: s.rng[t]=(a,b)
        a,b=s.rng[t]; return s.memo[t],a,b
    def _r(s,t):
        o=t.op; w=t.w; a=t.a
        if o=='c': v=sval(t); return z3.IntVal(v),v,v
        if o=='v':
            if a[0] not in s.ranges: raise Unsupported("integer back end: no range for %s"%a[0])
            lo,hi=s.ranges[a[0]]; x=z3.Int(a[0]); s.facts.append(z3.And(x>=lo,x<=hi)); s.vars[a[0]]=x; return x,lo,hi
        if o=='lin':
            c=a[0]-(1<<w) if a[0]>>(w-1) else a[0]; e=z3.IntVal(c); lo=hi=c
            for u,k in a[1]:
                sk=k-(1<<w) if k>>(w-1) else k; x,l,h=s.r(u); e=e+sk*x
                if l is INF or lo is INF: lo=hi=INF
                else: lo+=min(sk*l,sk*h); hi+=max(sk*l,sk*h)
            return e,lo,hi
        if o in('sdiv','srem','udiv','urem'):
            if not isc(a[1]): raise Unsupported("integer back end: division by a variable")
            k=sval(a[1]) if o[0]=='s' else val(a[1])
            if k<=0: raise Unsupported("integer back end: divisor")
            x=(s.signed if o[0]=='s' else s.unsigned)(a[0])
            neg=o[0]=='s' and not s.within(a[0],0,(1<<w-1)-1)
            q=x/z3.IntVal(k) if not neg else z3.If(x>=0,x/z3.IntVal(k),-((-x)/z3.IntVal(k)))
            l,h=s.rng[a[0]]
            if o[1:]=='div': return (q,INF,INF) if l is INF else (q,-(-l//k) if l<0 else l//k,h//k if h>=0 else -(-h//k))
            rm=x-k*q; return rm,(-(k-1) if neg else 0),k-1
        if o=='zext':
            x=s.unsigned(a[0]); l,h=s.rng[a[0]]; return (x,l,h) if l is not INF and l>=0 and h<(1<<a[0].w) else (x,0,(1<<a[0].w)-1)
        if o=='sext':
            x=s.signed(a[0]); return x,-(1<<a[0].w-1),(1<<a[0].w-1)-1
        if o=='ext' and a[2]==0:
            k=a[1]+1; e,l,h=s.r(a[0])
            if s.within(a[0],0,(1<<k)-1) or s.within(a[0],-(1<<k-1),(1<<k-1)-1): l,h=s.rng[a[0]]; return e,l,h
            return e%(1<<k),0,(1<<k)-1
        if o=='and' and isc(a[1]) and (val(a[1])+1)&val(a[1])==0: e,l,h=s.r(a[0]); m=val(a[1])+1; return e%m,0,m-1
        if o=='and' and isc(a[0]) and (val(a[0])+1)&val(a[0])==0: e,l,h=s.r(a[1]); m=val(a[0])+1; return e%m,0,m-1
        if o=='shl' and isc(a[1]):
            e,l,h=s.r(a[0]); k=1<<val(a[1]); return (e*k,INF,INF) if l is INF else (e*k,l*k,h*k)
        if o in('lshr','ashr') and isc(a[1]): x=(s.signed if o=='ashr' else s.unsigned)(a[0]); return x/z3.IntVal(1<<val(a[1])),INF,INF
        if o=='concat' and all(isc(k) and val(k)==0 for k in a[:-1]): x=s.unsigned(a[-1]); return x,0,(1<<a[-1].w)-1
        if o=='ite':
            c=s.b(a[0]); x,l,h=s.r(a[1]); y,l2,h2=s.r(a[2]); return z3.If(c,x,y),(min(l,l2) if INF not in(l,l2) else INF),(max(h,h2) if INF not in(h,h2) else INF)
        raise Unsupported("integer back end: %s"%o)
    def b(s,t):
        o=t.op; a=t.a
        if o=='c': return z3.BoolVal(bool(a[0]))
        if o=='v' and t.w==0: return z3.Bool(a[0])
        if o=='not': return z3.Not(s.b(a[0]))
        if o=='and0': return z3.And(*[s.b(x) for x in a])
        if o=='iff': return s.b(a[0])==s.b(a[1])
        if o=='ite' and t.w==0: return z3.If(s.b(a[0]),s.b(a[1]),s.b(a[2]))
        if o=='eq':
            x,y=a
            if x.w==0: return s.b(x)==s.b(y)
            for f in (s.signed,s.unsigned):
                try: return f(x)==f(y)
                except Unsupported: pass
            raise Unsupported("integer back end: eq")
        if o in('slt','sle'): x,y=s.signed(a[0]),s.signed(a[1]); return x<y if o=='slt' else x<=y
        if o in('ult','ule'): x,y=s.unsigned(a[0]),s.unsigned(a[1]); return x<y if o=='ult' else x<=y
        raise Unsupported("integer back end: %s"%o)
