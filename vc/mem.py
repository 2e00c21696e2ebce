"""Region memory: functional arrays, regions, pointers, symbolic states."""
from terms import *

class SArr:
    """functional array node; idx terms are 64-bit element indexes, values are 8*esize-bit terms (or arbitrary values for pyfn arrays)"""
    __slots__=("k","p","a","ew","memo","depth")
    def __init__(s,k,ew,p=None,a=None):
        s.k=k; s.ew=ew; s.p=p; s.a=a; s.memo={}; s.depth=(p.depth+1 if p is not None else 0)
    @staticmethod
    def base(name,ew): return SArr('base',ew,None,name)
    @staticmethod
    def fresh(name,ew): return SArr('base',ew,None,fresh_name(name))
    @staticmethod
    def consts(vals,ew): return SArr('consts',ew,None,[const(v,ew) if not isinstance(v,T) else v for v in vals])
    @staticmethod
    def fn(f,ew): return SArr('fn',ew,None,f)
    def store(s,i,v):
        assert v.w==s.ew,(v.w,s.ew)
        if s.k=='store' and s.a[0] is i: return SArr('store',s.ew,s.p,(i,v))
        return SArr('store',s.ew,s,(i,v))
    def copy(s,d,n,src,so): # s[d..d+n) := src[so..so+n)
        if isc(n):
            if val(n)==0: return s
            if val(n)<=8:
                r=s
                vs=[src.sel(so+k) for k in range(val(n))]
                for k,v in enumerate(vs): r=r.store(d+k,v)
                return r
        return SArr('copy',s.ew,s,(d,n,src,so))
    def fill(s,d,n,v):
        if isc(n) and val(n)==0: return s
        return SArr('fill',s.ew,s,(d,n,v))
    def sel(s,i):
        r=s.memo.get(i)
        if r is not None: return r
        n=s; conds=[]
        # iterative walk, collecting guarded values
        while True:
            k=n.k
            if k=='base': v=sel(n.a,n.ew,i); break
            if k=='consts':
                L=n.a
                if isc(i): v=L[val(i)] if val(i)<len(L) else const(0,n.ew); break
                v=_table(L,i,n.ew); break
            if k=='fn': v=n.a(i); break
            if k=='store':
                e=eq(i,n.a[0])
                if e is TRUE: v=n.a[1]; break
                if e is not FALSE: conds.append((e,n.a[1]))
                n=n.p
            elif k=='copy':
                d,cnt,src,so=n.a
                c=ult(i-d,cnt)
                if c is TRUE: v=src.sel(i-d+so); break
                if c is not FALSE: conds.append((c,src.sel(i-d+so)))
                n=n.p
            elif k=='fill':
                d,cnt,x=n.a
                c=ult(i-d,cnt)
                if c is TRUE: v=x; break
                if c is not FALSE: conds.append((c,x))
                n=n.p
            elif k=='ite':
                v=Ite(n.a[0],n.a[1].sel(i),n.a[2].sel(i)); break
        for c,x in reversed(conds): v=Ite(c,x,v)
        s.memo[i]=v
        return v

_tbl={}
def _table(L,i,ew):
    """table lookup as an if-chain over runs of equal values"""
    r=L[-1]
    # group by value for sparse tables
    for k in range(len(L)-2,-1,-1):
        if L[k] is r and False: continue
        r=Ite(eq(i,const(k,i.w)),L[k],r)
    return r

class Region:
    n=0
    __slots__=("id","name","kind","esize","size","kids","info","parent")
    def __init__(s,name,kind,esize=1,size=None,kids=(),info=None):
        Region.n+=1; s.id=Region.n; s.name=name; s.kind=kind; s.esize=esize; s.size=size; s.kids=list(kids); s.info=info; s.parent=None
    def __repr__(s): return "<%s#%d>"%(s.name,s.id)

class P:
    __slots__=("r","off")
    def __init__(s,r,off=None): s.r=r; s.off=off if off is not None else const(0,64)
    def __repr__(s): return "&%s+%s"%(s.r.name if s.r else 'NULL',show(s.off))
    def plus(s,n): return P(s.r,s.off+n)
NULL=P(None,const(0,64))
class FP:
    __slots__=("name",)
    def __init__(s,n): s.name=n
    def __repr__(s): return "@"+s.name
class AbsFn:
    __slots__=("cls","slot","name")
    def __init__(s,c,slot,name): s.cls=c; s.slot=slot; s.name=name
