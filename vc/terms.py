"""Hash-consed bit-vector / boolean terms with a light normalising simplifier, and translation to z3.

Width 0 means Bool.  Array reads appear only as 'sel' over a named base array (functional updates are
expanded by mem.SArr), so queries are in QF_AUFBV (plus uninterpreted ghost functions)."""
import z3

_tab = {}
_n = [0]
class T:
    __slots__=("op","w","a","id","_z","_h","_lin")
    def __repr__(s): return show(s)
    def __hash__(s): return s.id
    def __eq__(s,o): return s is o
    def __add__(s,o): return add(s,lift(o,s.w))
    def __radd__(s,o): return add(s,lift(o,s.w))
    def __sub__(s,o): return sub(s,lift(o,s.w))
    def __rsub__(s,o): return sub(lift(o,s.w),s)
    def __mul__(s,o): return mul(s,lift(o,s.w))
    def __rmul__(s,o): return mul(s,lift(o,s.w))
    def __and__(s,o): return bvand(s,lift(o,s.w))
    def __rand__(s,o): return bvand(s,lift(o,s.w))
    def __or__(s,o): return bvor(s,lift(o,s.w))
    def __ror__(s,o): return bvor(s,lift(o,s.w))
    def __xor__(s,o): return bvxor(s,lift(o,s.w))
    def __rxor__(s,o): return bvxor(s,lift(o,s.w))
    def __invert__(s): return bvnot(s)
    def __lshift__(s,o): return shl(s,lift(o,s.w))
    def __rshift__(s,o): return lshr(s,lift(o,s.w))
    def __neg__(s): return sub(const(0,s.w),s)
    def __bool__(s): raise TypeError("symbolic term used as python bool: %s"%show(s)[:200])

def _mk(op,w,a):
    k=(op,w,a)
    t=_tab.get(k)
    if t is None:
        t=T.__new__(T); t.op=op; t.w=w; t.a=a; t.id=_n[0]; _n[0]+=1; t._z=None; t._lin=None
        n=1
        for x in a:
            if isinstance(x,T): n+=x._h
            elif isinstance(x,tuple):
                for y in x: n+=y[0]._h if isinstance(y,tuple) and isinstance(y[0],T) else 1
        t._h=n if n<1000000 else 1000000      # tree size, saturated
        _tab[k]=t
    return t

def const(v,w): return _mk('c',w,(v & ((1<<w)-1),))
TRUE=_mk('c',0,(1,)); FALSE=_mk('c',0,(0,))
def boolc(b): return TRUE if b else FALSE
def lift(v,w):
    if isinstance(v,T): return v
    if isinstance(v,bool): return boolc(v) if w==0 else const(int(v),w)
    return const(v,w)
def var(name,w): return _mk('v',w,(name,))
_fc=[0]
def fresh(name,w):
    _fc[0]+=1; return var("%s!%d"%(name,_fc[0]),w)
def fresh_name(name):
    _fc[0]+=1; return "%s!%d"%(name,_fc[0])
def isc(t): return t.op=='c'
def val(t): return t.a[0]
def sval(t):
    v=t.a[0]; return v-(1<<t.w) if v>>(t.w-1) else v

# ---- linear normal form -------------------------------------------------
def lin(t):
    """-> (const, {term:coef}) modulo 2^w"""
    if t._lin is not None: return t._lin
    if t.op=='c': r=(t.a[0],{})
    elif t.op=='lin': r=(t.a[0],dict(t.a[1]))
    else: r=(0,{t:1})
    t._lin=r
    return r
def mklin(c,d,w):
    m=(1<<w)-1; c&=m
    d={k:v&m for k,v in d.items() if v&m}
    if not d: return const(c,w)
    if c==0 and len(d)==1:
        (k,v),=d.items()
        if v==1: return k
    return _mk('lin',w,(c,tuple(sorted(d.items(),key=lambda kv:kv[0].id))))
def add(a,b):
    if a.op=='c' and b.op=='c': return const(a.a[0]+b.a[0],a.w)
    assert a.w==b.w,(a.w,b.w)
    c1,d1=lin(a); c2,d2=lin(b); d=dict(d1)
    for k,v in d2.items(): d[k]=d.get(k,0)+v
    return mklin(c1+c2,d,a.w)
def sub(a,b):
    if a is b: return const(0,a.w)
    assert a.w==b.w,(a.w,b.w)
    c1,d1=lin(a); c2,d2=lin(b); d=dict(d1)
    for k,v in d2.items(): d[k]=d.get(k,0)-v
    return mklin(c1-c2,d,a.w)
def scale(a,k):
    c,d=lin(a); return mklin(c*k,{t:v*k for t,v in d.items()},a.w)
def mul(a,b):
    if a.op=='c': return scale(b,a.a[0])
    if b.op=='c': return scale(a,b.a[0])
    if a.id>b.id: a,b=b,a
    return _mk('mul',a.w,(a,b))
def exact_div(a,k):
    """a/k if every coefficient is divisible (as signed residues), else None"""
    if k==1: return a
    c,d=lin(a); w=a.w
    def q(v):
        s=v-(1<<w) if v>>(w-1) else v
        if s%k: return None
        return s//k
    c2=q(c)
    if c2 is None: return None
    e={}
    for t,v in d.items():
        x=q(v)
        if x is None: return None
        e[t]=x
    return mklin(c2,e,w)

# ---- bit operations -----------------------------------------------------
def udiv(a,b):
    if isc(b) and val(b)==1: return a
    if isc(a) and isc(b) and val(b): return const(val(a)//val(b),a.w)
    return _mk('udiv',a.w,(a,b))
def urem(a,b):
    if isc(a) and isc(b) and val(b): return const(val(a)%val(b),a.w)
    if isc(b) and val(b)==1: return const(0,a.w)
    return _mk('urem',a.w,(a,b))
def sdiv(a,b):
    if isc(a) and isc(b) and val(b):
        x,y=sval(a),sval(b); q=abs(x)//abs(y); return const(q if (x<0)==(y<0) else -q,a.w)
    if isc(b) and val(b)==1: return a
    return _mk('sdiv',a.w,(a,b))
def srem(a,b):
    if isc(a) and isc(b) and val(b):
        x,y=sval(a),sval(b); r=abs(x)%abs(y); return const(r if x>=0 else -r,a.w)
    return _mk('srem',a.w,(a,b))
def bvand(a,b):
    if a.w==0: return And(a,b)
    if isc(a) and isc(b): return const(val(a)&val(b),a.w)
    if isc(a): a,b=b,a
    full=(1<<a.w)-1
    if isc(b):
        if val(b)==0: return b
        if val(b)==full: return a
        if a.op=='and' and isc(a.a[1]): return bvand(a.a[0],const(val(a.a[1])&val(b),a.w))
        v=val(b)
        if v&(v+1)==0: # low mask
            n=v.bit_length(); return zext(extract(a,n-1,0),a.w)
        if a.op=='zext':
            m=a.a[0].w
            if v&((1<<m)-1)==(1<<m)-1: return a
            return zext(bvand(a.a[0],const(v,m)),a.w)
    if a is b: return a
    if not isc(b) and a.id>b.id: a,b=b,a
    return _mk('and',a.w,(a,b))
def bvor(a,b):
    if a.w==0: return Or(a,b)
    if isc(a) and isc(b): return const(val(a)|val(b),a.w)
    if isc(a): a,b=b,a
    if isc(b):
        if val(b)==0: return a
        if val(b)==(1<<a.w)-1: return b
    if a is b: return a
    r=_rot(a,b)
    if r is not None: return r
    if not isc(b) and a.id>b.id: a,b=b,a
    return _mk('or',a.w,(a,b))
def _rot(a,b):
    # (x << n) | (x >> (w-n))  -> concat of extracts ; disjoint concat-with-zero merging
    def parts(t):
        if t.op=='concat': return list(t.a)
        if t.op=='zext': return [const(0,t.w-t.a[0].w),t.a[0]]
        return None
    pa,pb=parts(a),parts(b)
    if pa is None or pb is None: return None
    # merge if at every bit at least one side is constant zero
    out=[]; 
    def split(ps):
        return [(p,p.w) for p in ps]
    A=list(pa); B=list(pb)
    while A and B:
        x,y=A[0],B[0]; n=min(x.w,y.w)
        def take(L):
            h=L[0]
            if h.w==n: L.pop(0); return h
            r=extract(h,h.w-1,h.w-n); L[0]=extract(h,h.w-n-1,0); return r
        x=take(A); y=take(B)
        if isc(x) and val(x)==0: out.append(y)
        elif isc(y) and val(y)==0: out.append(x)
        else: return None
    return concat(*out)
def bvxor(a,b):
    if a.w==0: return Not(Iff(a,b))
    if isc(a) and isc(b): return const(val(a)^val(b),a.w)
    if isc(a): a,b=b,a
    if isc(b):
        if val(b)==0: return a
        if val(b)==(1<<a.w)-1: return bvnot(a)
    if a is b: return const(0,a.w)
    # flatten for a canonical form
    items={}
    cst=0
    def coll(t):
        nonlocal cst
        if t.op=='xor':
            for u in t.a: coll(u)
        elif t.op=='c': cst^=t.a[0]
        elif t.op=='lin' and t.a[0]==(1<<t.w)-1 and len(t.a[1])==1 and t.a[1][0][1]==(1<<t.w)-1:
            cst^=(1<<t.w)-1; coll(t.a[1][0][0])
        else:
            if t in items: del items[t]
            else: items[t]=1
    coll(a); coll(b)
    L=sorted(items,key=lambda t:t.id)
    if not L: return const(cst,a.w)
    inv=False
    if cst==(1<<a.w)-1: inv=True; cst=0
    if cst: L.append(const(cst,a.w))
    r=L[0] if len(L)==1 else _mk('xor',a.w,tuple(L))
    return sub(const(-1,a.w),r) if inv else r
def bvnot(a):
    if a.w==0: return Not(a)
    return sub(const(-1,a.w),a)
def shl(a,b):
    if isc(b):
        n=val(b)
        if n==0: return a
        if n>=a.w: return const(0,a.w)
        if isc(a): return const(val(a)<<n,a.w)
        return concat(extract(a,a.w-1-n,0),const(0,n)) if a.op not in('lin',) else scale(a,1<<n) if False else concat(extract(a,a.w-1-n,0),const(0,n))
    return _mk('shl',a.w,(a,b))
def lshr(a,b):
    if isc(b):
        n=val(b)
        if n==0: return a
        if n>=a.w: return const(0,a.w)
        return zext(extract(a,a.w-1,n),a.w)
    return _mk('lshr',a.w,(a,b))
def ashr(a,b):
    if isc(b):
        n=val(b)
        if n==0: return a
        if isc(a): return const(sval(a)>>min(n,a.w-1),a.w)
        if a.op=='zext': return lshr(a,b)
        if n<a.w: return sext(extract(a,a.w-1,n),a.w)
    return _mk('ashr',a.w,(a,b))
def extract(a,hi,lo):
    w=hi-lo+1
    assert 0<=lo<=hi<a.w,(hi,lo,a.w)
    if w==a.w: return a
    o=a.op
    if o=='c': return const(val(a)>>lo,w)
    if o=='ext': return extract(a.a[0],hi+a.a[2],lo+a.a[2])
    if o=='zext':
        x=a.a[0]
        if lo>=x.w: return const(0,w)
        if hi<x.w: return extract(x,hi,lo)
        return zext(extract(x,x.w-1,lo),w)
    if o=='sext':
        x=a.a[0]
        if hi<x.w: return extract(x,hi,lo)
        if lo<x.w: return sext(extract(x,x.w-1,lo),w)
    if o=='concat':
        out=[]; pos=a.w
        for p in a.a:
            top=pos-1; bot=pos-p.w; pos=bot
            h=min(hi,top); l=max(lo,bot)
            if h>=l: out.append(extract(p,h-bot,l-bot))
        return concat(*out)
    if a._h>200 and o in('and','or','xor','lin','mul','ite'): return _mk('ext',w,(a,hi,lo))
    if o in('and','or'): return (bvand if o=='and' else bvor)(extract(a.a[0],hi,lo),extract(a.a[1],hi,lo)) if (isc(a.a[1]) or lo==0) else _mk('ext',w,(a,hi,lo))
    if o=='xor':
        r=extract(a.a[0],hi,lo)
        for u in a.a[1:]: r=bvxor(r,extract(u,hi,lo))
        return r
    if o=='lin' and lo==0:
        c,d=a.a
        r=const(c,w)
        for t,k in d: r=add(r,scale(extract(t,hi,0),k))
        return r
    if o=='mul' and lo==0: return mul(extract(a.a[0],hi,0),extract(a.a[1],hi,0))
    if o=='ite': return Ite(a.a[0],extract(a.a[1],hi,lo),extract(a.a[2],hi,lo))
    return _mk('ext',w,(a,hi,lo))
def concat(*ps):
    out=[]
    for p in ps:
        L=p.a if p.op=='concat' else ([const(0,p.w-p.a[0].w),p.a[0]] if p.op=='zext' else (p,))
        for q in L:
            if out:
                r=out[-1]
                if r.op=='c' and q.op=='c': out[-1]=const((val(r)<<q.w)|val(q),r.w+q.w); continue
                if r.op=='ext' and q.op=='ext' and r.a[0] is q.a[0] and r.a[2]==q.a[1]+1:
                    out[-1]=extract(r.a[0],r.a[1],q.a[2]); continue
                if r.op=='ext' and r.a[2]==q.w and r.a[0] is q: pass
            out.append(q)
    # x[hi..k] ++ x[k-1..0] where low part is extract handled above; low part whole-var case
    if len(out)==1: return out[0]
    if len(out)==2 and out[0].op=='c' and val(out[0])==0: return zext(out[1],out[0].w+out[1].w)
    return _mk('concat',sum(p.w for p in out),tuple(out))
def zext(a,w):
    if a.w==0: return Ite(a,const(1,w),const(0,w))
    if a.w==w: return a
    assert w>a.w
    if isc(a): return const(val(a),w)
    if a.op=='zext': return zext(a.a[0],w)
    if a.op=='concat' and isc(a.a[0]) and val(a.a[0])==0:
        return concat(const(0,w-a.w),*a.a) if False else _mk('zext',w,(concat(*a.a[1:]),)) if len(a.a)>1 else const(0,w)
    if a.op=='ite' and isc(a.a[1]) and isc(a.a[2]): return Ite(a.a[0],zext(a.a[1],w),zext(a.a[2],w))
    return _mk('zext',w,(a,))
def sext(a,w):
    if a.w==0: return Ite(a,const(-1,w),const(0,w))
    if a.w==w: return a
    if isc(a): return const(sval(a),w)
    if a.op=='zext' and a.a[0].w<a.w: return zext(a.a[0],w)
    if a.op=='sext': return sext(a.a[0],w)
    if a.op=='ite' and isc(a.a[1]) and isc(a.a[2]): return Ite(a.a[0],sext(a.a[1],w),sext(a.a[2],w))
    return _mk('sext',w,(a,))
def resize(a,w,signed=False):
    if a.w==w: return a
    if a.w>w: return extract(a,w-1,0)
    return sext(a,w) if signed else zext(a,w)

# ---- booleans -----------------------------------------------------------
def Not(a):
    if a.op=='c': return boolc(not a.a[0])
    if a.op=='not': return a.a[0]
    if a.op=='ult': return ule(a.a[1],a.a[0])
    if a.op=='ule': return ult(a.a[1],a.a[0])
    if a.op=='slt': return sle(a.a[1],a.a[0])
    if a.op=='sle': return slt(a.a[1],a.a[0])
    return _mk('not',0,(a,))
def And(*xs):
    out=[]; seen=set()
    def go(x):
        if x.op=='and0':
            for y in x.a:
                if not go(y): return False
            return True
        if x is TRUE: return True
        if x is FALSE: return False
        if x in seen: return True
        if Not(x) in seen: return False
        seen.add(x); out.append(x); return True
    for x in xs:
        if isinstance(x,(list,tuple)): x=And(*x)
        if isinstance(x,bool): x=boolc(x)
        if not go(x): return FALSE
    if not out: return TRUE
    if len(out)==1: return out[0]
    return _mk('and0',0,tuple(out))
def Or(*xs):
    ys=[]
    for x in xs:
        if isinstance(x,(list,tuple)): x=Or(*x)
        if isinstance(x,bool): x=boolc(x)
        ys.append(Not(x))
    return Not(And(*ys))
def Implies(a,b): return Or(Not(a) if not isinstance(a,bool) else boolc(not a),b)
def Iff(a,b):
    if a is b: return TRUE
    if isc(a): return b if val(a) else Not(b)
    if isc(b): return a if val(b) else Not(a)
    if a.id>b.id: a,b=b,a
    return _mk('iff',0,(a,b))
def Ite(c,a,b):
    if isinstance(c,bool): c=boolc(c)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.w==0: 
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return Not(c)
        return And(Implies(c,a),Or(c,b))
    if c.op=='not': return Ite(c.a[0],b,a)
    if a.op=='ite' and a.a[0] is c: a=a.a[1]
    if b.op=='ite' and b.a[0] is c: b=b.a[2]
    if b.op=='ite' and b.a[1] is a: return Ite(Or(c,b.a[0]),a,b.a[2])
    return _mk('ite',a.w,(c,a,b))
def eq(a,b):
    if a is b: return TRUE
    b=lift(b,a.w)
    if a.w==0: return Iff(a,b)
    assert a.w==b.w,(a.w,b.w)
    if a.op=='c' and b.op=='c': return boolc(a.a[0]==b.a[0])
    if isc(a): a,b=b,a
    if isc(b):
        if a.op=='ite':
            x,y=a.a[1],a.a[2]
            if isc(x) or isc(y): return Or(And(a.a[0],eq(x,b)),And(Not(a.a[0]),eq(y,b)))
        if a.op=='zext':
            n=a.a[0].w
            if val(b)>>n: return FALSE
            return eq(a.a[0],const(val(b),n))
        if a.op=='sext':
            n=a.a[0].w; v=const(val(b),n)
            if sext(v,a.w) is not b: return FALSE
            return eq(a.a[0],v)
    if a.op=='zext' and b.op=='zext' and a.a[0].w==b.a[0].w: return eq(a.a[0],b.a[0])
    if a.op=='sext' and b.op=='sext' and a.a[0].w==b.a[0].w: return eq(a.a[0],b.a[0])
    if a.op=='concat' and b.op=='concat' and [p.w for p in a.a]==[p.w for p in b.a]:
        return And(*[eq(p,q) for p,q in zip(a.a,b.a)])
    d=sub(a,b)
    if isc(d): return boolc(val(d)==0)
    # move to canonical orientation
    if a.op=='lin' or b.op=='lin':
        c,m=lin(d)
        if len(m)==1:
            (t,k),=m.items()
            if k==1: 
                r=const(-c,a.w)
                if t is not a or r is not b: return eq(t,r) if t.op in('zext','sext','ite') else _mk('eq',0,(t,r))
            elif k==(1<<a.w)-1:
                return eq(t,const(c,a.w)) if t.op in('zext','sext','ite') else _mk('eq',0,(t,const(c,a.w)))
    if not isc(b) and a.id>b.id: a,b=b,a
    return _mk('eq',0,(a,b))
def ne(a,b): return Not(eq(a,b))
def ult(a,b):
    a,b=_l2(a,b)
    if a is b: return FALSE
    if isc(a) and isc(b): return boolc(val(a)<val(b))
    if isc(b) and val(b)==0: return FALSE
    if isc(b) and val(b)==1: return eq(a,const(0,a.w))
    if isc(a) and val(a)==0: return ne(b,a)
    if isc(a) and val(a)==(1<<a.w)-1: return FALSE
    if a.op=='zext':
        n=a.a[0].w
        if isc(b): return TRUE if val(b)>>n else ult(a.a[0],const(val(b),n))
        if b.op=='zext' and b.a[0].w==n: return ult(a.a[0],b.a[0])
    if b.op=='zext' and isc(a):
        n=b.a[0].w
        return FALSE if val(a)>=(1<<n)-1 else ult(const(val(a),n),b.a[0])
    return _mk('ult',0,(a,b))
def ule(a,b):
    a,b=_l2(a,b)
    if a is b: return TRUE
    if isc(a) and isc(b): return boolc(val(a)<=val(b))
    if isc(a) and val(a)==0: return TRUE
    if isc(b) and val(b)==(1<<b.w)-1: return TRUE
    if isc(b) and val(b)==0: return eq(a,b)
    if isc(a): return ult(const(val(a)-1,a.w),b)
    if isc(b): return ult(a,const(val(b)+1,b.w))
    if a.op=='zext' and b.op=='zext' and a.a[0].w==b.a[0].w: return ule(a.a[0],b.a[0])
    return _mk('ule',0,(a,b))
def ugt(a,b): return ult(*reversed(_l2(a,b)))
def uge(a,b): return ule(*reversed(_l2(a,b)))
def _l2(a,b):
    if not isinstance(a,T): a=lift(a,b.w)
    if not isinstance(b,T): b=lift(b,a.w)
    assert a.w==b.w,(a.w,b.w)
    return a,b
def slt(a,b):
    a,b=_l2(a,b)
    if a is b: return FALSE
    if isc(a) and isc(b): return boolc(sval(a)<sval(b))
    # zero-extended values are non-negative
    if a.op=='zext' and isc(b): return ult(a,b) if sval(b)>=0 else FALSE
    if b.op=='zext' and isc(a): return ult(a,b) if sval(a)>=0 else TRUE
    if a.op=='zext' and b.op=='zext': return ult(a,b)
    if a.op=='sext' and isc(b):
        n=a.a[0].w; lo,hi=-(1<<(n-1)),(1<<(n-1))-1; v=sval(b)
        if v>hi: return TRUE
        if v<=lo: return FALSE
        return slt(a.a[0],const(v,n))
    if b.op=='sext' and isc(a):
        n=b.a[0].w; lo,hi=-(1<<(n-1)),(1<<(n-1))-1; v=sval(a)
        if v<lo: return TRUE
        if v>=hi: return FALSE
        return slt(const(v,n),b.a[0])
    return _mk('slt',0,(a,b))
def sle(a,b):
    a,b=_l2(a,b)
    if a is b: return TRUE
    if isc(a) and isc(b): return boolc(sval(a)<=sval(b))
    if isc(b) and sval(b)<(1<<(b.w-1))-1: return slt(a,const(sval(b)+1,b.w))
    if isc(a) and sval(a)>-(1<<(a.w-1)): return slt(const(sval(a)-1,a.w),b)
    if a.op=='zext' and b.op=='zext': return ule(a,b)
    return _mk('sle',0,(a,b))
def sgt(a,b): a,b=_l2(a,b); return slt(b,a)
def sge(a,b): a,b=_l2(a,b); return sle(b,a)
def sel(base,ew,idx): return _mk('sel',ew,(base,idx))
def uf(name,w,*args): return _mk('uf',w,(name,)+args)
def forall(vs,body): return body if isc(body) else _mk('forall',0,(tuple(vs),body))
def umin(a,b): a,b=_l2(a,b); return Ite(ult(a,b),a,b)
def umax(a,b): a,b=_l2(a,b); return Ite(ult(a,b),b,a)

def bswap(t):
    n=t.w//8
    return concat(*[extract(t,8*i+7,8*i) for i in range(n)])

# ---- z3 -----------------------------------------------------------------
def z(t):
    if t._z is not None: return t._z
    st=[t]
    while st:
        x=st[-1]
        if x._z is not None: st.pop(); continue
        ks=[k for k in _kids(x) if k._z is None]
        if ks: st.extend(ks); continue
        x._z=_z1(x); st.pop()
    return t._z
def _kids(x):
    o=x.op
    if o in('c','v'): return ()
    if o=='lin': return [k for k,_ in x.a[1]]
    if o=='sel': return (x.a[1],)
    if o=='uf': return x.a[1:]
    if o=='ext': return (x.a[0],)
    if o=='forall': return (x.a[1],)+x.a[0]
    return x.a
_arr={}; _fn={}
def _z1(x):
    o=x.op; w=x.w; a=x.a
    if o=='c': return (z3.BoolVal(bool(a[0])) if w==0 else z3.BitVecVal(a[0],w))
    if o=='v': return z3.Bool(a[0]) if w==0 else z3.BitVec(a[0],w)
    if o=='lin':
        r=None
        neg=[]
        for t,k in a[1]:
            sk=k-(1<<w) if k>>(w-1) else k
            if sk<0: neg.append((t,-sk)); continue
            e=t._z if sk==1 else t._z*z3.BitVecVal(sk,w)
            r=e if r is None else r+e
        if a[0] and not (a[0]>>(w-1)): r=z3.BitVecVal(a[0],w) if r is None else r+z3.BitVecVal(a[0],w)
        if r is None: r=z3.BitVecVal(a[0],w); done=True
        else: done=not(a[0]>>(w-1))
        for t,k in neg:
            e=t._z if k==1 else t._z*z3.BitVecVal(k,w)
            r=r-e
        if not done: r=r-z3.BitVecVal((1<<w)-a[0],w)
        return r
    if o=='sel':
        k=(a[0],w,a[1].w)
        A=_arr.get(k)
        if A is None: A=_arr[k]=z3.Array(a[0],z3.BitVecSort(a[1].w),z3.BitVecSort(w) if w else z3.BoolSort())
        return z3.Select(A,a[1]._z)
    if o=='uf':
        ar=a[1:]; k=(a[0],w,tuple(t.w for t in ar))
        F=_fn.get(k)
        if F is None:
            s=lambda n: z3.BitVecSort(n) if n else z3.BoolSort()
            F=_fn[k]=z3.Function(a[0],*[s(t.w) for t in ar],s(w))
        return F(*[t._z for t in ar])
    if o=='forall': return z3.ForAll([v._z for v in a[0]],a[1]._z)
    if o=='not': return z3.Not(a[0]._z)
    if o=='and0': return z3.And(*[t._z for t in a])
    if o=='iff': return a[0]._z==a[1]._z
    if o=='eq': return a[0]._z==a[1]._z
    if o=='ult': return z3.ULT(a[0]._z,a[1]._z)
    if o=='ule': return z3.ULE(a[0]._z,a[1]._z)
    if o=='slt': return a[0]._z<a[1]._z
    if o=='sle': return a[0]._z<=a[1]._z
    if o=='ite': return z3.If(a[0]._z,a[1]._z,a[2]._z)
    if o=='mul': return a[0]._z*a[1]._z
    if o=='udiv': return z3.UDiv(a[0]._z,a[1]._z)
    if o=='urem': return z3.URem(a[0]._z,a[1]._z)
    if o=='sdiv': return a[0]._z/a[1]._z
    if o=='srem': return z3.SRem(a[0]._z,a[1]._z)
    if o=='and': return a[0]._z&a[1]._z
    if o=='or': return a[0]._z|a[1]._z
    if o=='xor':
        r=a[0]._z
        for t in a[1:]: r=r^t._z
        return r
    if o=='shl': return a[0]._z<<a[1]._z
    if o=='lshr': return z3.LShR(a[0]._z,a[1]._z)
    if o=='ashr': return a[0]._z>>a[1]._z
    if o=='ext': return z3.Extract(a[1],a[2],a[0]._z)
    if o=='concat': return z3.Concat(*[t._z for t in a])
    if o=='zext': return z3.ZeroExt(w-a[0].w,a[0]._z)
    if o=='sext': return z3.SignExt(w-a[0].w,a[0]._z)
    raise RuntimeError(o)

def subst(t,mp,_memo=None):
    """substitute terms (dict term->term)"""
    memo={} if _memo is None else _memo
    def go(x):
        if x in mp: return mp[x]
        r=memo.get(x)
        if r is not None: return r
        o=x.op; a=x.a
        if o in('c','v'): r=x
        elif o=='lin':
            r=const(a[0],x.w)
            for k,v in a[1]: r=add(r,scale(go(k),v))
        elif o=='sel': r=sel(a[0],x.w,go(a[1]))
        elif o=='uf': r=uf(a[0],x.w,*[go(k) for k in a[1:]])
        elif o=='ext': r=extract(go(a[0]),a[1],a[2])
        else:
            b=[go(k) for k in a]
            r={'not':Not,'and0':And,'iff':Iff,'eq':eq,'ult':ult,'ule':ule,'slt':slt,'sle':sle,'ite':Ite,'mul':mul,'udiv':udiv,'urem':urem,'sdiv':sdiv,'srem':srem,'and':bvand,'or':bvor,'shl':shl,'lshr':lshr,'ashr':ashr,'concat':concat}[o](*b) if o not in('xor','zext','sext') else (zext(b[0],x.w) if o=='zext' else sext(b[0],x.w) if o=='sext' else _fold(bvxor,b))
        memo[x]=r
        return r
    return go(t)
def _fold(f,b):
    r=b[0]
    for x in b[1:]: r=f(r,x)
    return r
def show(t,d=6):
    if d==0: return "…"
    o=t.op; a=t.a
    if o=='c': return str(bool(a[0])) if t.w==0 else (str(a[0]) if a[0]<1<<(t.w-1) or t.w<16 else str(a[0]-(1<<t.w)))
    if o=='v': return a[0]
    s=lambda x: show(x,d-1)
    if o=='lin':
        w=t.w
        L=["%s%s"%("" if k==1 else ("%d*"%(k if k<1<<(w-1) else k-(1<<w))),s(x)) for x,k in a[1]]
        if a[0]: L.append(str(a[0] if a[0]<1<<(w-1) else a[0]-(1<<w)))
        return "("+" + ".join(L)+")"
    if o=='sel': return "%s[%s]"%(a[0],s(a[1]))
    if o=='uf': return "%s(%s)"%(a[0],",".join(s(x) for x in a[1:]))
    if o=='ext': return "%s{%d:%d}"%(s(a[0]),a[1],a[2])
    if o in('zext','sext'): return "%s%d(%s)"%(o,t.w,s(a[0]))
    if o=='forall': return "forall(%s)"%s(a[1])
    return "%s(%s)"%(o,", ".join(s(x) for x in a))
