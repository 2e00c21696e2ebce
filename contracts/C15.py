from fw import *
from texts import *
prop("C15",oracle="C15.cpp")
K=var('K',64)
def chars(x,*cs): return Or(*[eq(x,const(ord(ch),x.w)) for ch in cs])
def rng(x,a,b): return And(ule(const(ord(a),x.w),x),ule(x,const(ord(b),x.w)))
def dig(x,w):
    """digit value of a unit as a w-bit number; 36 and more: not a digit"""
    x=zext(x,64) if x.w<64 else x
    d=Ite(rng(x,'0','9'),x-48,Ite(rng(x,'A','Z'),x-55,Ite(rng(x,'a','z'),x-87,const(99,64))))
    return extract(d,w-1,0) if w<64 else d
def rs(x,w): return x if x.w==w else zext(x,w) if x.w<w else extract(x,w-1,0)
def fits(v,d,r,W): M=const((1<<W)-1,W); return Or(ult(v,udiv(M,r)),And(eq(v,udiv(M,r)),ule(d,urem(M,r))))
def lemma(W):
    @root("lemma: v*radix+digit fits %d bits"%W)
    def f(c):
        for r in range(2,37):
            v,d=c.var('v',W),c.var('d',W); R=const(r,W)
            if r==2: c.cover(c.st)
            c.post(c.st,"radix %d: v*radix+digit fits exactly when v < max/radix, or v = max/radix and digit <= max mod radix"%r,Implies(ult(d,R),Iff(eq(extract(zext(v,W+8)*const(r,W+8)+zext(d,W+8),W+7,W),const(0,8)),fits(v,d,R,W))))
for W in (8,16,32,64): lemma(W)
class Num:
    """ghost reading of the number at the start of text s in the given radix, as a W-bit magnitude"""
    def __init__(n,c,s,radix,W,auto=None):
        n.s,n.W=s,W; E=s.E; S=n.S=c.var('S',64); at=s.__getitem__; sp=n.sp=lambda x: chars(x,*" \t\n\r\v\f")
        c.assume(ule(S,E),Implies(ult(S,E),Not(sp(at(S)))))
        sg=And(ult(S,E),chars(at(S),'+','-')); n.neg=And(ult(S,E),chars(at(S),'-')); p=n.p=Ite(sg,S+1,S)
        zero=And(ult(p,E),chars(at(p),'0')); x2=And(zero,ult(p+1,E),chars(at(p+1),'x','X')); r16=eq(radix,const(16,32)); r0=eq(radix,const(0,32))
        q=n.q=Ite(And(Or(r16,r0),x2),p+2,Ite(And(r0,zero),p+1,p)); n.radix=dict(hex=const(16,32),oct=const(8,32),dec=const(10,32))[auto] if auto else radix
        if auto: c.assume(dict(hex=x2,oct=And(zero,Not(x2)),dec=Not(zero))[auto])
        D=n.D=c.var('D',64); n.valid=lambda i: uf('valid_digit',0,i); n.dg=lambda i: uf('digit',8,i); n.fx=lambda i: And(eq(n.dg(i),dig(at(i),8)),Iff(n.valid(i),ult(n.dg(i),rs(n.radix,8))))
        c.assume(ule(q,D),ule(D,E),Implies(ult(D,E),Not(n.valid(D))),s.fact(S),s.fact(p),s.fact(p+1),s.fact(p+2),s.fact(q),s.fact(D),n.fx(q),n.fx(D))
        # value of the digits q..k: exact (2W-bit) arithmetic; 'over' stays once the value left the W-bit range
        n.v=lambda k: uf('value%d'%W,W,k); n.over=lambda k: uf('over',0,k)
        wide=lambda k: zext(n.v(k),W+8)*rs(n.radix,W+8)+rs(n.dg(k),W+8)
        if isc(n.radix):
            n.step=lambda k: And(Iff(n.over(k+1),Or(n.over(k),ne(extract(wide(k),W+7,W),const(0,8)))),eq(n.v(k+1),extract(wide(k),W-1,0)))
        else:   # the same step with the overflow test as a division: the lemma roots prove the two forms equivalent for every radix 2..36
            n.step=lambda k: And(Implies(n.valid(k),Iff(n.over(k+1),Or(n.over(k),Not(fits(n.v(k),rs(n.dg(k),W),rs(n.radix,W),W))))),eq(n.v(k+1),n.v(k)*rs(n.radix,W)+rs(n.dg(k),W)))
        c.assume(Not(n.over(q)),eq(n.v(q),const(0,W)))
def inner(t,W,r,sg=''):
    @root("strtoint<%s,uint%d_t> radix %s%s"%(t,W,"0 (%s)"%r if r in("hex","oct","dec") else r,sg),budget=500,thorough=t!="c" and (t,W) not in(("w",32),("h",64)))
    def f(c):
        c.ex.merge=True; n=c.size('count'); s=Text(c,'str',t,n); auto=r if r in('hex','oct','dec') else None; rad=const(0 if auto else r,32) if r!='other' else c.var('radix',32)
        if r=='other': c.assume(ule(const(2,32),rad),ule(rad,const(36,32)),ne(rad,const(16,32)))
        g=Num(c,s,rad,W,auto); fl=c.cells('flags',1); en=c.cells('end',8)
        c.loop(lambda v,i: [ule(i,g.S)],['i'],name="skip space",dec=lambda v,i: g.S-i,assume=lambda v,i: [Implies(ult(i,g.S),g.sp(s[i])),s.fact(i)])
        c.loop(lambda v,i,val,fg: [ule(g.q,i),ult(i,g.D+1),ult(i,s.E),eq(fg&1,Ite(g.neg,const(1,8),const(0,8))),eq(fg&0xfc,const(0,8)),Iff(ne(fg&2,const(0,8)),g.over(i)),Implies(Not(g.over(i)),eq(val,g.v(i)))],[('i',64),('value',W),('flags',8)],name="digits",dec=lambda v,i,*_: g.D+1-i,
            assume=lambda v,i,*_: [Implies(ult(i,g.D),g.valid(i)),g.fx(i),g.step(i),s.fact(i),s.fact(i+1)])
        for k,y in c.call("h_in%d_%s"%(W,t),[s.p,n,NULL if sg else P(en),rad,P(fl)]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            F=c.ex.load_raw(y,P(fl),1); 
            if not sg: c.post(y,"stops behind the last digit",eq(c.ex.load_raw(y,P(en),8),g.D))
            c.post(y,"reports the sign",Iff(ne(F&1,const(0,8)),g.neg)); c.post(y,"flags overflow exactly when the value does not fit",Iff(ne(F&2,const(0,8)),g.over(g.D)))
            c.post(y,"returns the value of the digits",Implies(Not(g.over(g.D)),eq(y.ghost['ret'],g.v(g.D))))
for t in 'cwh':
    for W in (64,32,16,8):
        for r in ('hex','oct','dec','other',16): inner(t,W,r)
    inner(t,8,16,' without end')
def outer(t,W,kind,arr):
    fn="h_to%s%s%s%d_%s"%('u' if kind[0]=='u' else '','i' if 'i' in kind else '','a' if arr else '',W,t)
    @root(fn[2:])
    def f(c):
        n=const(16,64) if arr else c.size('count'); s=c.arr('str',WIDTH[t],n); rad=c.var('radix',32); en=c.cells('end',8)
        D,m,fl=c.var('D',64),c.var('magnitude',W),c.var('flags',8); neg=ne(fl&1,const(0,8)); over=ne(fl&2,const(0,8)); c.assume(eq(fl&0xfc,const(0,8)))
        def contract(ex,st,nm,a,I):
            ex.check(st,"parses the caller's text, limit, radix and end",And(boolc(a[0].r is s and a[2].r is en),eq(a[0].off,Z),eq(a[1],n),eq(a[2].off,Z),eq(a[3],rad)),kind='pre')
            rawcell(ex,st,a[2],8,D); rawcell(ex,st,a[4],1,fl); return m
        c.model(r'^unsigned %s stdex::strtoint<\w+, unsigned \w+>\(.*unsigned char&\)$'%{8:'char',16:'short',32:'int',64:'long'}[W],contract,"contract of stdex::strtoint<T,T_bin>(.., flags) (discharged by the roots strtoint<..>)")
        mn=const(1<<(W-1),W); zero=const(0,W)
        if kind[0]=='u': want=Ite(over,Ite(neg,zero,const((1<<W)-1,W)),Ite(neg,zero-m,m))
        else: want=Ite(neg,Ite(Or(over,ult(mn,m)),mn,zero-m),Ite(Or(over,ule(mn,m)),mn-1,m))
        for k,y in c.call(fn,[P(s)]+([n] if not arr else [])+[P(en),rad]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            c.post(y,"exact value or saturated in the direction of the sign" if kind[0]!='u' else "exact value, negated modulo 2^n by a minus sign, or saturated",eq(y.ghost['ret'],want)); c.post(y,"reports the end",eq(c.ex.load_raw(y,P(en),8),D))
for t in 'cwh':
    for a in (0,1):
        for k in 'su':
            for W in (8,16,32,64): outer(t,W,k,a)
            outer(t,64,k+'i',a)
