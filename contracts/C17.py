from fw import *
from texts import *
prop("C17",oracle="C17.cpp")
K=var('K',64); TWO=const(2,64)
def within(x,*rs): return Or(*[And(ule(const(a,x.w),x),ult(x,const(b,x.w))) for a,b in rs])
high=lambda x: within(x,(0xd800,0xdc00)); low=lambda x: within(x,(0xdc00,0xe000))
comb=lambda x: within(x,(0x300,0x370),(0x1dc0,0x1e00),(0x20d0,0x2100),(0xfe20,0xfe30))
def tb(v): return v if v.w==0 else ne(v,const(0,v.w))
@root("surrogate and combining predicates")
def preds(c):
    x=c.var('unit',16); y=c.var('code point',32)
    for fn,a,sp in (("h_high",x,high),("h_low",x,low),("h_comb",y,comb)):
        for k,s in c.call(fn,[a]): c.cover(s); c.post(s,fn[2:]+" holds for exactly the Unicode range",And(boolc(k=='end'),Iff(tb(s.ghost['ret']),sp(a))))
    r=c.arr('str',2,TWO); A=c.st.mem[r.id][0]
    for k,s in c.call("h_pair",[P(r)]): c.post(s,"a high surrogate followed by a low one",And(boolc(k=='end'),Iff(tb(s.ghost['ret']),And(high(A.sel(Z)),low(A.sel(ONE))))))
@root("splitting a supplementary code point")
def split(c):
    u=c.var('code point',32); c.assume(within(u,(0x10000,0x110000))); r=c.arr('str',2,TWO)
    for k,s in c.call("h_split",[P(r),u]):
        c.cover(s); A=s.mem[r.id][0]; v=u-0x10000
        c.post(s,"the two surrogates of UTF-16",And(boolc(k=='end'),eq(A.sel(Z),extract(v>>10,15,0)+0xd800),eq(A.sel(ONE),(extract(v,15,0)&0x3ff)+0xdc00)))
        for k2,y in c.call("h_join",[P(r)],st=s): c.cover(y); c.post(y,"joining gives the code point back",And(boolc(k2=='end'),eq(y.ghost['ret'],u)))
@root("joining a surrogate pair")
def join(c):
    r=c.arr('str',2,TWO); A=c.st.mem[r.id][0]; a,b=A.sel(Z),A.sel(ONE); c.assume(high(a),low(b))
    for k,s in c.call("h_join",[P(r)]):
        u=s.ghost['ret']; c.cover(s); c.post(s,"a supplementary code point",And(boolc(k=='end'),within(u,(0x10000,0x110000))))
        for k2,y in c.call("h_split",[P(r),u],st=s): c.cover(y); B=y.mem[r.id][0]; c.post(y,"splitting gives the pair back",And(boolc(k2=='end'),eq(B.sel(Z),a),eq(B.sel(ONE),b)))
rs32=lambda x: zext(x,32) if x.w<32 else x
def model_comb(c): c.model(r'^bool stdex::iscombining\(wchar_t\)$|^stdex::iscombining\(wchar_t\)$',lambda ex,st,n,a,I: comb(a[0]),"contract of stdex::iscombining (discharged by root surrogate and combining predicates)")
for t in 'hw':
    def ln(c,t=t):
        model_comb(c); n=c.size('count'); r=c.arr('glyph',WIDTH[t],n); A=c.st.mem[r.id][0]; g=lambda i: rs32(A.sel(i))
        b=Ite(And(ule(TWO,n),high(A.sel(Z)),low(A.sel(ONE))),TWO,ONE) if t=='h' else ONE
        c.loop(lambda v,i: [ule(b,i),ule(i,n),Implies(And(ule(b,K),ult(K,i)),comb(g(K)))],['i'],dec=lambda v,i: n-i)
        for k,y in c.call("h_len_"+t,[P(r),n]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end')); R=y.ghost['ret']; ne0=ule(ONE,n)
            c.post(y,"0 for no text",Implies(eq(n,Z),eq(R,Z))); c.post(y,"at least the base character, at most the limit",Implies(ne0,And(ule(b,R),ule(R,n))))
            c.post(y,"covers combining marks only",Implies(And(ne0,ule(b,K),ult(K,R)),comb(g(K)))); c.post(y,"stops at the first unit that is no combining mark",Implies(And(ne0,ult(R,n)),Not(comb(g(R)))))
    def rl(c,t=t):
        model_comb(c); n=c.size('count'); r=c.arr('str',WIDTH[t],n); A=c.st.mem[r.id][0]; g=lambda i: rs32(A.sel(i)); c.assume(ule(ONE,n),ne(A.sel(n-1),const(0,8*WIDTH[t])))
        c.loop(lambda v,i: [ule(i,n),Implies(And(ule(i,K),ult(K,n)),comb(g(K)))],['i'],dec=lambda v,i: i)
        for k,y in c.call("h_rlen_"+t,[P(r),n]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end')); R=y.ghost['ret']; s=n-R
            base=Ite(And(ult(s+1,n),high(A.sel(s)),low(A.sel(s+1))),s+1,s) if t=='h' else s       # the base code unit: the last unit of the base character
            c.post(y,"at least one unit, at most the whole text",And(ule(ONE,R),ule(R,n)))
            c.post(y,"starts at a character that is no combining mark, unless there is none",Or(Not(comb(g(base))),eq(R,n)))
            c.post(y,"only combining marks follow the base character",Implies(And(ult(base,K),ult(K,n)),comb(g(K))))
            if t=='h': c.post(y,"does not cut a surrogate pair",Not(And(ult(Z,s),ult(s,n),low(A.sel(s)),high(A.sel(s-1)),Not(comb(g(s))))))
    root("glyphlen utf"+dict(h='16',w='32')[t])(ln); root("glyphrlen utf"+dict(h='16',w='32')[t])(rl)
