from fw import *
from texts import *
prop("C16",oracle="C16.cpp")
K,J=var('K',64),var('J',64)
def chars(x,*cs): return Or(*[eq(x,const(ord(ch),x.w)) for ch in cs])
def rng(x,a,b): return And(ule(const(ord(a),x.w),x),ule(x,const(ord(b),x.w)))
CL=dict(isspace=lambda x: chars(x,*" \t\n\r\v\f"),ispunct=lambda x: Or(rng(x,'!','/'),rng(x,':','@'),rng(x,'[','`'),rng(x,'{','~')),islower=lambda x: rng(x,'a','z'),isupper=lambda x: rng(x,'A','Z'),isdigit=lambda x: rng(x,'0','9'),
    isalpha=lambda x: Or(rng(x,'a','z'),rng(x,'A','Z')),is7bit=lambda x: ule(x,const(0x7f,x.w)),islbreak=lambda x: chars(x,*"\n\r"))
def tb(v): return v if v.w==0 else ne(v,const(0,v.w))
def classes(t):
    @root("predicates_"+t)
    def f(c):
        x=c.var('chr',8*WIDTH[t])
        for nm,sp in CL.items():
            for k,y in c.call("h_%s_%s"%(nm,t),[x]): c.cover(y); c.post(y,nm+" holds for exactly the documented characters",And(boolc(k=='end'),Iff(tb(y.ghost['ret']),sp(x))))
    root('tolower_'+t)(lambda c: fold_root(c,'h_tolower_'+t,lower,t)); root('toupper_'+t)(lambda c: fold_root(c,'h_toupper_'+t,upper,t))
    @root("line break "+t)
    def g(c):
        n=c.size('count'); r=c.arr('chr',WIDTH[t],n); A=c.st.mem[r.id][0]; a,b=A.sel(Z),A.sel(ONE)
        two=And(ule(const(2,64),n),Or(And(chars(a,'\r'),chars(b,'\n')),And(chars(a,'\n'),chars(b,'\r')))); one=And(ule(ONE,n),chars(a,'\n','\r'))
        for k,y in c.call("h_lbreak_"+t,[P(r),n]): c.cover(y); c.post(y,"2 for a pair, 1 for a single line break, 0 otherwise",And(boolc(k=='end'),eq(y.ghost['ret'],Ite(two,const(2,64),Ite(one,ONE,Z)))))
def allof(name,t,pred,suf=''):
    fn="h_%s%s_%s"%(name,suf,t)
    @root(fn[2:])
    def f(c):
        if 'l' in suf: locale_model(c)
        lim=const(16,64) if 'a' in suf else c.size('count'); s=Text(c,'str',t,lim); B=c.var('B')   # B = ghost first offending unit
        c.assume(ule(B,s.E),Implies(ult(B,s.E),Not(pred(s[B]))))
        c.loop(lambda v,i: [ule(i,B)],['i'],dec=lambda v,i: B-i,assume=lambda v,i: [Implies(ult(i,B),pred(s[i]))])
        for k,y in c.call(fn,[s.p]+([lim] if 'a' not in suf else [])+([P(c.cells('locale',8))] if 'l' in suf else [])):
            c.cover(y); c.post(y,"true iff every unit up to the terminator or limit qualifies",And(boolc(k=='end'),Iff(tb(y.ghost['ret']),eq(B,s.E))))
def fold(name,t,F,suf=''):
    fn="h_%s%s_%s"%(name,suf,t)
    @root(fn[2:])
    def f(c):
        ex=c.ex
        if 'l' in suf: locale_model(c)
        else: fold_contracts(c)
        if 's' in suf:
            o=new_string(ex,c.st,'str',WIDTH[t]); r,n=str_parts(ex,c.st,o); E=n; A0=c.st.mem[r.id][0]; args=[o]; w=WIDTH[t]
            c.loop(lambda v,i: [ule(i,n),Implies(ult(K,i),eq(v.arr(r).sel(K),F(A0.sel(K)))),Implies(ule(i,K),eq(v.arr(r).sel(K),A0.sel(K)))],['__begin1'],name="string loop",assume=lambda v,i: [eq(v.arr(r).sel(i),A0.sel(i))])
        else:
            lim=const(16,64) if 'a' in suf else c.size('count'); s=Text(c,'str',t,lim); r=s.r; E=s.E; A0=s.A; args=[s.p]+([lim] if 'a' not in suf else [])
            c.loop(lambda v,i: [ule(i,E),Implies(ult(K,i),eq(v.arr(r).sel(K),F(A0.sel(K)))),Implies(ule(i,K),eq(v.arr(r).sel(K),A0.sel(K)))],['i'],dec=lambda v,i: E-i,assume=lambda v,i: [eq(v.arr(r).sel(i),A0.sel(i)),s.fact(i)])
            # assume: the third invariant, which holds for every K, at K=i
        if 'l' in suf: args.append(P(c.cells('locale',8)))
        for k,y in c.call(fn,args):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            A=y.mem[r.id][0]
            if 's' in suf: b2,n2=str_parts(ex,y,o); A=y.mem[b2.id][0]; c.post(y,"length unchanged",eq(n2,n))
            c.post(y,"every unit up to the terminator or limit mapped, the rest untouched",eq(A.sel(K),Ite(ult(K,E),F(A0.sel(K)),A0.sel(K))))
for t in 'cwh':
    classes(t)
    for suf in ('','_a'): allof('isblank',t,CL['isspace'],suf); allof('is7bits',t,CL['is7bit'],suf)
    for suf in ('','_a','_s'): fold('strlwr',t,lower,suf); fold('strupr',t,upper,suf)
    if t!='h':
        allof('isblank',t,locspace,'_l')
        for suf in ('_l','_al','_sl'): fold('strlwr',t,loclower,suf); fold('strupr',t,locupper,suf)
def crlf(t,mode):
    """sp(k) = ghost source index of the k-th unit written, N = number of units written"""
    fn="h_crlf%s_%s"%(dict(b='',i='',d='_d',s='_s')[mode],t)
    @root("crlf2nl %s %s"%(dict(b="buffer",i="buffer in place",d="string from text",s="string in place")[mode],t))
    def f(c):
        ex=c.ex; w=8*WIDTH[t]; CR,LF=const(13,w),const(10,w)
        if mode=='s': o=new_string(ex,c.st,'str',WIDTH[t]); r,L=str_parts(ex,c.st,o); A0=c.st.mem[r.id][0]; args=[o]
        else:
            cap=c.size('capacity') if mode=='i' else None
            s=Text(c,'src',t,None,cap=cap); L=s.L; A0=s.A; r=s.r; len_contracts(c,s)
            if mode=='b': cap=c.size('capacity'); c.assume(ult(L,cap)); r=c.arr('dst',WIDTH[t],cap)
            if mode=='d': o=new_string(ex,c.st,'dst',WIDTH[t])
            args=[P(r),s.p] if mode in 'bi' else [o,s.p]
        N=c.size('N'); sp=lambda k: uf('sp',64,k); pair=lambda k: And(eq(A0.sel(sp(k)),CR),eq(A0.sel(sp(k)+1),LF)); out=lambda k: Ite(pair(k),LF,A0.sel(sp(k)))
        nz=(lambda i: [Implies(ult(i,L),ne(A0.sel(i),const(0,w))),Implies(ult(i+1,L),ne(A0.sel(i+1),const(0,w)))]) if mode!='s' else lambda i: []
        fx=lambda k: [eq(sp(k+1),sp(k)+Ite(pair(k),const(2,64),ONE)),Implies(ult(k,N),ult(sp(k),L)),ule(k,sp(k)),eq(A0.sel(L),const(0,w))]+nz(sp(k))
        c.assume(eq(sp(Z),Z),eq(sp(N),L),*fx(N))
        def outp(v): 
            if mode=='d': b,n=str_parts(ex,v.st,o); return v.st.mem[b.id][0],n
            return v.arr(r),None
        def inv(v,j,i=None):
            A,n=outp(v); i=i if i is not None else n
            inpl=[Implies(ule(j,J),eq(A.sel(J),A0.sel(J)))] if mode in 'is' else []
            return [ule(i,N),eq(j,sp(i)),ule(i,j),ule(j,L),Implies(ult(K,i),eq(A.sel(K),out(K)))]+inpl
        def asm(v,j,i=None):
            A,n=outp(v); i=i if i is not None else n
            inpl=[Implies(ule(j,q),eq(A.sel(q),A0.sel(q))) for q in (j,j+1)] if mode in 'is' else []    # the in-place invariant at the two positions read (it holds for every J)
            return fx(i)+inpl
        c.loop(inv,['j','i'] if mode!='d' else ['j'],name="convert loop",assume=asm,dec=lambda v,j,*_: L-j)
        for k,y in c.call(fn,args):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            if mode in 'ds': b,n=str_parts(ex,y,o); A=y.mem[b.id][0]; c.post(y,"length of the result",eq(n,N))
            else: A=y.mem[r.id][0]; c.post(y,"returns the length of the result",eq(y.ghost['ret'],N)); c.post(y,"terminated",eq(A.sel(N),const(0,w)))
            c.post(y,"each CR-LF pair becomes LF, every other unit is kept in order",Implies(ult(K,N),eq(A.sel(K),out(K))))
for t in 'cwh':
    for m in 'bids': crlf(t,m)
