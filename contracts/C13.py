from fw import *
from texts import *
prop("C13",oracle="C13.cpp")
K=var('K',64)
for t in 'cwh': root('tolower_'+t)(lambda c,t=t: fold_root(c,'h_tolower_'+t,lower,t))
def scan(name,t,cnt,fold,last,loc='',arr=''):
    fn="h_%s_%s"%(name+(('_'+arr+loc) if arr or loc else ''),t)
    @root(fn[2:])
    def f(c):
        if loc: locale_model(c)
        if fold=='a': fold_contracts(c)
        lim=const(16,64) if arr else c.size('count') if cnt else None
        s=Text(c,'str',t,lim); args=[s.p]+([lim] if cnt and not arr else [])
        if 'len' in name:
            c.loop(lambda v,i: [ule(i,s.E)],['i'],dec=lambda v,i: s.E-i)
            for k,y in c.call(fn,args):
                c.cover(y); c.post(y,"length up to the first zero or the limit",And(boolc(k=='end'),eq(y.ghost['ret'],s.E)))
            return
        chr=c.var('chr',s.w); fo=FOLD[fold]; args.append(chr)
        if loc: args.append(P(c.cells('locale',8)))
        hit=lambda i: eq(fo(s[i]),fo(chr))
        if not last: c.loop(lambda v,i: [ule(i,s.E),Implies(ult(K,i),Not(hit(K)))],['i'],dec=lambda v,i: s.E-i)
        else: c.loop(lambda v,i,z: [ule(i,s.E),Implies(And(ult(K,i),Or(eq(z,NPOS),ult(z,K))),Not(hit(K))),Or(eq(z,NPOS),And(ult(z,i),hit(z)))],['i','z'],dec=lambda v,i,z: s.E-i)
        for k,y in c.call(fn,args):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            r=y.ghost['ret']
            c.post(y,"a reported position holds the character",Or(eq(r,NPOS),And(ult(r,s.E),hit(r))))
            c.post(y,"no earlier occurrence" if not last else "no later occurrence",Implies(And(ult(K,s.E),(ult(K,r) if not last else Or(eq(r,NPOS),ult(r,K)))),Not(hit(K))))
for t in 'cwh':
    for a in ('','a'):
        if not a: scan('strlen',t,0,'n',0)
        scan('strnlen',t,1,'n',0,'',a)
        for i,fo in (('','n'),('i','a')):
            for r in ('','r'):
                if not a: scan('str%s%schr'%(r,i),t,0,fo,r)
                scan('str%sn%schr'%(r,i),t,1,fo,r,'',a)
        if t!='h':
            for r in ('','r'):
                if not a: scan('str%sichr'%r,t,0,'l',r,'l')
                scan('str%snichr'%r,t,1,'l',r,'l',a)
def order(t1,x,t2,y): return Ite(slt(ext(t2,y),ext(t1,x)),const(1,32),Ite(slt(ext(t1,x),ext(t2,y)),const(0xffffffff,32),const(0,32)))
P1=const(1,32); M1=const(0xffffffff,32); O=const(0,32)
def sign(r,e): return And(Iff(slt(O,r),eq(e,P1)),Iff(slt(r,O),eq(e,M1)))
def compare(name,tt,mode,fold,suf=''):
    """mode z: both zero-terminated, 1: one common limit, 2: two limits, a: arrays; D = ghost index of the first position where the texts differ or either ends"""
    fn="h_%s%s_%s"%(name,suf,tt); rev=name.startswith('strr')
    @root(fn[2:])
    def f(c):
        if 'l' in suf: locale_model(c)
        if fold=='a': fold_contracts(c)
        fo=FOLD[fold]; t1,t2=tt
        l1,l2=dict(z=(None,None),a=(const(16,64),const(9,64))).get(mode) or (None,None)
        if mode=='1': l1=l2=c.size('count')
        if mode=='2': l1,l2=c.size('count1'),c.size('count2')
        a=Text(c,'str1',t1,l1); b=Text(c,'str2',t2,l2)
        args=dict(z=[a.p,b.p],a=[a.p,b.p])[mode] if mode in 'za' else [a.p,b.p,l1] if mode=='1' else [a.p,l1,b.p,l2]
        if 'l' in suf: args.append(P(c.cells('locale',8)))
        D=c.size('D'); same=lambda x,y: eq(ext(t1,fo(x)),ext(t2,fo(y)))
        if 'l' in suf:
            base=same
        if not rev:
            eqi=lambda i: And(a.inn(i),b.inn(i),same(a[i],b[i]),ne(a[i],const(0,a.w)))
            nz=lambda i: And(a.fact(i),b.fact(i),*[Iff(eq(fo(x[i]),const(0,x.w)),eq(x[i],const(0,x.w))) for x in (a,b)])
            c.assume(Not(eqi(D)),ule(D,a.E),ule(D,b.E),nz(D))
            c.loop(lambda v,i: [ule(i,D)],['i'],dec=lambda v,i: D-i,assume=lambda v,i: [Implies(ult(i,D),eqi(i)),nz(i)])
            i1,i2=a.inn(D),b.inn(D); want=Ite(And(i1,i2),order(t1,fo(a[D]),t2,fo(b[D])),Ite(i1,Ite(eq(a[D],const(0,a.w)),O,P1),Ite(i2,Ite(eq(b[D],const(0,b.w)),O,M1),O)))
        else:
            # ghost: comparing backwards, the texts agree behind str1[i0] and str2[j0] and not at one more
            i0,j0=c.size('i0'),c.size('j0'); c.assume(ule(i0,a.E),ule(j0,b.E),eq(a.E-i0,b.E-j0))
            eqi=lambda i,j: And(ne(i,Z),ne(j,Z),same(a[i-1],b[j-1]))
            c.assume(Not(eqi(i0,j0)))
            len_contracts(c,a,b)
            c.loop(lambda v,i,j: [ule(i0,i),ule(i,a.E),eq(j-j0,i-i0),ule(j,b.E),ule(j0,j)],['i','j'],name="compare loop",dec=lambda v,i,j: i,assume=lambda v,i,j: [Implies(ult(i0,i),eqi(i,j))])
            want=Ite(ne(i0,Z),Ite(ne(j0,Z),order(t1,a[i0-1],t2,b[j0-1]),P1),Ite(ne(j0,Z),M1,O))
        for k,y in c.call(fn,args):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k=='end': c.post(y,"sign decided by the first difference",sign(y.ghost['ret'],want))
for tt in ('cc','ww','hh','wc','hc'):
    for i,fo in (('','n'),('i','a'),('r','n')):
        compare('str%scmp'%i,tt,'z',fo)
        nm='strn%scmp'%i if i!='r' else 'strrncmp'
        compare(nm,tt,'1',fo,'1'); compare(nm,tt,'2',fo); compare(nm,tt,'a',fo,'_a')
    if tt in('cc','ww'):
        compare('stricmp',tt,'z','l','_l'); compare('strnicmp',tt,'1','l','1_l'); compare('strnicmp',tt,'2','l','_l'); compare('strnicmp',tt,'a','l','_al')
def wh(arr):
    """UTF-32 against UTF-16: p(k) = ghost UTF-16 index of the k-th code point"""
    fn="h_strncmp%s_wh"%arr
    @root(fn[2:])
    def f(c):
        l1,l2=(const(16,64),const(9,64)) if arr else (c.size('count1'),c.size('count2'))
        a=Text(c,'str1','w',l1); b=Text(c,'str2','h',l2); D=c.size('D'); p=lambda k: uf('p',64,k)
        u=lambda x: zext(x,32)
        pair=lambda k: And(ult(p(k)+1,l2),eq(b[p(k)]&0xfc00,const(0xd800,16)),eq(b[p(k)+1]&0xfc00,const(0xdc00,16)))
        cp=lambda k: Ite(pair(k),((u(b[p(k)])-0xd800)<<10)+(u(b[p(k)+1])-0xdc00)+0x10000,u(b[p(k)]))
        eqi=lambda k: And(ult(k,l1),ult(p(k),l2),eq(a[k],cp(k)),ne(a[k],const(0,32)))
        fx=lambda k: [eq(p(k+1),p(k)+Ite(pair(k),const(2,64),ONE)),Implies(ult(k,D),eqi(k)),a.fact(k),b.fact(p(k)),b.fact(p(k)+1)]
        c.assume(eq(p(Z),Z),Not(eqi(D)),*fx(D)); c.assume(ule(D,a.E),ule(p(D),b.E))
        c.loop(lambda v,i,j: [ule(i,D),eq(j,p(i)),ule(j,b.E)],['i','j'],dec=lambda v,i,j: D-i,assume=lambda v,i,j: fx(i))
        i1,i2=ult(D,l1),ult(p(D),l2); A,B=a[D],cp(D)
        want=Ite(And(i1,i2),Ite(eq(A,O),Ite(eq(B,O),O,M1),Ite(eq(B,O),P1,Ite(slt(B,A),P1,Ite(slt(A,B),M1,O)))),Ite(And(i1,ne(A,O)),P1,Ite(And(i2,ne(b[p(D)],const(0,16))),M1,O)))
        for k,y in c.call(fn,[a.p,b.p] if arr else [a.p,l1,b.p,l2]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k=='end': c.post(y,"sign decided by the first differing code point",sign(y.ghost['ret'],want))
wh(''); wh('_a')
def find(name,tt,cnt,fold,suf=''):
    """R = ghost first offset at which the sample matches (or npos); mm(q) = ghost index of the first mismatch at offset q<R"""
    fn="h_%s%s_%s"%(name,suf,tt)
    @root(fn[2:])
    def f(c):
        if 'l' in suf: locale_model(c)
        if fold=='a': fold_contracts(c)
        fo=FOLD[fold]; t1,t2=tt; lim=const(16,64) if 'a' in suf else c.size('count') if cnt else None
        s=Text(c,'str',t1,lim); x=Text(c,'sample',t2); args=[s.p]+([lim] if cnt and 'a' not in suf else [])+[x.p]
        if 'l' in suf: args.append(P(c.cells('locale',8)))
        R=c.var('R'); mm=lambda q: uf('mm',64,q); none=eq(R,NPOS); M=x.L; same=lambda i,j: eq(ext(t1,fo(s[i])),ext(t2,fo(x[j])))
        c.assume(Or(none,And(ule(R,s.E),ule(M,s.E-R))))
        at=lambda j: Implies(And(Not(none),ult(j,M)),same(R+j,j))
        miss=lambda q: Implies(ult(q,R),And(ult(mm(q),M),Or(ule(s.E,q+mm(q)),Not(same(q+mm(q),mm(q))))))
        c.loop(lambda v,q: [ule(q,R),ule(q,s.E)],['offset'],name="offset loop",assume=lambda v,q: [miss(q)],dec=lambda v,q: s.E+1-q)
        def inv(v,i,j): q=i-j; return [ule(j,M),ule(i,s.E),ule(j,i),eq(q,v.entry.g('q0') if False else q),Implies(ult(q,R),ule(j,mm(q)))]
        c.loop(inv,['i','j'],name="match loop",assume=lambda v,i,j: [at(j),miss(i-j)],dec=lambda v,i,j: M+1-j)
        for k,y in c.call(fn,args):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k=='end': c.post(y,"the first offset at which the sample matches, or npos",eq(y.ghost['ret'],R))
for tt in ('cc','ww','hh','wc','hc'):
    for i,fo in (('','n'),('i','a')):
        find('str%sstr'%i,tt,0,fo); find('strn%sstr'%i,tt,1,fo); find('strn%sstr'%i,tt,1,fo,'_a')
    if tt in('cc','ww'): find('stristr',tt,0,'l','_l'); find('strnistr',tt,1,'l','_l'); find('strnistr',tt,1,'l','_al')
def coll(name,t,mode):
    fn="h_%s_%s"%(name,t)
    @root(fn[2:])
    def f(c):
        l1,l2=dict(z=(None,None),a=(const(16,64),const(9,64))).get(mode) or (c.size('count1'),c.size('count2'))
        a=Text(c,'str1',t,l1); b=Text(c,'str2',t,l2); locale_model(c)
        def cmp(ex,st,n,A,I):
            for q,x,nm in ((1,a,'first'),(3,b,'second')):
                ok=boolc(A[q].r is x.r and A[q+1].r is x.r)
                ex.check(st,"collation sees exactly the %s text"%nm,And(ok,eq(A[q].off,Z),eq(A[q+1].off,x.E*x.es)),kind='pre')
            return var('collres',32)
        c.model(r'std::(__cxx11::)?collate<\w+>::compare\(',cmp,"std::collate::compare orders the two ranges given")
        len_contracts(c,a,b)
        loc=P(c.cells('locale',8))
        for k,y in c.call(fn,[a.p,b.p,loc] if mode!='2' else [a.p,l1,b.p,l2,loc]):
            c.cover(y); c.post(y,"returns the collation result",And(boolc(k=='end'),eq(y.ghost['ret'],var('collres',32))))
for t in 'cw': coll('strcoll',t,'z'); coll('strncoll',t,'2'); coll('strncoll_a',t,'a')
