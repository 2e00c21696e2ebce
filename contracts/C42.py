from fw import *
from texts import *
prop("C42",oracle="C42.cpp",oracle_time=(3,15),assume=["std::map: constructing from a list keeps, of the elements with equivalent keys, the first; find returns the element with an equivalent key, or end() when there is none, provided the comparison is a strict weak order (proved here for the tag comparison)","the tables are initialised once (the static-local guard is the compiler's)"])
# rank of a code unit in a tag: end < any punctuation < the others, letters regardless of case
def ispunct(x):
    r=lambda a,b: And(ule(const(ord(a),8),x),ule(x,const(ord(b),8)))
    return Or(r('!','/'),r(':','@'),r('[','`'),r('{','~'))
def rank(x): return Ite(eq(x,const(0,8)),const(0,16),Ite(ispunct(x),const(1,16),sext(lower(x),16)+const(0x100,16)))
@root("ispunct")
def f(c):
    x=c.var('chr',8)
    for k,y in c.call("h_ispunct",[x]): c.cover(y); c.post(y,"exactly the 32 punctuation characters",And(boolc(k=='end'),Iff(ne(y.ghost['ret'],const(0,y.ghost['ret'].w)) if y.ghost['ret'].w else y.ghost['ret'],ispunct(x))))
root("tolower")(lambda c: fold_root(c,"h_tolower",lower,'c'))
def less(a,b,D): return ult(rank(a[D]),rank(b[D]))
@root("tag comparison")
def f(c):
    fold_contracts(c)
    c.model(r'^bool stdex::ispunct<char>\(char\)$',lambda ex,st,n,a,I: ispunct(a[0]),"contract of stdex::ispunct (discharged by root ispunct)")
    a=Text(c,'str1','c'); b=Text(c,'str2','c'); D=c.size('D')
    same=lambda i: And(ne(a[i],const(0,8)),eq(rank(a[i]),rank(b[i])))
    c.assume(Not(same(D)),ule(D,a.E),ule(D,b.E),a.fact(D),b.fact(D))
    c.loop(lambda v,i: [ule(i,D)],['i'],dec=lambda v,i: D-i,assume=lambda v,i: [Implies(ult(i,D),same(i)),a.fact(i),b.fact(i)])
    fn=[f for d,f in c.m.bydem.items() if re.search(r'operator\(\)\(char const\*, char const\*\) const$',d) and not f.decl]
    if len(fn)!=1: raise Unsupported("the comparison of the tag table was not found")
    for k,y in c.call(fn[0],[P(c.cells('less',1)),a.p,b.p]):
        c.cover(y); r=y.ghost.get('ret'); c.post(y,"orders by the first position whose ranks differ",And(boolc(k=='end'),Iff(r if r.w==0 else ne(r,const(0,r.w)),less(a,b,D))))
@root("tag comparison is a strict weak order")
def f(c):
    """over the contract of the comparison: the first differing positions of three texts, pairwise"""
    x,y,z_=[Text(c,n,'c') for n in ('x','y','z')]
    def first(a,b,n):
        D=c.size(n); same=lambda i: And(ne(a[i],const(0,8)),eq(rank(a[i]),rank(b[i])))
        c.assume(Not(same(D)),ule(D,a.E),ule(D,b.E)); return D,lambda i: c.assume(Implies(ult(i,D),same(i)))
    D={}; S={}
    for n,a,b in (('xy',x,y),('yz',y,z_),('xz',x,z_),('xx',x,x)): D[n],S[n]=first(a,b,'D'+n)
    for p in S:
        for q in D: S[p](D[q])
    for t in (x,y,z_):
        for q in D.values(): c.assume(t.fact(q))
    st=c.st; L=lambda n,a,b: less(a,b,D[n]); G=lambda n,a,b: ult(rank(b[D[n]]),rank(a[D[n]]))
    E=lambda n,a,b: And(Not(L(n,a,b)),Not(G(n,a,b)))
    c.cover(st)
    c.post(st,"irreflexive",Not(L('xx',x,x)))
    c.post(st,"asymmetric",Not(And(L('xy',x,y),G('xy',x,y))))
    c.post(st,"transitive",Implies(And(L('xy',x,y),L('yz',y,z_)),L('xz',x,z_)))
    c.post(st,"equivalence is transitive",Implies(And(E('xy',x,y),E('yz',y,z_)),E('xz',x,z_)))
    c.post(st,"equivalent exactly when equal but for case and kind of punctuation",Iff(E('xy',x,y),And(eq(x.L,y.L),eq(D['xy'],x.L))))
# ---- the tables ------------------------------------------------------------
MAP=r'^std::map<.*>::'
def tables(c,found):
    """std::map stand-in: remembers the initialiser; find yields one element (unknown which) or end"""
    T={}
    def init(ex,st,n,a,I):
        p,cnt=a[1],a[2]; r,off=ex.resolve(p); off=val(off); e=16; rows=[]
        kp='char const*' in c.m.funcs[n].dem.split('<',1)[1].split(',')[0]
        for i in range(val(cnt)):
            o=off+i*e
            ld=lambda d,sz,ptr: ex.load_cells(st,r,o+d,sz,ptr=ptr)
            rows.append((ld(0,8,True),ld(8,4,False)) if kp else (ld(0,4,False),ld(8,8,True)))
        T['rows']=rows; T['map']=a[0].r; T['kp']=kp
        return None
    c.model(MAP+r'map\(std::initializer_list<',init,"std::map constructed from its initialiser list")
    def find(ex,st,n,a,I):
        ex.check(st,"looks into the table",boolc(a[0].r is T.get('map')),kind='pre')
        kr,ko=ex.resolve(a[1]); T['key']=ex.load_cells(st,kr,val(ko),8 if T['kp'] else 4,ptr=T['kp'])
        st.ghost=dict(st.ghost); st.ghost['searched']=True
        return T['elem'] if found else T['end']
    c.model(MAP+r'find\(',find,"std::map::find")
    c.model(MAP+r'end\(\)',lambda ex,st,n,a,I: T['end'],"std::map::end")
    T['end']=P(c.cells('header',32)); node=c.cells('node',48); T['elem']=P(node)
    return T,node
def glue():
    for found in (1,0):
        @root("langid_from_rfc1766: tag %s"%("known" if found else "unknown"))
        def f(c,found=found):
            T,node=tables(c,found); s=c.var('second',32); t=P(c.arr('rfc1766',1,c.size('len'))); c.put(P(node).plus(40),4,s); c.put(P(node).plus(32),8,P(c.arr('first',1,c.size('flen'))))
            for k,y in c.call("h_from",[t]):
                c.cover(y); c.post(y,"returns the element found, or unknown",And(boolc(k=='end'),boolc(bool(y.ghost.get('searched'))),boolc(same_p(T.get('key'),t)),eq(y.ghost['ret'],extract(s,15,0) if found else const(0x7f,16))))
        @root("rfc1766_from_langid: id %s"%("known" if found else "unknown"))
        def f(c,found=found):
            T,node=tables(c,found); i=c.var('lang',16); tag=P(c.arr('tag',1,c.size('len'))); fb=P(c.arr('fallback',1,c.size('flen'))); c.put(P(node).plus(40),8,tag); c.put(P(node).plus(32),4,c.var('first',32))
            for k,y in c.call("h_to",[i,fb]):
                c.cover(y); c.post(y,"returns the element found, or the fallback",And(boolc(k=='end'),boolc(bool(y.ghost.get('searched'))),eq(T['key'],zext(i,32)),boolc(same_p(y.ghost['ret'],tag if found else fb))))
def same_p(p,q): return isinstance(p,P) and p.r is q.r and val(p.off)==0
glue()
@root("tables agree")
def f(c):
    st=c.st; tabs={}
    def text(p):
        r,off=c.ex.resolve(p); m=(c.st2.mem.get(r.id) or c.ex.ginit[r.id])[0]; out=[]; i=val(off)
        while True:
            ch=val(m.sel(const(i,64)))
            if ch==0: return tuple(out)
            out.append(ch); i+=1
    for fn in ("h_from","h_to"):
        T,node=tables(c,0)
        for k,y in c.call(fn,[P(c.arr('t',1,const(8,64)))] if fn=="h_from" else [c.var('lang',16),P(None,const(0,64))]):
            c.cover(y); c.st2=y
            tabs[fn]=[(text(a),val(b)) if T['kp'] else (val(a),text(b)) for a,b in T['rows']]
    ev=lambda t: tuple(val(rank(const(x,8))) for x in t)
    t2i={}; i2t={}
    for t,i in tabs["h_from"]: t2i.setdefault(ev(t),i)
    for i,t in tabs["h_to"]: i2t.setdefault(i,t)
    s=lambda t: bytes(t).decode('latin1')
    for t,i in tabs["h_from"]:
        i=t2i[ev(t)]; c.post(st,"tag %s resolves to an identifier with that tag"%s(t),boolc(0<=i<=0xffff and i!=0x7f and i in i2t and ev(i2t[i])==ev(t)))
    for i,t in tabs["h_to"]:
        c.post(st,"identifier 0x%x has a tag that resolves back to it or to an identifier with the same tag"%i,boolc(0<=i<=0xffff and ev(t) in t2i and ev(i2t.get(t2i[ev(t)],()))==ev(t)))
    ids={i for i,_ in tabs["h_to"]}; 
    c.post(st,"every identifier of one table is in the other",boolc({i for _,i in tabs["h_from"]}==ids))
