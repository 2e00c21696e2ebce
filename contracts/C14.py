from fw import *
from texts import *
prop("C14",oracle="C14.cpp")
K,J=var('K',64),var('J',64)
def mkconv(tt):
    wd,ws=8*WIDTH[tt[0]],8*WIDTH[tt[1]]
    return lambda x: x if wd==ws else extract(x,wd-1,0) if wd<ws else (sext if tt[1] in 'cw' else zext)(x,wd)
def copyspec(A,A0,src,conv,j0,m,room):
    """dst[j0..j0+m) = converted source, dst[j0+m] = 0 when room, everything else untouched; i.e. the longest prefix that fits"""
    return [("stores the source units in order",Implies(ult(K,m),eq(A.sel(j0+K),conv(src(K))))),("terminates when there is room",Implies(room,eq(A.sel(j0+m),const(0,A.ew)))),
            ("units before the copied text untouched",Implies(ult(J,j0),eq(A.sel(J),A0.sel(J)))),("units behind the terminator untouched",Implies(And(ule(j0+m,J),Or(Not(room),ne(J,j0+m))),eq(A.sel(J),A0.sel(J))))]
def cpy(name,tt,mode,cat):
    fn="h_%s_%s"%(name,tt)
    @root(fn[2:])
    def f(c):
        ex=c.ex; conv=mkconv(tt); t1,t2=tt; bounded=mode in('2','a','b')
        lim=None if mode=='z' else const(9 if mode=='a' else 16,64) if mode in 'ab' else c.size('count_src')
        src=Text(c,'src',t2,lim,conv=conv)
        if bounded:
            cap=const(16 if mode=='a' else 9,64) if mode in 'ab' else c.size('count_dst')
        else: cap=c.size('capacity')
        if cat: dst=Text(c,'dst',t1,cap if bounded else None,cap=cap); j0=dst.E; len_contracts(c,dst,src); dp,dr=dst.p,dst.r
        else: dr=c.arr('dst',WIDTH[t1],cap); dp=P(dr); j0=Z
        if not bounded:
            need=src.E+1 if (mode=='z' or cat) else lim      # documented requirement on the caller: room for the text and, where one is written, the terminator
            c.assume(ule(need,cap-j0),ule(j0,cap))
        m=src.E if not bounded else Ite(ult(src.E,cap-j0),src.E,cap-j0)
        room=ult(j0+m,cap) if bounded else TRUE if (mode=='z' or cat) else ult(src.E,lim)
        A0=c.st.mem[dr.id][0]
        inv=lambda v,i,j=None: ([ule(i,src.E)]+([ule(i,cap-j0)] if bounded else [])+([eq(j,j0+i)] if j is not None else [])+[Implies(ult(K,i),eq(v.arr(dr).sel(j0+K),conv(src[K]))),Implies(ult(J,j0),eq(v.arr(dr).sel(J),A0.sel(J))),Implies(ule(j0+i,J),eq(v.arr(dr).sel(J),A0.sel(J)))])
        c.loop(inv,['i','j'] if cat else ['i'],name="copy loop",dec=lambda v,i,*_: src.E+1-i)
        args=[dp]+([cap] if mode=='2' else [])+[src.p]+([lim] if mode in '12' else [])
        for k,y in c.call(fn,args):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            c.post(y,"returns the number of units the destination holds before the terminator",eq(y.ghost['ret'],j0+m))
            for nm,g in copyspec(y.mem[dr.id][0],A0,src.__getitem__,conv,j0,m,room): c.post(y,nm,g)
for tt in ('cc','ww','hh','wc','cw','hc'):
    cpy('strcpy',tt,'z',0); cpy('strncpy1',tt,'1',0); cpy('strncpy',tt,'2',0); cpy('strncpy_a',tt,'a',0); cpy('strncpy_b',tt,'b',0)
    cpy('strcat',tt,'z',1); cpy('strncat1',tt,'1',1); cpy('strncat',tt,'2',1)
def wh(cnt):
    """UTF-16 to UTF-32: p(k) = ghost UTF-16 index of the k-th code point, N = ghost number of code points"""
    fn="h_str%scpy_wh"%('n' if cnt else '')
    @root(fn[2:])
    def f(c):
        lim=c.size('count_src') if cnt else None; b=Text(c,'src','h',lim); N=c.size('N'); p=lambda k: uf('p',64,k); cap=c.size('count_dst'); dr=c.arr('dst',4,cap); A0=c.st.mem[dr.id][0]
        u=lambda x: zext(x,32)
        pair=lambda k: And(ult(p(k)+1,lim) if cnt else TRUE,eq(b[p(k)]&0xfc00,const(0xd800,16)),eq(b[p(k)+1]&0xfc00,const(0xdc00,16)))
        cp=lambda k: Ite(pair(k),((u(b[p(k)])-0xd800)<<10)+(u(b[p(k)+1])-0xdc00)+0x10000,u(b[p(k)]))
        fx=lambda k: [eq(p(k+1),p(k)+Ite(pair(k),const(2,64),ONE)),Implies(ult(k,N),ult(p(k),b.E)),b.fact(p(k)),b.fact(p(k)+1)]
        c.assume(eq(p(Z),Z),eq(p(N),b.E),*fx(N))
        if not cnt: c.assume(ult(N,cap))
        c.loop(lambda v,j,i: [ule(j,N),eq(i,p(j)),ule(i,b.E)]+([ule(j,cap)] if cnt else [])+[Implies(ult(K,j),eq(v.arr(dr).sel(K),cp(K))),Implies(ule(j,J),eq(v.arr(dr).sel(J),A0.sel(J)))],['j','i'],name="copy loop",dec=lambda v,j,i: N+1-j,assume=lambda v,j,i: fx(j))
        m=Ite(ult(N,cap),N,cap); room=ult(m,cap)
        for k,y in c.call(fn,[P(dr)]+([cap] if cnt else [])+[b.p]+([lim] if cnt else [])):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            A=y.mem[dr.id][0]; c.post(y,"returns the number of code points stored",eq(y.ghost['ret'],m))
            c.post(y,"stores the code points in order",Implies(ult(K,m),eq(A.sel(K),cp(K)))); c.post(y,"terminates when there is room",Implies(room,eq(A.sel(m),const(0,32)))); c.post(y,"units behind the terminator untouched",Implies(And(ule(m,J),Or(Not(room),ne(J,m))),eq(A.sel(J),A0.sel(J))))
wh(0); wh(1)
def ncpy_contract(c,src):
    def h(ex,st,n,a,I):
        if a[2].r is not src.r: raise Unsupported("strncpy of an unknown text")
        dr=a[0].r; A,ln=st.mem[dr.id]; cap,lim=a[1],a[3]
        ex.check(st,"strncpy gets whole buffers",And(eq(a[0].off,Z),eq(a[2].off,Z)),kind='pre'); ex.check(st,"strncpy destination has count_dst units",ule(cap,ln),kind='pre')
        ex.check(st,"strncpy reads within the source",Or(ult(src.L,src.n),ule(lim,src.n),ule(cap,src.n)),kind='pre')
        e=Ite(ult(src.L,lim),src.L,lim); m=Ite(ult(e,cap),e,cap); B=A.copy(Z,m,src.A,Z)
        ex.setarr(st,dr,SArr.fn(lambda i: Ite(And(eq(i,m),ult(m,cap)),const(0,A.ew),B.sel(i)),A.ew)); return m
    c.model(r'^unsigned long stdex::strncpy<(\w+), \1>\(\1\*, unsigned long, \1 const\*, unsigned long\)$',h,"contract of stdex::strncpy (discharged by the roots strncpy_*)")
def dup(t,mode):
    fn="h_str%sdup%s_%s"%('' if mode=='z' else 'n','_a' if mode=='a' else '',t)
    @root(fn[2:])
    def f(c):
        ex=c.ex; ex.new_as_array=True; ex.new_esize=WIDTH[t]
        lim=None if mode=='z' else const(16,64) if mode=='a' else c.size('count'); s=Text(c,'str',t,lim); len_contracts(c,s); ncpy_contract(c,s)
        if mode=='z':
            for k,y in c.call(fn,[P(None)]): c.post(y,"nullptr for nullptr",boolc(k=='end' and isinstance(y.ghost['ret'],P) and y.ghost['ret'].r is None))
        for k,y in c.call(fn,[s.p]+([lim] if mode=='1' else [])):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            r=y.ghost['ret']; c.post(y,"returns fresh storage",boolc(isinstance(r,P) and r.r is not None and r.r is not s.r))
            A,ln=y.mem[r.r.id]; c.post(y,"room for the text and its terminator",ule(s.E+1,ln)); c.post(y,"holds the text",Implies(ult(K,s.E),eq(A.sel(K),s[K]))); c.post(y,"terminated",eq(A.sel(s.E),const(0,s.w)))
for t in 'cwh': dup(t,'z'); dup(t,'1'); dup(t,'a')
