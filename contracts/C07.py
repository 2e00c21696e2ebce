from fw import *
prop("C07",oracle="C07.cpp",oracle_time=(6,60))
Z=const(0,64); ONE=const(1,64)
def mk(c,nm):
    p=P(c.cells(nm,c.m.k("sz_q"))); cap=c.size(nm+'.cap',1<<56); h,n=c.var(nm+'.head'),c.var(nm+'.count')
    c.assume(ult(Z,cap),ult(h,cap),ule(n,cap)); b=c.arr(nm+'.data',8,cap)
    for f,v in (('data',P(b)),('head',h),('count',n),('cap',cap)): c.put(p.plus(c.m.k("off_"+f)),8,v)
    return p,h,n,cap,b,c.st.mem[b.id][0]
def rd(c,y,p):
    L=lambda f: c.ex.load_raw(y,p.plus(c.m.k("off_"+f)),8)
    return L('head'),L('count'),L('cap'),c.ptr(y,p.plus(c.m.k('off_data')))
def slot(h,i,cap): return Ite(ult(h+i,cap),h+i,h+i-cap)          # (h+i) mod cap for h<cap, i<=cap
def seq(c,y,p):
    h,n,cap,d=rd(c,y,p); A=y.mem[d.r.id][0] if isinstance(d,P) and d.r is not None else None
    return n,cap,(lambda i: A.sel(slot(h,i,cap))),h,d
def inv(c,y,p):
    h,n,cap,d=rd(c,y,p); c.post(y,"representation stays valid (head<capacity, count<=capacity)",And(ult(h,cap),ule(n,cap)))
INV='_ZTISt16invalid_argument'
def thr(c,y): return boolc(INV in c.ex.exc_bases(y.exc[0]))
@root("observers")
def obs(c):
    c.ex.new_esize=8
    p,h,n,cap,b,A=mk(c,'q'); i=c.var('i'); e=lambda i: A.sel(slot(h,i,cap))
    for f,w in (('size',n),('capacity',cap),('head',h)):
        for k,y in c.call("h_"+f,[p]): c.cover(y); c.post(y,f,And(boolc(k=='end'),eq(y.ghost['ret'],w)) if k=='end' else FALSE)
    for k,y in c.call("h_empty",[p]): c.cover(y); r=y.ghost['ret']; c.post(y,"empty iff no element",Iff(r if r.w==0 else ne(r,const(0,r.w)),eq(n,Z)))
    for f,w in (('at',e(i)),('atc',e(i)),('ix',e(i)),('ixc',e(i))):
        for k,y in c.call("h_"+f,[p,i]):
            c.cover(y); c.post(y,f+": element i of the sequence, throws exactly for i>=size",And(ult(i,n),eq(y.ghost['ret'],w)) if k=='end' else And(ule(n,i),thr(c,y)))
    for f in ('atabs','atabsc'):
        for k,y in c.call("h_"+f,[p,i]):
            c.cover(y); c.post(y,f+": storage slot i, throws exactly for i>=capacity",And(ult(i,cap),eq(y.ghost['ret'],A.sel(i))) if k=='end' else And(ule(cap,i),thr(c,y)))
    for f,w in (('front',e(Z)),('frontc',e(Z)),('back',e(n-1)),('backc',e(n-1)),('tail',slot(h,n-1,cap))):
        for k,y in c.call("h_"+f,[p]):
            c.cover(y); c.post(y,f+": end element, throws exactly when empty",And(ult(Z,n),eq(y.ghost['ret'],w)) if k=='end' else And(eq(n,Z),thr(c,y)))
def pp(c,only):
    c.ex.new_esize=8
    p,h,n,cap,b,A=mk(c,'q'); K=c.var('K'); e=lambda i: A.sel(slot(h,i,cap)); vp=P(c.cells('v',8)); v=c.var('v'); c.put(vp,8,v)
    full=eq(n,cap)
    for f in [x for x in ('pushb','pushbm') if x==only]:
        for k,y in c.call("h_"+f,[p,vp]):
            c.cover(y); c.post(y,f+": does not throw",boolc(k=='end'))
            if k!='end': continue
            n2,cap2,e2,h2,d2=seq(c,y,p); inv(c,y,p)
            c.post(y,f+": size grows by one up to the capacity",And(eq(cap2,cap),eq(n2,Ite(full,n,n+1))))
            c.post(y,f+": new last element",eq(e2(n2-1),v))
            c.post(y,f+": the others keep their order, the oldest dropped when full",Implies(ult(K,n2-1),eq(e2(K),Ite(full,e(K+1),e(K)))))
            c.post(y,f+": returns the slot used",eq(y.ghost['ret'],slot(h2,n2-1,cap)))
    for f in [x for x in ('pushf','pushfm') if x==only]:
        for k,y in c.call("h_"+f,[p,vp]):
            c.cover(y); c.post(y,f+": does not throw",boolc(k=='end'))
            if k!='end': continue
            n2,cap2,e2,h2,d2=seq(c,y,p); inv(c,y,p)
            c.post(y,f+": size grows by one up to the capacity",And(eq(cap2,cap),eq(n2,Ite(full,n,n+1))))
            c.post(y,f+": new first element",eq(e2(Z),v))
            c.post(y,f+": the others follow in order, the newest dropped when full",Implies(And(ult(Z,K),ult(K,n2)),eq(e2(K),e(K-1))))
            c.post(y,f+": returns the slot used",eq(y.ghost['ret'],h2))
    for f,sh in (('popb',0),('popf',1)) if only=='pop' else ():
        for k,y in c.call("h_"+f,[p]):
            c.cover(y)
            if k!='end': c.post(y,f+": throws invalid_argument exactly when empty",And(eq(n,Z),thr(c,y))); continue
            n2,cap2,e2,h2,d2=seq(c,y,p); inv(c,y,p)
            c.post(y,f+": removes one element",And(ult(Z,n),eq(n2,n-1),eq(cap2,cap)))
            c.post(y,f+": the others keep their order",Implies(ult(K,n2),eq(e2(K),e(K+sh))))
    for k,y in c.call("h_clear",[p]) if only=="pop" else ():
        c.cover(y); c.post(y,"clear: empty, same capacity",And(boolc(k=='end'),eq(rd(c,y,p)[1],Z),eq(rd(c,y,p)[2],cap)))
for _o,_n in (("pushb","push_back copy"),("pushbm","push_back move"),("pushf","push_front copy"),("pushfm","push_front move"),("pop","pop and clear")): root(_n)(lambda c,o=_o: pp(c,o))
@root("construction")
def cons(c):
    c.ex.new_esize=8
    p=P(c.cells('q',c.m.k("sz_q"))); n0=c.size('n',1<<56); c.assume(ult(Z,n0))
    for k,y in c.call("h_ctor",[p,n0]):
        c.cover(y); h,n,cap,d=rd(c,y,p); c.post(y,"a new queue is empty and has the requested capacity",And(boolc(k=='end'),eq(h,Z),eq(n,Z),eq(cap,n0)))
        c.post(y,"storage for every element",eq(y.mem[d.r.id][1],n0))
def copies(fname,assign):
    def f(c):
        ex=c.ex; ex.new_esize=8
        p,h,n,cap,b,A=mk(c,'o'); K=c.var('K'); old=None
        if assign: q,*_o=mk(c,'q'); old=_o[3]
        else: q=P(c.cells('q',c.m.k("sz_q")))
        move='m' in fname.split('_')[1][0]
        def linv(s,i):
            h2,n2,cap2,d=rd(c,s.st,q); A2=s.arr(d.r)
            return [ule(i,n),eq(h2,h),eq(n2,n),eq(cap2,cap),Implies(ult(K,i),eq(A2.sel(slot(h,K,cap)),A.sel(slot(h,K,cap))))]
        if not move: c.loop(linv,['i'],dec=lambda s,i: n-i,name="copy loop")
        for k,y in c.call(fname,[q,p]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            n2,cap2,e2,h2,d=seq(c,y,q); inv(c,y,q)
            c.post(y,"same capacity and size",And(eq(n2,n),eq(cap2,cap)))
            c.post(y,"same sequence",Implies(ult(K,n),eq(e2(K),A.sel(slot(h,K,cap)))))
            c.post(y,"owns live storage",boolc(d.r.id not in y.freed))
            if assign: c.post(y,"replaced storage released",boolc(old.id in y.freed))
            if move:
                h3,n3,cap3,d3=rd(c,y,p); c.post(y,"source left empty without storage",And(eq(n3,Z),eq(cap3,Z),boolc(d3.r is None)))
            else:
                n3,cap3,e3,h3,d3=seq(c,y,p); c.post(y,"source unchanged",And(eq(n3,n),eq(cap3,cap),Implies(ult(K,n),eq(e3(K),A.sel(slot(h,K,cap)))))); c.post(y,"separate storage",boolc(d.r.id!=d3.r.id))
    return f
root("copy construction")(copies("h_copy",False)); root("move construction")(copies("h_move",False))
root("copy assignment")(copies("h_cassign",True)); root("move assignment")(copies("h_massign",True))
@root("self assignment and destruction")
def selfa(c):
    c.ex.new_esize=8
    p,h,n,cap,b,A=mk(c,'q'); K=c.var('K')
    for f in ("h_cassign","h_massign"):
        for k,y in c.call(f,[p,p]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end')); n2,cap2,e2,h2,d=seq(c,y,p)
            c.post(y,"self assignment changes nothing",And(eq(n2,n),eq(cap2,cap),Implies(ult(K,n),eq(e2(K),A.sel(slot(h,K,cap)))),boolc(b.id not in y.freed)))
    for k,y in c.call("h_dtor",[p]):
        c.cover(y); c.post(y,"destruction releases the storage",boolc(k=='end' and b.id in y.freed))
