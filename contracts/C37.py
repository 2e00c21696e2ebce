from fw import *
prop("C37",oracle="C37.cpp",oracle_time=(2,10))
def say(st,e): st.ghost=dict(st.ghost); st.ghost['log']=st.ghost.get('log',())+(e,)
# ---- scoped_executor: the actions and the scope's body are unknown (each may throw)
for nm,args in (("l",2),("r",2),("f",0),("d",2)):
    def f(c,nm=nm,args=args):
        c.ex.lifetimes=True
        for rx,e in ((r'^Fi::operator\(\)|^fi\(',"init"),(r'^Fd::operator\(\)|^fd\(',"done"),(r'^between\(',"body")):
            def h(ex,st,n,a,I,e=e):
                say(st,(e,a[0].r.id if a and not(nm=="r" and e=="done") else None))
                return None
            c.model(rx,h)
        a=[P(c.cells('init action',1)),P(c.cells('done action',1))][:args]
        for k,y in c.call("h_scope_"+nm,a):
            c.cover(y); c.post(y,"returns",boolc(k=='end'))
            c.post(y,"init once on construction, done once on destruction, on the objects given",boolc(y.ghost.get('log')==(("init",a[0].r.id if args else None),("body",None),("done",a[1].r.id if args and nm!="r" else None))))
    root("scoped_executor "+dict(l="with lvalues",r="with rvalues",f="with functions",d="with lambdas")[nm])(f)
# ---- ref_unique_ptr
def same(p,q): return boolc((p.r is None and q.r is None) or (p.r is not None and p.r is q.r and isc(p.off-q.off) and val(p.off-q.off)==0))
NULL_=P(None,const(0,64))
class U:
    def __init__(s,c,S,held):
        s.c=c; s.S=S; c.model(r'^Del::operator\(\)',lambda ex,st,n,a,I: say(st,("del",a[1].r.id if a[1].r is not None else None)))
        s.o=P(c.cells('owner',c.m.k("sz_o_"+S))); s.held=P(c.cells('object',4)) if held else NULL_
        [(k,y)]=c.call("h_own_"+S,[s.o,s.held]); assert k=='end'; c.st=y; y.frames=[]; s.st=y
    def ref(s,n): return P(s.c.cells(n,s.c.m.k("sz_r_"+s.S)))
    def do(s,fn,*a):
        r=s.c.call("h_%s_%s"%(fn,s.S),list(a),st=s.st); assert len(r)==1,"paths"; k,y=r[0]; s.c.post(y,fn+" does not throw",boolc(k=='end')); y.frames=[]; s.st=y; return y.ghost.get('ret')
    def owner(s): return s.do("held",s.o)
    def log(s): return s.st.ghost.get('log',())
for S in ("one","arr"):
    for held in (0,1):
        for via in ("get","ctor"):
            def f(c,S=S,held=held,via=via):
                u=U(c,S,held); r=u.ref('helper'); u.do(via,r,u.o); c.st=u.st
                c.post(u.st,"the helper takes the pointer out of its owner",And(same(u.owner(),NULL_),same(u.do("ptr",r),u.held),same(u.do("ref",r),u.held)))
                u.do("dtor",r); c.cover(u.st); c.post(u.st,"the owner has its pointer back",same(u.owner(),u.held)); c.post(u.st,"nothing was deleted",boolc(u.log()==()))
            root("ref_unique_ptr<%s> %s returns %s"%(S,via,"an object" if held else "null"))(f)
            for set_ in ("setp","setr"):
                def g(c,S=S,held=held,set_=set_,via=via):
                    u=U(c,S,held); r=u.ref('helper'); q=P(c.cells('new object',4)); u.st=c.st; u.do(via,r,u.o); u.do(set_,r,q)
                    u.do("dtor",r); c.cover(u.st); c.post(u.st,"the owner gets the pointer that was stored through the helper",same(u.owner(),q)); c.post(u.st,"it is not deleted",boolc(("del",q.r.id) not in u.log()))
                root("ref_unique_ptr<%s> %s %s over %s"%(S,via,set_,"an object" if held else "null"))(g)
        for order in ("moved-from first","moved-to first"):
            def m(c,S=S,held=held,order=order):
                u=U(c,S,held); a,b=u.ref('helper'),u.ref('second helper'); q=P(c.cells('new object',4)); u.st=c.st; u.do("ctor",a,u.o); u.do("move",b,a)
                c.post(u.st,"moving hands the pointer on",And(same(u.do("ptr",b),u.held),same(u.do("ptr",a),NULL_),same(u.owner(),NULL_)))
                if order=="moved-from first":
                    u.do("dtor",a); c.post(u.st,"a moved-from helper returns nothing",And(same(u.owner(),NULL_),boolc(u.log()==()))); u.do("setp",b,q); u.do("dtor",b)
                    exp=q
                else:
                    u.do("dtor",b); c.post(u.st,"the helper moved to returns the pointer",same(u.owner(),u.held)); exp=u.held; u.do("dtor",a)
                c.cover(u.st); c.post(u.st,"the owner holds the pointer, exactly once returned",And(same(u.owner(),exp),boolc(exp.r is None or ("del",exp.r.id) not in u.log())))
            root("ref_unique_ptr<%s> moved, %s, %s"%(S,order,"an object" if held else "null"))(m)
