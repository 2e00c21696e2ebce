from fw import *
from streams import *
prop("C21",oracle="C21.cpp",assume=["underlying stream: skip moves by exactly the amount when it leaves the state ok"])
K=var('K',64); MAX=const((1<<64)-1,64)
def setup(c,wshort=True):
    s=Stream(c,'src',wshort=wshort); this=P(c.cells('window',c.m.k("sz_w"))); o=lambda f: c.m.k("off_w_"+f); ro,rl,wo,wl=[c.var(n) for n in ('read_offset','read_limit','write_offset','write_limit')]
    [(k,y)]=c.call("h_w_ctor",[this,s.p,ro,rl,wo,wl]); c.post(y,"constructor does not throw",boolc(k=='end')); y.frames=[]; c.st=y
    F=lambda st: {f:c.ex.cell(st,this.r,o(f),8) for f in ('ro','rl','wo','wl')}|{'state':c.ex.load_raw(st,this.plus(o('state')),4)}
    v=dict(ro=ro,rl=rl,wo=wo,wl=wl); c.post(y,"takes over the window and the state of the stream",And(*[eq(F(y)[f],v[f]) for f in v],eq(F(y)['state'],s.state(y))))
    c.put(this.plus(o('state')),4,c.var('state',32)); c.assume(ult(ro,const(1<<60,64)))
    def skip(ex,st,nm,a,I):
        m=fresh("skipped",64); q=fresh("skip.st",32); st.assume(And(ule(m,a[1]),ule(q,const(2,32)),Implies(eq(q,OK),eq(m,a[1])))); p=s.pos(st); st.assume(And(ult(p,const(1<<61,64)),ult(p+m,const(1<<61,64)))); s.set(st,0,p+m); s.setstate(st,q)
        n=ex.cell(st,s.g,32,8) if 32 in st.mem[s.g.id] else Z; s.set(st,32,n+1); return None
    c.model(PFX+r'skip\(',skip,"underlying stream: skip"); c.put(P(s.g).plus(32),8,Z)
    return s,this,F,v
@root("window::read")
def f(c):
    s,this,F,v=setup(c); length=c.size('length'); data=c.arr('data',1,length); D0=c.st.mem[data.id][0]; ro,rl=v['ro'],v['rl']
    for k,y in c.call("h_w_read",[this,P(data),length]):
        c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
        if k!='end': continue
        n=y.ghost['ret']; a=F(y); st=a['state']; A=y.mem[data.id][0]; skips=c.ex.cell(y,s.g,32,8); base=s.pos0+ro
        through=Or(eq(ro,Z),eq(a['ro'],Z))
        c.post(y,"the offset is skipped in one go, once",And(Or(eq(a['ro'],ro),eq(a['ro'],Z)),Implies(ne(a['ro'],Z),And(eq(n,Z),ne(st,OK),eq(st,s.state(y)),eq(a['rl'],rl)))))
        c.post(y,"within the request and the window",And(ule(n,length),ule(n,rl)))
        c.post(y,"the bytes behind the offset, in order",Implies(And(through,ult(K,n)),eq(A.sel(K),s.C.sel(base+K)))); c.post(y,"nothing behind them is touched",Implies(And(ule(n,K),ult(K,length)),eq(A.sel(K),D0.sel(K))))
        c.post(y,"the window shrinks by what was read",eq(a['rl'],Ite(eq(rl,MAX),MAX,rl-n)))
        over=And(through,ne(length,Z),eq(rl,Z))
        c.post(y,"end of the window is reported as end of file",Implies(over,Or(eq(st,EOF),And(ne(ro,Z),ne(st,OK)))))
        c.post(y,"inside the window position and state are those of the stream",Implies(And(through,Not(over)),And(eq(s.pos(y),base+n),eq(st,s.state(y)))))
        c.post(y,"nothing is written",And(eq(s.wl(y),s.wl0),eq(a['wo'],v['wo']),eq(a['wl'],v['wl'])))
@root("window::write")
def f(c):
    s,this,F,v=setup(c); length=c.size('length'); data=c.arr('data',1,length); D0=c.st.mem[data.id][0]; wo,wl=v['wo'],v['wl']
    for k,y in c.call("h_w_write",[this,P(data),length]):
        c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
        if k!='end': continue
        n=y.ghost['ret']; a=F(y); st=a['state']; moved=s.wl(y)-s.wl0; d=Ite(ule(length,wo),length,wo); rest=length-d; give=Ite(ule(rest,wl),rest,wl)
        c.post(y,"the first bytes are discarded",eq(a['wo'],wo-d))
        c.post(y,"forwards at most what the window takes",ule(moved,give))
        c.post(y,"the bytes behind the offset, in order",Implies(ult(K,moved),eq(s.W(y).sel(s.wl0+K),D0.sel(d+K)))); c.post(y,"earlier output stays",Implies(ult(K,s.wl0),eq(s.W(y).sel(K),s.W0.sel(K))))
        c.post(y,"the window shrinks by what was written",eq(a['wl'],Ite(eq(wl,MAX),MAX,wl-moved)))
        c.post(y,"reports everything up to the first byte the stream did not take",eq(n,Ite(eq(moved,give),length,d+moved)))
        c.post(y,"nothing reaches the stream when all of it is discarded: ok",Implies(And(eq(give,Z),ne(length,Z)),And(eq(st,OK),eq(s.calls(y),Z))))
        c.post(y,"otherwise the state is that of the stream",Implies(ne(give,Z),eq(st,s.state(y))))
        c.post(y,"nothing is read",And(eq(s.pos(y),s.pos0),eq(a['ro'],v['ro']),eq(a['rl'],v['rl'])))
