from fw import *
from streams import *
prop("C22",oracle="C22.cpp",assume=["underlying stream: a write that takes less than asked leaves a state other than ok"])
K=var('K',64); CAP=1<<56
FLD=('rhead','rtail','rcap','whead','wtail','wcap')
class Buf:
    def __init__(s,c):
        s.c=c; k=c.m.k; s.src=Stream(c,'src',wshort=False); s.p=P(c.cells('buffer',k("sz_b"))); s.o={f:k("off_b_"+f) for f in FLD+('state','source','rdata','wdata')}
        rc,wc=c.size('rcap',CAP),c.size('wcap',CAP)
        out=c.call("h_b_ctor",[s.p,s.src.p,rc,wc])
        for q,y in out:
            g=s.get(y); c.post(y,"a new buffer is empty and has the capacities asked for",And(boolc(q=='end'),eq(g['rcap'],rc),eq(g['wcap'],wc),*[eq(g[f],Z) for f in('rhead','rtail','whead','wtail')],eq(g['state'],s.src.state(y))))
            for b,cap in(('rdata',rc),('wdata',wc)): d=c.ptr(y,s.p.plus(s.o[b])); c.post(y,"its memory has that size",eq(cap,Z) if d.r is None else And(eq(y.mem[d.r.id][1],cap),eq(d.off,Z)))
        y=[y for q,y in out if c.ptr(y,s.p.plus(s.o['rdata'])).r is not None and c.ptr(y,s.p.plus(s.o['wdata'])).r is not None][0]; pc=c.st.pc; y.frames=[]; y.pc=pc; c.st=y
        s.rd=c.arr('read.data',1,rc); s.wd=c.arr('write.data',1,wc); s.R0=c.st.mem[s.rd.id][0]; s.B0=c.st.mem[s.wd.id][0]
        v={f:c.var(f) for f in('rhead','rtail','whead','wtail')}; v['rcap'],v['wcap']=rc,wc; s.v=v
        for f in FLD: c.put(s.p.plus(s.o[f]),8,v[f])
        c.put(s.p.plus(s.o['rdata']),8,P(s.rd)); c.put(s.p.plus(s.o['wdata']),8,P(s.wd)); c.put(s.p.plus(s.o['state']),4,c.var('state',32))
        for x in s.rep(c.st): c.assume(x)
        s.lp0=s.lp(c.st); s.w0=v['wtail']-v['whead']; s.L0=s.src.wl0+s.w0; c.assume(ule(v['rtail']-v['rhead'],s.src.pos0))
        c.assume(Implies(ult(K,s.rn(c.st)),eq(s.R0.sel(v['rhead']+K),s.src.C.sel(s.lp0+K))))
    def get(s,st): g={f:s.c.ex.load_raw(st,s.p.plus(s.o[f]),8) for f in FLD}; g['state']=s.c.ex.load_raw(st,s.p.plus(s.o['state']),4); return g
    def rn(s,st): g=s.get(st); return g['rtail']-g['rhead']
    def lp(s,st): return s.src.pos(st)-s.rn(st)
    def rep(s,st):
        g=s.get(st); return [ule(g['rhead'],g['rtail']),ule(g['rtail'],g['rcap']),ule(g['whead'],g['wtail']),ule(g['wtail'],g['wcap']),Implies(eq(g['whead'],g['wtail']),eq(g['wtail'],Z))]
    def rdata(s,st,k):
        """byte k of the source is what the read buffer holds for it"""
        g=s.get(st); A=st.mem[s.rd.id][0]; return Implies(And(ule(s.lp(st),k),ult(k,s.src.pos(st))),eq(A.sel(g['rhead']+(k-s.lp(st))),s.src.C.sel(k)))
    def wtotal(s,st): g=s.get(st); return s.src.wl(st)+(g['wtail']-g['whead'])
    def out(s,st,k):
        """byte k of the output: delivered or still buffered"""
        g=s.get(st); return Ite(ult(k,s.src.wl(st)),s.src.W(st).sel(k),st.mem[s.wd.id][0].sel(g['whead']+(k-s.src.wl(st))))
    def consistent(s,y):
        for x in s.rep(y): s.c.post(y,"consistent",x)
        g=s.get(y); s.c.post(y,"keeps its memory",And(eq(g['rcap'],s.v['rcap']),eq(g['wcap'],s.v['wcap']),boolc(s.c.ptr(y,s.p.plus(s.o['rdata'])).r is s.rd and s.c.ptr(y,s.p.plus(s.o['wdata'])).r is s.wd)))
@root("read",budget=400)
def f(c):
    b=Buf(c); n=c.size('length'); d=c.arr('data',1,n); D0=c.st.mem[d.id][0]; s=b.src; A_=lambda v: v.st.mem[d.id][0]; R=b.lp0
    # K is a position in the source
    c.assume(b.rdata(c.st,K)); moved=lambda v: b.lp(v.st)-b.lp0
    def inv(v,left,data):
        return b.rep(v.st)+[eq(b.get(v.st)['rcap'],b.v['rcap']),ule(left,n),eq(data,n-left),eq(moved(v),n-left),ule(b.rn(v.st),s.pos(v.st)),Implies(And(ule(R,K),ult(K,b.lp(v.st))),eq(A_(v).sel(K-R),s.C.sel(K))),Implies(And(ule(b.lp(v.st),K),ult(K,R+n)),eq(A_(v).sel(K-R),D0.sel(K-R))),b.rdata(v.st,K),eq(s.wl(v.st),s.wl0),ule(s.pos0,s.pos(v.st)),Or(And(eq(s.calls(v.st),Z),eq(left,n),eq(b.get(v.st)['rhead'],b.v['rhead']),eq(b.get(v.st)['rtail'],b.v['rtail']),eq(s.pos(v.st),s.pos0)),And(ult(b.v['rtail']-b.v['rhead'],n),eq(s.calls(v.st),ONE),ule(left,b.rn(v.st))))]
    c.loop(inv,['to_read','data'],dec=lambda v,left,data: Ite(ule(left,b.rn(v.st)),Z,ONE),name="read loop",houdini=False)
    for k,y in c.call("h_b_read",[b.p,P(d),n]):
        c.cover(y); c.post(y,"does not throw",boolc(k=='end')); b.consistent(y); m=y.ghost['ret']; A=y.mem[d.id][0]; g=b.get(y)
        c.post(y,"within the request",ule(m,n)); c.post(y,"moves on by what it returns",eq(b.lp(y),b.lp0+m)); c.post(y,"the bytes of the source, in order",Implies(And(ule(R,K),ult(K,R+m)),eq(A.sel(K-R),s.C.sel(K)))); c.post(y,"nothing behind them is touched",Implies(And(ule(R+m,K),ult(K,R+n)),eq(A.sel(K-R),D0.sel(K-R)))); c.post(y,"what it read ahead is kept",b.rdata(y,K))
        c.post(y,"nothing is written",And(eq(s.wl(y),s.wl0),eq(g['whead'],b.v['whead']),eq(g['wtail'],b.v['wtail']))); c.post(y,"ok while it delivers, else the state of the source",eq(g['state'],Ite(Or(ne(m,Z),eq(n,Z)),OK,s.state(y)))); c.post(y,"short only when the source is",Implies(ult(m,n),And(eq(b.rn(y),Z),ne(s.calls(y),Z)))); c.post(y,"nothing is read when the buffer suffices",Implies(ule(n,b.v['rtail']-b.v['rhead']),eq(s.calls(y),Z)))
def delivered(c,b,y,n,D0,m):
    """K is a position in the output: old output, then m bytes of the caller"""
    c.post(y,"output grows by what was accepted",eq(b.wtotal(y),b.L0+m)); c.post(y,"output in order, each byte once",Implies(ult(K,b.L0+m),eq(b.out(y,K),Ite(ult(K,b.L0),b.out0,D0.sel(K-b.L0)))))
    c.post(y,"reading is not affected",And(eq(b.get(y)['rhead'],b.v['rhead']),eq(b.get(y)['rtail'],b.v['rtail']),eq(b.src.pos(y),b.src.pos0)))
@root("write",budget=400)
def f(c):
    b=Buf(c); n=c.size('length'); d=c.arr('data',1,n); D0=c.st.mem[d.id][0]; s=b.src; b.out0=b.out(c.st,K); c.assume(ult(s.wl0,const(1<<59,64)))
    def inv(v,left,data):
        g=b.get(v.st); m=n-left
        return b.rep(v.st)+[eq(g['wcap'],b.v['wcap']),ule(left,n),eq(data,m),eq(b.wtotal(v.st),b.L0+m),Implies(ult(K,b.L0+m),eq(b.out(v.st,K),Ite(ult(K,b.L0),b.out0,D0.sel(K-b.L0)))),ule(s.wl0,s.wl(v.st)),eq(s.pos(v.st),s.pos0),ult(s.wl(v.st),const(1<<61,64))]
    c.loop(inv,['to_write','data'],dec=lambda v,left,data: Ite(ule(left,b.get(v.st)['wcap']-b.get(v.st)['wtail']),Z,ONE),name="write loop",houdini=False)
    for k,y in c.call("h_b_write",[b.p,P(d),n]):
        c.cover(y); c.post(y,"does not throw",boolc(k=='end')); b.consistent(y); m=y.ghost['ret']; g=b.get(y); c.post(y,"within the request",ule(m,n)); delivered(c,b,y,n,D0,m)
        c.post(y,"takes less only when the source does",Implies(ult(m,n),And(ne(g['state'],OK),eq(g['state'],s.state(y)))))
for op in ('flush','close','dtor'):
    @root({'flush':"flush",'close':"close",'dtor':"destructor"}[op])
    def f(c,op=op):
        b=Buf(c); s=b.src; b.out0=b.out(c.st,K); c.assume(ult(s.wl0,const(1<<59,64))); D0=SArr.fresh("none",8)
        for k,y in c.call("h_b_"+op,[b.p]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end')); g=b.get(y)
            c.post(y,"output grows by what was accepted",eq(b.wtotal(y),b.L0)); c.post(y,"output in order, each byte once",Implies(ult(K,b.L0),eq(Ite(ult(K,s.wl(y)),s.W(y).sel(K),b.B0.sel(g['whead']+(K-s.wl(y)))),b.out0)))
            if op!='dtor': b.consistent(y)
            if op=='flush':
                passed=c.ex.cell(y,s.g,24,8) if 24 in y.mem[s.g.id] else Z
                c.post(y,"ok means everything was delivered and the source flushed",Implies(eq(g['state'],OK),And(eq(s.wl(y),b.L0),eq(passed,ONE)))); c.post(y,"reading is not affected",And(eq(g['rhead'],b.v['rhead']),eq(g['rtail'],b.v['rtail']),eq(s.pos(y),s.pos0)))
            if op=='dtor': c.post(y,"delivers what is buffered",Or(eq(s.wl(y),b.L0),ne(s.state(y),OK))); c.post(y,"releases its memory",boolc({b.rd.id,b.wd.id}<=y.freed))
            if op=='close': c.post(y,"passed on once",And(eq(c.ex.cell(y,s.g,24,8),ONE),eq(g['state'],s.state(y))))
