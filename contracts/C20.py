from fw import *
from streams import *
prop("C20",oracle="C20.cpp")
K=var('K',64); MAX=const((1<<64)-1,64)
def setup(c,null=False):
    s=Stream(c,'src'); this=P(c.cells('limiter',c.m.k("sz_l"))); o=lambda f: c.m.k("off_l_"+f); rl,wl=c.var('read_limit'),c.var('write_limit')
    [(k,y)]=c.call("h_l_ctor",[this,s.p,rl,wl]); c.post(y,"constructor does not throw",boolc(k=='end')); y.frames=[]; c.st=y
    F=lambda st: (c.ex.cell(st,this.r,o('rl'),8),c.ex.cell(st,this.r,o('wl'),8),c.ex.load_raw(st,this.plus(o('state')),4))
    c.post(y,"takes over the allowances and the state of the stream",And(eq(F(y)[0],rl),eq(F(y)[1],wl),eq(F(y)[2],s.state(y))))
    c.put(this.plus(o('state')),4,c.var('state',32))        # between calls the state may be anything
    return s,this,F,rl,wl
for mode in ('read','write'):
    @root("limiter::"+mode)
    def f(c,mode=mode):
        s,this,F,rl,wl=setup(c); length=c.size('length'); data=c.arr('data',1,length); D0=c.st.mem[data.id][0]; lim,oth=(rl,wl) if mode=='read' else (wl,rl)
        for k,y in c.call("h_l_"+mode,[this,P(data),length]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            n=y.ghost['ret']; a=F(y); l2,o2=(a[0],a[1]) if mode=='read' else (a[1],a[0]); st=a[2]; moved=(s.pos(y)-s.pos0) if mode=='read' else (s.wl(y)-s.wl0)
            c.post(y,"reports what the underlying stream transferred",eq(n,moved)); c.post(y,"within the request",ule(n,length)); c.post(y,"within the allowance",ule(n,lim))
            c.post(y,"the allowance decreases by exactly that",eq(l2,Ite(eq(lim,MAX),MAX,lim-n))); c.post(y,"the other allowance is kept",eq(o2,oth))
            A=y.mem[data.id][0]
            if mode=='read':
                c.post(y,"the bytes of the underlying stream, in order",Implies(ult(K,n),eq(A.sel(K),s.C.sel(s.pos0+K)))); c.post(y,"nothing behind them is touched",Implies(And(ule(n,K),ult(K,length)),eq(A.sel(K),D0.sel(K))))
                c.post(y,"nothing is written",eq(s.wl(y),s.wl0))
            else:
                c.post(y,"the bytes given, in order",Implies(ult(K,n),eq(s.W(y).sel(s.wl0+K),D0.sel(K)))); c.post(y,"earlier output stays",Implies(ult(K,s.wl0),eq(s.W(y).sel(K),s.W0.sel(K)))); c.post(y,"nothing is read",eq(s.pos(y),s.pos0))
            over=And(ne(length,Z),eq(lim,Z))
            c.post(y,"end of the allowance",Implies(over,And(eq(st,EOF if mode=='read' else FAIL),eq(s.calls(y),Z))))
            c.post(y,"otherwise the state is that of the underlying stream",Implies(Not(over),And(eq(st,s.state(y)),eq(s.calls(y),ONE))))
for op in ('close','flush'):
    @root("limiter::"+op)
    def f(c,op=op):
        s,this,F,rl,wl=setup(c)
        for k,y in c.call("h_l_"+op,[this]):
            c.cover(y); c.post(y,"passed on once, state taken over, allowances kept",And(boolc(k=='end'),eq(c.ex.cell(y,s.g,24,8),ONE),eq(F(y)[0],rl),eq(F(y)[1],wl),eq(F(y)[2],s.state(y))))
