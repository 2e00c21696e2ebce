from fw import *
from streams import *
prop("C26",oracle="C26.cpp",assume=["element sizes 1, 2, 3, 4, 8, 16 and 1000 (the size is the size of a type)"])
K=var('K',64)
for size in (1,2,3,4,8,16,1000):
    @root("read_array, %d-byte elements"%size)
    def f(c,size=size):
        s=Stream(c,'src'); count=c.var('count'); over=ult(const(((1<<64)-1)//size,64),count); total=count*size; data=c.arr('data',1,total); D0=c.st.mem[data.id][0]; done=lambda v: s.pos(v.st)-s.pos0
        c.assume(Or(over,ult(total,const(1<<60,64))))
        c.loop(lambda v,rem,off: [ule(rem,total),Implies(ne(total,Z),ne(rem,Z)),eq(done(v),total-rem),eq(off,done(v)),Implies(ult(K,done(v)),eq(v.arr(data).sel(K),s.C.sel(s.pos0+K))),Implies(And(ule(done(v),K),ult(K,total)),eq(v.arr(data).sel(K),D0.sel(K)))],['to_read','array'],dec=lambda v,rem,off: rem,name="read loop")
        for k,y in c.call("h_read_array",[s.p,P(data),const(size,64),count]):
            c.cover(y)
            if k!='end': c.post(y,"throws only when the size overflows, before reading",And(over,eq(s.pos(y),s.pos0),eq(s.calls(y),Z))); continue
            n=y.ghost['ret']; m=s.pos(y)-s.pos0; A=y.mem[data.id][0]
            c.post(y,"the size does not overflow",Not(over)); c.post(y,"within the request",ule(m,total)); c.post(y,"counts whole elements",eq(n,udiv(m,const(size,64))) if size>1 else eq(n,m))
            c.post(y,"stops early only at the end or on failure",Implies(ult(m,total),ne(s.state(y),OK))); c.post(y,"consecutive bytes",Implies(ult(K,m),eq(A.sel(K),s.C.sel(s.pos0+K)))); c.post(y,"nothing else is touched",Implies(And(ule(m,K),ult(K,total)),eq(A.sel(K),D0.sel(K))))
            c.post(y,"a complete transfer is ok",Implies(And(eq(m,total),ne(total,Z)),eq(s.state(y),OK)))
    @root("write_array, %d-byte elements"%size)
    def f(c,size=size):
        s=Stream(c,'dst'); count=c.var('count'); over=ult(const(((1<<64)-1)//size,64),count); total=count*size; data=c.arr('data',1,total); D0=c.st.mem[data.id][0]
        c.assume(Or(over,ult(total,const(1<<60,64))))
        for k,y in c.call("h_write_array",[s.p,P(data),const(size,64),count]):
            c.cover(y)
            if k!='end': c.post(y,"throws only when the size overflows, before writing",And(over,eq(s.wl(y),s.wl0),eq(s.calls(y),Z))); continue
            n=y.ghost['ret']; m=s.wl(y)-s.wl0
            c.post(y,"the size does not overflow",Not(over)); c.post(y,"counts whole elements",eq(n,udiv(m,const(size,64))) if size>1 else eq(n,m)); c.post(y,"the bytes given, in order",Implies(ult(K,m),eq(s.W(y).sel(s.wl0+K),D0.sel(K)))); c.post(y,"earlier output stays",Implies(ult(K,s.wl0),eq(s.W(y).sel(K),s.W0.sel(K)))); c.post(y,"one write",eq(s.calls(y),ONE))
@root("skip")
def f(c):
    s=Stream(c,'src'); n=c.var('amount'); read_array_contract(c); moved=lambda st: s.pos(st)-s.pos0
    c.assume(ult(n,const(1<<60,64)))
    c.loop(lambda v,i: [ule(i,n),eq(moved(v.st),i)],['i'],dec=lambda v,i: n-i,name="byte loop",when=None)
    c.loop(lambda v,left: [ule(left,n),eq(moved(v.st),n-left)],['amount'],dec=lambda v,left: left,name="block loop")
    for k,y in c.call("h_skip",[s.p,n]):
        c.cover(y); c.post(y,"moves at most the amount",ule(moved(y),n))
        if k=='end': c.post(y,"ok means all of it",Implies(And(eq(s.state(y),OK),ne(n,Z)),eq(moved(y),n)))
        else: c.post(y,"throws only when reading fails",And(ult(moved(y),n),ne(s.state(y),OK)))
        c.post(y,"nothing is written",eq(s.wl(y),s.wl0))
@root("read_byte")
def f(c):
    s=Stream(c,'src'); read_array_contract(c)
    for k,y in c.call("h_read_byte",[s.p]):
        c.cover(y)
        if k=='end': c.post(y,"the next byte",And(eq(y.ghost['ret'],s.C.sel(s.pos0)),eq(s.pos(y),s.pos0+1)))
        else: c.post(y,"throws only when nothing was read",And(eq(s.pos(y),s.pos0),ne(s.state(y),OK)))
@root("write_byte")
def f(c):
    s=Stream(c,'dst'); n=c.var('amount'); b=c.var('byte',8); write_array_contract(c); moved=lambda st: s.wl(st)-s.wl0; good=lambda st: Implies(ult(K,moved(st)),eq(s.W(st).sel(s.wl0+K),b)); stays=lambda st: Implies(ult(K,s.wl0),eq(s.W(st).sel(K),s.W0.sel(K)))
    c.assume(ult(n,const(1<<60,64)))
    c.loop(lambda v,i: [ule(i,n),eq(moved(v.st),i),good(v.st),stays(v.st)],['i'],dec=lambda v,i: n-i,name="byte loop")
    c.loop(lambda v,left: [ule(left,n),eq(moved(v.st),n-left),good(v.st),stays(v.st)],['amount'],dec=lambda v,left: left,name="block loop")
    for k,y in c.call("h_write_byte",[s.p,b,n]):
        c.cover(y); c.post(y,"does not throw",boolc(k=='end')); c.post(y,"writes at most the amount",ule(moved(y),n)); c.post(y,"ok means all of it",Implies(And(eq(s.state(y),OK),ne(n,Z)),eq(moved(y),n))); c.post(y,"only that byte",good(y)); c.post(y,"earlier output stays",stays(y))
@root("write_stream",budget=600)
def f(c):
    s=Stream(c,'src'); d=Stream(c,'dst'); n=c.var('amount'); c.assume(Or(eq(n,const((1<<64)-1,64)),ult(n,const(1<<60,64)))); rd=lambda st: s.pos(st)-s.pos0; wr=lambda st: d.wl(st)-d.wl0
    good=lambda st: Implies(ult(K,wr(st)),eq(d.W(st).sel(d.wl0+K),s.C.sel(s.pos0+K))); stays=lambda st: Implies(ult(K,d.wl0),eq(d.W(st).sel(K),d.W0.sel(K)))
    c.loop(lambda v,left,done: [eq(rd(v.st),done),eq(wr(v.st),done),ule(done,n),eq(left,n-done),good(v.st),stays(v.st),eq(d.state(v.st),OK),ule(d.wl0,d.wl(v.st)),ule(s.pos0,s.pos(v.st))],['to_write','num_copied'],dec=lambda v,left,done: left,name="block loop",houdini=False)
    c.loop(lambda v,off,left,done: [eq(wr(v.st),done),eq(wr(v.st)-off,wr(v.entry.st)),ule(off,rd(v.st)-wr(v.entry.st)),ule(rd(v.st)-wr(v.entry.st),const(1<<20,64)),ule(rd(v.st),n),eq(left,n-done),good(v.st),stays(v.st),eq(d.state(v.st),OK),ule(d.wl0,d.wl(v.st))],['offset','to_write','num_copied'],name="write loop",houdini=False)
    for k,y in c.call("h_write_stream",[d.p,s.p,n]):
        c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
        if k!='end': continue
        r=y.ghost['ret']; c.post(y,"reports what was written",eq(r,wr(y))); c.post(y,"at most the amount",And(ule(r,n),ule(rd(y),n))); c.post(y,"the bytes of the source, in order",good(y)); c.post(y,"earlier output stays",stays(y))
        c.post(y,"ok means everything was copied, up to the amount or the end of the source",Implies(eq(d.state(y),OK),And(eq(rd(y),wr(y)),Or(eq(r,n),eq(s.state(y),EOF)))))
for w in (8,16,32,64):
    @root("read and write uint%d_t"%w)
    def f(c,w=w):
        s=Stream(c,'src'); read_array_contract(c); x=c.cells('x',w//8); x0=c.var('x0',w); c.put(P(x),w//8,x0); st0=s.state0
        for k,y in c.call("h_read_u%d"%w,[s.p,P(x)]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end')); v=c.ex.load_raw(y,P(x),w//8); want=s.C.sel(s.pos0)
            for t in range(1,w//8): want=concat(s.C.sel(s.pos0+t),want)
            good=eq(s.state(y),OK)
            c.post(y,"ok means the next little-endian value",Implies(good,And(eq(v,want),eq(s.pos(y),s.pos0+w//8)))); c.post(y,"otherwise zero",Implies(Not(good),eq(v,const(0,w)))); c.post(y,"nothing is read after a failure",Implies(ne(st0,OK),And(eq(s.pos(y),s.pos0),eq(s.state(y),st0)))); c.post(y,"returns the stream",boolc(y.ghost['ret'].r is s.p.r))
        v=c.var('v',w)
        for k,y in c.call("h_write_u%d"%w,[s.p,v]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end')); m=s.wl(y)-s.wl0; c.post(y,"little-endian bytes in order",And(ule(m,const(w//8,64)),*[Implies(ult(const(t,64),m),eq(s.W(y).sel(s.wl0+t),extract(v,8*t+7,8*t))) for t in range(w//8)])); c.post(y,"nothing is written after a failure",Implies(ne(st0,OK),And(eq(m,Z),eq(s.state(y),st0))))
from models import new_vector, vec_parts, str_parts
@root("read_remainder",budget=300)
def f(c):
    s=Stream(c,'src'); mx=c.var('max'); read_array_contract(c); c.assume(Or(eq(mx,const((1<<64)-1,64)),ult(mx,const(1<<60,64)))); out=P(c.cells('result',24)); rd=lambda st: s.pos(st)-s.pos0
    def content(st): vb,ln=vec_parts(c.ex,st,out,1); return st.mem[vb.id][0],ln
    good=lambda st: Implies(ult(K,rd(st)),eq(content(st)[0].sel(K),s.C.sel(s.pos0+K)))
    c.loop(lambda v,off,ln: [eq(rd(v.st),off),ule(off,mx),ult(off,const(1<<61,64)),eq(ln,off+0x10000),good(v.st),ule(off,content(v.st)[1])],['offset','length'],dec=lambda v,off,ln: mx-off,name="block loop",houdini=False)
    for k,y in c.call("h_read_remainder",[out,s.p,mx]):
        c.cover(y); c.post(y,"does not throw",boolc(k=='end')); A,ln=content(y)
        c.post(y,"the result holds exactly what was read",And(eq(ln,rd(y)),ule(ln,mx))); c.post(y,"the bytes of the source, in order",good(y)); c.post(y,"stops early only at the end or on failure",Implies(ult(ln,mx),ne(s.state(y),OK)))
@root("write vector of uint32_t",budget=300)
def f(c):
    s=Stream(c,'dst',wshort=False); v=new_vector(c.ex,c.st,'v',4); vb,n=vec_parts(c.ex,c.st,v,4); A=c.st.mem[vb.id][0]; c.assume(eq(s.state0,OK)); wr=lambda st: s.wl(st)-s.wl0
    def byte(k):
        x=Ite(ult(k,const(4,64)),extract(n,31,0),A.sel(lshr(k-4,const(2,64)))); return Ite1(x,k&3,4)
    good=lambda st: Implies(ult(K,wr(st)),eq(s.W(st).sel(s.wl0+K),byte(K)))
    c.loop(lambda vw,i: [ule(i,n),ule(wr(vw.st),i*4+4),Implies(eq(s.state(vw.st),OK),eq(wr(vw.st),i*4+4)),good(vw.st)],['__begin0'],name="element loop")
    for k,y in c.call("h_write_vec",[s.p,v]):
        c.cover(y)
        if k!='end': c.post(y,"refuses only what does not fit, before writing",And(ult(const(0xffffffff,64),n),eq(wr(y),Z))); continue
        c.post(y,"count then elements, in order",good(y)); c.post(y,"ok means everything was written",Implies(eq(s.state(y),OK),eq(wr(y),n*4+4)))
@root("read vector of uint32_t",budget=300)
def f(c):
    s=Stream(c,'src'); v=new_vector(c.ex,c.st,'v',4); read_array_contract(c); c.assume(eq(s.state0,OK)); rd=lambda st: s.pos(st)-s.pos0
    def content(st): vb,ln=vec_parts(c.ex,st,v,4); return st.mem[vb.id][0],ln
    def at(p):
        w=s.C.sel(p)
        for t in range(1,4): w=concat(s.C.sel(p+t),w)
        return w
    num=zext(at(s.pos0),64)
    good=lambda st: Implies(ult(K,content(st)[1]),eq(content(st)[0].sel(K),at(s.pos0+4+K*4)))
    c.loop(lambda vw,i: [ule(zext(i,64),num),eq(content(vw.st)[1],zext(i,64)),eq(rd(vw.st),content(vw.st)[1]*4+4),good(vw.st),eq(s.state(vw.st),OK)],['i'],dec=lambda vw,i: num-zext(i,64),name="element loop",houdini=False)
    for k,y in c.call("h_read_vec",[s.p,v]):
        c.cover(y); c.post(y,"does not throw",boolc(k=='end')); c.post(y,"the elements of the source, in order",good(y)); c.post(y,"ok means all announced elements",Implies(eq(s.state(y),OK),And(eq(content(y)[1],num),eq(rd(y),num*4+4)))); c.post(y,"never more than announced",Or(eq(content(y)[1],Z),ule(content(y)[1],num)))
