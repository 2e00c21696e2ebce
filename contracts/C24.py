from fw import *
from streams import *
from models import new_vector, vec_parts, str_parts, str_set, strw
prop("C24",oracle="C24.cpp",assume=["malloc and realloc either fail without effect or return fresh storage that keeps the old prefix (C library)","positions and requests below 2^60 bytes (a memory block cannot be larger), offsets given to seek below 2^60 in magnitude"])
K=var('K',64); BIG=const(1<<60,64); TOP=const((1<<63)-1,64)
def alloc(c):
    def malloc_(ex,st,n,a,I):
        q=fresh("malloc.ok",0 if False else 1); y=st.fork(); y.assume(eq(q,const(0,1))); st.assume(eq(q,const(1,1))); st.assume(ult(a[0],const(1<<62,64))); return [('ret',st,P(ex.new_arr(st,"heap",1,a[0]))),('ret',y,P(None,Z))]
    def realloc_(ex,st,n,a,I):
        out=[]; p,m=a; q=fresh("realloc.ok",1)
        if p.r is not None: ex.check(st,"realloc of a live block start",And(boolc(p.r.id not in st.freed),eq(p.off,Z)),kind='bounds')
        z=st.fork(); z.assume(eq(m,Z))
        if ex.feasible(z,TRUE):
            if p.r is not None: z.freed=z.freed|{p.r.id}
            out.append(('ret',z,P(None,Z)))
        y=st.fork(); y.assume(And(ne(m,Z),eq(q,const(0,1)))); out.append(('ret',y,P(None,Z)))
        x=st; x.assume(And(ne(m,Z),eq(q,const(1,1)),ult(m,const(1<<62,64)))); r=ex.new_arr(x,"heap",1,m)
        if p.r is not None:
            A,L=x.mem[p.r.id]; ex.setarr(x,r,x.mem[r.id][0].copy(Z,Ite(ult(L,m),L,m),A,Z)); x.freed=x.freed|{p.r.id}
        out.append(('ret',x,P(r))); return out
    c.model(r'^malloc$',malloc_,"malloc"); c.model(r'^realloc$',realloc_,"realloc")
    def assign(ex,st,n,a,I):
        es=strw(c.m.funcs[n].dem if n in c.m.funcs else dem(ex,n)); r,off=ex.resolve(a[1]); A,L=st.mem[r.id]; e=a[2].off; k=exact_div(e-off,es); k=udiv(e-off,const(es,64)) if k is None else k; ex.check(st,"assigned range within the block",And(ule(off,e),ule(e,L)),kind='bounds')
        B=SArr.fn(lambda i: concat(*[A.sel(off+i*es+j) for j in reversed(range(es))]),8*es); str_set(ex,st,a[0],B,k); return a[0]
    c.model(r'^std::__cxx11::basic_string<(char|wchar_t), .*>& std::__cxx11::basic_string<.*>::assign<(char|wchar_t)\*',assign,"std::basic_string::assign(range)")
class MF:
    def __init__(s,c,kind,name='file'):
        s.c=c; s.kind=kind; k=c.m.k; s.p=P(c.cells(name,k("sz_m"))); ex=c.ex
        s.o={f:k("off_m_"+f) for f in('data','manage','offset','size','reserved')}
        [(q,y)]=c.call("h_m_ctor0",[s.p]); c.post(y,"constructor does not throw",boolc(q=='end')); y.frames=[]; c.st=y; [(q,y2)]=c.call("h_m_state",[s.p]); s.o['state']=val(y2.ghost['ret'].off)
        f=s.get(y); c.post(y,"a new file is empty",And(eq(f['size'],Z),eq(f['offset'],Z),eq(f['reserved'],Z),eq(f['state'],OK),boolc(f['data'].r is None)))
        st=c.st; v=lambda n,w=64: c.var(name+'.'+n,w)
        s.off0=v('offset'); s.size0=v('size') if kind=='buf' else Z; s.res0=v('reserved') if kind=='buf' else Z; s.man0=v('manage',8) if kind=='buf' else const(1,8); s.state0=v('state',32)
        c.assume(ule(s.off0,BIG),ule(s.size0,s.res0),ule(s.res0,BIG),ule(s.man0,const(1,8)),ule(s.state0,const(2,32)))
        s.D=c.arr(name+'.data',1,s.res0) if kind=='buf' else None; s.A0=c.st.mem[s.D.id][0] if s.D is not None else SArr.fresh("nil",8)
        for f,x,w in(('data',P(s.D) if s.D is not None else P(None,Z),8),('manage',s.man0,1),('offset',s.off0,8),('size',s.size0,8),('reserved',s.res0,8),('state',s.state0,4)): c.put(s.p.plus(s.o[f]),w,x)
        s.len0=s.size0
    def get(s,st,p=None):
        ex=s.c.ex; p=p or s.p; g=lambda f,w: ex.load_raw(st,p.plus(s.o[f]),w)
        return dict(data=s.c.ptr(st,p.plus(s.o['data'])),state=g('state',4),manage=g('manage',1),offset=g('offset',8),size=g('size',8),reserved=g('reserved',8))
    def A(s,st,p=None):
        f=s.get(st,p); return st.mem[f['data'].r.id][0] if f['data'].r is not None else SArr.fresh("nil",8)
    def ri(s,y,p=None):
        c=s.c; f=s.get(y,p); d=f['data']
        if d.r is None: c.post(y,"consistent: no memory, nothing reserved",And(eq(f['reserved'],Z),eq(f['size'],Z)))
        else: c.post(y,"consistent: the memory held is live and has the reserved size",And(boolc(d.r.id not in y.freed),eq(d.off,Z),eq(y.mem[d.r.id][1],f['reserved']),ule(f['size'],f['reserved'])))
    def content(s,y,size,off,end,data,what="content"):
        """post: size and content after replacing [off,end) by data(k); a gap between the old end and off is zero"""
        c=s.c; f=s.get(y); A=s.A(y); c.post(y,what+": size",eq(f['size'],size))
        want=Ite(And(ule(off,K),ult(K,end)),data(K-off),Ite(ult(K,s.size0),s.A0.sel(K),const(0,8))); c.post(y,what+": bytes",Implies(ult(K,size),eq(A.sel(K),want)))
    def same(s,y,what="unchanged",offset=None):
        c=s.c; f=s.get(y); A=s.A(y); c.post(y,what+": size and position",And(eq(f['size'],s.size0),eq(f['offset'],s.off0 if offset is None else offset))); c.post(y,what+": bytes",Implies(ult(K,s.size0),eq(A.sel(K),s.A0.sel(K))))
fresh_arr=lambda: SArr.fresh("grown",8)
umax=lambda a,b: Ite(ult(a,b),b,a); umin_=lambda a,b: Ite(ult(a,b),a,b)
def both(name,**kw):
    def d(g):
        for kind in ('buf','null'):
            def f(c,kind=kind): alloc(c); g(c,MF(c,kind))
            root(name+(" (no memory yet)" if kind=='null' else ""),**kw)(f)
        return g
    return d
@both("read")
def f(c,m):
    n=c.size('length'); d=c.arr('buffer',1,n); D0=c.st.mem[d.id][0]; av=Ite(ult(m.off0,m.size0),m.size0-m.off0,Z); k=umin_(n,av)
    for e,y in c.call("h_m_read",[m.p,P(d),n]):
        c.cover(y); c.post(y,"does not throw",boolc(e=='end')); f=m.get(y); m.ri(y); m.same(y,offset=m.off0+k); c.post(y,"reads what lies between the position and the end",eq(y.ghost['ret'],k))
        B=y.mem[d.id][0]; c.post(y,"the bytes at the position",Implies(ult(K,k),eq(B.sel(K),m.A0.sel(m.off0+K)))); c.post(y,"nothing behind them is touched",Implies(And(ule(k,K),ult(K,n)),eq(B.sel(K),D0.sel(K)))); c.post(y,"end of file exactly when nothing is left",eq(f['state'],Ite(And(ne(n,Z),eq(av,Z)),EOF,OK)))
def written(c,m,y,n,data,ret=None,zero=True):
    """n bytes written at the position, or failure without effect"""
    f=m.get(y); m.ri(y); ok=eq(f['state'],OK); end=m.off0+n; size=umax(m.size0,end)
    A=m.A(y); c.post(y,"size after writing",Implies(ok,Or(eq(f['size'],size),And(eq(n,Z),eq(f['size'],m.size0))))); c.post(y,"position after writing",eq(f['offset'],Ite(ok,end,m.off0)))
    want=Ite(And(ule(m.off0,K),ult(K,end)),data(K-m.off0),Ite(ult(K,m.size0),m.A0.sel(K),const(0,8)))
    c.post(y,"bytes after writing",Implies(And(ok,ult(K,f['size'])),eq(A.sel(K),want))); c.post(y,"a failed write changes nothing",Implies(Not(ok),And(eq(f['size'],m.size0),Implies(ult(K,m.size0),eq(A.sel(K),m.A0.sel(K))))))
    c.post(y,"fails only when the memory cannot grow",Implies(ule(end,m.res0),ok))
    if ret is not None: c.post(y,"reports what was written",eq(ret,Ite(ok,n,Z)))
@both("write")
def f(c,m):
    n=c.size('length'); d=c.arr('buffer',1,n); D0=c.st.mem[d.id][0]
    for e,y in c.call("h_m_write",[m.p,P(d),n]): c.cover(y); c.post(y,"does not throw",boolc(e=='end')); written(c,m,y,n,lambda k: D0.sel(k),y.ghost['ret'])
@both("write_byte")
def f(c,m):
    n=c.var('amount'); b=c.var('byte',8)
    for e,y in c.call("h_m_write_byte",[m.p,b,n]):
        c.cover(y)
        if e=='end': written(c,m,y,n,lambda k: b)
        else: c.post(y,"throws only on overflow",ult(m.off0+n,n)); m.ri(y); m.same(y)
for w in (8,16,32,64):
    @both("write uint%d_t"%w)
    def f(c,m,w=w):
        v=c.var('v',w); byte=lambda k: [extract(v,8*t+7,8*t) for t in range(w//8)]
        def data(k):
            r=extract(v,7,0)
            for t in range(1,w//8): r=Ite(eq(k,const(t,64)),extract(v,8*t+7,8*t),r)
            return r
        for e,y in c.call("h_m_w%d"%w,[m.p,v]):
            c.cover(y); c.post(y,"does not throw",boolc(e=='end')); s0=eq(m.state0,OK)
            if c.ex.feasible(y,Not(s0)) and not c.ex.feasible(y,s0): m.ri(y); m.same(y,"nothing is written after a failure"); c.post(y,"the failure stays",eq(m.get(y)['state'],m.state0))
            else: written(c,m,y,const(w//8,64),data)
    @both("read uint%d_t"%w)
    def f(c,m,w=w):
        x=P(c.cells('x',w//8)); c.put(x,w//8,c.var('x0',w)); B=w//8; s0=eq(m.state0,OK); fits=And(s0,ule(m.off0+B,m.size0)); want=m.A0.sel(m.off0)
        for t in range(1,B): want=concat(m.A0.sel(m.off0+t),want)
        for e,y in c.call("h_m_r%d"%w,[m.p,x]):
            c.cover(y); c.post(y,"does not throw",boolc(e=='end')); f=m.get(y); m.ri(y); got=c.ex.load_raw(y,x,B)
            c.post(y,"the little-endian value at the position",Implies(fits,And(eq(got,want),eq(f['offset'],m.off0+B),eq(f['state'],OK)))); c.post(y,"otherwise zero",Implies(Not(fits),And(eq(got,const(0,w)),eq(f['state'],Ite(s0,EOF,m.state0)),eq(f['offset'],Ite(And(s0,ult(m.off0,m.size0)),m.size0,m.off0)))))
            m.same(y,offset=f['offset'])
for n,T_,es in (('c','char',1),('w','wchar_t',4)):
    @both("write string of "+T_)
    def f(c,m,n=n,es=es):
        st=c.st; s=new_str(c,'text',es); b,ln=str_parts(c.ex,c.st,s); T0=c.st.mem[b.id][0]
        for e,y in c.call("h_m_ws_"+n,[m.p,s]): wrote_str(c,m,e,y,ln,T0,es)
    @both("write zero-terminated "+T_)
    def f(c,m,n=n,es=es):
        ln=c.size('len',1<<58); t=c.arr('text',es,ln+1); T0=c.st.mem[t.id][0]
        c.model(r'^unsigned long stdex::strlen<',lambda ex,st,n_,a,I: ln,"stdex::strlen contract (discharged under C16)")
        for e,y in c.call("h_m_wz_"+n,[m.p,P(t)]): wrote_str(c,m,e,y,ln,T0,es)
    @both("read string of "+T_)
    def f(c,m,n=n,es=es):
        s=new_str(c,'text',es)
        for e,y in c.call("h_m_rs_"+n,[m.p,s]):
            c.cover(y); c.post(y,"does not throw",boolc(e=='end')); f=m.get(y); m.ri(y); b,ln=str_parts(c.ex,y,s); B=y.mem[b.id][0]; s0=eq(m.state0,OK); hd=And(s0,ule(m.off0+4,m.size0)); num=zext(concat(*[m.A0.sel(m.off0+t) for t in (3,2,1,0)]),64)
            full=And(hd,ule(m.off0+4+num*es,m.size0)); av=udiv(m.size0-m.off0-4,const(es,64)) if es>1 else m.size0-m.off0-4
            c.post(y,"length",eq(ln,Ite(full,num,Ite(hd,av,Z)))); c.post(y,"characters",Implies(ult(K,ln),eq(B.sel(K),concat(*[m.A0.sel(m.off0+4+K*es+t) for t in reversed(range(es))]))))
            c.post(y,"state",eq(f['state'],Ite(full,OK,Ite(s0,EOF,m.state0)))); m.same(y,offset=Ite(full,m.off0+4+num*es,Ite(And(s0,ult(m.off0,m.size0)),m.size0,m.off0)))
def new_str(c,name,es):
    from models import new_string
    return new_string(c.ex,c.st,name,es)
def wrote_str(c,m,e,y,ln,T0,es):
    c.cover(y); s0=eq(m.state0,OK)
    if e!='end': c.post(y,"refuses only what does not fit, without effect",And(s0,ult(const(0xffffffff,64),ln))); m.ri(y); m.same(y); return
    if not c.ex.feasible(y,s0): m.ri(y); m.same(y,"nothing is written after a failure"); c.post(y,"the failure stays",eq(m.get(y)['state'],m.state0)); return
    def data(k):
        r=extract(ln,7,0)
        for t in range(1,4): r=Ite(eq(k,const(t,64)),extract(ln,8*t+7,8*t),r)
        q=k-4; ch=T0.sel(q if es==1 else lshr(q,const(2,64))); return Ite(ult(k,const(4,64)),r,ch if es==1 else Ite1(ch,q&3,4))
    written(c,m,y,ln*es+4,data)
@root("write_stream",budget=400)
def f(c):
    alloc(c); m=MF(c,'buf')
    def realloc_(ex,st,n,a,I):     # growth in place: the block keeps its identity, which a loop may then refer to
        p,k=a; ex.check(st,"realloc of a live block start",And(boolc(p.r.id not in st.freed),eq(p.off,Z)),kind='bounds'); q=fresh("realloc.ok",1); y=st.fork(); y.assume(eq(q,const(0,1))); st.assume(And(eq(q,const(1,1)),ult(k,const(1<<62,64)))); A,L=st.mem[p.r.id]; ex.setarr(st,p.r,fresh_arr().copy(Z,Ite(ult(L,k),L,k),A,Z),k); return [('ret',st,p),('ret',y,P(None,Z))]
    c.model(r'^realloc$',realloc_,"realloc in place (write_stream only: pointers into the block kept across a growth are not caught there)")
    s=Stream(c,'src'); n=c.var('amount'); c.assume(Or(eq(n,const((1<<64)-1,64)),ult(n,BIG))); rd=lambda st: s.pos(st)-s.pos0
    def step(v,dst,dsz,left,num): 
        f=m.get(v.st); A=m.A(v.st); L=v.st.mem[f['data'].r.id][1] if f['data'].r is not None else Z
        all_=eq(n,const((1<<64)-1,64)); return [eq(f['data'].off,Z),eq(f['reserved'],L),ule(f['size'],L),ule(L,const(1<<62,64)),eq(f['manage'],m.man0),Or(all_,ule(dst+left,L)),Or(eq(num,Z),ule(dst,L)),Implies(all_,eq(dsz,dst)),eq(rd(v.st),num),ule(num,n),eq(left,n-num),eq(dst,m.off0+num),eq(f['size'],m.size0),eq(f['offset'],m.off0),eq(f['state'],OK),ult(num,const(1<<61,64)),Implies(And(ule(m.off0,K),ult(K,m.off0+num)),eq(A.sel(K),s.C.sel(s.pos0+(K-m.off0)))),Implies(And(ult(K,m.size0),Not(And(ule(m.off0,K),ult(K,m.off0+num)))),eq(A.sel(K),m.A0.sel(K)))]
    c.loop(step,['dst_offset','dst_size','to_write','num_copied'],dec=lambda v,dst,dsz,left,num: left,name="copy loop",houdini=False)
    for e,y in c.call("h_m_write_stream",[m.p,s.p,n]):
        c.cover(y)
        if e!='end': c.post(y,"does not throw",FALSE); continue
        f=m.get(y); m.ri(y); A=m.A(y); r=y.ghost['ret']; c.post(y,"reports what was copied",And(eq(r,rd(y)),ule(r,n))); end=m.off0+r
        c.post(y,"position and size",And(eq(f['offset'],end),eq(f['size'],Ite(eq(r,Z),m.size0,umax(m.size0,end)))))
        want=Ite(And(ule(m.off0,K),ult(K,end)),s.C.sel(s.pos0+(K-m.off0)),Ite(ult(K,m.size0),m.A0.sel(K),const(0,8))); c.post(y,"bytes",Implies(ult(K,f['size']),eq(A.sel(K),want)))
        c.post(y,"ok means the amount or the whole source",Implies(eq(f['state'],OK),Or(eq(r,n),eq(s.state(y),EOF))))
@both("truncate")
def f(c,m):
    for e,y in c.call("h_m_truncate",[m.p]):
        c.cover(y); c.post(y,"does not throw",boolc(e=='end')); f=m.get(y); m.ri(y); ok=eq(f['state'],OK); A=m.A(y); c.post(y,"cuts at the position",And(eq(f['offset'],m.off0),eq(f['size'],Ite(ok,m.off0,m.size0)))); c.post(y,"fails only when the memory cannot grow",Implies(ule(m.off0,m.res0),ok))
        c.post(y,"bytes",Implies(ult(K,f['size']),eq(A.sel(K),Ite(ult(K,m.size0),m.A0.sel(K),const(0,8)))))
@both("seek")
def f(c,m):
    o=c.var('off'); how=c.var('how',32); c.assume(ule(how,const(2,32)),Or(ule(o,BIG),ule(Z-BIG,o))); base=Ite(eq(how,const(0,32)),Z,Ite(eq(how,const(1,32)),m.off0,m.size0)); t=base+o; neg=ult(TOP,t)
    for e,y in c.call("h_m_seek",[m.p,o,how]):
        c.cover(y); f=m.get(y); m.ri(y)
        if e!='end': c.post(y,"throws only before the start",neg); m.same(y); continue
        c.post(y,"moves to the position and reports it",And(Not(neg),eq(y.ghost['ret'],t),eq(f['state'],OK))); m.same(y,offset=t)
@both("tell, size, data")
def f(c,m):
    for e,y in c.call("h_m_tell",[m.p]): c.cover(y); c.post(y,"tell",eq(y.ghost['ret'],m.off0))
    for e,y in c.call("h_m_size",[m.p]): c.cover(y); c.post(y,"size",eq(y.ghost['ret'],m.size0))
    for e,y in c.call("h_m_data",[m.p]): c.cover(y); c.post(y,"data",boolc(y.ghost['ret'].r is (m.D if m.D is not None else None)))
@both("skip")
def f(c,m):
    n=c.var('amount'); c.assume(Or(ult(n,BIG),ult(TOP,n)))
    for e,y in c.call("h_m_skip",[m.p,n]):
        c.cover(y); m.ri(y)
        if e!='end': c.post(y,"throws only when the amount is no offset",ult(TOP,n)); m.same(y)
        else: c.post(y,"amount",ule(n,TOP)); m.same(y,offset=m.off0+n)
@both("read_remainder")
def f(c,m):
    mx=c.var('max'); out=P(c.cells('result',24)); av=Ite(ult(m.off0,m.size0),m.size0-m.off0,Z); k=umin_(mx,av)
    c.loop(lambda v,left: [FALSE],['to_read'],name="unused",when=lambda v: False)
    for e,y in c.call("h_m_rem",[out,m.p,mx]):
        c.cover(y); c.post(y,"does not throw",boolc(e=='end')); m.ri(y); m.same(y,offset=m.off0+k); vb,ln=vec_parts(c.ex,y,out,1); c.post(y,"everything up to the end or the limit",eq(ln,k)); c.post(y,"bytes",Implies(ult(K,k),eq(y.mem[vb.id][0].sel(K),m.A0.sel(m.off0+K))))
@both("reserve")
def f(c,m):
    n=c.var('required'); t=c.var('tight',1)
    for e,y in c.call("h_m_reserve",[m.p,n,t]):
        c.cover(y); c.post(y,"does not throw",boolc(e=='end')); f=m.get(y); m.ri(y); A=m.A(y); ok=eq(f['state'],OK); c.post(y,"position stays",eq(f['offset'],m.off0)); c.post(y,"success means the memory is there",Implies(ok,ule(n,f['reserved']))); c.post(y,"bytes",Implies(ult(K,f['size']),eq(A.sel(K),m.A0.sel(K)))); c.post(y,"cuts the content only when asked for less",eq(f['size'],Ite(And(ok,eq(t,const(1,1)),ult(n,m.size0)),n,m.size0)))
@both("close")
def f(c,m):
    for e,y in c.call("h_m_close",[m.p]):
        c.cover(y); c.post(y,"does not throw",boolc(e=='end')); f=m.get(y); m.ri(y); c.post(y,"empty",And(eq(f['size'],Z),eq(f['offset'],Z),eq(f['state'],OK),boolc(f['data'].r is None)))
        if m.D is not None: c.post(y,"own memory is released, foreign memory is not",eq(m.man0,const(1,8)) if m.D.id in y.freed else eq(m.man0,const(0,8)))
@both("destructor")
def f(c,m):
    for e,y in c.call("h_m_dtor",[m.p]):
        c.cover(y); c.post(y,"does not throw",boolc(e=='end'))
        if m.D is not None: c.post(y,"own memory is released, foreign memory is not",eq(m.man0,const(1,8)) if m.D.id in y.freed else eq(m.man0,const(0,8)))
@root("construction over existing memory")
def f(c):
    alloc(c); m=MF(c,'null'); p=P(c.cells('this',c.m.k("sz_m"))); r=c.size('reserved'); n=c.var('size'); c.assume(ule(n,r)); d=c.arr('block',1,r); g=c.var('manage',1); D0=c.st.mem[d.id][0]
    for e,y in c.call("h_m_ctord",[p,P(d),n,r,g]):
        c.cover(y); f=m.get(y,p); m.ri(y,p); c.post(y,"holds the memory",And(boolc(e=='end' and f['data'].r is d),eq(f['size'],n),eq(f['reserved'],r),eq(f['offset'],Z),eq(f['state'],OK),eq(f['manage'],zext(g,8)))); c.post(y,"bytes",Implies(ult(K,n),eq(y.mem[d.id][0].sel(K),D0.sel(K))))
    q=P(c.cells('this2',c.m.k("sz_m")))
    for e,y in c.call("h_m_ctor",[q,r]):
        c.cover(y)
        if e!='end': continue
        f=m.get(y,q); m.ri(y,q); c.post(y,"empty with the reserved size",And(eq(f['size'],Z),eq(f['reserved'],r),eq(f['offset'],Z),eq(f['state'],OK)))
for op in ('copy','move','assign','massign'):
    @both({'copy':"copy construction",'move':"move construction",'assign':"assignment",'massign':"move assignment"}[op])
    def f(c,m,op=op):
        t=MF(c,'buf','target') if 'assign' in op else None; p=t.p if t else P(c.cells('this',c.m.k("sz_m"))); mv=op.startswith('m')
        for e,y in c.call("h_m_"+op,[p,m.p]):
            c.cover(y)
            if e!='end': c.post(y,"throws only without memory",boolc(not mv)); m.ri(y); m.same(y); continue
            g=m.get(y,p); m.ri(y,p); m.ri(y); c.post(y,"same size and position",And(eq(g['size'],m.size0),eq(g['offset'],m.off0))); B=m.A(y,p); c.post(y,"same bytes",Implies(ult(K,m.size0),eq(B.sel(K),m.A0.sel(K)))); f=m.get(y)
            if mv: c.post(y,"the source is empty",And(eq(f['size'],Z),eq(f['offset'],Z),eq(f['reserved'],Z),boolc(f['data'].r is None)))
            else: m.same(y); c.post(y,"memory of its own",boolc(g['data'].r is None or g['data'].r is not f['data'].r)); c.post(y,"managed",eq(g['manage'],const(1,8)))
            if t: c.post(y,"own memory is released, foreign memory is not",eq(t.man0,const(1,8)) if t.D.id in y.freed else eq(t.man0,const(0,8)))
