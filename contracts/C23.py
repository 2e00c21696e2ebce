from fw import *
from streams import *
prop("C23",oracle="C23.cpp",oracle_time=(30,240),assume=["the cached file is a plain byte file: a read transfers everything up to the request or the end, writing or truncating past the end fills with zeros, a write takes less than asked or a seek fails only with the state 'fail'; reading, truncating and asking for the size do not fail","a zero-length write past the end may or may not grow the file","positions, sizes and requests below 2^60, capacity from 1 to 2^40 bytes"])
K=var('K',64); BIG=const(1<<60,64); FMAX=const(-1,64)
EMPTY,LOADED,DIRTY=(const(i,32) for i in range(3)); B0=const(0,8)
umax=lambda a,b: Ite(ult(a,b),b,a)
class Plain:
    """the file under the cache: content, size and position in ghost cells; seek and write may fail"""
    def __init__(s,c):
        s.c=c; ex=c.ex; s.p=P(c.cells('file',c.m.k("sz_af"))); [(k,y)]=c.call("mk_af",[s.p]); c.st=y; y.frames=[]; [(k,z_)]=c.call("h_af_basic",[s.p]); s.stp=z_.ghost['ret'].plus(c.m.k("off_as_state"))
        s.state0=c.var('file.state',32); c.put(s.stp,4,s.state0); c.assume(ule(s.state0,const(2,32)))
        s.g=c.cells('file.ghost',64); s.r=c.arr('file.content',1,const(1<<62,64)); s.A0=c.st.mem[s.r.id][0]; s.size0=c.var('file.size'); s.pos0=c.var('file.pos')
        c.assume(ule(s.size0,BIG),ule(s.pos0,BIG)); s.set(c.st,0,s.pos0); s.set(c.st,8,s.size0); s.set(c.st,16,Z); s.set(c.st,24,Z); s.set(c.st,32,Z)
        rx=PFX; D="the cached file behaves as a plain file"
        c.model(rx+r'read\(',s.read,D); c.model(rx+r'write\(',s.write,D); c.model(rx+r'seek\(',s.seek,D); c.model(rx+r'tell\(',lambda ex,st,n,a,I: s.pos(st),D); c.model(rx+r'size\(',lambda ex,st,n,a,I: s.size(st),D); c.model(rx+r'truncate\(',s.truncate,D); c.model(rx+r'flush\(',lambda ex,st,n,a,I: s.count(st,24),D); c.model(rx+r'close\(',lambda ex,st,n,a,I: s.count(st,32),D)
    def set(s,st,off,v): rawcell(s.c.ex,st,P(s.g).plus(off),8,v)
    def cell(s,st,off): return s.c.ex.cell(st,s.g,off,8)
    def pos(s,st): return s.cell(st,0)
    def size(s,st): return s.cell(st,8)
    def failed(s,st): return ne(s.cell(st,16),Z)
    def A(s,st): return st.mem[s.r.id][0]
    def at(s,st,k): return Ite(ult(k,s.size(st)),s.A(st).sel(k),B0)
    def state(s,st): return s.c.ex.load_raw(st,s.stp,4)
    def setstate(s,st,v): rawcell(s.c.ex,st,s.stp,4,v)
    def count(s,st,o): s.set(st,o,s.cell(st,o)+1); q=fresh("file.st",32); st.assume(Or(eq(q,OK),eq(q,FAIL))); s.setstate(st,q); s.set(st,16,Ite(eq(q,OK),s.cell(st,16),ONE))
    def read(s,ex,st,n,a,I):
        l=a[2]; pos,size=s.pos(st),s.size(st); k=fresh('file.n',64); st.assume(And(ule(k,l),Implies(ule(size,pos),eq(k,Z)),Implies(ult(pos,size),And(ule(k,size-pos),Or(eq(k,l),eq(k,size-pos)))))); to_mem(ex,st,a[1],s.A(st),pos,k,l,"reading the file"); s.set(st,0,pos+k); s.setstate(st,Ite(Or(eq(l,Z),ne(k,Z)),OK,EOF)); return k
    def write(s,ex,st,n,a,I):
        l=a[2]; pos,size=s.pos(st),s.size(st); B,i=from_mem(ex,st,a[1],l,"writing the file"); k=fresh("file.n",64); st.assume(ule(k,l)); q=Ite(eq(k,l),OK,FAIL); end=pos+k; A=s.A(st)
        ex.setarr(st,s.r,SArr.fn(lambda j: Ite(And(ule(pos,j),ult(j,end)),B.sel(i+(j-pos)),Ite(ult(j,size),A.sel(j),B0)),8)); s.set(st,8,Ite(eq(k,Z),size,umax(size,end))); s.set(st,0,end); s.setstate(st,q); s.set(st,16,Ite(eq(k,l),s.cell(st,16),ONE)); return k
    def seek(s,ex,st,n,a,I):
        if val(a[2])!=s.c.m.k("k_beg"): raise Unsupported("seek origin")
        b=fresh("file.seek",1); ok=eq(b,const(1,1)); s.set(st,0,Ite(ok,a[1],s.pos(st))); s.setstate(st,Ite(ok,OK,FAIL)); s.set(st,16,Ite(ok,s.cell(st,16),ONE)); return Ite(ok,a[1],FMAX)
    def truncate(s,ex,st,n,a,I):
        pos,size,A=s.pos(st),s.size(st),s.A(st); ex.setarr(st,s.r,SArr.fn(lambda j: Ite(ult(j,size),A.sel(j),B0),8)); s.set(st,8,pos); s.setstate(st,OK)
class Cache:
    def __init__(s,c,ctor=False):
        s.c=c; k=c.m.k; c.ex.divfacts=[]; s.f=Plain(c); s.p=P(c.cells('cache',k("sz_c"))); s.o={x:k("off_c_"+x) for x in('source','data','cap','status','start','end','offset')}
        s.cap=c.var('capacity'); c.assume(ule(ONE,s.cap),ule(s.cap,const(1<<40,64)))
        y0=c.st.fork(); out=c.call("h_c_ctor",[s.p,s.f.p,s.cap])
        s.stat(out[0][1])
        for q,y in out:
            g=s.get(y); c.post(y,"a new cache is empty and at the position of the file",And(boolc(q=='end'),eq(g['status'],EMPTY),eq(g['cap'],s.cap),eq(g['offset'],s.f.pos0),eq(g['state'],s.f.state0),boolc(c.ptr(y,s.p.plus(s.o['source'])).r is s.f.p.r)))
            d=c.ptr(y,s.p.plus(s.o['data'])); c.post(y,"its memory has that size",boolc(False) if d.r is None else And(eq(y.mem[d.r.id][1],s.cap),eq(d.off,Z)))
        if ctor:
            y=out[0][1]; y.frames=[]; c.st=y; s.p=P(c.cells('cache2',k("sz_c")))
            for q,y in c.call("h_c_ctor2",[s.p,s.f.p,s.cap]):
                s.stat(y); g=s.get(y); c.cover(y); c.post(y,"a cache attached later is the same",And(boolc(q=='end'),eq(g['status'],EMPTY),eq(g['cap'],s.cap),eq(g['offset'],s.f.pos0),eq(g['state'],s.f.state0),boolc(c.ptr(y,s.p.plus(s.o['source'])).r is s.f.p.r)))
            return
        y=out[0][1]; y.pc=y0.pc; y.frames=[]; c.st=y
        s.d=c.arr('cached',1,s.cap); s.D0=c.st.mem[s.d.id][0]; v={x:c.var(x) for x in('start','end','offset')}; v['status']=c.var('status',32); v['state']=c.var('state',32); s.v=v
        for x,w in(('start',8),('end',8),('offset',8),('status',4),('state',4)): c.put(s.p.plus(s.o[x]),w,v[x])
        c.put(s.p.plus(s.o['data']),8,P(s.d)); c.assume(ule(v['offset'],BIG),ule(v['state'],const(2,32)))
        for x in s.rep(c.st): c.assume(x)
        s.L0=s.L(c.st,K); s.N0=s.N(c.st)
    def stat(s,y):
        pc,fr,st0=y.pc,y.frames,s.c.st; s.c.st=y; [(k,z_)]=s.c.call("h_c_state",[s.p]); s.o['state']=val(z_.ghost['ret'].off); s.c.st=st0
    def get(s,st): L=s.c.ex.load_raw; return {x:L(st,s.p.plus(s.o[x]),w) for x,w in(('state',4),('status',4),('cap',8),('start',8),('end',8),('offset',8))}
    def used(s,g): return And(ne(g['status'],EMPTY),ult(g['start'],g['end']))
    def inreg(s,g,k): return And(ne(g['status'],EMPTY),ule(g['start'],k),ult(k,g['end']))
    def rep(s,st,k=K):
        """consistent: the block lies within the capacity; a loaded block equals the file; behind the block's end the file holds nothing but zeros"""
        g=s.get(st); f=s.f; A=st.mem[s.d.id][0]; u=ne(g['status'],EMPTY)
        return [eq(g['cap'],s.cap),ule(g['status'],DIRTY),Implies(u,And(ule(g['start'],g['end']),ule(g['start'],const(1<<61,64)),ule(g['end']-g['start'],s.cap))),Implies(And(eq(g['status'],LOADED),s.used(g)),ule(g['end'],f.size(st))),Implies(And(eq(g['status'],LOADED),s.inreg(g,k)),eq(A.sel(k-g['start']),f.A(st).sel(k))),Implies(And(u,ule(g['end'],k),ult(k,g['start']+s.cap),ult(k,f.size(st))),eq(f.A(st).sel(k),B0))]
    def L(s,st,k): g=s.get(st); return Ite(s.inreg(g,k),st.mem[s.d.id][0].sel(k-g['start']),s.f.at(st,k))
    def N(s,st): g=s.get(st); return Ite(s.used(g),umax(s.f.size(st),g['end']),s.f.size(st))
    def consistent(s,y):
        for x in s.rep(y): s.c.post(y,"consistent",x)
        s.c.post(y,"keeps its memory",boolc(s.c.ptr(y,s.p.plus(s.o['data'])).r is s.d))
    def same(s,y): s.c.post(y,"content and size are unchanged",And(eq(s.N(y),s.N0),eq(s.L(y,K),s.L0)))
    def rank(s,st,left): g=s.get(st); return left+left+Ite(And(ne(g['status'],EMPTY),ule(g['start'],g['offset']),ult(g['offset'],g['start']+s.cap)),Z,ONE)
BLK=r"^stdex::stream::cache::"
class Snap:
    def __init__(s,b,st): s.g=b.get(st); s.N=b.N(st); s.L=b.L(st,K); s.size=b.f.size(st); s.fail=b.f.cell(st,16); s.fl=b.f.cell(st,24); s.cl=b.f.cell(st,32)
def keeps(b,s0,y):
    g=b.get(y); return [eq(g['offset'],s0.g['offset']),eq(b.N(y),s0.N),eq(b.L(y,K),s0.L),Implies(ne(s0.fail,Z),b.f.failed(y)),ule(g['state'],const(2,32)),eq(b.f.cell(y,24),s0.fl),eq(b.f.cell(y,32),s0.cl),ule(b.f.pos(y),const(1<<62,64))]+b.rep(y)
def flushed(b,s0,y,inv):
    g=b.get(y); ok=eq(g['state'],OK); d=eq(s0.g['status'],DIRTY); return keeps(b,s0,y)+[eq(g['start'],s0.g['start']),eq(g['end'],s0.g['end']),Or(ok,b.f.failed(y)),eq(g['status'],Ite(ok,EMPTY if inv else Ite(d,LOADED,s0.g['status']),s0.g['status'])),ule(s0.size,b.f.size(y)),ule(b.f.size(y),umax(s0.size,s0.N))]
def loaded(b,s0,a,y):
    g=b.get(y); ok=eq(g['state'],OK); top=g['start']+b.cap; return keeps(b,s0,y)+[eq(b.f.size(y),s0.size),Or(ok,b.f.failed(y)),eq(g['status'],Ite(ok,LOADED,EMPTY)),Implies(ok,And(ule(g['start'],a),ult(a-g['start'],b.cap),eq(g['end'],Ite(ult(b.f.size(y),g['start']),g['start'],Ite(ult(b.f.size(y),top),b.f.size(y),top)))))]
def helpers(c,b):
    """callee contracts of the block helpers, discharged by the roots below; content is stated for the arbitrary position K"""
    def havoc(ex,st,file,data):
        o=b.o
        for x,w in(('state',4),('status',4),('start',8),('end',8)): rawcell(ex,st,b.p.plus(o[x]),w,fresh('c.'+x,8*w))
        b.f.set(st,0,fresh('f.pos',64)); b.f.set(st,16,fresh('f.fail',64)); b.f.setstate(st,fresh('f.state',32))
        if file: b.f.set(st,8,fresh('f.size',64)); ex.setarr(st,b.f.r,SArr.fresh('f.content',8))
        if data: ex.setarr(st,b.d,SArr.fresh('c.data',8))
    def pre(ex,st,n):
        if a_(st) is not b.p.r: raise Unsupported("another cache")
    a_=lambda st: b.p.r
    def mk(inv):
        def h(ex,st,n,a,I):
            for x in b.rep(st): ex.check(st,n[22:].split('(')[0]+" gets a consistent cache",x,kind='pre')
            s0=Snap(b,st); havoc(ex,st,True,False)
            for x in flushed(b,s0,st,inv): st.assume(x)
        return h
    c.model(BLK+r"flush_cache\(\)",mk(False),"flush_cache contract (discharged)"); c.model(BLK+r"invalidate_cache\(\)",mk(True),"invalidate_cache contract (discharged)")
    def ld(ex,st,n,a,I):
        for x in b.rep(st)+[ne(b.get(st)['status'],DIRTY),ule(a[1],const(1<<61,64))]: ex.check(st,"load_cache gets a consistent cache that is not dirty",x,kind='pre')
        s0=Snap(b,st); havoc(ex,st,False,True)
        for x in loaded(b,s0,a[1],st): st.assume(x)
    c.model(BLK+r"load_cache\(unsigned long\)",ld,"load_cache contract (discharged)")
for op in('flush','invalidate'):
    @root(op+"_cache")
    def f(c,op=op):
        b=Cache(c); s0=Snap(b,c.st)
        for k,y in c.call("h_c_b"+op,[b.p]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end')); b.consistent(y)
            for x in flushed(b,s0,y,op=='invalidate'): c.post(y,"contract",x)
            c.post(y,"the cached bytes stay",eq(y.mem[b.d.id][0].sel(K),b.D0.sel(K)))
@root("load_cache")
def f(c):
    b=Cache(c); a=c.var('where'); c.assume(ule(a,const(1<<61,64)),ne(b.v['status'],DIRTY)); s0=Snap(b,c.st)
    for k,y in c.call("h_c_bload",[b.p,a]):
        c.cover(y); c.post(y,"does not throw",boolc(k=='end')); b.consistent(y)
        for x in loaded(b,s0,a,y): c.post(y,"contract",x)
        c.post(y,"the file stays",eq(b.f.A(y).sel(K),b.f.A0.sel(K)))
@root("constructors")
def f(c):
    b=Cache(c,ctor=True)
    c.int_lemma("Euclidean division",lambda a,b,q,r,a2,q2,r2: z3.Implies(z3.And(b>0,a==q*b+r,0<=r,r<b,a2==q2*b+r2,0<=r2,r2<b,a>=0,a2>=0),z3.And(r<=a,(q==0)==(a<b),z3.Implies(q<q2,a-r+b<=a2-r2),z3.Implies(q==q2,a-r==a2-r2),z3.Implies(a<=a2,q<=q2))),'a','b','q','r','a2','q2','r2')
@root("read",budget=600)
def f(c):
    b=Cache(c); helpers(c,b); n=c.size('length',1<<60); d=c.arr('data',1,n); D0=c.st.mem[d.id][0]; off=b.v['offset']; A_=lambda v: v.st.mem[d.id][0]; i=K-off
    av=Ite(ult(off,b.N0),b.N0-off,Z); want=Ite(ult(n,av),n,av)
    def inv(v,left,data):
        y=v.st; g=b.get(y); m=n-left
        return b.rep(y)+[ule(left,n),eq(data,m),eq(g['offset'],off+m),eq(b.N(y),b.N0),eq(b.L(y,K),b.L0),ule(m,av),Implies(And(ule(off,K),ult(K,off+m)),eq(A_(v).sel(i),b.L0)),Implies(And(ule(off+m,K),ult(K,off+n)),eq(A_(v).sel(i),D0.sel(i)))]
    c.loop(inv,['to_read','data'],dec=lambda v,left,data: b.rank(v.st,left),name="read loop",houdini=False)
    for k,y in c.call("h_c_read",[b.p,P(d),n]):
        c.cover(y); c.post(y,"does not throw",boolc(k=='end')); b.consistent(y); b.same(y); m=y.ghost['ret']; g=b.get(y); A=y.mem[d.id][0]
        c.post(y,"never more than there is",ule(m,want)); c.post(y,"everything there is, unless the file failed",Implies(Not(b.f.failed(y)),eq(m,want))); c.post(y,"moves on by what it returns",eq(g['offset'],off+m)); c.post(y,"the bytes of the file",Implies(And(ule(off,K),ult(K,off+m)),eq(A.sel(i),b.L0))); c.post(y,"nothing behind them is touched",Implies(And(ule(off+m,K),ult(K,off+n)),eq(A.sel(i),D0.sel(i))))
        c.post(y,"state",And(Implies(ne(m,Z),eq(g['state'],OK)),Implies(And(eq(m,Z),ne(n,Z)),ne(g['state'],OK)),Implies(And(eq(m,Z),ne(n,Z),Not(b.f.failed(y))),eq(g['state'],EOF))))
@root("write",budget=600)
def f(c):
    b=Cache(c); helpers(c,b); n=c.size('length',1<<60); d=c.arr('data',1,n); D0=c.st.mem[d.id][0]; off=b.v['offset']; i=K-off
    val_=lambda m: Ite(And(ule(off,K),ult(K,off+m)),D0.sel(i),b.L0)
    def inv(v,left,data):
        y=v.st; g=b.get(y); m=n-left
        return b.rep(y)+[ule(left,n),eq(data,m),eq(g['offset'],off+m),eq(b.N(y),Ite(eq(m,Z),b.N0,umax(b.N0,off+m))),eq(b.L(y,K),val_(m))]
    c.loop(inv,['to_write','data'],dec=lambda v,left,data: b.rank(v.st,left),name="write loop",houdini=False)
    for k,y in c.call("h_c_write",[b.p,P(d),n]):
        c.cover(y); c.post(y,"does not throw",boolc(k=='end')); b.consistent(y); m=y.ghost['ret']; g=b.get(y)
        c.post(y,"within the request",ule(m,n)); c.post(y,"everything, unless the file failed",Implies(Not(b.f.failed(y)),And(eq(m,n),eq(g['state'],OK)))); c.post(y,"less only with a state other than ok",Implies(ult(m,n),ne(g['state'],OK))); c.post(y,"moves on by what it returns",eq(g['offset'],off+m))
        c.post(y,"the size grows to the end of what was written",Or(eq(b.N(y),umax(b.N0,off+m)),And(eq(m,Z),eq(b.N(y),b.N0)))); c.post(y,"the bytes given at their place, the others unchanged",eq(b.L(y,K),val_(m)))
for op in('flush','close','dtor','done'):
    @root({'flush':"flush",'close':"close",'dtor':"destructor",'done':"detaching"}[op])
    def f(c,op=op):
        b=Cache(c)
        for k,y in c.call("h_c_"+op,[b.p]):
            c.cover(y); c.post(y,"throws only when the file failed",Or(boolc(k=='end'),b.f.failed(y))); f=b.f
            whole=And(eq(f.size(y),b.N0),eq(f.at(y,K),b.L0))
            if op=='flush':
                g=b.get(y); c.post(y,"does not throw",boolc(k=='end')); b.consistent(y); b.same(y); c.post(y,"position stays",eq(g['offset'],b.v['offset'])); c.post(y,"ok unless the file failed",Or(eq(g['state'],OK),f.failed(y))); c.post(y,"ok means the file holds exactly this content and was flushed",Implies(eq(g['state'],OK),And(whole,eq(f.cell(y,24),ONE))))
            elif op=='close':
                g=b.get(y); b.consistent(y); b.same(y)
                if k=='end': c.post(y,"the file holds exactly this content and was closed",And(whole,eq(f.cell(y,32),ONE),eq(g['state'],f.state(y)),eq(g['status'],EMPTY)))
            else:
                if k=='end': c.post(y,"the file holds exactly this content",whole); c.post(y,"the position is handed back",Or(f.failed(y),eq(f.pos(y),b.v['offset'])))
                if op=='dtor' and k=='end': c.post(y,"releases its memory",boolc(b.d.id in y.freed))
                if op=='done' and k=='end': c.post(y,"detached",boolc(c.ptr(y,b.p.plus(b.o['source'])).r is None))
@root("seek, tell and size")
def f(c):
    b=Cache(c); kb,kc,ke=(c.m.k(x) for x in("k_beg","k_cur","k_end")); y0=c.st
    for q,y in c.call("h_c_tell",[b.p]): c.post(y,"tell",And(boolc(q=='end'),eq(y.ghost['ret'],b.v['offset'])))
    for q,y in c.call("h_c_size",[b.p]): c.post(y,"size",And(boolc(q=='end'),eq(y.ghost['ret'],b.N0))); b.same(y); b.consistent(y)
    o=c.var('delta'); c.assume(sle(const(-(1<<60),64),o),sle(o,BIG))
    for how,base in((kb,Z),(kc,b.v['offset']),(ke,b.N0)):
        t=base+o; neg=slt(t,Z)
        for q,y in c.call("h_c_seek",[b.p,o,const(how,32)]):
            c.cover(y); g=b.get(y); b.consistent(y); b.same(y); c.post(y,"throws exactly for a position before the beginning",Not(neg) if q=='end' else neg); c.post(y,"moves to the position",eq(g['offset'],t) if q=='end' else eq(g['offset'],b.v['offset']))
            if q=='end': c.post(y,"reports it",And(eq(y.ghost['ret'],t),eq(g['state'],OK)))
@root("truncate")
def f(c):
    b=Cache(c); off=b.v['offset']
    for k,y in c.call("h_c_truncate",[b.p]):
        c.cover(y); c.post(y,"does not throw",boolc(k=='end')); b.consistent(y); g=b.get(y); c.post(y,"position stays",eq(g['offset'],off))
        done=eq(g['state'],OK); c.post(y,"ok unless the file failed",Or(done,b.f.failed(y))); c.post(y,"the file ends at the position",Implies(done,And(eq(b.N(y),off),eq(b.L(y,K),Ite(ult(K,off),b.L0,B0))))); c.post(y,"or nothing changes",Implies(Not(done),And(eq(b.N(y),b.N0),eq(b.L(y,K),b.L0))))
