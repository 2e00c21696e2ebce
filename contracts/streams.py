"""Abstract stream contract: the specification every underlying stream is assumed to obey (stream.hpp documentation of basic::read/write)."""
from fw import *
Z=const(0,64); ONE=const(1,64)
OK,EOF,FAIL=(const(i,32) for i in range(3))
class Stream:
    """an unknown stream: content src (bytes it will deliver, position pos in ghost cells), sink (bytes accepted so far, count wl in ghost cells)"""
    def __init__(s,c,name,kind='AS',ok=False,short=True,wshort=True,sticky=False):
        s.c=c; s.name=name; s.short=short; s.wshort=wshort; s.sticky=sticky; s.log=[]
        ex=c.ex; s.p=P(c.cells(name,c.m.k("sz_as" if kind=='AS' else "sz_af")))
        [(k,y)]=c.call("mk_as" if kind=='AS' else "mk_af",[s.p]); assert k=='end'; c.st=y; y.frames=[]
        [(k,z_)]=c.call("h_as_basic" if kind=='AS' else "h_af_basic",[s.p]); s.basic=z_.ghost['ret']
        s.stp=s.basic.plus(c.m.k("off_as_state")); s.state0=OK if ok else c.var(name+'.state',32)
        c.put(s.stp,4,s.state0); c.assume(ule(s.state0,const(2,32)))
        s.g=c.cells(name+'.ghost',64); s.src=c.arr(name+'.content',1,const(1<<62,64)); s.sink=c.arr(name+'.sink',1,const(1<<62,64))
        s.C=c.st.mem[s.src.id][0]; s.W0=c.st.mem[s.sink.id][0]
        s.pos0=c.var(name+'.pos'); s.wl0=c.var(name+'.wl'); c.assume(ult(s.pos0,const(1<<60,64)),ult(s.wl0,const(1<<60,64)))
        c.put(P(s.g),8,s.pos0); c.put(P(s.g).plus(8),8,s.wl0); c.put(P(s.g).plus(16),8,Z)
        if not hasattr(ex,'streams'): ex.streams={}; install(c)
        ex.streams[s.p.r.id]=s
    def pos(s,st): return s.c.ex.cell(st,s.g,0,8)
    def wl(s,st): return s.c.ex.cell(st,s.g,8,8)
    def calls(s,st): return s.c.ex.cell(st,s.g,16,8)
    def W(s,st): return st.mem[s.sink.id][0]
    def state(s,st): return s.c.ex.load_raw(st,s.stp,4)
    def set(s,st,off,v): rawcell(s.c.ex,st,P(s.g).plus(off),8,v)
    def setstate(s,st,v): rawcell(s.c.ex,st,s.stp,4,v)
def find(ex,p): return ex.streams[p.r.id]
def to_mem(ex,st,d,A,pos,n,length,name):
    """store n bytes A[pos..] at d; room for length bytes is required"""
    if d.r is None: ex.check(st,"%s: null buffer only for zero length"%name,eq(length,Z),kind='bounds'); return
    r,off=ex.resolve(d)
    if r.kind=='arr' and r.esize==1:
        B,L=st.mem[r.id]; ex.check(st,"%s: buffer has room"%name,Or(eq(length,Z),And(ule(off,L),ule(length,L-off))),kind='bounds')
        ex.setarr(st,r,B.copy(off,n,A,pos)); return
    if r.kind=='arr' and isc(length) and val(length)%r.esize==0 and val(length)<=64:
        e=r.esize; B,L=st.mem[r.id]; i=exact_div(off,e); k=val(length)//e; ex.check(st,"%s: buffer has room"%name,And(ule(i,L),ule(const(k,64),L-i)),kind='bounds')
        for t in range(k): B=B.store(i+t,Ite(ule(const((t+1)*e,64),n),concat(*[A.sel(pos+t*e+j) for j in reversed(range(e))]),B.sel(i+t)))
        ex.setarr(st,r,B); return
    if not isc(length) or val(length)>64: raise Unsupported("stream read into object")
    N=val(length)
    c=st.mem[r.id]; o=val(off)
    if o in c and c[o][0]==N and isinstance(c[o][1],T) or N in(1,2,4,8) and not any(q<o+N and o<q+cc[0] for q,cc in c.items()):
        old=c[o][1] if o in c else fresh("uninit",8*N)
        by=[Ite(ult(const(k,64),n),A.sel(pos+k),extract(old,8*k+7,8*k)) for k in range(N)]
        rawcell(ex,st,d,N,concat(*reversed(by)))
    else:
        for k in range(N): rawcell(ex,st,d.plus(k),1,Ite(ult(const(k,64),n),A.sel(pos+k),ex.load_raw(st,d.plus(k),1) if o+k in c else fresh("uninit",8)))
def from_mem(ex,st,p,n,name):
    """(SArr,start) of n bytes at p after a bounds check"""
    if p.r is None: ex.check(st,"%s: null source only for zero length"%name,eq(n,Z),kind='bounds'); return SArr.fresh("nil",8),Z
    r,off=ex.resolve(p)
    if r.kind=='cells':
        if not isc(n): raise Unsupported("stream write from object")
        return SArr.consts([ex.load_raw(st,p.plus(k),1) for k in range(val(n))],8),Z
    A,L=st.mem[r.id]
    if r.esize!=1:
        e=r.esize; i=exact_div(off,e)
        if i is None: raise Unsupported("stream write alignment")
        q=exact_div(n,e)
        if q is None: raise Unsupported("stream write length")
        ex.check(st,"%s: source in bounds"%name,Or(eq(q,Z),And(ule(i,L),ule(q,L-i))),kind='bounds')
        sh={2:1,4:2,8:3}[e]
        return SArr.fn(lambda k: (lambda v: Ite1(v,k&(e-1),e))(A.sel(i+lshr(k,const(sh,64)))),8),Z
    ex.check(st,"%s: source in bounds"%name,Or(eq(n,Z),And(ule(off,L),ule(n,L-off))),kind='bounds')
    return A,off
def Ite1(v,k,e):
    r=extract(v,7,0)
    for j in range(1,e): r=Ite(eq(k,const(j,64)),extract(v,8*j+7,8*j),r)
    return r
def do_read(ex,st,s,d,length):
    n=fresh(s.name+".n",64); q=fresh(s.name+".st",32); st.assume(ule(n,length)); st.assume(ule(q,const(2,32)))
    st.assume(Implies(And(eq(q,OK),ne(length,Z)),ne(n,Z)))
    st.assume(Implies(And(eq(n,length),ne(length,Z)),eq(q,OK)))
    if not s.short: st.assume(Implies(eq(q,OK),eq(n,length)))
    pos=s.pos(st); st.assume(And(ult(pos,const(1<<61,64)),ult(pos+n,const(1<<61,64))))
    to_mem(ex,st,d,s.C,pos,n,length,"stream read")
    s.set(st,0,pos+n); s.setstate(st,q); s.set(st,16,s.calls(st)+1); ex.wlog(st,(s.g,0,8)); return n
def do_write(ex,st,s,d,length):
    n=fresh(s.name+".n",64); q=fresh(s.name+".st",32); st.assume(ule(n,length)); st.assume(Or(eq(q,OK),eq(q,FAIL)))
    if not s.wshort: st.assume(Implies(eq(q,OK),eq(n,length)))
    st.assume(Implies(And(eq(q,OK),ne(length,Z)),ne(n,Z)))
    if s.sticky: st.assume(Implies(eq(s.state(st),FAIL),And(eq(n,Z),eq(q,FAIL))))
    A,i=from_mem(ex,st,d,length,"stream write"); wl=s.wl(st); st.assume(And(ult(wl,const(1<<61,64)),ult(wl+n,const(1<<61,64))))
    B,_=st.mem[s.sink.id]; ex.setarr(st,s.sink,B.copy(wl,n,A,i)); s.set(st,8,wl+n); s.setstate(st,q); s.set(st,16,s.calls(st)+1); return n
PFX=r'^(?:(?:non-)?virtual thunk to )?A[SF]::'
def install(c):
    D="underlying stream: read/write transfer at most the requested number of consecutive bytes, progress or a state other than ok, no other effect"
    c.model(PFX+r'read\(',lambda ex,st,n,a,I: do_read(ex,st,find(ex,a[0]),a[1],a[2]),D)
    c.model(PFX+r'write\(',lambda ex,st,n,a,I: do_write(ex,st,find(ex,a[0]),a[1],a[2]),D)
    def fl(ex,st,n,a,I):
        s=find(ex,a[0]); q=fresh(s.name+".st",32); st.assume(ule(q,const(2,32))); s.setstate(st,q); s.set(st,24,(ex.cell(st,s.g,24,8) if 24 in st.mem[s.g.id] else Z)+1); return None
    c.model(PFX+r'(flush|close)\(',fl,"underlying stream: flush/close only change the state")
def read_array_contract(c):
    """callee contract of basic::read_array, discharged under C26"""
    def h(ex,st,n,a,I):
        s=ex.streams.get(a[0].r.id)
        if s is None: raise Unsupported("read_array on a stream that is not abstract")
        size,count=a[2],a[3]; tot=mul(size,count)
        if not(isc(size)): raise Unsupported("symbolic element size")
        nb=fresh(s.name+".n",64); q=fresh(s.name+".st",32); st.assume(ule(nb,tot)); st.assume(ule(q,const(2,32))); st.assume(Implies(ult(nb,tot),ne(q,OK))); st.assume(Implies(And(eq(nb,tot),ne(tot,Z)),eq(q,OK)))
        pos=s.pos(st); st.assume(And(ult(pos,const(1<<61,64)),ult(pos+nb,const(1<<61,64)))); to_mem(ex,st,a[1],s.C,pos,nb,tot,"read_array")
        s.set(st,0,pos+nb); s.setstate(st,q); return nb if val(size)==1 else Ite(eq(nb,tot),count,udiv(nb,size))
    c.model(r'^stdex::stream::basic::read_array\(',h,"basic::read_array contract (discharged under C26)")
def write_array_contract(c):
    def h(ex,st,n,a,I):
        s=ex.streams[a[0].r.id]; size,count=a[2],a[3]; tot=mul(size,count); k=do_write(ex,st,s,a[1],tot)
        return k if val(size)==1 else udiv(k,size)
    c.model(r'^stdex::stream::basic::write_array\(void',h,"basic::write_array contract (discharged under C26)")
