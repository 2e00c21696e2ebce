from fw import *
prop("C25",oracle="C25.cpp",assume=["blocks written are below 16 GiB each and at most 2^29 of them are pending (the address encoding of the list)","operator new does not fail"])
Z=const(0,64); ONE=const(1,64); OK,EOF,FAIL=(const(i,32) for i in range(3)); K=var('K',64); SH=34; S=1<<SH
# The pending list as an abstract chain of n nodes; node i holds the bytes start(i)..start(i+1) of the ghost stream Q. The pointer to node i is chain+i*S; one behind the last is null.
class Chain:
    def __init__(s,c,this,n,end,Q):
        s.c=c; s.n=n; s.end=end; s.Q=Q; k=c.m.k; s.o=dict(next=k("off_n_next"),size=k("off_n_size"),data=k("off_n_data")); s.g=c.cells('ghost',64); c.put(P(s.g),8,c.var('deleted0')); s.app=None
        s.r=Region("node",'custom'); s.r.info=s
    start=staticmethod(lambda i: uf('start',64,i))
    def idx(s,off): return lshr(off,const(SH,64))
    def null(s,off): return eq(off,s.n<<SH)
    def facts(s,st,i): st.assume(Implies(ult(i,s.n),And(ule(s.start(i),s.start(i+1)),ule(s.start(i+1),s.end),ult(s.start(i+1)-s.start(i),const(S-4096,64))))); st.assume(Implies(eq(i+1,s.n),eq(s.start(i+1),s.end)))
    def deleted(s,st): return s.c.ex.cell(st,s.g,0,8)
    def live(s,ex,st,i): ex.check(st,"access to a live node",And(ult(i,s.n),ule(s.deleted(st),i)),kind='bounds')
    def load(s,ex,st,r,off,ty):
        i=s.idx(off); w=off&(S-1); s.live(ex,st,i); s.facts(st,i)
        if ty.k=='ptr': ex.check(st,"reads the link of the node",eq(w,const(s.o['next'],64)),kind='bounds'); return P(s.r,(i+1)<<SH)
        if ty.size==8: ex.check(st,"reads the size of the node",eq(w,const(s.o['size'],64)),kind='bounds'); return s.start(i+1)-s.start(i)
        raise Unsupported("access to a list node")
    def store(s,ex,st,r,off,v,ty):
        i=s.idx(off); w=off&(S-1); s.live(ex,st,i); ex.check(st,"only the link of the last node is changed",And(eq(w,const(s.o['next'],64)),eq(i+1,s.n)),kind='bounds')
        if not isinstance(v,P): raise Unsupported("store of a link")
        rawcell(ex,st,P(s.g).plus(8),8,v)
    def source(s,ex,st,off,n):
        i=s.idx(off); w=(off&(S-1))-const(s.o['data'],64); s.live(ex,st,i); s.facts(st,i); sz=s.start(i+1)-s.start(i); ex.check(st,"reads data of the node only",Or(eq(n,Z),And(ule(w,sz),ule(n,sz-w),ule(const(s.o['data'],64),off&(S-1)))),kind='bounds'); return s.Q,s.start(i)+w
class Fifo:
    def __init__(s,c):
        s.c=c; k=c.m.k; s.o={f:k("off_f_"+f) for f in('state','offset','size','head','tail')}; s.p=P(c.cells('fifo',k("sz_f")))
        [(q,y)]=c.call("h_f_ctor",[s.p]); y.frames=[]; c.st=y; g=s.get(y); c.post(y,"a new queue is empty",And(boolc(q=='end' and g['head'].r is None),eq(g['offset'],Z),eq(g['size'],Z),eq(g['state'],OK)))
        n=c.var('nodes'); end=c.size('end'); s.Q=SArr.fresh("pending",8); s.n=n; s.end=end; s.ch=Chain(c,s.p,n,end,s.Q); s.h0=c.var('head'); s.off0=c.var('offset'); s.st0=c.var('state',32)
        c.assume(ule(n,const(1<<29,64)),ule(s.h0,n),ule(s.st0,const(2,32)),ule(Chain.start(s.h0),end),Implies(eq(s.h0,n),And(eq(Chain.start(s.h0),end),eq(s.off0,Z)))); s.ch.facts(c.st,s.h0); s.ch.facts(c.st,n-1)
        c.assume(Implies(ult(s.h0,n),ule(s.off0,Chain.start(s.h0+1)-Chain.start(s.h0))),eq(s.ch.deleted(c.st),s.h0)); s.pos0=Chain.start(s.h0)+s.off0; s.size0=end-s.pos0
        for f,v,w in (('state',s.st0,4),('offset',s.off0,8),('size',s.size0,8),('head',P(s.ch.r,s.h0<<SH),8),('tail',P(s.ch.r,(n-1)<<SH),8)): c.put(s.p.plus(s.o[f]),w,v)
        def dele(ex,st,nm,a,I):
            p=a[0]
            if p.r is s.ch.r: i=s.ch.idx(p.off); ex.check(st,"releases each node once, in order",And(ult(i,s.n),eq(i,s.ch.deleted(st)),eq(p.off,i<<SH)),kind='bounds'); ex.check(st,"released the way it was allocated (as an array)",boolc(nm.startswith('_ZdaPv')),kind='bounds'); rawcell(ex,st,P(s.ch.g),8,i+1); return None
            if p.r is not None: st.freed=st.freed|{p.r.id}
            return None
        c.model(r'^operator delete(\[\])?\(',dele,"operator delete ends the lifetime of the storage")
    def get(s,st):
        ex=s.c.ex; g=lambda f,w: ex.load_raw(st,s.p.plus(s.o[f]),w)
        return dict(state=g('state',4),offset=g('offset',8),size=g('size',8),head=s.c.ptr(st,s.p.plus(s.o['head'])),tail=s.c.ptr(st,s.p.plus(s.o['tail'])))
    def pos(s,st): f=s.get(st); return Chain.start(s.ch.idx(f['head'].off))+f['offset']
    def rep(s,st):
        f=s.get(st); p=f['head']; h=s.ch.idx(p.off); st.assume(TRUE)
        return [eq(p.off,h<<SH),ule(h,s.n),ule(s.h0,h),eq(s.ch.deleted(st),h),Implies(ult(h,s.n),And(ule(f['offset'],Chain.start(h+1)-Chain.start(h)),eq(f['tail'].off,(s.n-1)<<SH))),Implies(eq(h,s.n),And(eq(f['offset'],Z),eq(Chain.start(h),s.end))),ule(s.pos(st),s.end),eq(f['size'],s.end-s.pos(st))]
@root("read")
def f(c):
    q=Fifo(c); n=c.size('length'); d=c.arr('buffer',1,n); D0=c.st.mem[d.id][0]; done=lambda v: q.pos(v.st)-q.pos0
    def inv(v,left):
        f=q.get(v.st); h=q.ch.idx(f['head'].off)
        return q.rep(v.st)+[ule(left,n),ule(q.pos0,q.pos(v.st)),eq(left,n-done(v)),Implies(ult(K,done(v)),eq(v.arr(d).sel(K),q.Q.sel(q.pos0+K))),Implies(And(ule(done(v),K),ult(K,n)),eq(v.arr(d).sel(K),D0.sel(K))),Or(eq(f['offset'],q.off0),eq(f['offset'],Z)),Or(eq(h,q.h0),eq(f['offset'],Z))]
    c.loop(lambda v,left,data: inv(v,left)+[eq(data,done(v))],['to_read','data'],dec=lambda v,left,data: q.n-q.ch.idx(q.get(v.st)['head'].off),name="node loop",houdini=False,assume=lambda v,left,data: [factsf(q,q.ch.idx(q.get(v.st)['head'].off))])
    for k,y in c.call("h_f_read",[q.p,P(d),n]):
        c.cover(y); c.post(y,"does not throw",boolc(k=='end')); f=q.get(y)
        for x in q.rep(y): c.post(y,"consistent",x)
        m=Ite(ult(q.size0,n),q.size0,n); c.post(y,"everything available up to the request",eq(y.ghost['ret'],m)); c.post(y,"moves on by that",eq(q.pos(y),q.pos0+m)); A=y.mem[d.id][0]
        c.post(y,"the pending bytes, in order",Implies(ult(K,m),eq(A.sel(K),q.Q.sel(q.pos0+K)))); c.post(y,"nothing behind them is touched",Implies(And(ule(m,K),ult(K,n)),eq(A.sel(K),D0.sel(K)))); c.post(y,"end of file only when nothing is available",eq(f['state'],Ite(And(ne(n,Z),eq(q.size0,Z)),EOF,OK)))
def factsf(q,i): s=q.ch; return And(Implies(ult(i,s.n),And(ule(s.start(i),s.start(i+1)),ule(s.start(i+1),s.end))),Implies(eq(i+1,s.n),eq(s.start(i+1),s.end)))
@root("write")
def f(c):
    q=Fifo(c); n=c.size('length',S-4096); d=c.arr('buffer',1,n); D0=c.st.mem[d.id][0]; o=q.ch.o; nodes=[]
    def new(ex,st,m,I):
        da=ex.new_arr(st,"node.data",1,m-c.m.k("off_n_data")); r=ex.new_cells(st,"newnode",1<<40,[(o['data'],1<<40,da)]); ex.check(st,"the node is allocated as an array",boolc(True)); nodes.append((r,da)); rawcell(ex,st,P(q.ch.g).plus(16),8,P(r)); return P(r)
    c.ex.new_hook=new; c.put(P(q.ch.g).plus(16),8,P(None,Z)); c.put(P(q.ch.g).plus(8),8,P(None,Z))
    for k,y in c.call("h_f_write",[q.p,P(d),n]):
        c.cover(y); c.post(y,"does not throw",boolc(k=='end')); f=q.get(y); N=c.ptr(y,P(q.ch.g).plus(16)); da=[a for r,a in nodes if r is N.r]; emp=eq(q.h0,q.n)
        c.post(y,"takes all bytes into one new node",And(boolc(len(da)==1),eq(y.ghost['ret'],n),eq(f['state'],OK)))
        if len(da)!=1: continue
        A,L=y.mem[da[0].id]; link=c.ptr(y,P(q.ch.g).plus(8)); nx=c.ptr(y,N.plus(o['next']))
        c.post(y,"the node holds the bytes",And(eq(c.ex.load_raw(y,N.plus(o['size']),8),n),ule(n,L),Implies(ult(K,n),eq(A.sel(K),D0.sel(K))),boolc(nx.r is None)))
        c.post(y,"the node is live and last",boolc(N.r.id not in y.freed and f['tail'].r is N.r))
        if f['head'].r is N.r: c.post(y,"becomes the head of an empty queue",And(emp,eq(f['offset'],q.off0)))
        else: c.post(y,"is linked behind the last node",And(Not(emp),boolc(link.r is N.r and f['head'].r is q.ch.r),eq(f['head'].off,q.h0<<SH),eq(f['offset'],q.off0)))
        c.post(y,"size grows by the bytes written",eq(f['size'],q.size0+n)); c.post(y,"nothing is released",eq(q.ch.deleted(y),q.h0))
for op in ('close','dtor'):
    @root({'close':"close",'dtor':"destructor"}[op])
    def f(c,op=op):
        q=Fifo(c)
        def inv(v): p=q.get(v.st)['head']; h=q.ch.idx(p.off); return [eq(p.off,h<<SH),ule(h,q.n),ule(q.h0,h),eq(q.ch.deleted(v.st),h)]
        c.loop(inv,[],dec=lambda v: q.n-q.ch.idx(q.get(v.st)['head'].off),name="release loop",houdini=False)
        for k,y in c.call("h_f_"+op,[q.p]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end')); f=q.get(y); c.post(y,"every node is released",And(q.ch.null(f['head'].off) if f['head'].r is not None else TRUE,eq(q.ch.deleted(y),q.n)))
            if op=='close': c.post(y,"empty",And(eq(f['size'],Z),eq(f['offset'],Z),eq(f['state'],OK)))
@root("size")
def f(c):
    q=Fifo(c)
    for k,y in c.call("h_f_size",[q.p]): c.cover(y); c.post(y,"bytes written and not yet read",eq(y.ghost['ret'],q.size0))
