from fw import *
prop("C06",oracle="C06.cpp",san="thread",assume=["std::mutex / std::condition_variable: mutual exclusion; a wait releases the mutex and may return at any time","one producer (back, push, sync) and one consumer (front, pop); push/pop counts are within what back/front offered"])
Z=const(0,64); ONE=const(1,64)
class R:
    def __init__(s,c,N,es,role):
        s.c=c; s.N=N; s.es=es; s.ex=c.ex; s.role=role; o=lambda f: c.m.k("off_%s%d"%(f,N)); s.o=o
        s.this=P(c.cells('ring',c.m.k("sz_r%d"%N),[(o('data'),N,es)])); s.data=s.this.r.kids[0][2]; s.g=c.cells('ghost',64)
        s.calls=[]; s.waitok=None
        for k in range(0,64,8): c.put(P(s.g).plus(k),8,Z)
        D="std::mutex / std::condition_variable semantics (mutual exclusion, wait releases and reacquires, spurious wake-ups allowed)"
        m=lambda rx,h: c.model(rx,h,D)
        m(r'^pthread_mutex_lock$',lambda ex,st,n,a,I: (s.lock(st,a[0]),const(0,32))[1])
        m(r'^pthread_mutex_unlock$',lambda ex,st,n,a,I: (s.unlock(st,a[0]),const(0,32))[1])
        m(r'^std::mutex::lock\(',lambda ex,st,n,a,I: s.lock(st,a[0]))
        m(r'^std::mutex::unlock\(',lambda ex,st,n,a,I: s.unlock(st,a[0]))
        m(r'^std::(_V2::)?condition_variable(_any)?::condition_variable\(|^std::(_V2::)?condition_variable(_any)?::~',lambda ex,st,n,a,I: None)
        m(r'^std::(_V2::)?condition_variable::notify_(one|all)\(',lambda ex,st,n,a,I: s.notify(st,a[0]))
        m(r'^std::(_V2::)?condition_variable::wait\(std::unique_lock<std::mutex>&\)',lambda ex,st,n,a,I: s.wait(st,a[0]))
    # fields and ghost: 0 = mutex held, 8/16/24 = head/size/quit at the last lock boundary, 32 = number of lock acquisitions, 40/48 = head/tail side woken since the last change
    def f(s,st): return s.ex.load_raw(st,s.this.plus(s.o('head')),8),s.ex.load_raw(st,s.this.plus(s.o('size')),8),s.ex.load_raw(st,s.this.plus(s.o('quit')),1)
    def gh(s,st,k): return s.ex.cell(st,s.g,k,8)
    def gp(s,st,k,v): rawcell(s.ex,st,P(s.g).plus(k),8,v); s.ex.wlog(st,(s.g,k,8))
    def snap(s,st):
        h,z_,q=s.f(st); s.gp(st,8,h); s.gp(st,16,z_); s.gp(st,24,zext(q,64))
    def inv(s,h,z_,q): return And(ult(h,const(s.N,64)),ule(z_,const(s.N,64)),ule(q,const(1,q.w)))
    def wrap(s,x): return Ite(ule(const(s.N,64),x),x-s.N,x)
    def rely(s,o,n):
        """steps of the other threads"""
        (h,z_,q),(h2,z2,q2)=o,n
        pr=And(ule(z2,z_),eq(s.wrap(h2+z2),s.wrap(h+z_)))       # the consumer popped: same tail, less stored
        if s.N==1: pr=ule(z2,z_)
        co=And(eq(h2,h),ule(z_,z2))                               # the producer pushed
        return And(s.inv(h2,z2,q2),ule(q,q2),{'p':pr,'c':co,'q':TRUE}[s.role])
    def havoc(s,st):
        o=(s.gh(st,8),s.gh(st,16),extract(s.gh(st,24),7,0)); n=(fresh('head',64),fresh('size',64),fresh('quit',8))
        for f,v,w in zip(('head','size','quit'),n,(8,8,1)):
            rawcell(s.ex,st,s.this.plus(s.o(f)),w,v); s.ex.wlog(st,(s.this.r,s.o(f),w))
        st.assume(s.rely(o,n)); s.snap(st)
    def off(s,p): return val(p.off) if isc(p.off) else None
    def lock(s,st,p):
        s.ex.check(st,"the ring's mutex is taken, and only once",And(boolc(p.r is s.this.r and s.off(p)==s.o('m')),eq(s.gh(st,0),Z)),kind='pre'); s.gp(st,0,ONE); s.gp(st,40,Z); s.gp(st,48,Z); s.gp(st,32,s.gh(st,32)+1); s.havoc(st)
    def stale(s,st):
        """without the lock the fields may hold anything"""
        for f,w in (('head',8),('size',8),('quit',1)): rawcell(s.ex,st,s.this.plus(s.o(f)),w,fresh('stale',8*w)); s.ex.wlog(st,(s.this.r,s.o(f),w))
    def guarantee(s,st):
        h,z_,q=s.f(st); o=(s.gh(st,8),s.gh(st,16),extract(s.gh(st,24),7,0)); return s.inv(h,z_,q),o,(h,z_,q)
    def unlock(s,st,p):
        s.ex.check(st,"unlock only while holding the ring's mutex",And(boolc(p.r is s.this.r and s.off(p)==s.o('m')),eq(s.gh(st,0),ONE)),kind='pre')
        i,o,n=s.guarantee(st); s.ex.check(st,"representation intact when the mutex is released",i); s.atrelease(st,o,n); s.gp(st,0,Z); s.final(st); s.stale(st)
    def final(s,st):
        h,z_,q=s.f(st); s.gp(st,8,h); s.gp(st,16,z_); s.gp(st,24,zext(q,64))
    def atrelease(s,st,o,n): s.ex.check(st,"no change of the boundaries",And(*[eq(a,b) for a,b in zip(o,n)]))
    def notify(s,st,p):
        f=s.off(p)
        if f==s.o('hm'): s.gp(st,40,ONE)
        elif f==s.o('tm'): s.gp(st,48,ONE)
        return None
    def wait(s,st,p):
        s.ex.check(st,"waits holding the mutex",eq(s.gh(st,0),ONE),kind='pre')
        f=s.off(p); s.ex.check(st,"waits where the other side wakes it",boolc(f==s.waitcv),kind='pre')
        h,z_,q=s.f(st); s.ex.check(st,"waits only when it has to",s.mustwait(h,z_,q),kind='pre')
        i,o,n=s.guarantee(st); s.ex.check(st,"representation intact when waiting",i); s.ex.check(st,"no change of the boundaries before waiting",And(*[eq(a,b) for a,b in zip(o,n)]))
        s.havoc(st); return None
    def start(s):
        c=s.c; s.snapfresh(); s.stale(c.st)
    def snapfresh(s):
        h,z_,q=fresh('h0',64),fresh('z0',64),fresh('q0',8); s.c.assume(s.inv(h,z_,q)); st=s.c.st
        for k,v in ((8,h),(16,z_),(24,zext(q,64))): rawcell(s.ex,st,P(s.g).plus(k),8,v)
    def at(s,y): return s.gh(y,8),s.gh(y,16),extract(s.gh(y,24),7,0)
    def done(s,y):
        s.c.post(y,"exactly one critical section, mutex released",And(eq(s.gh(y,0),Z),eq(s.gh(y,32),ONE)))
    def waitloop(s):
        s.c.loop(lambda v: [eq(s.gh(v.st,0),ONE),s.inv(*s.f(v.st)),eq(s.gh(v.st,32),ONE)]+[eq(a,b) for a,b in zip(s.f(v.st),s.at(v.st))],[],name="wait loop")
def mk(N,es):
    n64=const(N,64)
    def ctor(c):
        r=R(c,N,es,'q'); 
        for k,y in c.call("h_ctor%d"%N,[r.this]):
            c.cover(y); c.post(y,"a new ring is empty and not cancelled",boolc(k=='end') & And(*[eq(a,b) for a,b in zip(r.f(y),(Z,Z,const(0,8)))]) if k=='end' else FALSE)
    def offer(c,fn,role):
        r=R(c,N,es,role); r.start(); pp=P(c.cells('out',8)); r.waitcv=r.o('hm') if role=='p' else r.o('tm')
        r.mustwait=(lambda h,z_,q: And(eq(z_,n64),eq(q,const(0,8)))) if role=='p' else (lambda h,z_,q: And(eq(z_,Z),eq(q,const(0,8))))
        r.waitloop()
        for k,y in c.call(fn+str(N),[r.this,pp]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            r.done(y); n=y.ghost['ret']; h,z_,q=r.at(y); p=c.ptr(y,pp)
            if p.r is None:
                c.post(y,"nothing offered only after cancellation with nothing to offer",And(eq(n,Z),ne(q,const(0,8)),TRUE if role=='p' else eq(z_,Z))); continue
            reg,off=c.ex.resolve(p); slot=r.wrap(h+z_) if role=='p' else h
            c.post(y,"points into the ring",boolc(reg is r.data))
            if reg is not r.data: continue
            c.post(y,"free space starts right behind the newest element" if role=='p' else "data starts at the oldest element",eq(off,slot*es))
            c.post(y,"contiguous and inside the ring",And(ule(n,n64),ule(slot+n,n64)))
            c.post(y,"only free slots are offered" if role=='p' else "only stored elements are offered",ule(n,n64-z_) if role=='p' else ule(n,z_))
            c.post(y,"something is offered",ne(n,Z))
    def move(c,fn,role):
        r=R(c,N,es,role); r.start(); n=c.var('count'); r.mustwait=lambda *a: FALSE; r.waitcv=-1
        # protocol: the count is within what back/front offered; the rely step keeps that true until the lock is taken
        def rel(st,o,x):
            (h,z_,q),(h2,z2,q2)=o,x; t=r.wrap(h+z_)
            if role=='p': r.ex.check(st,"the newest end moves by exactly the count",And(eq(h2,h),eq(z2,z_+n),eq(q2,q)))
            else: r.ex.check(st,"the oldest end moves by exactly the count",And(eq(h2,r.wrap(h+n)),eq(z2,z_-n),eq(q2,q)))
        r.atrelease=rel
        h0=r.havoc
        def hv(st):
            h0(st); h,z_,q=r.f(st); t=r.wrap(h+z_); st.assume(And(ule(n,n64-z_),ule(t+n,n64)) if role=='p' else And(ule(n,z_),ule(h+n,n64)))
        r.havoc=hv
        for k,y in c.call(fn+str(N),[r.this,n]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            r.done(y); c.post(y,"the other side is woken",eq(r.gh(y,48 if role=='p' else 40),ONE))
    def quit(c):
        r=R(c,N,es,'q'); r.start(); r.mustwait=lambda *a: FALSE; r.waitcv=-1
        r.atrelease=lambda st,o,x: r.ex.check(st,"only the cancel flag is set",And(eq(x[0],o[0]),eq(x[1],o[1]),eq(x[2],const(1,8))))
        for k,y in c.call("h_quit%d"%N,[r.this]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k=='end': r.done(y); c.post(y,"both sides are woken",And(eq(r.gh(y,40),ONE),eq(r.gh(y,48),ONE)))
    def sync(c):
        r=R(c,N,es,'p'); r.start(); r.waitcv=r.o('hm'); r.mustwait=lambda h,z_,q: And(ne(z_,Z),eq(q,const(0,8))); r.waitloop()
        for k,y in c.call("h_sync%d"%N,[r.this]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k=='end': h,z_,q=r.at(y); r.done(y); c.post(y,"returns only when everything was popped or after cancellation",Or(eq(z_,Z),ne(q,const(0,8))))
    root("ring<%d>::ring"%N)(ctor); root("ring<%d>::back"%N)(lambda c: offer(c,"h_back",'p')); root("ring<%d>::front"%N)(lambda c: offer(c,"h_front",'c'))
    root("ring<%d>::push"%N)(lambda c: move(c,"h_push",'p')); root("ring<%d>::pop"%N)(lambda c: move(c,"h_pop",'c')); root("ring<%d>::quit"%N)(quit); root("ring<%d>::sync"%N)(sync)
for N,es in ((1,1),(2,4),(7,8),(8,4),(50,1),(4096,1)): mk(N,es)
