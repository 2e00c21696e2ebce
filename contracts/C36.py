from fw import *
prop("C36",oracle="C36.cpp",san="thread",assume=["std::mutex gives mutual exclusion (stdex::spinlock: discharged here from the atomicity of exchange, load and store)","std::list and std::map obey their specification","memory ordering is sequential consistency"])
Z=const(0,64); ONE=const(1,64)
FRONT=1<<41
# ghost cells: 0 pool mutex held, 8 entry lock held, 16 list head, 24 list length, 32/40 head/length when the lock was taken, 48 number of lock acquisitions, 56 number of map lookups, 64 iteration index, 72 watched entry visited, 80/88 head/length when the lock was released
class Pool:
    def __init__(s,c,role):
        s.c=c; s.ex=ex=c.ex; s.role=role; s.this=P(c.cells('pool',c.m.k("sz_q"))); s.g=c.cells('ghost',96)
        for k in range(0,96,8): c.put(P(s.g).plus(k),8,Z)
        s.e=P(c.cells('entry',8+c.m.k("sz_e"))); s.items=c.arr('items',8,const(1<<42,64)); s.I0=c.st.mem[s.items.id][0]; s.IT=P(c.cells('it',8)); s.END=P(c.cells('end',8))
        s.n=c.var('subpools'); s.K=c.var('watched'); s.other=P(c.cells('other entry',8+c.m.k("sz_e"))); s.key=None
        D="std::mutex: mutual exclusion"; L="std::list operations (front, back, push, pop, empty, clear)"; M="std::map: operator[] gives the one entry of the key, created empty when missing; iteration visits every entry once"
        m=c.model
        def lock(ex,st,n,a,I):
            s.pre(st,"the pool's mutex is taken, and only once",And(boolc(a[0].r is s.this.r and isc(a[0].off) and val(a[0].off)==c.m.k("off_mutex")),eq(s.gh(st,0),Z))); s.gp(st,0,ONE); return None
        def unlock(ex,st,n,a,I): s.pre(st,"the pool's mutex is released while held",And(boolc(a[0].r is s.this.r and isc(a[0].off) and val(a[0].off)==c.m.k("off_mutex")),eq(s.gh(st,0),ONE))); s.gp(st,0,Z); return None
        m(r'^std::mutex::lock\(',lock,D); m(r'^std::mutex::unlock\(',unlock,D)
        def ent(p,f): return p.r in (s.e.r,s.other.r) and isc(p.off) and val(p.off)==8+c.m.k(f)
        def slock(ex,st,n,a,I):
            s.pre(st,"a sub-pool's lock is taken, one at a time",And(boolc(ent(a[0],"off_lock")),eq(s.gh(st,8),Z))); s.gp(st,8,ONE); s.gp(st,48,s.gh(st,48)+1)
            h,l=fresh('head',64),fresh('len',64); st.assume(And(ult(const(1<<40,64),h),ult(h,const(FRONT,64)),ult(l,const(1<<40,64)))); ex.setarr(st,s.items,SArr.fresh('items',64))
            s.cur=None
            for k,v in ((16,h),(24,l),(32,h),(40,l)): s.gp(st,k,v)
            st.ghost=dict(st.ghost); st.ghost['pre']=st.mem[s.items.id][0]; st.ghost['locked']=a[0].r.id; return None
        def sunlock(ex,st,n,a,I):
            s.pre(st,"the lock taken is released",And(boolc(ent(a[0],"off_lock") and a[0].r.id==st.ghost.get('locked')),eq(s.gh(st,8),ONE))); s.gp(st,8,Z); s.gp(st,80,s.gh(st,16)); s.gp(st,88,s.gh(st,24)); st.ghost=dict(st.ghost); st.ghost['post']=st.mem[s.items.id][0]
            if s.role=='clear':
                ex.check(st,"a sub-pool is empty when its lock is released",eq(s.gh(st,24),Z),kind='post')
                if a[0].r is s.e.r: s.gp(st,72,ONE)
            ex.setarr(st,s.items,SArr.fresh('stale',64)); s.gp(st,16,fresh('stale',64)); s.gp(st,24,fresh('stale',64)); return None
        m(r'^stdex::spinlock::lock\(',slock,"contract of stdex::spinlock (discharged by the spinlock roots)"); m(r'^stdex::spinlock::unlock\(',sunlock)
        P_=r'^std::__cxx11::list<unsigned long[^(]*>::'
        def lst(st,p,what): s.pre(st,"%s: the sub-pool's list, under its lock"%what,And(boolc(ent(p,"off_list") and p.r.id==st.ghost.get('locked')),eq(s.gh(st,8),ONE)))
        def nonempty(st,what): s.pre(st,"%s of a list that is not empty"%what,ne(s.gh(st,24),Z))
        hd=lambda st: s.gh(st,16); ln=lambda st: s.gh(st,24)
        def it(st,i): return P(s.items,i*8)
        m(P_+r'empty\(\)',lambda ex,st,n,a,I: (lst(st,a[0],"empty"),eq(ln(st),Z))[1],L)
        m(P_+r'size\(\)',lambda ex,st,n,a,I: (lst(st,a[0],"size"),ln(st))[1],L)
        m(P_+r'front\(\)',lambda ex,st,n,a,I: (lst(st,a[0],"front"),nonempty(st,"front"),it(st,hd(st)))[2],L)
        m(P_+r'back\(\)',lambda ex,st,n,a,I: (lst(st,a[0],"back"),nonempty(st,"back"),it(st,hd(st)+ln(st)-1))[2],L)
        def popf(ex,st,n,a,I): lst(st,a[0],"pop"); nonempty(st,"pop"); s.gp(st,16,hd(st)+1); s.gp(st,24,ln(st)-1)
        def popb(ex,st,n,a,I): lst(st,a[0],"pop"); nonempty(st,"pop"); s.gp(st,24,ln(st)-1)
        def pushf(ex,st,n,a,I): lst(st,a[0],"push"); v=ex.load_raw(st,a[1],8); h=hd(st)-1; A,_=st.mem[s.items.id]; ex.setarr(st,s.items,A.store(h,v)); s.gp(st,16,h); s.gp(st,24,ln(st)+1)
        def pushb(ex,st,n,a,I): lst(st,a[0],"push"); v=ex.load_raw(st,a[1],8); A,_=st.mem[s.items.id]; ex.setarr(st,s.items,A.store(hd(st)+ln(st),v)); s.gp(st,24,ln(st)+1)
        m(P_+r'pop_front\(\)',popf,L); m(P_+r'pop_back\(\)',popb,L); m(P_+r'(push_front\(|unsigned long& emplace_front)',pushf,L); m(P_+r'(push_back\(|unsigned long& emplace_back)',pushb,L)
        def clr(ex,st,n,a,I): lst(st,a[0],"clear"); s.gp(st,24,Z)
        m(P_+r'clear\(\)',clr,L)
        def look(ex,st,n,a,I):
            s.pre(st,"the table of sub-pools is used under the pool's mutex",And(boolc(a[0].r is s.this.r and isc(a[0].off) and val(a[0].off)==c.m.k("off_map")),eq(s.gh(st,0),ONE))); s.gp(st,56,s.gh(st,56)+1)
            s.pre(st,"the sub-pool asked for",eq(ex.load_raw(st,a[1],4),s.key)); return s.e.plus(8)
        MP=r'^std::map<int, stdex::pool<unsigned long>::numaentry_t[^(]*>::'
        m(MP+r'operator\[\]\(',look,M)
        def beg(ex,st,n,a,I): s.pre(st,"iteration under the pool's mutex",eq(s.gh(st,0),ONE)); s.gp(st,64,Z); return s.IT
        m(MP+r'begin\(\)',beg,M); m(MP+r'end\(\)',lambda ex,st,n,a,I: s.END,M)
        X=r'_Rb_tree_iterator<std::pair<int const, stdex::pool<unsigned long>::numaentry_t> ?>'
        def neq(neg):
            def h(ex,st,n,a,I):
                p,q=c.ptr(st,a[0]),c.ptr(st,a[1]); e=eq(s.gh(st,64),s.n); assert {p.r,q.r}=={s.IT.r,s.END.r}; return Not(e) if neg else e
            return h
        m(r'^std::operator!=\(std::'+X,neq(True),M); m(r'^std::operator==\(std::'+X,neq(False),M)
        def inc(ex,st,n,a,I): s.pre(st,"iteration under the pool's mutex",eq(s.gh(st,0),ONE)); s.gp(st,64,s.gh(st,64)+1); return a[0]
        m(r'^std::'+X+r'::operator\+\+\(\)',inc,M)
        def deref(ex,st,n,a,I):
            s.pre(st,"only entries of the table are visited",And(ult(s.gh(st,64),s.n),eq(s.gh(st,0),ONE))); t=st.fork(); st.assume(eq(s.gh(st,64),s.K)); t.assume(ne(s.gh(t,64),s.K)); return [('ret',st,s.e),('ret',t,s.other)]
        m(r'^std::'+X+r'::operator(\*|->)\(\)',deref,M)
        node=c.var('this cpu node',32); s.node=node
        m(r'^sched_getcpu$',lambda ex,st,n,a,I: c.var('cpu',32),"sched_getcpu / numa_node_of_cpu return any number"); m(r'^numa_node_of_cpu$',lambda ex,st,n,a,I: node)
    def gh(s,st,k): return s.ex.cell(st,s.g,k,8)
    def gp(s,st,k,v): rawcell(s.ex,st,P(s.g).plus(k),8,v); s.ex.wlog(st,(s.g,k,8))
    def pre(s,st,n,f): s.ex.check(st,n,f,kind='pre')
    def done(s,y):
        s.c.post(y,"one lookup, one critical section, every lock released",And(eq(s.gh(y,0),Z),eq(s.gh(y,8),Z),eq(s.gh(y,48),ONE),eq(s.gh(y,56),ONE)))
j=var('j',64)
def kept(s,y,h,l):
    """the items kept: position h.. of the list now hold what they held, l of them"""
    A,B=y.ghost['pre'],y.ghost['post']; return Implies(And(ule(h,j),ult(j,h+l)),eq(B.sel(j),A.sel(j)))
for dflt in (0,1):
    def pop(c,dflt=dflt):
        s=Pool(c,'pop'); numa=c.var('numa',32); s.key=s.node if dflt else numa
        for k,y in c.call("h_popd" if dflt else "h_pop",[s.this]+([] if dflt else [numa])):
            c.cover(y); c.post(y,"returns",boolc(k=='end'))
            if k!='end' or 'pre' not in y.ghost or 'post' not in y.ghost: c.post(y,"looks at the sub-pool under its lock",FALSE); continue
            s.done(y); r=y.ghost['ret']; h,l,h2,l2=[s.gh(y,k) for k in (32,40,80,88)]; A=y.ghost['pre']
            c.post(y,"the default item exactly when the sub-pool is empty",Implies(eq(l,Z),And(eq(r,Z),eq(l2,Z))))
            c.post(y,"otherwise one stored item is taken out and returned",Implies(ne(l,Z),And(eq(l2,l-1),Or(And(eq(h2,h+1),eq(r,A.sel(h))),And(eq(h2,h),eq(r,A.sel(h+l-1)))))))
            c.post(y,"the others stay",kept(s,y,h2,l2))
    root("pool::pop"+(" from this CPU's sub-pool" if dflt else ""))(pop)
    def push(c,dflt=dflt):
        s=Pool(c,'push'); numa=c.var('numa',32); s.key=s.node if dflt else numa; v=c.var('item'); p=P(c.cells('item',8)); c.put(p,8,v)
        for k,y in c.call("h_pushd" if dflt else "h_push",[s.this,p]+([] if dflt else [numa])):
            c.cover(y); c.post(y,"returns",boolc(k=='end'))
            if k!='end' or 'pre' not in y.ghost or 'post' not in y.ghost: c.post(y,"stores the item under the sub-pool's lock",FALSE); continue
            s.done(y); h,l,h2,l2=[s.gh(y,k) for k in (32,40,80,88)]; B=y.ghost['post']
            c.post(y,"the item is added once",And(eq(l2,l+1),Or(And(eq(h2,h-1),eq(B.sel(h2),v)),And(eq(h2,h),eq(B.sel(h+l),v)))))
            c.post(y,"the others stay",kept(s,y,h,l))
    root("pool::push"+(" to this CPU's sub-pool" if dflt else ""))(push)
@root("pool::clear")
def clear(c):
    s=Pool(c,'clear'); c.assume(ult(s.n,const(1<<40,64)))
    def inv(v):
        g=lambda k: s.gh(v.st,k); inner=isc(s.gh(v.entry.st,8)) and val(s.gh(v.entry.st,8))==1
        return [eq(g(0),ONE),eq(g(8),ONE if inner else Z),ule(g(64),s.n),ule(g(72),ONE),Implies(ult(s.K,g(64)),eq(g(72),ONE))]+([eq(g(64),s.gh(v.entry.st,64)),ult(g(24),const(1<<40,64))] if inner else [])
    c.loop(inv,[],name="loop",dec=lambda v: s.gh(v.st,24) if isc(s.gh(v.entry.st,8)) and val(s.gh(v.entry.st,8))==1 else s.n-s.gh(v.st,64))
    for k,y in c.call("h_clear",[s.this]):
        c.cover(y); c.post(y,"returns",boolc(k=='end')); c.post(y,"every lock released",And(eq(s.gh(y,0),Z),eq(s.gh(y,8),Z)))
        c.post(y,"every sub-pool was emptied",Implies(ult(s.K,s.n),eq(s.gh(y,72),ONE)))
# ---- spinlock: other threads may change the flag between any two operations; ghost: 0 acquisitions (an exchange that found the flag clear), 8 releases
class SL:
    def __init__(s,c):
        s.c=c; s.p=P(c.cells('lock',c.m.k("sz_sl"))); c.put(s.p.plus(c.m.k("off_sl")),1,c.var('flag',8)); s.g=c.cells('ghost',16); c.put(P(s.g),8,Z); c.put(P(s.g).plus(8),8,Z)
        gh=lambda st,k: c.ex.cell(st,s.g,k,8); s.gh=gh
        def gp(st,k,v): rawcell(c.ex,st,P(s.g).plus(k),8,v); c.ex.wlog(st,(s.g,k,8))
        D="std::atomic<bool>: exchange, load and store are atomic; other threads may change the flag at any time"
        tb=lambda x: x if x.w==0 else ne(x,const(0,x.w))
        def on(st,p): c.ex.check(st,"the lock's own flag",boolc(p.r is s.p.r and isc(p.off) and val(p.off)==c.m.k("off_sl")),kind='pre')
        def xc(ex,st,n,a,I): on(st,a[0]); old=fresh('flag found',0); ex.check(st,"exchange sets the flag",tb(a[1]),kind='pre'); ex.check(st,"not while already held",eq(gh(st,0),Z),kind='pre'); gp(st,0,Ite(old,gh(st,0),gh(st,0)+1)); return old
        c.model(r'^std::(atomic<bool>|__atomic_base<bool>)::exchange\(',xc,D)
        c.model(r'^std::(atomic<bool>|__atomic_base<bool>)::load\(',lambda ex,st,n,a,I: (on(st,a[0]),fresh('flag seen',0))[1],D)
        def stt(ex,st,n,a,I): on(st,a[0]); ex.check(st,"store clears the flag",Not(tb(a[1])),kind='pre'); gp(st,8,gh(st,8)+1)
        c.model(r'^std::(atomic<bool>|__atomic_base<bool>)::store\(',stt,D)
        c.model(r'^llvm\.x86\.sse2\.pause',lambda ex,st,n,a,I: None)
@root("spinlock::lock")
def sll(c):
    s=SL(c); c.loop(lambda v: [eq(s.gh(v.st,0),Z),eq(s.gh(v.st,8),Z)],[],name="wait for the lock")
    for k,y in c.call("h_slock",[s.p]): c.cover(y); c.post(y,"returns only when it set the flag that was clear",And(boolc(k=='end'),eq(s.gh(y,0),ONE),eq(s.gh(y,8),Z)))
@root("spinlock::try_lock")
def slt_(c):
    s=SL(c)
    for k,y in c.call("h_stry",[s.p]): r=y.ghost['ret']; r=r if r.w==0 else ne(r,const(0,r.w)); c.cover(y); c.post(y,"true exactly when it set the flag that was clear",And(boolc(k=='end'),Iff(r,eq(s.gh(y,0),ONE)),ule(s.gh(y,0),ONE),eq(s.gh(y,8),Z)))
@root("spinlock::unlock")
def slu(c):
    s=SL(c)
    for k,y in c.call("h_sunlock",[s.p]): c.cover(y); c.post(y,"clears the flag once",And(boolc(k=='end'),eq(s.gh(y,0),Z),eq(s.gh(y,8),ONE)))
@root("a new spinlock is free")
def slc(c):
    p=P(c.cells('lock',c.m.k("sz_sl")))
    for k,y in c.call("h_sctor",[p]): c.cover(y); v=c.ex.load_raw(y,p.plus(c.m.k("off_sl")),1); c.post(y,"flag clear",And(boolc(k=='end'),eq(v,const(0,8))))
