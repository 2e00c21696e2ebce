from fw import *
prop("C43",oracle="C43.cpp",oracle_time=(3,15),assume=["the product of the position within the local range and the section size fits the progress type (the code says so: TODO implement with muldiv)","clock readings are between 0 and 2^62 ns"])
NULL_=P(None,const(0,64))
def say(st,*e): st.ghost=dict(st.ghost); st.ghost['log']=st.ghost.get('log',())+(e,)
def same(p,q): return boolc((p.r is None and q.r is None) or (p.r is not None and p.r is q.r and p.off is q.off))
def tb(x): return x if x.w==0 else ne(x,const(0,x.w))
class H:
    def __init__(s,c,S,host=True):
        s.c=c; s.S=S; s.w=dict(z=64,u=32,i=32)[S]; s.signed=S=='i'; s.canc=var('host cancels',0)
        cls='H'+S+'::'
        for f in ('set_text','set_range','set','show','cancel'):
            def h(ex,st,n,a,I,f=f): say(st,f,a[0].r.id,*a[1:]); return s.canc if f=='cancel' else None
            c.model('^'+cls+f+r'\(',h,"host progress indicator: unknown, called through its virtual functions")
        s.host=s.mkhost('host') if host else NULL_
    def mkhost(s,n):
        p=P(s.c.cells(n,s.c.m.k("sz_h_"+s.S))); [(k,y)]=s.c.call("h_mk_"+s.S,[p]); y.frames=[]; s.c.st=y; return y.ghost['ret']
    def do(s,fn,*a):
        r=s.c.call("h_%s_%s"%(fn,s.S),list(a)); assert len(r)==1; k,y=r[0]; s.c.post(y,fn+" does not throw",boolc(k=='end')); y.frames=[]; s.c.st=y; return y.ghost.get('ret')
    def new(s,host=None):
        p=P(s.c.cells('progress',s.c.m.k("sz_g_"+s.S))); s.g=s.do("gctor",p,s.host if host is None else host); s.raw=p
        c=s.c; o=lambda f: c.m.k("off_g_%s_%s"%(f,s.S)); s.o=o
        s.iv={}
        for f in ('local','global','section'):
            a,b=c.var(f+'.start',s.w),c.var(f+'.end',s.w); s.iv[f]=(a,b); c.put(p.plus(o(f)),s.w//8,a); c.put(p.plus(o(f)+s.w//8),s.w//8,b)
        return p
    def ivs(s,y,f): return tuple(s.c.ex.cell(y,s.raw.r,s.o(f)+k*(s.w//8),s.w//8) for k in (0,1))
    def keep(s,y,*fs):
        for f in fs: s.c.post(y,"the %s range is kept"%f,And(*[eq(x,v) for x,v in zip(s.ivs(y,f),s.iv[f])]))
        s.c.post(y,"the host is kept",same(s.c.ptr(y,s.raw.plus(s.o('host'))),s.host))
    def expect(s,y,what,*ev):
        log=y.ghost.get('log',()); c=s.c
        if len(log)!=len(ev) or any(a[:2]!=b[:2] for a,b in zip(log,ev)): c.post(y,what,FALSE); return
        f=[]
        for a,b in zip(log,ev):
            for p,q in zip(a[2:],b[2:]): f.append(same(p,q) if isinstance(p,P) else (Iff(tb(p),tb(q)) if q.w==0 or p.w==0 else eq(p,q)))
        c.post(y,what,And(*f))
def fwd(name,mk):
    """text, visibility and cancel requests go to the host unchanged"""
    for S in "zui":
        for host in (0,1):
            def f(c,S=S,host=host):
                h=H(c,S,host); p=mk(h); st0=c.st; hid=h.host.r.id if host else None
                msg=P(c.arr('text',1,const(8,64))); b=c.var('show',0)
                for fn,args,ev in (("text",[p,msg],("set_text",hid,msg)),("show",[p,b],("show",hid,b))):
                    for k,y in c.call("h_%s_%s"%(fn,S),args): c.cover(y); c.post(y,fn+" returns",boolc(k=='end')); h.expect(y,fn+" reaches the host once, unchanged",*([ev] if host else []))
                if name!="timeout_progress":
                    for k,y in c.call("h_cancel_"+S,[p]): c.cover(y); h.expect(y,"the host is asked",*([("cancel",hid)] if host else [])); c.post(y,"cancels exactly when the host does",Iff(tb(y.ghost['ret']),h.canc if host else FALSE))
            root("%s forwards%s, %s"%(name,"" if host else " nothing without a host",dict(z="size_t",u="uint32_t",i="int")[S]))(f)
fwd("global_progress",lambda h: (h.new(),h.g)[1])
def mkt(h):
    c=h.c; c.model(r'^std::chrono::.*system_clock::now\(\)',lambda ex,st,n,a,I: c.var('now')); p=P(c.cells('timeout',c.m.k("sz_o_"+h.S))); return h.do("octor",p,h.host,c.var('timeout'))
fwd("timeout_progress",mkt)
for S in "zui":
    T=dict(z="size_t",u="uint32_t",i="int")[S]
    for host in (0,1):
        def sett(c,S=S,host=host):
            h=H(c,S,host); h.new(); v=c.var('value',h.w); (a,b),(s0,s1)=h.iv['local'],h.iv['section']; le=sle if h.signed else ule; w=h.w
            size=Ite(le(a,b),b-a,const(0,w)); ssz=Ite(le(s0,s1),s1-s0,const(0,w)); x=v-a
            if h.signed: c.assume(Implies(sle(a,b),sle(const(0,w),b-a)))      # the extent of the local range fits the type
            if h.signed: q=sdiv(mul(x,ssz),size); c.ex.check_nsw=False
            else: q=udiv(mul(x,ssz),size)
            fits=var('product fits',0)
            if not h.signed:
                c.int_lemma("a part of the section is no longer than the section",lambda A,B,Sz,Q,R: z3.Implies(z3.And(A>=0,B>0,A<=B,Sz>=0,Q>=0,R>=0,R<B,A*Sz==Q*B+R),Q<=Sz),'A','B','S','Q','R')
                # instance for 64/32-bit words: fits stands for "(value - start) * section size does not wrap", under which the word operations are those of the integers
                c.assume(Implies(And(fits,ule(x,size),ne(size,const(0,w))),ule(q,ssz)))
            for k,y in c.call("h_set_"+S,[h.g,v]):
                c.cover(y); c.post(y,"returns",boolc(k=='end')); h.keep(y,'local','global','section'); log=y.ghost.get('log',())
                if not host: h.expect(y,"nothing is called without a host"); continue
                if not log: c.post(y,"unreported only when the local range is empty",eq(size,const(0,w))); continue
                c.post(y,"not reported when the local range is empty",ne(size,const(0,w)))
                h.expect(y,"the host gets the position mapped into the section, once",("set",h.host.r.id,q+s0))
                if log and len(log)==1 and log[0][0]=='set' and not h.signed:
                    m=log[0][2]; c.post(y,"never outside the section for positions within the local range",Implies(And(fits,ule(a,v),ule(v,b),ule(s0,s1)),And(ule(s0,m),ule(m,s1))))
        root("global_progress::set%s, %s"%("" if host else " without a host",T))(sett)
        def ranges(c,S=S,host=host):
            h=H(c,S,host); h.new(); a,b=c.var('a',h.w),c.var('b',h.w)
            for fn,f,recv in (("range",'local',h.g),("srange",'section',h.raw),("grange",'global',h.raw)):
                for k,y in c.call("h_%s_%s"%(fn,S),[recv,a,b]):
                    c.cover(y); c.post(y,"returns",boolc(k=='end')); c.post(y,"the %s range is set"%f,And(*[eq(p,q) for p,q in zip(h.ivs(y,f),(a,b))])); h.keep(y,*[g for g in ('local','global','section') if g!=f])
                    h.expect(y,"the host gets the global range" if f=='global' else "nothing reaches the host",*([("set_range",h.host.r.id,a,b)] if host and f=='global' else []))
        root("global_progress ranges%s, %s"%("" if host else " without a host",T))(ranges)
    def att(c,S=S):
        h=H(c,S); h.new(); h2=h.mkhost('other')
        c.post(c.st,"constructed with its host",same(c.ptr(c.st,h.raw.plus(h.o('host'))),h.host)); h.do("attach",h.raw,h2); c.post(c.st,"attach takes the new host",same(c.ptr(c.st,h.raw.plus(h.o('host'))),h2))
        c.post(c.st,"detach gives the host back",same(h.do("detach",h.raw),h2)); c.post(c.st,"and forgets it",same(c.ptr(c.st,h.raw.plus(h.o('host'))),NULL_)); h.expect(c.st,"no call reaches a host"); c.cover(c.st)
    root("global_progress attach and detach, "+T)(att)
    for host in (0,1):
        def sw(c,S=S,host=host):
            h=H(c,S,host); slot=P(c.cells('indicator',8)); c.put(slot,8,h.host); p=P(c.cells('switcher',c.m.k("sz_w_"+S)))
            g=h.do("wctor",p,slot); c.post(c.st,"while it lives the switcher stands in for the indicator",same(c.ptr(c.st,slot),g)); c.post(c.st,"and reports to it",same(c.ptr(c.st,p.plus(c.m.k("off_g_host_"+S))),h.host))
            h.expect(c.st,"no call reaches the host"); s1=c.st.fork()
            h.do("wdtor",p); c.cover(c.st); c.post(c.st,"afterwards the indicator is back",same(c.ptr(c.st,slot),h.host)); h.expect(c.st,"no call reaches the host")
            c.st=s1; h2=h.mkhost('other'); h.do("attach",p,h2); h.do("wdtor",p); c.post(c.st,"an indicator attached meanwhile is put in place",same(c.ptr(c.st,slot),h2))
        root("progress_switcher over %s, %s"%("an indicator" if host else "none",T))(sw)
    def lazy(c,S=S):
        h=H(c,S,False); w=h.w//8; o=lambda f: c.m.k("off_l_%s_%s"%(f,S)); to=c.var('timeout'); p=P(c.cells('lazy',c.m.k("sz_l_"+S))); now=c.var('now')
        c.model(r'^std::chrono::.*system_clock::now\(\)',lambda ex,st,n,a,I: now,"the clock may return anything (0 to 2^62 ns)")
        c.model('^LZ'+S+r'::do_set\(',lambda ex,st,n,a,I: say(st,"do_set",a[0].r.id,ex.cell(st,p.r,o('value'),w)))
        g=h.do("lctor",p,to); 
        def F(y,f): return c.ex.cell(y,p.r,o(f),8 if f in('last','timeout') else w)
        c.post(c.st,"the timeout is kept",eq(F(c.st,'timeout'),to)); c.post(c.st,"a new one has reported nothing",And(eq(F(c.st,'value'),const((1<<h.w)-1,h.w))))
        a,b=c.var('a',h.w),c.var('b',h.w)
        for k,y in c.call("h_range_"+S,[g,a,b]): c.cover(y); c.post(y,"the range is kept for set",And(boolc(k=='end'),eq(F(y,'start'),a),eq(F(y,'end'),b))); h.expect(y,"nothing is reported")
        st,en,val_,last=[c.var(n,ww) for n,ww in (('start',h.w),('end',h.w),('value0',h.w),('last',64))]
        for f,v in (('start',st),('end',en),('value',val_),('last',last)): c.put(p.plus(o(f)),8 if f=='last' else w,v)
        lim=const(1<<62,64); c.assume(ult(now,lim),ult(last,lim)); v=c.var('v',h.w)
        edge=Or(eq(v,st),eq(v,en)); due=Or(edge,And(ne(v,val_),sle(to,now-last)))
        for k,y in c.call("h_set_"+S,[g,v]):
            c.cover(y); c.post(y,"returns",boolc(k=='end')); log=y.ghost.get('log',())
            if not log:
                c.post(y,"unreported only when nothing changed or the time has not come",Not(due)); c.post(y,"then nothing changes",And(eq(F(y,'value'),val_),eq(F(y,'last'),last)))
            else:
                c.post(y,"reported only at either end or when due",due); h.expect(y,"reported once, with the position",("do_set",p.r.id,v)); c.post(y,"the position and the time are remembered",And(eq(F(y,'value'),v),eq(F(y,'last'),now)))
            c.post(y,"the range and the timeout stay",And(eq(F(y,'start'),st),eq(F(y,'end'),en),eq(F(y,'timeout'),to)))
    root("lazy_progress, "+T)(lazy)
    for host in (0,1):
        def tmo(c,S=S,host=host):
            h=H(c,S,host); now0,now,to=c.var('construction time'),c.var('now'),c.var('timeout'); cur=[now0]; lim=const(1<<61,64); c.assume(ult(now0,lim),ult(now,lim),ult(to,lim))
            c.model(r'^std::chrono::.*system_clock::now\(\)',lambda ex,st,n,a,I: cur[0]); p=P(c.cells('timeout',c.m.k("sz_o_"+S))); g=h.do("octor",p,h.host,to); cur[0]=now
            v,b=c.var('v',h.w),c.var('b',h.w); hid=h.host.r.id if host else None
            for k,y in c.call("h_set_"+S,[g,v]): c.cover(y); h.expect(y,"the position reaches the host unchanged, once",*([("set",hid,v)] if host else []))
            for k,y in c.call("h_range_"+S,[g,v,b]): c.cover(y); h.expect(y,"the range reaches the host unchanged, once",*([("set_range",hid,v,b)] if host else []))
            for k,y in c.call("h_cancel_"+S,[g]): c.cover(y); c.post(y,"cancels when the host does or the deadline has passed",Iff(tb(y.ghost['ret']),Or(h.canc if host else FALSE,slt(now0+to,now))))
        root("timeout_progress%s, %s"%("" if host else " without a host",T))(tmo)
