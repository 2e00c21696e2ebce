import z3
from fw import *
prop("C29",oracle="C29.cpp",san="address,undefined",assume=["calendar: Gregorian rules for years 1 to 1469000 (days 1721426 to 538592030), the range in which 32-bit day arithmetic is exact; the date of a negative time point is outside the statement"])
YMAX=1469000; N0,N1=1721426,1721119+(1<<29)-1; E0=210866803200
CUM=[0,31,59,90,120,151,181,212,243,273,304,334]; DIM=[31,28,31,30,31,30,31,31,30,31,30,31]
# calendar definition (the oracle), over integers
leap=lambda y: z3.And(y%4==0,z3.Or(y%100!=0,y%400==0))
I=z3.IntVal
def tab(m,t):
    r=I(t[11])
    for k in range(10,-1,-1): r=z3.If(m==k+1,I(t[k]),r)
    return r
def cum(y,m): return tab(m,CUM)+z3.If(z3.And(m>2,leap(y)),1,0)
def dim(y,m): return z3.If(z3.And(m==2,leap(y)),29,tab(m,DIM))
def J(y,m,d): return 365*(y-1)+(y-1)/4-(y-1)/100+(y-1)/400+cum(y,m)+d+1721425
def valid(y,m,d): return z3.And(m>=1,m<=12,d>=1,d<=dim(y,m))
def autocuts(X,terms,ghosts,tmo=1500):
    """facts that help the integer solver: every division inside the result terms that equals one of the ghost quantities (proved one by one, then assumed)"""
    seen=set(); order=[]
    def walk(t):
        if not isinstance(t,T) or t in seen: return
        seen.add(t)
        for k in t.a:
            if isinstance(k,T): walk(k)
            elif isinstance(k,tuple):
                for e in k: walk(e[0] if isinstance(e,tuple) else e)
        if t.op in('sdiv','udiv','srem','urem','lin') and t.w>=8: order.append(t)
    for t in terms: walk(t)
    used=set()
    for t in order:
        try: e=X.r(t)[0]
        except Unsupported: continue
        for i,g in enumerate(ghosts):
            if (t.op=='lin') : 
                if t not in terms and not any(t in u.a for u in order if u.op!='lin'): continue
            f=(e==g)
            if X.prove(f,tmo): X.facts.append(f); break
def tofrom(c,d,m,y,st,X):
    D,M,Y=X.unsigned(d),X.unsigned(m),X.signed(y); return D,M,Y
def date_vars(c,mm=None):
    d=c.var('day',8); m=c.var('month',8) if mm is None else const(mm,8); y=c.var('year',32)
    dmax=31 if mm is None else (29 if mm==2 else DIM[mm-1])
    c.assume(ule(const(1,8),d),ule(d,const(dmax,8)),sle(const(1,32),y),sle(y,const(YMAX,32)))
    return d,m,y,dict(day=(1,dmax),year=(1,YMAX))
def ghosts(mm,X):
    Y,Dd=X.signed(var('year',32)),X.unsigned(var('day',8)); mt=mm-3 if mm>2 else mm+9; yt=Y if mm>2 else Y-1; cc=yt/100
    return [cc,yt-100*cc,I(mt),Dd,yt,Y,I(mm)]
def per_month(mm):
    @root("aosn_date month %d: day number, round trip, weekday"%mm,budget=400)
    def f(c):
        d,m,y,R=date_vars(c,mm); a=c.cells('day_',1); b=c.cells('month_',1); e=c.cells('year_',4)
        for k,s in c.call("h_dfrom",[d,m,y]):
            c.cover(s); n=s.ghost['ret']; X=c.ints(s,R); D,Y=X.unsigned(d),X.signed(y); X.facts.append(D<=dim(Y,I(mm)))
            c.post(s,"from_dmy does not throw",boolc(k=='end'))
            c.ipost(X,"from_dmy gives the day number of the calendar",lambda: X.signed(n)==J(Y,I(mm),D))
            for k2,s2 in c.call("h_dto",[n,P(a),P(b),P(e)],st=s):
                X=c.ints(s2,R); D,Y=X.unsigned(d),X.signed(y); X.facts.append(D<=dim(Y,I(mm))); A,B,E=(c.ex.load_raw(s2,P(r),w) for r,w in((a,1),(b,1),(e,4)))
                if X.prove(z3.BoolVal(False),8000): continue    # this path is infeasible
                c.cover(s2); autocuts(X,[A,B,E],ghosts(mm,X))
                c.ipost(X,"to_dmy(from_dmy) year",lambda: X.signed(E)==Y); c.ipost(X,"to_dmy(from_dmy) month",lambda: X.unsigned(B)==mm); c.ipost(X,"to_dmy(from_dmy) day",lambda: X.unsigned(A)==D)
            for k3,s3 in c.call("h_dow3",[d,m,y],st=s):
                X=c.ints(s3,R); D,Y=X.unsigned(d),X.signed(y); X.facts.append(D<=dim(Y,I(mm))); w=s3.ghost['ret']
                c.ipost(X,"weekday of a date is its day number modulo 7 (0 = Monday)",lambda: X.unsigned(w)==X.signed(n)%7)
for mm in range(1,13): per_month(mm)
@root("lemma: consecutive calendar days have consecutive day numbers, weekday 0 is Monday")
def f(c):
    def nx(y,m,d):
        last=d==dim(y,m); return z3.If(z3.And(last,m==12),y+1,y),z3.If(last,z3.If(m==12,1,m+1),m),z3.If(last,1,d+1)
    for mm in range(1,13):
        c.int_lemma("month %d: the next day"%mm,lambda y,d: z3.Implies(z3.And(y>=1,valid(y,I(mm),d)),J(*nx(y,I(mm),d))==J(y,I(mm),d)+1),'y','d')
    c.int_lemma("1 January 2024 was a Monday",lambda y: J(I(2024),I(1),I(1))%7==0,'y'); c.int_lemma("1 January 1970 is day 2440588",lambda y: J(I(1970),I(1),I(1))==2440588,'y')
    c.covers=1
@root("aosn_date::to_dmy for every day number: valid date with that day number",budget=500)
def f(c):
    n=c.var('n',32); R=dict(n=(N0,N1)); a=c.cells('day_',1); b=c.cells('month_',1); e=c.cells('year_',4); c.assume(sle(const(N0,32),n),sle(n,const(N1,32)))
    for k,s in c.call("h_dto",[n,P(a),P(b),P(e)]):
        c.cover(s); c.post(s,"does not throw",boolc(k=='end')); X=c.ints(s,R); A,B,E=(c.ex.load_raw(s,P(r),w) for r,w in((a,1),(b,1),(e,4)))
        # the date of a day number: day count from 1 March of year 0 split into centuries, years and 5-month cycles
        N=X.signed(n)-1721120; cc=z3.Int('C_'); yy=z3.Int('Y_'); mo=z3.Int('M_'); dd=z3.Int('D_')
        fdiv=lambda x,q: x/z3.IntVal(q)
        X.facts+= [cc==fdiv(4*N+3,146097)]; r1=N-fdiv(146097*cc,4); X.facts+=[yy==fdiv(4*r1+3,1461)]; r2=r1-fdiv(1461*yy,4); X.facts+=[mo==fdiv(5*r2+2,153),dd==r2-fdiv(153*mo+2,5)+1]
        # bounds of the ghost split (proved)
        c.ipost(X,"ghost split is in range",lambda: z3.And(cc>=0,r1>=0,r1<=36524,yy>=0,yy<=99,r2>=0,r2<=365,mo>=0,mo<=11,dd>=1,dd<=31))
        autocuts(X,[A,B,E],[cc,yy,mo,dd,100*cc+yy,100*cc+yy+1,r1,r2,r2+1,mo+3,mo-9],4000)
        c.ipost(X,"year",lambda: X.signed(E)==z3.If(mo<10,100*cc+yy,100*cc+yy+1)); c.ipost(X,"month",lambda: X.unsigned(B)==z3.If(mo<10,mo+3,mo-9)); c.ipost(X,"day",lambda: X.unsigned(A)==dd)
        YY=z3.If(mo<10,100*cc+yy,100*cc+yy+1); MM=z3.If(mo<10,mo+3,mo-9)
        for mm in range(12):
            c.ipost(X,"the date is valid and has this day number (month index %d)"%mm,lambda: z3.Implies(mo==mm,z3.And(dd<=dim(100*cc+yy+(mm>=10),I(mm+3 if mm<10 else mm-9)),J(100*cc+yy+(mm>=10),I(mm+3 if mm<10 else mm-9),dd)==X.signed(n))))
@root("aosn_date::day_of_week, next day")
def f(c):
    n=c.var('n',32); c.assume(sle(const(0,32),n),slt(n,const((1<<31)-1,32)))
    for k,s in c.call("h_dow",[n]):
        X=c.ints(s,dict(n=(0,(1<<31)-2))); c.cover(s); w=s.ghost['ret']; c.ipost(X,"weekday is the day number modulo 7",lambda: X.unsigned(w)==X.signed(n)%7)
        for k2,s2 in c.call("h_dow",[n+1],st=s):
            X=c.ints(s2,dict(n=(0,(1<<31)-2))); v=s2.ghost['ret']; c.ipost(X,"the weekday advances by one modulo 7",lambda: X.unsigned(v)==(X.unsigned(w)+1)%7)
TMAX=1<<50
def one(name,fn,var_,w,lo,hi,spec,size=64,args=None):
    @root(name)
    def f(c):
        v=c.var(var_,w); c.assume(sle(const(lo,w),v),sle(v,const(hi,w)))
        for k,s in c.call(fn,[v]):
            c.cover(s); c.post(s,"does not throw",boolc(k=='end')); X=c.ints(s,{var_:(lo,hi)}); r=s.ghost['ret']; c.ipost(X,name,lambda: X.signed(r)==spec(X.signed(v)))
one("aosn_date::to_time_t: seconds from 1970 to the start of the day","h_dtot",'n',32,-(1<<31),(1<<31)-1,lambda n: (n-2440588)*86400+ (2440588*86400-E0))
one("aosn_date::from_time_t: the day that contains the second","h_dfromt",'t',64,-E0,((1<<31)-1)*86400-E0,lambda t: (t+E0)/86400)
one("aosn_timestamp::to_time_t: whole seconds","h_stot",'n',64,0,1<<62,lambda n: n/1000-E0)
one("aosn_timestamp::from_time_t","h_sfromt",'t',64,-E0,TMAX,lambda t: (t+E0)*1000)
one("aosn_timestamp::to_date: the day that contains the instant","h_stodate",'n',64,0,((1<<31)-1)*86400000,lambda n: n/86400000)
one("aosn_timestamp::from_date: midnight","h_sfromdate",'n',32,-(1<<31),(1<<31)-1,lambda n: n*86400000)
@root("lemma: the epochs of day and second counts agree")
def f(c):
    c.int_lemma("day 2440588 starts at second 0 minus half a day or at second 0",lambda y: z3.Or(2440588*86400-E0==0,2440588*86400-E0==43200,2440588*86400-E0==-43200),'y')
    c.int_lemma("to_time_t and from_time_t of aosn_date are inverse on days",lambda n: (((n-2440588)*86400+2440588*86400-E0)+E0)/86400==n,'n')
    c.int_lemma("to_time_t and from_time_t of aosn_timestamp are inverse on whole seconds",lambda t: ((t+E0)*1000)/1000-E0==t,'t'); c.covers=1
def tspec(name,fn,spec,hi):
    @root(name)
    def f(c):
        s_,ns=c.var('tv_sec',64),c.var('tv_nsec',64); R=dict(tv_sec=(-E0,hi),tv_nsec=(0,999999999)); t=c.cells('ts',16); c.put(P(t,const(c.m.k("off_ts_sec"),64)),8,s_); c.put(P(t,const(c.m.k("off_ts_nsec"),64)),8,ns)
        c.assume(sle(const(-E0,64),s_),sle(s_,const(hi,64)),sle(const(0,64),ns),sle(ns,const(999999999,64)))
        for k,s in c.call(fn,[P(t)]):
            c.cover(s); c.post(s,"does not throw",boolc(k=='end')); X=c.ints(s,R); r=s.ghost['ret']; c.ipost(X,name,lambda: X.signed(r)==spec(X.signed(s_),X.signed(ns)))
tspec("aosn_timestamp::from_system(timespec): the instant in whole milliseconds","h_sfromts",lambda t,n: (t+E0)*1000+n/1000000,TMAX)
tspec("aosn_date::from_system(timespec): the day","h_dfromts",lambda t,n: (t+E0)/86400,((1<<31)-1)*86400-E0)
def dfrom_contract(c):
    "callees aosn_date::from_dmy/to_dmy by their contract (discharged by the roots above): the day number is a function of the date and back"
    def fr(ex,st,nm,a,I_): return uf('day_number',32,extract(a[0],7,0),extract(a[1],7,0),a[2])
    c.model(r'stdex::chrono::aosn_date::from_dmy\(',fr,"contract of aosn_date::from_dmy (discharged by the month roots)")
@root("aosn_timestamp::from_dmy: day number and time of day")
def f(c):
    d,m,y=c.var('day',8),c.var('month',8),c.var('year',32); h,mi,se,ms=c.var('hour',8),c.var('minute',8),c.var('second',8),c.var('ms',16); R=dict(hour=(0,23),minute=(0,59),second=(0,60),ms=(0,999),dn=(N0,N1))
    dn=c.var('dn',32); c.model(r'stdex::chrono::aosn_date::from_dmy\(',lambda ex,st,nm,a,I_: (ex.check(st,"passes the date on",And(eq(a[0],d),eq(a[1],m),eq(a[2],y)),kind='pre'),dn)[1],"contract of aosn_date::from_dmy (discharged by the month roots)")
    c.assume(ule(h,const(23,8)),ule(mi,const(59,8)),ule(se,const(60,8)),ule(ms,const(999,16)),sle(const(N0,32),dn),sle(dn,const(N1,32)))
    for k,s in c.call("h_sfrom",[d,m,y,h,mi,se,ms]):
        c.cover(s); c.post(s,"does not throw",boolc(k=='end')); X=c.ints(s,R); r=s.ghost['ret']; u=X.unsigned
        c.ipost(X,"milliseconds of the date and time",lambda: X.signed(r)==X.signed(dn)*86400000+u(h)*3600000+u(mi)*60000+u(se)*1000+u(ms))
def split(c,s,R,n,vals,tag,nd):
    X=c.ints(s,R); N=X.signed(n); h,mi,se,ms=vals; t=N%86400000; g=[t/3600000,(t/60000)%60,(t/1000)%60,t%1000]
    autocuts(X,[v for v in vals if v is not None],[t,t%1000,t/1000,(t/1000)%60,t/60000,(t/60000)%60,t/3600000])
    for nm,v,x in zip(("hour","minute","second","millisecond"),vals,g):
        if v is not None: c.ipost(X,"%s%s"%(tag,nm),lambda: X.unsigned(v)==x)
def dto_model(c,n):
    dd,mm,yy=c.var('D',8),c.var('M',8),c.var('Y',32); calls=[]
    def h(ex,st,nm,a,I_):
        day=udiv(n,const(86400000,64)); X=c.ints(st,dict(n=(0,N1*86400000)))
        c.ipost(X,"the date of the day that contains the instant is asked for",lambda: X.signed(a[0])==X.signed(n)/86400000)
        for p,w,v in zip(a[1:4],(1,1,4),(dd,mm,yy)):
            if not(p.r is None): rawcell(ex,st,p,w,v)
    c.model(r'stdex::chrono::aosn_date::to_dmy\(',h,"contract of aosn_date::to_dmy (discharged by its roots)")
    return dd,mm,yy
@root("aosn_timestamp::to_dmy: date of the day, time of day",budget=400)
def f(c):
    n=c.var('n',64); R=dict(n=(0,N1*86400000)); c.assume(sle(const(0,64),n),sle(n,const(N1*86400000,64))); D,M,Y=dto_model(c,n)
    rs=[c.cells(x,w) for x,w in(('day_',1),('month_',1),('year_',4),('h',1),('m',1),('s',1),('ms',2))]
    for k,s in c.call("h_sto",[n]+[P(r) for r in rs]):
        c.cover(s); c.post(s,"does not throw",boolc(k=='end')); L=[c.ex.load_raw(s,P(r),w) for r,w in zip(rs,(1,1,4,1,1,1,2))]
        c.post(s,"date is that of aosn_date::to_dmy",And(eq(L[0],D),eq(L[1],M),eq(L[2],Y))); split(c,s,R,n,L[3:],"",None)
@root("aosn_timestamp::to_dmy without outputs")
def f(c):
    n=c.var('n',64); c.assume(sle(const(0,64),n),sle(n,const(N1*86400000,64))); dto_model(c,n); NUL=P(None,const(0,64))
    for k,s in c.call("h_sto",[n]+[NUL]*7): c.cover(s); c.post(s,"accepts null for every output",boolc(k=='end'))
@root("aosn_timestamp::to_system(tm)",budget=400)
def f(c):
    n=c.var('n',64); R=dict(n=(0,N1*86400000)); c.assume(sle(const(0,64),n),sle(n,const(N1*86400000,64))); D,M,Y=dto_model(c,n); c.assume(ule(const(1,8),M),ule(M,const(12,8)),ule(const(1,8),D),ule(D,const(31,8)),sle(const(0,32),Y),sle(Y,const(YMAX+5000,32)))
    t=c.cells('tm',56)
    for k,s in c.call("h_stosys",[n,P(t)]):
        c.cover(s); c.post(s,"does not throw",boolc(k=='end')); g=lambda f: c.ex.load_raw(s,P(t,const(c.m.k("off_"+f),64)),4)
        c.post(s,"day, month from 0, year from 1900",And(eq(g("mday"),zext(D,32)),eq(g("mon"),zext(M,32)-1),eq(g("year"),Y-1900))); split(c,s,R,n,[g("hour"),g("min"),g("sec"),None],"tm ",None)
        X=c.ints(s,R); w=g("wday"); c.ipost(X,"weekday from Sunday",lambda: X.unsigned(w)==((X.signed(n)/86400000)%7+1)%7)
