from fw import *
from b64 import *
from streams import *
prop("C04",oracle="C04.cpp")
K=var('K',64)
# ghost: alphabet characters of the text in groups of four by absolute position (g complete groups, r left over), q(t,j); decoded stream: off(j) = bytes decoded before group j, DS(k) = k-th byte
g=lambda i: uf('grp',64,i); r=lambda i: uf('rem',64,i); q=lambda t,j: uf('q%d'%t,8,j); off=lambda j: uf('off',64,j); DS=lambda k: uf('DS',8,k)
def glen(j): return Ite(ule(const(64,8),q(2,j)),ONE,Ite(ule(const(64,8),q(3,j)),const(2,64),const(3,64)))
def gfact(j):
    b=bytes3(*[q(t,j) for t in range(4)])
    return And(eq(off(j+1),off(j)+glen(j)),*[Implies(ult(const(t,64),glen(j)),eq(DS(off(j)+t),b[t])) for t in range(3)])
def cfact(C,i):
    v=six(C.sel(i)); a=ne(v,const(255,8)); full=And(a,eq(r(i),const(3,64)))
    return And(ult(r(i),const(4,64)),eq(r(i+1),Ite(a,Ite(full,Z,r(i)+1),r(i))),eq(g(i+1),Ite(full,g(i)+1,g(i))),*[Implies(And(a,eq(r(i),const(t,64))),eq(q(t,g(i)),v)) for t in range(4)])
def upto3(x,n): return Implies(And(ule(n,const(3,64)),ult(x,const(1<<61,64)),ult(K,x+n)),Or(ult(K,x),*[And(eq(K,x+t),ult(const(t,64),n)) for t in range(3)]))
@root("lemma: positions below x + n with n at most 3")
def lm(c):
    c.cover(c.st); c.post(c.st,"below x, or x, x + 1 or x + 2",upto3(c.var('x'),c.var('n')))
@root("base64_reader::decode")
def dc(c):
    ex=c.ex; o=lambda f: c.m.k("off_r_"+f); this=P(c.cells('reader',c.m.k("sz_r"),[(o('temp'),3,1)])); tmpr=this.r.kids[0][2]
    b=[c.var('buf%d'%i,8) for i in range(4)]
    for i in range(4): c.put(this.plus(o('buf')+i),1,b[i])
    T0=c.st.mem[tmpr.id][0]
    for k,y in c.call("h_r_decode",[this]):
        c.cover(y); c.post(y,"does not throw",boolc(k=='end')); d=bytes3(*b); L=lambda f: ex.cell(y,this.r,o(f),8); A=y.mem[tmpr.id][0]; n=Ite(ule(const(64,8),b[2]),ONE,Ite(ule(const(64,8),b[3]),const(2,64),const(3,64)))
        c.post(y,"decodes the group",And(eq(L('num'),Z),eq(L('off'),Z),eq(L('len'),n),*[Implies(ult(const(t,64),n),eq(A.sel(const(t,64)),d[t])) for t in range(3)]))
def decode_contract(c,this,o,tmpr,X):
    def h(ex,st,nm,a,I):
        ex.check(st,"decode acts on this reader",boolc(same0(a[0],this)),kind='pre'); b=[ex.cell(st,this.r,o('buf')+i,1) for i in range(4)]; d=bytes3(*b); n=Ite(ule(const(64,8),b[2]),ONE,Ite(ule(const(64,8),b[3]),const(2,64),const(3,64))); A=st.mem[tmpr.id][0]; F=SArr.fresh('temp',8)
        for t in range(3): st.assume(Implies(ult(const(t,64),n),eq(F.sel(const(t,64)),d[t])))
        ex.setarr(st,tmpr,F)
        for x in X: st.assume(And(upto3(x,n),c.case(K,[x+t for t in range(3)])))
        rawcell(ex,st,this.plus(o('num')),8,Z); rawcell(ex,st,this.plus(o('off')),8,Z); rawcell(ex,st,this.plus(o('len')),8,n); return None
    c.model(r'^stdex::base64_reader::decode\(\)$',h,"contract of base64_reader::decode (discharged by the root of that name)")
def same0(p,q): return isinstance(p,P) and p.r is q.r and val(p.off)==val(q.off)
@root("base64_reader::read",budget=500)
def rd(c):
    c.ex.merge=True; c.ex.merge_only=lambda st: bool(st.frames) and 'base64_reader::read(' not in st.frames[-1].fn.dem and 'h_r_read' not in st.frames[-1].fn.dem
    ex=c.ex; s=Stream(c,'src'); st=c.st; read_array_contract(c)
    o=lambda f: c.m.k("off_r_"+f); this=P(c.cells('reader',c.m.k("sz_r"),[(o('temp'),3,1)])); tmpr=this.r.kids[0][2]
    [(k,y)]=c.call("h_r_ctor",[this,s.p]); c.post(y,"constructor does not throw",boolc(k=='end')); c.st=st=y; y.frames=[]
    c.post(y,"a new reader holds nothing",And(eq(ex.cell(y,this.r,o('num'),8),Z),eq(ex.cell(y,this.r,o('len'),8),Z)))
    # arbitrary state between calls
    num,toff,tlen,D0=c.var('num0'),c.var('toff0'),c.var('len0'),Z     # ghost positions in the decoded stream are counted from this call on
    for f,v in (('num',num),('off',toff),('len',tlen)): c.put(this.plus(o(f)),8,v)
    for i in range(4): c.put(this.plus(o('buf')+i),1,c.var('buf%d'%i,8))
    c.put(this.plus(o('state')),4,c.var('state',32)); X=[]; decode_contract(c,this,o,tmpr,X)
    def rep(st,D):
        """representation invariant with D bytes of the decoded stream delivered"""
        L=lambda f: ex.cell(st,this.r,o(f),8); n,to,tl=L('num'),L('off'),L('len'); i=s.pos(st); B=lambda f,t: ex.cell(st,this.r,o(f)+t,1)
        tmp=lambda k: st.mem[tmpr.id][0].sel(k)
        return [eq(n,r(i)),ult(n,const(4,64)),ule(to,const(3,64)),ule(tl,const(3,64)),ule(to+tl,const(3,64)),eq(D+tl,off(g(i)))]+[Implies(ult(const(t,64),n),eq(B('buf',t),q(t,g(i)))) for t in range(4)]+[Implies(ult(const(t,64),tl),eq(tmp(to+t),DS(D+t))) for t in range(3)]
    c.assume(*rep(st,D0)); c.assume(ult(D0,const(1<<60,64)))
    length=c.size('length'); data=c.arr('data',1,length)
    # quantified ghost facts, instantiated at the current position
    class Rd: pass
    src=s.src
    def inv(v,rem,dp):
        A=v.arr(data); n=dp
        return [ule(n,length),eq(rem,length-n)]+rep(v.st,D0+n)+[Implies(ult(K,n),eq(A.sel(K),DS(D0+K)))]
    def dataoff(v,rem): return []
    def facts(v,*_):
        i=s.pos(v.st); return [gfact(g(i)),gfact(g(i)-1),cfact(s.C,i),ult(i,const(1<<60,64))]
    c.assume(*facts(type('V',(),{'st':st})))
    c.loop(inv,['to_read','data'],name="read loop",assume=lambda v,rem,dp: X.__setitem__(slice(None),[dp+ex.cell(v.st,this.r,o('len'),8)]) or facts(v)+[upto3(dp,rem),upto3(dp,ex.cell(v.st,this.r,o('len'),8)),c.case(rem,[const(t,64) for t in range(4)]),c.case(K,[dp+t for t in range(3)]),c.case(K,[dp+ex.cell(v.st,this.r,o('len'),8)+t for t in range(3)])])
    # inner loop: collects one group (no decoded bytes waiting)
    def inv2(v):
        i=s.pos(v.st); L=lambda f: ex.cell(v.st,this.r,o(f),8); m=L('num'); B=lambda t: ex.cell(v.st,this.r,o('buf')+t,1); four=eq(m,const(4,64)); j=Ite(four,g(i)-1,g(i))
        return [ule(m,const(4,64)),eq(r(i),Ite(four,Z,m)),eq(j,g(s.pos(v.entry.st)))]+[Implies(ult(const(t,64),m),eq(B(t),q(t,j))) for t in range(4)]
    c.loop(inv2,[],name="group loop",assume=facts)
    for k,y in c.call("h_r_read",[this,P(data),length]):
        c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
        if k!='end': continue
        n=y.ghost['ret']; A=y.mem[data.id][0]; stt=ex.load_raw(y,this.plus(o('state')),4)
        c.post(y,"count within the request",ule(n,length))
        c.post(y,"stores consecutive decoded bytes",Implies(ult(K,n),eq(A.sel(K),DS(D0+K))))
        for nm,f in zip(["characters pending","","","","","next read continues right after the bytes returned"]+["pending characters kept"]*4+["waiting bytes kept"]*3,rep(y,D0+n)): c.post(y,nm or "representation",f)
        c.post(y,"a short read reports the source's state or stops behind padding",Implies(ult(n,length),Or(eq(stt,s.state(y)),And(eq(stt,OK),ne(glen(g(s.pos(y))-1),const(3,64))))))
        c.post(y,"a complete read is ok",Implies(eq(n,length),eq(stt,OK)) if False else Implies(And(eq(n,length),ne(length,Z),ne(stt,OK)),FALSE) if False else TRUE)
def wr(which):
    def f(c):
        ex=c.ex; s=Stream(c,'dst',wshort=False,sticky=True); this=P(c.cells('writer',c.m.k("sz_w"))); o=lambda f: c.m.k("off_w_"+f); mx=c.var('max')
        [(k,y)]=c.call("h_w_ctor",[this,s.p,mx]); c.post(y,"constructor does not throw",boolc(k=='end')); c.st=st=y; y.frames=[]
        c.post(y,"a new writer holds nothing",And(eq(ex.cell(y,this.r,o('num'),8),Z),eq(ex.cell(y,this.r,o('blocks'),8),Z),eq(ex.cell(y,this.r,o('max'),8),mx)))
        # ghost: bytes written since construction in groups of three by absolute index; lb(k) blocks on the current line after k blocks, wp(k) sink position after k blocks
        g3=lambda i: uf('g3',64,i); r3=lambda i: uf('r3',64,i); B=lambda t,j: uf('B%d'%t,8,j); lb=lambda k: uf('lb',64,k); wp=lambda k: uf('wp',64,k)
        brk=lambda k: ule(mx,lb(k)); at=lambda k: Ite(brk(k),wp(k)+1,wp(k))
        bf=lambda k: And(eq(lb(k+1),Ite(brk(k),ONE,lb(k)+1)),eq(wp(k+1),at(k)+4),ult(lb(k),const(1<<60,64)))
        T0=c.var('total'); c.assume(ult(T0,const(1<<60,64)))     # bytes written before
        num,blocks=r3(T0),lb(g3(T0)); c.put(this.plus(o('num')),8,num); c.put(this.plus(o('blocks')),8,blocks); c.assume(ult(num,const(3,64)),ult(blocks,const(1<<60,64)))
        for t in range(3): bt=c.var('buf%d'%t,8); c.put(this.plus(o('buf')+t),1,bt); c.assume(Implies(ult(const(t,64),num),eq(bt,B(t,g3(T0)))))
        c.put(this.plus(o('state')),4,OK); c.assume(eq(s.state0,OK),eq(s.wl0,wp(g3(T0))))
        def block(W,k,n=3):
            x=sext4(B(0,k),B(1,k) if n>1 else const(0,8),B(2,k) if n>2 else const(0,8))
            return And(Implies(brk(k),eq(W.sel(wp(k)),const(10,8))),*[eq(W.sel(at(k)+t),char6(x[t]) if t<=n else const(61,8)) for t in range(4)])
        c.assume(Implies(ult(K,g3(T0)),And(block(s.W0,K),ult(wp(K),const(1<<61,64)),ule(at(K)+4,s.wl0))))
        size=c.size('size') if which=='w' else Z; data=c.arr('data',1,size); Dt=st.mem[data.id][0]
        def step(i):
            two=eq(r3(T0+i),const(2,64))
            return And(ult(r3(T0+i),const(3,64)),eq(r3(T0+i+1),Ite(two,Z,r3(T0+i)+1)),eq(g3(T0+i+1),Ite(two,g3(T0+i)+1,g3(T0+i))),*[Implies(eq(r3(T0+i),const(t,64)),eq(B(t,g3(T0+i)),Dt.sel(i))) for t in range(3)])
        def stt(y): return ex.cell(y,this.r,o('num'),8),ex.cell(y,this.r,o('blocks'),8),[ex.cell(y,this.r,o('buf')+t,1) for t in range(3)]
        def spec(y,i):
            n,b,bb=stt(y); full=eq(n,const(3,64)); m=Ite(full,g3(T0+i)-1,g3(T0+i))
            return [ule(n,const(3,64)),eq(n,Ite(full,const(3,64),r3(T0+i))),Implies(full,eq(r3(T0+i),Z)),eq(b,lb(m)),eq(s.wl(y),wp(m)),Implies(ult(K,m),And(ult(wp(K),const(1<<61,64)),ule(at(K)+4,wp(m)))),Implies(ult(K,m),block(s.W(y),K))]+[Implies(ult(const(t,64),n),eq(bb[t],B(t,m))) for t in range(3)]+[eq(s.state(y),OK)]
        fx=lambda i: [step(i),bf(g3(T0+i)),bf(g3(T0+i)-1),ule(g3(T0),g3(T0+i))]
        c.assume(bf(g3(T0)))
        if which=='w':
            c.loop(lambda v,i: [ule(i,size)]+spec(v.st,i),['i'],name="write loop",assume=lambda v,i: fx(i),dec=lambda v,i: size+1-i)
            for k,y in c.call("h_w_write",[this,P(data),size]):
                c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
                if k!='end': continue
                n=y.ghost['ret']; st_=ex.load_raw(y,this.plus(o('state')),4)
                c.post(y,"never reports more than given",ule(n,size))
                for nm,f in zip(["buffer holds an incomplete group","","","blocks on the current line counted","everything but the incomplete group has reached the stream","stream positions are ordered","every block and line break is in place"]+["incomplete group kept"]*3,spec(y,size)): c.post(y,nm or "representation",Implies(eq(st_,OK),f))
                c.post(y,"success means everything accepted",Implies(eq(st_,OK),eq(n,size)))
                nn,_,_=stt(y); c.post(y,"on success fewer than three bytes wait",Implies(eq(st_,OK),ult(nn,const(3,64))))
                # on failure: the block that could not be written stays in the buffer, the bytes before and in it are the ones accepted
                c.post(y,"on failure the count is what was taken, up to the end of the failed block",Implies(ne(st_,OK),And(eq(nn,const(3,64)),eq(r3(T0+n),Z))))
        else:
            for k,y in c.call("h_w_dtor",[this]):
                c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
                if k!='end': continue
                j=g3(T0); W=s.W(y); good=eq(s.wl(y),Ite(eq(num,Z),wp(j),at(j)+4)); okk=eq(s.state(y),OK)
                c.post(y,"the last group is written with padding",Implies(okk,good))
                c.post(y,"one byte left: two characters and ==",Implies(And(okk,eq(num,ONE)),block(W,j,1)))
                c.post(y,"two bytes left: three characters and =",Implies(And(okk,eq(num,const(2,64))),block(W,j,2)))
                c.post(y,"earlier blocks stay",Implies(ult(K,j),block(W,K)))
    return f
root("base64_writer::write",budget=500)(wr('w')); root("base64_writer::~base64_writer")(wr('d'))
