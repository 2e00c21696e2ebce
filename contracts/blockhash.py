"""Contracts shared by the block hashes (MD5, SHA-1): block_hash::hash, hash_block, clear, finalize."""
import math
from fw import *
from sweep import prove_equal
Z=const(0,64)
def rol(x,n): return (x<<n)|lshr(x,const(32-n,32))
K=var('K',64)
class Hash:
    def __init__(s,c,NS,cls,init,be):
        s.c=c; s.NS=NS; s.cls=cls; s.init=init; s.be=be; o=lambda f: c.m.k("off_"+f); s.o=o; s.ex=c.ex
        s.this=P(c.cells('h',c.m.k("sz_h"),[(o('queue'),64,1)])); s.q=s.this.r.kids[0][2]
        [(k,y)]=c.call("h_ctor",[s.this]); y.frames=[]; c.st=y; s.ctor=(k,y)
        # ghost: message M, total bytes T, states after b blocks
        s.S=lambda t,b: uf('S%d'%t,32,b)
    def state(s,y): return [s.ex.load_raw(y,s.this.plus(s.o('state')+4*t),4) for t in range(s.NS)]
    def counter(s,y): return concat(s.ex.load_raw(y,s.this.plus(s.o('counter')+4),4),s.ex.load_raw(y,s.this.plus(s.o('counter')),4))
    def Q(s,y): return y.mem[s.q.id][0]
    def havoc(s,T,M):
        """arbitrary state between calls: T bytes of message M hashed"""
        c=s.c
        c.put(s.this.plus(s.o('counter')),4,extract(T<<3,31,0)); c.put(s.this.plus(s.o('counter')+4),4,extract(T<<3,63,32))
        for t in range(s.NS): c.put(s.this.plus(s.o('state')+4*t),4,s.S(t,lshr(T,const(6,64))))
        A=SArr.fresh('queue',8); s.ex.setarr(c.st,s.q,A); s.ex.read_ax.setdefault(s.q.id,[])
        c.assume(ult(T,const(1<<60,64))); return A
    def qrep(s,y,T,M):
        b=T-(T&63); return Implies(ult(K,T&63),eq(s.Q(y).sel(K),M.sel(b+K)))
    def rep(s,y,T,M):
        return [("bit count",eq(s.counter(y),T<<3))]+[("state word %d is that of the complete blocks"%t,eq(v,s.S(t,lshr(T,const(6,64))))) for t,v in enumerate(s.state(y))]+[("incomplete block kept",s.qrep(y,T,M))]
    def block_model(s,M,blk):
        """callee contract of hash_block (its effect is proved by the root ...::hash_block); blk: ghost cell counting blocks"""
        def h(ex,st,n,a,I):
            b=ex.cell(st,blk,0,8); Q=s.Q(st)
            ex.check(st,"the block handed to the transformation is the next 64 bytes of the message",Implies(ult(K,const(64,64)),eq(Q.sel(K),M.sel((b<<6)+K))),kind='pre')
            for t,v in enumerate(s.state(st)): ex.check(st,"the state is that of the previous blocks",eq(v,s.S(t,b)),kind='pre')
            for t in range(s.NS): rawcell(ex,st,s.this.plus(s.o('state')+4*t),4,s.S(t,b+1))
            rawcell(ex,st,P(blk),8,b+1); ex.setarr(st,s.q,SArr.fresh('queue',8))
            return None
        s.c.model(r'^stdex::%s::hash_block\('%s.cls,h,"hash_block contract (discharged by the hash_block root)")
def hash_root(NS,cls,init,be):
    def f(c):
        h=Hash(c,NS,cls,init,be); ex=c.ex; k,y=h.ctor
        def initial(y,what):
            c.post(y,what+": no bytes counted",eq(h.counter(y),Z))
            for t,v in enumerate(h.state(y)): c.post(y,what+": initial state",eq(v,const(init[t],32)))
        c.post(y,"constructor does not throw",boolc(k=='end')); initial(y,"constructor")
        T=c.var('T'); n=c.size('length'); d=c.arr('data',1,n); D=c.st.mem[d.id][0]; M=SArr.fresh('message',8)
        A=h.havoc(T,M); c.assume(ult(n,const(1<<60,64)))
        [(k,y)]=c.call("h_clear",[h.this]); c.post(y,"clear does not throw",boolc(k=='end')); initial(y,"clear")
        st=c.st; blk=c.cells('blocks',8); c.put(P(blk),8,lshr(T,const(6,64)))
        B=T-(T&63)
        # read axioms: the message is data from T on; the queue holds the incomplete block
        c.ex.read_ax[d.id]=[lambda st,i: Implies(ult(i,n),eq(D.sel(i),M.sel(T+i)))]
        r=T&63
        fact=lambda i: Implies(ult(i,n),eq(D.sel(i),M.sel(T+i)))
        qf=lambda k: Implies(ult(k,r),eq(A.sel(k),M.sel(B+k)))
        c.assume(qf(K),fact(K),fact(K-r))
        h.block_model(M,blk)
        def inv(v,i):
            b=ex.cell(v.st,blk,0,8)
            return [ule(i,n),eq(b<<6,T+i),eq(b,lshr(T+i,const(6,64))),ule(const(64,64)-r,i)]+[eq(x,h.S(t,b)) for t,x in enumerate(h.state(v.st))]
        c.loop(inv,['i'],name="whole blocks",assume=lambda v,i: [fact(i+K),fact(i+(K))],dec=lambda v,i: n-i)
        for k,y in c.call("h_hash",[h.this,P(d),n]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            T2=T+n; y.assume(fact((T2-(T2&63))+K-T))
            for nm,g in h.rep(y,T2,M): c.post(y,nm,g)
    return f
def fin_root(NS,cls,init,be):
    def f(c):
        h=Hash(c,NS,cls,init,be); ex=c.ex; T=c.var('T'); M=SArr.fresh('message',8); A=h.havoc(T,M)
        # the padded message: 0x80, zeros up to 56 mod 64, the bit count
        NB=lshr(T+8,const(6,64))+1; bits=T<<3
        def byte(t): return extract(bits,8*t+7,8*t) if not be else extract(bits,63-8*t,56-8*t)
        tail=[byte(t) for t in range(8)]; L=(NB<<6)-8
        def ax(k): return And(Implies(eq(k,T),eq(M.sel(k),const(0x80,8))),Implies(And(ult(T,k),ult(k,L)),eq(M.sel(k),const(0,8))),*[Implies(eq(k,L+t),eq(M.sel(k),tail[t])) for t in range(8)])
        tot=c.cells('total',8); c.put(P(tot),8,T)
        def hm(ex,st,n,a,I):
            """callee contract of block_hash::hash: continues message M"""
            p,ln=a[1],a[2]; t0=ex.cell(st,tot,0,8); r,off=ex.resolve(p); J=fresh('J',64)
            if isc(ln) and val(ln)<=8:
                for j in range(val(ln)):
                    v=ex.load_raw(st,p.plus(j),1); st.assume(ax(t0+j)); ex.check(st,"bytes appended are the padding the standard prescribes",eq(v,M.sel(t0+j)),kind='pre')
            else:
                Ar,Lr=(st.mem[r.id] if r.kind=='arr' and r.esize==1 else (SArr.consts([ex.load_raw(st,P(r,const(j,64)),1) for j in range(64)],8),const(64,64))); ex.check(st,"padding read in bounds",And(ule(off,Lr),ule(ln,Lr-off)),kind='bounds'); st.assume(ax(t0+J))
                ex.check(st,"bytes appended are the padding the standard prescribes",Implies(ult(J,ln),eq(Ar.sel(off+J),M.sel(t0+J))),kind='pre')
            T2=t0+ln; rawcell(ex,st,P(tot),8,T2)
            rawcell(ex,st,h.this.plus(h.o('counter')),4,extract(T2<<3,31,0)); rawcell(ex,st,h.this.plus(h.o('counter')+4),4,extract(T2<<3,63,32))
            for t in range(NS): rawcell(ex,st,h.this.plus(h.o('state')+4*t),4,h.S(t,lshr(T2,const(6,64))))
            ex.setarr(st,h.q,SArr.fresh('queue',8)); return None
        c.model(r'^stdex::block_hash<.*>::hash\(|^stdex::%s::hash\('%cls,hm,"block_hash::hash contract (discharged by the hash root)")
        def inv(v):
            t0=ex.cell(v.st,tot,0,8)
            return [ult(T,t0),ule(t0,L),eq(h.counter(v.st),t0<<3)]+[eq(x,h.S(t,lshr(t0,const(6,64)))) for t,x in enumerate(h.state(v.st))]
        c.loop(inv,[],name="zero padding")
        for k,y in c.call("h_fin",[h.this]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            c.post(y,"the whole padded message is hashed",eq(ex.cell(y,tot,0,8),NB<<6))
            for t in range(NS):
                w=h.S(t,NB); v=concat(*[ex.load_raw(y,h.this.plus(h.o('value')+4*t+j),1) for j in ((0,1,2,3) if be else (3,2,1,0))])
                c.post(y,"digest word %d is the final state"%t,eq(v,w))
    return f
def block_root(NS,cls,init,be,compress):
    def f(c):
        h=Hash(c,NS,cls,init,be); ex=c.ex; st=c.st; sv=[c.var('s%d'%t,32) for t in range(NS)]
        for t in range(NS): c.put(h.this.plus(h.o('state')+4*t),4,sv[t])
        A=SArr.fresh('queue',8); ex.setarr(st,h.q,A)
        W=[concat(*[A.sel(const(4*i+j,64)) for j in ((0,1,2,3) if be else (3,2,1,0))]) for i in range(16)]
        cnt=h.counter(st)
        for k,y in c.call("h_block",[h.this]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            c.post(y,"the bit count is left alone",eq(h.counter(y),cnt))
            prove_equal(c,y,"compression",h.state(y),None,lambda cut: compress(cut,sv,W))
    return f
