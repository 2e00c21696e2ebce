from fw import *
from streams import *
prop("C10",oracle="C10.cpp")
POLY=const(0xEDB88320,32)
def step(v,b):
    """one byte of the reflected IEEE 802.3 polynomial division, bit by bit"""
    x=v^zext(b,32)
    for _ in range(8): x=Ite(eq(extract(x,0,0),const(1,1)),lshr(x,const(1,32))^POLY,lshr(x,const(1,32)))
    return x
def fold(D,v0,name):
    """ghost crc(i) = register after bytes [0,i) of D starting from v0 (defined by recursion; unfolded at the positions used)"""
    u=lambda i: uf(name,32,i)
    return u,lambda i: And(eq(u(Z),v0),eq(u(i+1),step(u(i),D.sel(i))))
@root("crc32_hash")
def h(c):
    ex=c.ex; sz=c.m.k("sz_h"); o=c.m.k("off_h_value"); this=P(c.cells('h',sz)); crc=c.var('crc',32)
    val_=lambda y: ex.load_raw(y,this.plus(o),4)
    [(k,y)]=c.call("h_ctor0",[this]); c.post(y,"starts from all ones",boolc(k=='end') & eq(val_(y),const(0xffffffff,32)))
    [(k,y)]=c.call("h_ctor",[this,crc]); c.post(y,"continues from a previous hash value",boolc(k=='end') & eq(val_(y),~crc))
    y.frames=[]; c.st=st=y; v0=c.var('value',32); c.put(this.plus(o),4,v0)
    [(k,y)]=c.call("h_clear",[this]); c.post(y,"clearing restores the initial state",boolc(k=='end') & eq(val_(y),const(0xffffffff,32)))
    [(k,y)]=c.call("h_fin",[this]); c.post(y,"final complement",boolc(k=='end') & eq(val_(y),~v0))
    n=c.size('length'); d=c.arr('data',1,n); D=c.st.mem[d.id][0]; u,ax=fold(D,v0,'crc'); c.assume(eq(u(Z),v0))
    c.loop(lambda v,i: [ule(i,n),eq(ex.load_raw(v.st,this.plus(o),4),u(i))],['i'],assume=lambda v,i: [ax(i)],dec=lambda v,i: n-i,name="byte loop")
    for k,y in c.call("h_hash",[this,P(d),n]):
        c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
        if k=='end': c.post(y,"the register is the IEEE CRC register after the bytes given",eq(val_(y),u(n)))
def sh(w):
    def f(c):
        ex=c.ex; s=Stream(c,'src'); sz=c.m.k("sz_h"); o=c.m.k("off_h_value"); h=P(c.cells('h',sz)); this=P(c.cells('sh',c.m.k("sz_sh")))
        [(k,y)]=c.call("h_ctor0",[h]); y.frames=[]; c.st=y
        [(k,y)]=c.call("h_sh",[this,h,s.p]); y.frames=[]; c.st=y; c.post(y,"constructor does not throw",boolc(k=='end'))
        v0=c.var('value',32); c.put(h.plus(o),4,v0)
        n=c.size('length'); d=c.arr('data',1,n); D=c.st.mem[d.id][0]; src=s.C if w=='r' else D; base=s.pos0 if w=='r' else Z
        u=lambda i: uf('crc',32,i); c.assume(eq(u(Z),v0)); ax=lambda i: eq(u(i+1),step(u(i),src.sel(base+i)))
        c.loop(lambda v,i: [ule(i,n),eq(ex.load_raw(v.st,h.plus(o),4),u(i))],['i'],assume=lambda v,i: [ax(i)],name="byte loop")
        J=c.var('J')
        for k,y in c.call("h_shread" if w=='r' else "h_shwrite",[this,P(d),n]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            r=y.ghost['ret']; moved=s.pos(y)-s.pos0 if w=='r' else s.wl(y)-s.wl0
            c.post(y,"returns what the stream transferred",And(eq(r,moved),ule(r,n)))
            c.post(y,"exactly the bytes transferred are hashed",eq(ex.load_raw(y,h.plus(o),4),u(r)))
            c.post(y,"state is the source's",eq(ex.load_raw(y,this.plus(c.m.k("off_sh_state")),4),s.state(y)))
            if w=='r': c.post(y,"the data arrives unchanged",Implies(ult(J,r),eq(y.mem[d.id][0].sel(J),s.C.sel(s.pos0+J))))
            else: c.post(y,"the data is passed on unchanged",Implies(ult(J,r),eq(s.W(y).sel(s.wl0+J),D.sel(J))))
    return f
root("stream_hasher::read")(sh('r')); root("stream_hasher::write")(sh('w'))
