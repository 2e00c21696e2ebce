from fw import *
prop("C01",oracle="C01.cpp")
def arith(fname,op,wd):
    def f(c):
        a,b=c.var('a'),c.var('b')
        wide=op(zext(a,wd),zext(b,wd))
        for k,y in c.call(fname,[a,b]):
            c.cover(y)
            if k=='end':
                c.post(y,"returns the exact result",eq(zext(y.ghost['ret'],wd),wide))
            else:
                c.post(y,"throws only when the result does not fit",ule(const(1<<64,wd),wide))
                c.post(y,"throws invalid_argument",boolc('_ZTISt16invalid_argument' in c.ex.exc_bases(y.exc[0])))
    return f
root("mul")(arith("h_mul",mul,128))
root("add")(arith("h_add",add,65))
@root("rol")
def rol(c):
    v,n=c.var('v',32),c.var('n',32)
    c.assume(ule(const(1,32),n),ule(n,const(31,32)))
    j=c.var('j',32); c.assume(ult(j,const(32,32)))
    for k,y in c.call("h_rol",[v,n]):
        c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
        if k!='end': continue
        r=y.ghost['ret']
        # bit j of the argument is bit (j+n) mod 32 of the result
        bit=lambda x,i: lshr(x,i)&1
        c.post(y,"bit j moves to bit (j+n) mod 32",eq(bit(v,j),bit(r,(j+n)&31)))
def md(fname,w,sg):
    def f(c):
        n,k,q=c.var('n',w),c.var('k',w),c.var('q',w)
        E=(lambda x:sext(x,2*w)) if sg else (lambda x:zext(x,2*w))
        full=mul(E(n),E(k)); quo=(sdiv if sg else udiv)(full,E(q))
        c.assume(ne(q,const(0,w)),eq(E(extract(quo,w-1,0)),quo))
        for kk,y in c.call(fname,[n,k,q]):
            c.cover(y)
            c.post(y,"does not throw",boolc(kk=='end'))
            if kk=='end': c.post(y,"is the quotient of the full-width product",eq(E(y.ghost['ret']),quo))
    return f
root("muldiv int32")(md("h_mds32",32,True))
root("muldiv uint32")(md("h_mdu32",32,False))
