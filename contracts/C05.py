from fw import *
prop("C05",oracle="C05.cpp",oracle_time=(4,30))
def rev(x): return concat(*[extract(x,8*k+7,8*k) for k in range(x.w//8)])
def byval(n,w):
    def f(c):
        x=c.var('x',w)
        for k,y in c.call("h_v_"+n,[x]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            r=y.ghost['ret']
            for b in range(w//8): c.post(y,"byte %d of the result is byte %d of the argument"%(b,w//8-1-b),eq(extract(r,8*b+7,8*b),extract(x,w-8*b-1,w-8*b-8)))
            st2=c.call("h_v_"+n,[r],st=newstate())
            for k2,y2 in st2: c.post(y2,"swapping twice returns the original",eq(y2.ghost['ret'],x))
    return f
def inplace(n,w):
    def f(c):
        x=c.var('x',w); o=c.cells('v',w//8); p=P(o); c.put(p,w//8,x)
        for k,y in c.call(n,[p]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            c.post(y,"bytes reversed in place",eq(c.ex.load_raw(y,p,w//8),rev(x)))
            for k2,y2 in c.call(n,[p],st=y): c.post(y2,"swapping twice returns the original",eq(c.ex.load_raw(y2,p,w//8),x))
    return f
for n,w in [("u8",8),("u16",16),("u32",32),("u64",64),("ch",8),("s8",8),("s16",16),("s32",32),("s64",64)]:
    root("byteswap value "+n)(byval(n,w)); root("byteswap in place "+n)(inplace("h_p_"+n,w))
root("byteswap in place f32")(inplace("h_p_f32",32)); root("byteswap in place f64")(inplace("h_p_f64",64))
root("byteswap value f32")(inplace("h_v_f32",32)); root("byteswap value f64")(inplace("h_v_f64",64))
