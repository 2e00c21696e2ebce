from blockhash import *
prop("C12",oracle="C12.cpp")
INIT=[0x67452301,0xEFCDAB89,0x98BADCFE,0x10325476,0xC3D2E1F0]
def sha1(cut,s,W):
    """FIPS 180-4, section 6.1.2 (Ch written as (b&(c^d))^d)"""
    W=list(W)
    a,b,c,d,e=s; h=[]
    for t in range(80):
        if t>=16: W.append(cut("word %d"%t,rol(W[t-3]^W[t-8]^W[t-14]^W[t-16],1)))
        if t<20: f=(b&(c^d))^d; k=0x5a827999
        elif t<40: f=b^c^d; k=0x6ed9eba1
        elif t<60: f=(b&c)|(b&d)|(c&d); k=0x8f1bbcdc
        else: f=b^c^d; k=0xca62c1d6
        f=cut("step %d function"%t,f); r5=cut("step %d rotation"%t,rol(a,5))
        x=r5+f+e+const(k,32)+W[t]; h.append(x); x=cut("step %d"%t,x)
        e,d,c,b,a=d,c,cut("step %d rotated b"%t,rol(b,30)),a,x
    return [x+y for x,y in zip(s,(h[79],h[78],c,d,e))]
root("block_hash::hash (SHA-1)")(hash_root(5,"sha1_hash",INIT,True)); root("sha1_hash::finalize")(fin_root(5,"sha1_hash",INIT,True)); root("sha1_hash::hash_block")(block_root(5,"sha1_hash",INIT,True,sha1))
