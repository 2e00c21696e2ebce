from blockhash import *
prop("C11",oracle="C11.cpp")
INIT=[0x67452301,0xefcdab89,0x98badcfe,0x10325476]
SH=[[7,12,17,22],[5,9,14,20],[4,11,16,23],[6,10,15,21]]
def md5(cut,s,W):
    """RFC 1321, section 3.4; T[i] = floor(2^32 |sin(i)|)"""
    a,b,c,d=s
    for i in range(64):
        r=i//16
        if r==0: F=(b&c)|(~b&d); g=i
        elif r==1: F=(b&d)|(c&~d); g=(5*i+1)%16
        elif r==2: F=b^c^d; g=(3*i+5)%16
        else: F=c^(b|~d); g=7*i%16
        F=cut("step %d function"%(i+1),F)
        q=cut("step %d"%(i+1),rol(a+F+W[g]+const(int(abs(math.sin(i+1))*2**32),32),SH[r][i%4]))
        a,d,c,b=d,c,b,b+q
    return [x+y for x,y in zip(s,(a,b,c,d))]
root("block_hash::hash (MD5)")(hash_root(4,"md5_hash",INIT,False)); root("md5_hash::finalize")(fin_root(4,"md5_hash",INIT,False)); root("md5_hash::hash_block")(block_root(4,"md5_hash",INIT,False,md5))
