from fw import *
Z=const(0,64); ONE=const(1,64)
ABC="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
def char6(v,w=8):
    """RFC 4648 character of a 6-bit value (8-bit term < 64)"""
    r=Ite(ult(v,const(26,8)),v+65,Ite(ult(v,const(52,8)),v+71,Ite(ult(v,const(62,8)),v-4,Ite(eq(v,const(62,8)),const(43,8),const(47,8)))))
    return zext(r,w) if w>8 else r
def six(x):
    """value of a character: 0..63, 64 for '=', 255 outside the alphabet; x any width >= 8"""
    w=x.w; rng=lambda a,b: And(ule(const(ord(a),w),x),ule(x,const(ord(b),w))); lo=extract(x,7,0) if w>8 else x; is_=lambda a: eq(x,const(ord(a),w))
    return Ite(rng('A','Z'),lo-65,Ite(rng('a','z'),lo-71,Ite(rng('0','9'),lo+4,Ite(is_('+'),const(62,8),Ite(is_('/'),const(63,8),Ite(is_('='),const(64,8),const(255,8)))))))
def sext4(b0,b1,b2):
    """the four 6-bit groups of three bytes"""
    return (lshr(b0,const(2,8)),bvor(shl(b0&3,const(4,8)),lshr(b1,const(4,8))),bvor(shl(b1&15,const(2,8)),lshr(b2,const(6,8))),b2&63)
def bytes3(q0,q1,q2,q3):
    return (bvor(shl(q0,const(2,8)),lshr(q1,const(4,8))),bvor(shl(q1,const(4,8)),lshr(q2,const(2,8))),bvor(shl(q2,const(6,8)),q3))
