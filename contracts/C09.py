from fw import *
prop("C09",oracle="C09.cpp",oracle_time=(4,30))
def go(n,w,sg):
    B=w//8; le=(sle if sg else ule); lt=(slt if sg else ult)
    def mk(c,nm):
        p=P(c.cells(nm,c.m.k("sz_"+n))); a,b=c.var(nm+'.start',w),c.var(nm+'.end',w)
        c.put(p.plus(c.m.k("off_s_"+n)),B,a); c.put(p.plus(c.m.k("off_e_"+n)),B,b); return p,a,b
    def rd(c,y,p): return c.ex.load_raw(y,p.plus(c.m.k("off_s_"+n)),B),c.ex.load_raw(y,p.plus(c.m.k("off_e_"+n)),B)
    def each(c,f,args):
        for k,y in c.call("h_%s_%s"%(n,f),args):
            c.cover(y); c.post(y,f+" does not throw",boolc(k=='end')); yield y
    def tb(v): return v if v.w==0 else ne(v,const(0,v.w))
    @root("queries "+n)
    def queries(c):
        p,a,b=mk(c,'a'); x=c.var('x',w)
        for y in each(c,'size',[p]): c.post(y,"size is end-start, 0 when invalid",eq(y.ghost['ret'],Ite(le(a,b),b-a,const(0,w))))
        for y in each(c,'empty',[p]): c.post(y,"empty iff no x with start<=x<end",Iff(tb(y.ghost['ret']),Not(lt(a,b))))
        for y in each(c,'valid',[p]): c.post(y,"valid iff start<=end",Iff(tb(y.ghost['ret']),le(a,b)))
        for y in each(c,'contains',[p,x]): c.post(y,"contains iff start<=x<end",Iff(tb(y.ghost['ret']),And(le(a,x),lt(x,b))))
        q,d,e=mk(c,'b')
        for y in each(c,'eq',[p,q]): c.post(y,"equal iff both ends equal",Iff(tb(y.ghost['ret']),And(eq(a,d),eq(b,e))))
        for y in each(c,'ne',[p,q]): c.post(y,"!= is the negation",Iff(tb(y.ghost['ret']),Not(And(eq(a,d),eq(b,e)))))
    @root("construction "+n)
    def cons(c):
        p,a,b=mk(c,'a'); x,z=c.var('x',w),c.var('z',w)
        for f in ('ctor0','inval'):
            for y in each(c,f,[p]):
                s,e=rd(c,y,p); c.post(y,f+": invalid (start>end)",lt(e,s))
        for y in each(c,'ctor1',[p,x]):
            s,e=rd(c,y,p); c.post(y,"interval(x) is [x,x)",And(eq(s,x),eq(e,x)))
        for y in each(c,'ctor2',[p,x,z]):
            s,e=rd(c,y,p); c.post(y,"interval(a,b) is [a,b)",And(eq(s,x),eq(e,z)))
    @root("arithmetic "+n)
    def arith(c):
        p,a,b=mk(c,'a'); q,d,e=mk(c,'b'); r,_,_=mk(c,'r'); x=c.var('x',w); one=const(1,w)
        for f,args,res,fin in [('addi',[r,p,q],(a+d,b+e),(a,b)),('subi',[r,p,q],(a-d,b-e),(a,b)),('addx',[r,p,x],(a+x,b+x),(a,b)),('subx',[r,p,x],(a-x,b-x),(a,b)),
                      ('addas',[r,p,x],(a+x,b+x),(a+x,b+x)),('subas',[r,p,x],(a-x,b-x),(a-x,b-x)),('preinc',[r,p],(a+one,b+one),(a+one,b+one)),('predec',[r,p],(a-one,b-one),(a-one,b-one)),
                      ('postinc',[r,p],(a,b),(a+one,b+one)),('postdec',[r,p],(a,b),(a-one,b-one))]:
            for y in each(c,f,args):
                s,t=rd(c,y,r); c.post(y,f+": result",And(eq(s,res[0]),eq(t,res[1])))
                s,t=rd(c,y,p); c.post(y,f+": operand afterwards",And(eq(s,fin[0]),eq(t,fin[1])))
for n,w,sg in [("u64",64,0),("s64",64,1),("s32",32,1),("u16",16,0)]: go(n,w,sg)
