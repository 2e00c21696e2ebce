from fw import *
prop("C08",oracle="C08.cpp")
def go(fname,key,other,hint):
    def f(c):
        ex,st=c.ex,c.st; w=c.m.k("sz_m")//8; ko,oo=c.m.k("off_"+key)//8,c.m.k("off_"+other)//8
        n=c.size('n',1<<56); buf=c.arr('anchors',8,scale(n,w)); A=st.mem[buf.id][0]
        vec=P(c.cells('vec',24)); c.put(vec,8,P(buf)); e=P(buf,scale(n,8*w)); c.put(vec.plus(8),8,e); c.put(vec.plus(16),8,e)
        x=c.var('x'); L=c.var('L'); K=lambda i: A.sel(scale(i,w)+ko); O=lambda i: A.sel(scale(i,w)+oo)
        # precondition: keys strictly increasing. Ghost L = number of anchors not after x; facts about it are instantiated at every index the code reads.
        fact=lambda i: Implies(ult(i,n),And(Iff(ult(i,L),ule(K(i),x)),Implies(eq(K(i),x),eq(L,i+1))))
        c.assume(ule(L,n))
        def ax(s_,idx):
            i=exact_div(idx-ko,w)
            if i is None: i=exact_div(idx-oo,w)
            return fact(i) if i is not None else None
        ex.read_ax[buf.id]=[ax]
        c.assume(fact(L),fact(L-1),fact(const(0,64)))
        args=[vec,x]
        if hint:
            h0=c.var('hint'); hp=P(c.cells('hint',8)); c.put(hp,8,h0); c.assume(Or(eq(n,const(0,64)),ult(h0,n))); args.append(hp)
        c.loop(lambda s,l,r: [ule(l,L),ule(L,r),ule(r,n)]+([] if not hint else [ult(s.cell(hp.r,0),n)]),['l','r'],dec=lambda s,l,r: r-l,name="binary search")
        for k,y in c.call(fname,args):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            r=y.ghost['ret']; Z=const(0,64)
            c.post(y,"empty table: identity",Implies(eq(n,Z),eq(r,x)))
            c.post(y,"last anchor not after the position, shifted",Implies(ult(Z,L),eq(r,O(L-1)+(x-K(L-1)))))
            c.post(y,"before the first anchor: itself, capped at the first anchor",Implies(And(ult(Z,n),eq(L,Z)),eq(r,umin(x,O(Z)))))
            if hint: c.post(y,"hint stays a valid index",Implies(ult(Z,n),ult(ex.cell(y,hp.r,0,8),n)))
    return f
root("dst2src")(go("h_d2s","to","from",False)); root("src2dst")(go("h_s2d","from","to",False))
root("dst2src with hint")(go("h_d2s_hint","to","from",True)); root("src2dst with hint")(go("h_s2d_hint","from","to",True))
