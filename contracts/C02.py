from fw import *
prop("C02",oracle="C02.cpp")
def enc(fname,es):
    def f(c):
        ex,st=c.ex,c.st
        size=c.size('size'); data=c.arr('data',1,size)
        this=P(c.cells('this',1)); out=new_string(ex,st,'out',es)
        buf,n0=str_parts(ex,st,out); A0=st.mem[buf.id][0]; D=st.mem[data.id][0]
        K,J=c.var('K'),c.var('J'); w=8*es
        digit=lambda x: zext(Ite(ult(x,const(10,8)),x+48,x+55),w)
        def spec(A,i):
            x=D.sel(K)
            return [Implies(ult(K,i),And(eq(A.sel(n0+2*K),digit(lshr(x,const(4,8)))),eq(A.sel(n0+2*K+1),digit(x&15)))), Implies(ult(J,n0),eq(A.sel(J),A0.sel(J)))]
        def inv(s,i):
            b,n=str_parts(ex,s.st,out)
            return [ule(i,size),eq(n,n0+2*i)]+spec(s.arr(b),i)
        c.loop(inv,['i'],dec=lambda s,i: size-i,name="encode loop")
        for k,y in c.call(fname,[this,out,P(data),size]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            b,n=str_parts(ex,y,out); sp=spec(y.mem[b.id][0],size)
            c.post(y,"appends two digits per byte",eq(n,n0+2*size))
            c.post(y,"digits of every byte, high nibble first, upper case",sp[0])
            c.post(y,"earlier output kept",sp[1])
    return f
root("hex_enc::encode<char>")(enc("h_enc8",1))
root("hex_enc::encode<wchar_t>")(enc("h_encw",4))
def dec(fname,es):
    def f(c):
        ex,st=c.ex,c.st; w=8*es
        ob,on=c.m.k("off_buf"),c.m.k("off_num")
        size=c.size('size'); data=c.arr('data',es,size); D=st.mem[data.id][0]
        this=P(c.cells('this',c.m.k("sz_dec"))); b0,p=c.var('buf0',8),c.var('num0')
        c.put(this.plus(ob),1,b0); c.put(this.plus(on),8,p)
        c.assume(ule(p,const(1,64)))                       # session invariant: at most one pending half byte
        out=new_vector(ex,st,'out',1); vb,n0=vec_parts(ex,st,out,1); A0=st.mem[vb.id][0]
        last=P(c.cells('last',1)); c.put(last,1,c.var('last0',8))
        # ghost: L = index of the first terminator (or size); nb(i)/par(i) = complete bytes / odd digit among the digits of [0,i) and the pending one; hi(j),lo(j) = nibbles of the j-th byte
        L=c.var('L'); K,J=c.var('K'),c.var('J')
        c.assume(ule(L,size),Implies(ult(L,size),eq(D.sel(L),const(0,w))))
        nb=lambda i: uf('nb',64,i); par=lambda i: uf('par',1,i); hi=lambda j: uf('hi',4,j); lo=lambda j: uf('lo',4,j)
        rng=lambda x,a,b: And(ule(const(ord(a),w),x),ule(x,const(ord(b),w)))
        isd=lambda x: Or(rng(x,'0','9'),rng(x,'A','F'),rng(x,'a','f'))
        dv=lambda x: extract(Ite(rng(x,'0','9'),x-ord('0'),Ite(rng(x,'A','F'),x-(ord('A')-10),x-(ord('a')-10))),3,0)
        one=const(1,1); Z=const(0,64)
        c.assume(eq(nb(Z),Z),eq(par(Z),extract(p,0,0)),Implies(eq(p,const(1,64)),eq(hi(Z),extract(b0,3,0))))
        def step(i):
            x=D.sel(i); g=isd(x); P1=eq(par(i),one)
            return And(eq(par(i+1),Ite(g,bvxor(par(i),one),par(i))),eq(nb(i+1),Ite(And(g,P1),nb(i)+1,nb(i))),Implies(And(g,Not(P1)),eq(hi(nb(i)),dv(x))),Implies(And(g,P1),eq(lo(nb(i)),dv(x))),ule(nb(i),i),ule(nb(i+1),i+1),ne(x,const(0,w)))
        def state(st): 
            b=ex.cell(st,this.r,ob,1); n=ex.cell(st,this.r,on,8); vb2,ln=vec_parts(ex,st,out,1); return b,n,st.mem[vb2.id][0],ln
        def spec(st,i,mx):
            b,n,A,ln=state(st); t=nb(i); two=eq(n,const(2,64)); m=Ite(two,t-1,t)
            return [eq(ln,n0+m),ule(n,const(mx,64)),eq(par(i),extract(n,0,0)),Implies(two,ult(Z,t)),
              Implies(ult(K,m),eq(A.sel(n0+K),concat(hi(K),lo(K)))), Implies(ult(J,n0),eq(A.sel(J),A0.sel(J))),
              Implies(eq(n,const(1,64)),eq(extract(b,3,0),hi(t))),Implies(two,eq(b,concat(hi(t-1),lo(t-1))))]+([Iff(two,And(ult(Z,i),isd(D.sel(i-1)),eq(par(i),const(0,1))))] if mx==2 else [])
        # trim loop
        c.loop(lambda s,i: [ule(i,L)]+[eq(x,y) for x,y in zip(state(s.st)[:2],(b0,p))],['k'],name="trim loop",assume=lambda s,i:[Implies(ult(i,L),ne(D.sel(i),const(0,w)))],
               dec=lambda s,i: size-i,when=lambda v: not v.st.ghost.get('t'))
        def inv(s,i):
            return [ule(i,L)]+spec(s.st,i,2)
        c.loop(inv,['i'],name="decode loop",assume=lambda s,i:[Implies(ult(i,L),step(i)),Implies(ult(const(0,64),i),And(step(i-1)))],dec=lambda s,i: size+1-i)
        for k,y in c.call(fname,[this,out,last,P(data),size]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            sp=spec(y,L,1)
            for nm,g in zip(["one byte per two digits","at most a half byte pending","a half byte is pending iff the digit count is odd","","every output byte is its two digits, high nibble first","earlier output kept","pending half byte kept",""],sp): 
                if nm: c.post(y,nm,g)
            l=ex.cell(y,last.r,0,1)
            c.post(y,"is_last iff the final character completed a byte",Iff(ne(l,const(0,8)),And(ult(const(0,64),L),isd(D.sel(L-1)),eq(par(L),const(0,1)))))
    return f
root("hex_dec::decode<char>")(dec("h_dec8",1))
root("hex_dec::decode<wchar_t>")(dec("h_decw",4))
@root("hex_dec session")
def sess(c):
    on=c.m.k("off_num")
    for fn in ("h_ctor","h_clear"):
        this=P(c.cells('this',c.m.k("sz_dec"))); c.put(this.plus(on),8,c.var('n0'))
        for k,y in c.call(fn,[this]):
            c.cover(y); c.post(y,fn+" leaves no pending half byte",And(boolc(k=='end'),eq(c.ex.cell(y,this.r,on,8),const(0,64))))
