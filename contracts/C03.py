from fw import *
from b64 import *
prop("C03",oracle="C03.cpp")
K,J=var('K',64),var('J',64)
def enc(fname,es):
    def f(c):
        ex,st=c.ex,c.st; w=8*es; ob,on=c.m.k("off_ebuf"),c.m.k("off_enum")
        size=c.size('size'); data=c.arr('data',1,size); D=st.mem[data.id][0]
        this=P(c.cells('this',c.m.k("sz_enc"))); bf=[c.var('buf%d'%i,8) for i in range(3)]; p=c.var('num0'); c.assume(ule(p,const(2,64)))  # session invariant: at most two pending bytes
        for i in range(3): c.put(this.plus(ob+i),1,bf[i])
        c.put(this.plus(on),8,p)
        out=new_string(ex,st,'out',es); buf,n0=str_parts(ex,st,out); A0=st.mem[buf.id][0]; last=c.var('is_last',1)
        # ghost: the concatenation of the pending bytes and the data in groups of three: g(i) complete groups, r(i) left over before data[i], B(t,j) byte t of group j
        g=lambda i: uf('grp',64,i); r=lambda i: uf('rem',64,i); B=lambda t,j: uf('B%d'%t,8,j)
        c.assume(eq(g(Z),Z),eq(r(Z),p),*[Implies(ult(const(t,64),p),eq(B(t,Z),bf[t])) for t in range(2)])
        def step(i): return And(eq(r(i+1),Ite(eq(r(i),const(2,64)),Z,r(i)+1)),eq(g(i+1),Ite(eq(r(i),const(2,64)),g(i)+1,g(i))),ult(r(i),const(3,64)),ule(g(i),i+2),*[Implies(eq(r(i),const(t,64)),eq(B(t,g(i)),D.sel(i))) for t in range(3)])
        def chars(A,at,j,n=3):
            q=sext4(B(0,j),B(1,j) if n>1 else const(0,8),B(2,j) if n>2 else const(0,8))
            return And(*[eq(A.sel(at+t),char6(q[t],w) if t<=n else const(61,w)) for t in range(4)])
        def state(s):
            b,n=str_parts(ex,s,out); return s.mem[b.id][0],n,ex.cell(s,this.r,on,8),[ex.cell(s,this.r,ob+t,1) for t in range(3)]
        def spec(s,i):
            A,ln,n,bb=state(s); three=eq(n,const(3,64)); m=Ite(three,g(i)-1,g(i)); rr=Ite(three,const(3,64),r(i))
            return [eq(ln,n0+scale(m,4)),eq(n,rr),ule(n,const(3,64)),Implies(three,And(eq(r(i),Z),ult(Z,g(i)))),Implies(ult(K,m),chars(A,n0+scale(K,4),K)),Implies(ult(J,n0),eq(A.sel(J),A0.sel(J)))]+[Implies(ult(const(t,64),n),eq(bb[t],B(t,m))) for t in range(3)]
        c.loop(lambda s,i: [ule(i,size),ule(g(i),i+2)]+spec(s.st,i),['i'],name="encode loop",assume=lambda s,i:[Implies(ult(i,size),step(i))],dec=lambda s,i: size+1-i)
        for k,y in c.call(fname,[this,out,P(data),size,last]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            A,ln,n,bb=state(y); m=g(size); rr=r(size); L1=eq(last,const(1,1)); pad=And(L1,ne(rr,Z))
            c.post(y,"four characters per complete group of three bytes, plus one padded group at the end",eq(ln,n0+scale(Ite(pad,m+1,m),4)))
            c.post(y,"characters of every complete group per RFC 4648",Implies(ult(K,m),chars(A,n0+scale(K,4),K)))
            c.post(y,"one byte left at the end: two characters and ==",Implies(And(pad,eq(rr,ONE)),chars(A,n0+scale(m,4),m,1)))
            c.post(y,"two bytes left at the end: three characters and =",Implies(And(pad,eq(rr,const(2,64))),chars(A,n0+scale(m,4),m,2)))
            c.post(y,"earlier output kept",Implies(ult(J,n0),eq(A.sel(J),A0.sel(J))))
            c.post(y,"incomplete group kept for the next call, nothing after the last",eq(n,Ite(L1,Z,rr)))
            for t in range(2): c.post(y,"kept bytes",Implies(And(Not(L1),ult(const(t,64),rr)),eq(bb[t],B(t,m))))
    return f
root("base64_enc::encode<char>")(enc("h_enc8",1)); root("base64_enc::encode<wchar_t>")(enc("h_encw",4))
def dec(fname,es):
    def f(c):
        ex,st=c.ex,c.st; w=8*es; ob,on=c.m.k("off_dbuf"),c.m.k("off_dnum")
        size=c.size('size'); data=c.arr('data',es,size); D=st.mem[data.id][0]
        this=P(c.cells('this',c.m.k("sz_dec"))); bf=[c.var('buf%d'%i,8) for i in range(4)]; p=c.var('num0'); c.assume(ule(p,const(3,64)))
        for i in range(4): c.put(this.plus(ob+i),1,bf[i]); c.assume(ule(bf[i],const(64,8)))
        c.put(this.plus(on),8,p)
        out=new_vector(ex,st,'out',1); vb,n0=vec_parts(ex,st,out,1); A0=st.mem[vb.id][0]; last=P(c.cells('last',1)); c.put(last,1,c.var('last0',8))
        L=c.var('L'); c.assume(ule(L,size),Implies(ult(L,size),eq(D.sel(L),const(0,w))))
        # ghost: alphabet characters (and =) of pending + text in groups of four: g(i),r(i) as in the encoder, q(t,j) value of character t of group j; F = first group with padding (all ones: none)
        g=lambda i: uf('grp',64,i); r=lambda i: uf('rem',64,i); q=lambda t,j: uf('q%d'%t,8,j); F=c.var('F'); c64_=const(64,8)
        c.assume(eq(g(Z),Z),eq(r(Z),p),*[Implies(ult(const(t,64),p),eq(q(t,Z),bf[t])) for t in range(3)])
        padded=lambda j: Or(ule(c64_,q(2,j)),ule(c64_,q(3,j)))
        ffact=lambda j: And(Implies(ult(j,F),Not(padded(j))),Implies(eq(j,F),padded(j)))
        def step(i):
            v=six(D.sel(i)); a=ne(v,const(255,8)); full=And(a,eq(r(i),const(3,64)))
            return And(ne(D.sel(i),const(0,w)),ult(r(i),const(4,64)),eq(r(i+1),Ite(a,Ite(full,Z,r(i)+1),r(i))),eq(g(i+1),Ite(full,g(i)+1,g(i))),ule(g(i),i+3),*[Implies(And(a,eq(r(i),const(t,64))),eq(q(t,g(i)),v)) for t in range(4)])
        def state(s):
            v2,ln=vec_parts(ex,s,out,1); return s.mem[v2.id][0],ln,ex.cell(s,this.r,on,8),[ex.cell(s,this.r,ob+t,1) for t in range(4)],ex.cell(s,last.r,0,1)
        wf=lambda j: And(ult(q(0,j),c64_),ult(q(1,j),c64_))         # well-formed group: padding only in the last two places
        def byt(A,at,j,n=3):
            b=bytes3(*[q(t,j) for t in range(4)]); return Implies(wf(j),And(*[eq(A.sel(at+t),b[t]) for t in range(n)]))
        def spec(s,i):
            A,ln,n,bb,l=state(s); four=eq(n,const(4,64)); m=Ite(four,g(i)-1,g(i)); rr=Ite(four,const(4,64),r(i))
            return [eq(ln,n0+scale(m,3)),eq(n,rr),ule(n,const(4,64)),Implies(four,And(eq(r(i),Z),ult(Z,g(i)))),ule(m,F),Implies(ult(K,m),byt(A,n0+scale(K,3),K)),Implies(ult(J,n0),eq(A.sel(J),A0.sel(J))),eq(l,const(0,8))]+[Implies(ult(const(t,64),n),And(eq(bb[t],q(t,m)),ule(bb[t],c64_))) for t in range(4)]
        c.loop(lambda s,i: [ule(i,L)]+[eq(x,y) for x,y in zip([state(s.st)[2],state(s.st)[4]]+state(s.st)[3],[p,const(0,8)]+bf)],['k'],name="trim loop",assume=lambda s,i:[Implies(ult(i,L),ne(D.sel(i),const(0,w)))],dec=lambda s,i: size-i)
        c.loop(lambda s,i: [ule(i,L),ule(g(i),i+3)]+spec(s.st,i),['i'],name="decode loop",assume=lambda s,i:[Implies(ult(i,L),step(i)),ule(g(i),g(L)),ffact(g(i)-1)],dec=lambda s,i: size+1-i)
        for k,y in c.call(fname,[this,out,last,P(data),size]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            A,ln,n,bb,l=state(y); m=g(L); fin=ult(F,m); two=ult(q(2,F),c64_)
            c.post(y,"reports the end exactly when a padded group was completed",Iff(ne(l,const(0,8)),fin))
            c.post(y,"three bytes per group, one or two for the padded one",eq(ln,Ite(fin,n0+scale(F,3)+Ite(two,const(2,64),ONE),n0+scale(m,3))))
            c.post(y,"bytes of every group per RFC 4648",Implies(And(ult(K,m),ult(K,F)),byt(A,n0+scale(K,3),K)))
            c.post(y,"bytes of the padded group",Implies(fin,And(byt(A,n0+scale(F,3),F,1),Implies(two,byt(A,n0+scale(F,3),F,2)))))
            c.post(y,"earlier output kept",Implies(ult(J,n0),eq(A.sel(J),A0.sel(J))))
            c.post(y,"incomplete group kept for the next call",eq(n,Ite(fin,Z,r(L))))
            for t in range(3): c.post(y,"kept characters",Implies(And(Not(fin),ult(const(t,64),r(L))),eq(bb[t],q(t,m))))
    return f
root("base64_dec::decode<char>",budget=400)(dec("h_dec8",1)); root("base64_dec::decode<wchar_t>",budget=400)(dec("h_decw",4))
@root("sessions, sizes and round trip")
def sess(c):
    for fn,on,sz in (("h_ector","off_enum","sz_enc"),("h_eclear","off_enum","sz_enc"),("h_dctor","off_dnum","sz_dec"),("h_dclear","off_dnum","sz_dec")):
        this=P(c.cells('this',c.m.k(sz))); c.put(this.plus(c.m.k(on)),8,c.var('n0'))
        if 'clear' in fn:
            for i in range(3 if 'e' in fn[2] else 4): c.put(this.plus(c.m.k(on.replace('num','buf'))+i),1,c.var('b%d'%i,8))
        for k,y in c.call(fn,[this]): c.cover(y); c.post(y,fn+" leaves nothing pending",And(boolc(k=='end'),eq(c.ex.cell(y,this.r,c.m.k(on),8),Z)))
    # lemma: a group of three bytes survives encoding and decoding, for each amount of padding
    b=[c.var('b%d'%i,8) for i in range(3)]
    for n in (1,2,3):
        x=sext4(b[0],b[1] if n>1 else const(0,8),b[2] if n>2 else const(0,8)); d=[six(char6(v)) for v in x]; d=[d[t] if t<=n else const(64,8) for t in range(4)]
        r=bytes3(*d); c.post(c.st,"decode(encode(group of %d bytes)) is the group"%n,And(*[eq(r[t],b[t]) for t in range(n)]))
