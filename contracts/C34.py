from fw import *
from texts import *
prop("C34",oracle="C34.cpp")
HX=lambda d: Ite(ult(d,const(10,d.w)),d+48,d+55)
def printf_model(c,rx,es):
    """snprintf/swprintf for formats made of literal characters and %0NX conversions of 32-bit arguments: exact C semantics as long as every value fits its N digits (an obligation)"""
    def f(ex,st,nm,a,I):
        dst,n,fmt=a[:3]; args=list(a[3:]); A,_=ex.arr(st,fmt.r); out=[]; i=0
        def ch(i): x=A.sel(const(i,64)); assert isc(x); return x.a[0] if not isinstance(x.a,int) else x.a
        while True:
            x=ch(i); i+=1
            if x==0: break
            if x!=ord('%'): out.append(const(x,8*es)); continue
            if ch(i)!=ord('0') or ch(i+2)!=ord('X'): raise Unsupported("conversion in a format")
            w=ch(i+1)-48; i+=3
            if not args: ex.check(st,"an argument for every conversion of the format",FALSE,kind='pre'); return None
            v=args.pop(0)
            if not hasattr(v,'w') or v.w!=32: ex.check(st,"the argument of %%0%dX is an unsigned int"%w,FALSE,kind='pre'); return const(0,32)
            if w<8: ex.check(st,"the value fits %d hexadecimal digits"%w,ult(v,const(1<<4*w,32)),kind='pre')
            for k in range(w-1,-1,-1): d=zext(extract(v,4*k+3,4*k),8*es); out.append(HX(d))
        ex.check(st,"the text fits the size given",ult(const(len(out),64),n),kind='pre')
        for k,x in enumerate(out+[const(0,8*es)]): ex.store_arr(st,dst.r,dst.off+k*es,es,x)
        return const(len(out),32)
    c.model(rx,f,"snprintf/swprintf write the text of literal characters and %0NX conversions of unsigned int values")
def fmt(t):
    es=WIDTH[t]
    @root("uuidtostr<%s>"%t)
    def f(c):
        s=c.arr('str',es,39); I=c.arr('id',1,16); B=c.st.mem[I.id][0]; b=lambda i: B.sel(const(i,64))
        printf_model(c,r'^s[nw]+printf$',es)
        order=[3,2,1,0,None,5,4,None,7,6,None,8,9,None]+list(range(10,16))
        want=[const(ord('{'),8*es)]
        for k in order:
            if k is None: want.append(const(ord('-'),8*es)); continue
            for d in (extract(b(k),7,4),extract(b(k),3,0)): want.append(HX(zext(d,8*es)))
        want+=[const(ord('}'),8*es),const(0,8*es)]
        for k,y in c.call("h_fmt_%s"%t,[P(s),P(I)]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            A,_=c.ex.arr(y,s)
            for i,x in enumerate(want): c.post(y,"character %d"%i,eq(A.sel(const(i,64)),x))
def parse(t):
    es=WIDTH[t]
    @root("strtouuid<%s>"%t,budget=500)
    def f(c):
        c.ex.merge=True
        n=c.size('count'); s=Text(c,'str',t,n); I=c.arr('id',1,16); at=s.__getitem__
        sp=lambda i: chars_(at(i))
        skip=lambda i: uf('skip',64,i)      # ghost: the first position from i on that is not white space
        ax=lambda i: [s.fact(i),ule(i,skip(i)),Implies(ult(i,s.E),ule(skip(i),s.E)),Implies(And(ult(i,s.E),sp(i)),eq(skip(i),skip(i+1))),Implies(Not(And(ult(i,s.E),sp(i))),eq(skip(i),i))]
        num=lambda i: uf('number',64,i*es); ln=lambda i: uf('number_length',64,i*es)
        ok=[]; facts=[]; pos=Z; nums=[]; starts=[]; pre=[]
        def name(t,n): g=c.var(n,t.w); facts.append(eq(g,t)); return g
        def sk(p): facts.extend(ax(p)); q=name(skip(p),'P%d'%len(facts)); facts.extend(ax(q)); return q
        def lit(p,ch): facts.append(s.fact(p)); return And(ult(p,s.E),eq(at(p),const(ord(ch),8*es)))
        pos=sk(pos)
        for g in range(5):
            ok.append(lit(pos,'{' if not g else '-')); pos=sk(pos+1); nums.append(name(num(pos),'N%d'%g)); l=name(ln(pos),'L%d'%g); facts.append(Implies(ule(pos,s.E),ule(l,s.E-pos)))
            starts.append(pos); pre.append((list(ok),list(facts),nums[-1],l)); ok.append(ule(nums[-1],const([0xffffffff,0xffff,0xffff,0xffff,0xffffffffffff][g],64))); pos=sk(pos+l)
        ok.append(lit(pos,'}')); pos=sk(pos+1); ok.append(eq(pos,s.E))
        def strto(ex,st,nm,a,I_):
            off=a[0].off; i=ex.divide(st,off,es,s.r) if es>1 else off; k=st.ghost.get('group',0); st.ghost['group']=k+1
            if k>4: ex.check(st,"reads five numbers",FALSE,kind='pre'); raise Unsupported("a sixth number")
            o,f,v,l=pre[k]
            for x in f[(len(pre[k-1][1]) if k else 0):]: st.assume(x)
            for n_,x in [("group %d is read from behind the separator and white space"%(k+1),eq(i,starts[k]))]+[("group %d is read only when the text before it has the form"%(k+1),x) for x in o[(len(pre[k-1][0]) if k else 0):]]: ex.check(st,n_,x,kind='pre'); st.assume(x)
            ex.check(st,"parses the caller's text from a position inside it, up to its limit, as hexadecimal",And(boolc(a[0].r is s.r),ule(i,s.E),eq(a[1],n-i),eq(a[3],const(16,32))),kind='pre')
            rawcell(ex,st,a[2],8,l); return v
        c.model(r'^unsigned long stdex::strtou64<\w+>\(\w+ const\*, unsigned long',strto,"contract of stdex::strtou64 (proved as C15): value and length are functions of the position, and parsing stops inside the text")
        c.loop(lambda v,i: [ule(i,s.E),ule(v.r0[0],i),eq(skip(i),skip(v.r0[0]))],['i'],name="skip space",dec=lambda v,i: s.E-i,assume=lambda v,i: ax(i)+ax(v.r0[0]),houdini=False)
        form=And(*ok); by=lambda v,k: extract(v,8*k+7,8*k)
        want=[by(nums[0],0),by(nums[0],1),by(nums[0],2),by(nums[0],3),by(nums[1],0),by(nums[1],1),by(nums[2],0),by(nums[2],1),by(nums[3],1),by(nums[3],0)]+[by(nums[4],k) for k in range(5,-1,-1)]
        for k,y in c.call("h_parse_%s"%t,[s.p,n,P(I)]):
            c.cover(y); c.post(y,"does not throw",boolc(k=='end'))
            if k!='end': continue
            for x in facts: y.assume(x)
            r=ne(y.ghost['ret'],const(0,y.ghost['ret'].w)) ; B,_=c.ex.arr(y,I)
            c.post(y,"accepts exactly the braced form of five numbers that fit their groups",Iff(r,form))
            for i,x in enumerate(want): c.post(y,"byte %d"%i,Implies(r,eq(B.sel(const(i,64)),x)))
def chars_(x): return Or(*[eq(x,const(ord(ch),x.w)) for ch in " \t\n\r\v\f"])
for t in 'cw': fmt(t)
for t in 'cwh': parse(t)
def roundtrip(t):
    es=WIDTH[t]
    @root("strtouuid<%s>(uuidtostr<%s>(id)) is id"%(t,t),budget=500)
    def f(c):
        c.ex.merge=True
        s=c.arr('str',es,39); I=c.arr('id',1,16); O=c.arr('out',1,16); B=c.st.mem[I.id][0]; b=lambda i: B.sel(const(i,64))
        printf_model(c,r'^s[nw]+printf$',es)
        ends={1:9,10:14,15:19,20:24,25:37}
        def strto(ex,st,nm,a,I_):
            off=a[0].off; A,_=ex.arr(st,s)
            for p,e in ends.items():
                if ex.valid(st.pcs(),eq(off,const(p*es,64)),3000)[0]: break
            else: raise Unsupported("number read from an unexpected position")
            ex.check(st,"limit and radix",And(ule(a[1],const(39-p,64)),ult(const(e-p,64),a[1]),eq(a[3],const(16,32))),kind='pre')
            v=const(0,64)
            def hx(x):  # the digit run is exactly p..e: instance of the C15 contract on this text
                x=zext(x,64); d=And(ule(const(48,64),x),ule(x,const(57,64))); u=And(ule(const(65,64),x),ule(x,const(70,64))); return Or(d,u),Ite(d,x-48,x-55)
            for k in range(p,e): ok,d=hx(A.sel(const(k,64))); ex.check(st,"position %d holds a hexadecimal digit"%k,ok,kind='pre'); v=shl(v,const(4,64))|d
            z=A.sel(const(e,64)); ex.check(st,"the digits end at %d"%e,Or(eq(z,const(ord('-'),z.w)),eq(z,const(ord('}'),z.w))),kind='pre')
            x0=A.sel(const(p+1,64)); rawcell(ex,st,a[2],8,const(e-p,64)); return v
        c.model(r'^unsigned long stdex::strtou64<\w+>\(\w+ const\*, unsigned long',strto,"contract of stdex::strtou64 (proved as C15) on a text of hexadecimal digits")
        c.loop(lambda v,i: [eq(i,v.r0[0])],['i'],name="no space",houdini=False)
        for k,y in c.call("h_fmt_%s"%t,[P(s),P(I)]):
            for k2,y2 in c.call("h_parse_%s"%t,[P(s),const(39,64),P(O)],st=y):
                c.cover(y2); c.post(y2,"accepts",And(boolc(k2=='end'),ne(y2.ghost['ret'],const(0,y2.ghost['ret'].w)))); C,_=c.ex.arr(y2,O)
                for i in range(16): c.post(y2,"byte %d"%i,eq(C.sel(const(i,64)),b(i)))
for t in 'cw': roundtrip(t)
