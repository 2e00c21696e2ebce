"""Assumed contracts on libstdc++ / libc / compiler intrinsics (the trusted base; listed in the evidence)."""
import re
from terms import *
from mem import *
from exec import *
import llir

MODELS=[]
USED=set()
def model(*pats,desc=None):
    def d(f):
        for p in pats:
            rx=re.compile(p)
            def h(ex,st,name,args,I,f=f,p=p):
                ex.assumed.add(desc or f.__doc__ or f.__name__)
                return f(ex,st,name,args,I)
            MODELS.append((rx,h))
        return f
    return d
def c64(v): return const(v,64)
MAXLEN=c64(1<<60)

# ---- C++ runtime -----------------------------------------------------------
@model(r'^__cxa_allocate_exception$')
def cxa_alloc(ex,st,name,args,I):
    "__cxa_allocate_exception: fresh object"
    r=ex.new_cells(st,"exc",None); return P(r)
@model(r'^__cxa_free_exception$',r'^__cxa_end_catch$',r'^__cxa_guard_abort$',r'^__cxa_atexit$')
def cxa_free(ex,st,name,args,I):
    "exception bookkeeping has no other effect"
    return const(0,32) if I.ty.k=='int' else None
@model(r'^__cxa_begin_catch$')
def cxa_begin(ex,st,name,args,I):
    "__cxa_begin_catch returns the thrown object"
    st.ghost['caught']=st.exc
    return args[0]
@model(r'^__cxa_throw$')
def cxa_throw(ex,st,name,args,I):
    "__cxa_throw unwinds with the given type"
    ti=I.ops[1]
    return [('throw',st,(ti.name if isinstance(ti,GRef) else '?',args[0]))]
@model(r'^__cxa_rethrow$')
def cxa_rethrow(ex,st,name,args,I):
    "__cxa_rethrow unwinds with the current exception"
    return [('throw',st,st.ghost.get('caught') or st.exc)]
@model(r'^__clang_call_terminate$',r'^std::terminate\(\)$',r'^abort$',r'^__cxa_pure_virtual$',r'^std::__glibcxx_assert_fail',r'^llvm\.trap$')
def terminate(ex,st,name,args,I):
    "terminate"
    ex.check(st,"std::terminate not reached",FALSE,kind="terminate"); return []
@model(r'^llvm\.eh\.typeid\.for')
def ehtypeid(ex,st,name,args,I):
    "typeid"
    o=I.ops[0]; return const(ex.typeid(o.name if isinstance(o,GRef) else None),32)
def _throws(ti):
    def f(ex,st,name,args,I):
        return [('throw',st,(ti,None))]
    f.__doc__="std::__throw_* throws"
    return f
for n,ti in [('length_error','St12length_error'),('out_of_range(_fmt)?','St12out_of_range'),('logic_error','St11logic_error'),('bad_alloc','St9bad_alloc'),('invalid_argument','St16invalid_argument'),('bad_cast','St8bad_cast'),('bad_array_new_length','St20bad_array_new_length'),('system_error','St12system_error'),('bad_function_call','St17bad_function_call')]:
    model(r'^std::__throw_%s\('%n)(_throws('_ZTI'+ti))
@model(r'^std::(\w*_error|invalid_argument|out_of_range|exception|bad_alloc|error_code|error_condition)::~?\w+\(',r'^std::system_error::system_error')
def exc_ctor(ex,st,name,args,I):
    "exception object construction/destruction has no effect on program state and does not throw"
    return None
@model(r'^std::(_V2::)?(system|generic)_category')
def syscat(ex,st,name,args,I):
    "error categories are constant objects"
    return P(Region("category",'undef'))
# ---- allocation ------------------------------------------------------------
@model(r'^operator new(\[\])?\(unsigned long\)$',r'^malloc$')
def op_new(ex,st,name,args,I):
    "operator new returns fresh disjoint storage of the requested size (bad_alloc not modelled)"
    n=args[0]
    while n.op=='ite':
        if not ex.feasible(st,n.a[0]): n=n.a[2]
        elif not ex.feasible(st,Not(n.a[0])): n=n.a[1]
        else: break
    h=ex.new_hook(ex,st,n,I) if ex.new_hook else None
    if h is not None: return h
    if isc(n) and val(n)<=256 and not ex.new_as_array:
        r=ex.new_cells(st,"heap",val(n)); return P(r)
    es=ex.new_esize
    q=exact_div(n,es)
    r=ex.new_arr(st,"heap",es,q if q is not None else udiv(n,c64(es)))
    return P(r)
@model(r'^operator delete(\[\])?\(',r'^free$')
def op_delete(ex,st,name,args,I):
    "operator delete ends the lifetime of the storage"
    if isinstance(args[0],P) and args[0].r is not None:
        ex.check(st,"delete of live storage start",boolc(args[0].r.id not in st.freed) if args[0].off.op=='c' else TRUE,kind='bounds')
        if ex.free_hook: ex.free_hook(ex,st,args[0])
        st.freed=st.freed|{args[0].r.id}
        ex.wlog(st,('ghost','freed'))
    return None
Ex.new_hook=None; Ex.free_hook=None; Ex.new_as_array=False; Ex.new_esize=1
# ---- memory intrinsics -----------------------------------------------------
def elems(ex,st,p,n):
    """(region, elem index, count) for a byte range"""
    r,off=ex.resolve(p)
    if r is None: return None
    e=r.esize
    i=exact_div(off,e); k=exact_div(n,e)
    return r,i,k
def mem_copy(ex,st,d,s,n):
    if isc(n) and val(n)==0: return
    if isc(n) and (d.r is None or s.r is None):
        ex.check(st,"memcpy with null pointer",FALSE,kind='bounds'); return
    if d.r is None or s.r is None:
        ex.check(st,"memcpy with null pointer only for zero length",eq(n,c64(0)),kind='bounds'); return
    for p in (d,s):
        if p.r.id in st.freed: ex.check(st,"memcpy of freed %s"%p.r.name,FALSE,kind='bounds')
    rd,od=ex.resolve(d); rs,os_=ex.resolve(s)
    if rs.kind=='custom' and hasattr(rs.info,'source') and rd.kind=='arr' and rd.esize==1:
        B,j=rs.info.source(ex,st,os_,n); A,La=st.mem[rd.id]; ex.check(st,"memcpy destination in bounds of %s"%rd.name,Or(eq(n,c64(0)),And(ule(od,La),ule(n,La-od))),kind='bounds'); ex.setarr(st,rd,A.copy(od,n,B,j)); return
    if rd.kind=='custom' or rs.kind=='custom': raise Unsupported("memcpy on custom region")
    if (rd.kind=='cells' or rs.kind=='cells'):
        if not isc(n): raise Unsupported("symbolic-length memcpy on object cells")
        N=val(n)
        if rd.kind=='cells' and rs.kind=='cells' and isc(od) and isc(os_):
            src=st.mem[rs.id]; a=val(os_); b=val(od)
            items=[(o,c) for o,c in src.items() if o>=a and o+c[0]<=a+N]
            for o,(sz,v) in items: ex.store_cells(st,rd,b+o-a,sz,v)
            for ks in rs.kids:
                if a<=ks[0] and ks[1]<=a+N:
                    for kd in rd.kids:
                        if kd[0]-b==ks[0]-a: ex.setarr(st,kd[2],*st.mem[ks[2].id][:1])
            return
        bts=[]
        for k in range(N):
            bts.append(ex.load_raw(st,s.plus(k),1))
        t1=llir.Ty('int'); t1.w=8; t1.size=1
        for k,v in enumerate(bts): ex.store(st,d.plus(k),v,t1)
        return
    ed,es=rd.esize,rs.esize
    if ed!=es:
        if isc(n):
            N=val(n); e=min(ed,es)
            if N<=256:
                vs=[ex.load_raw(st,s.plus(k),1) for k in range(N)]
                t1=llir.Ty('int'); t1.w=8; t1.size=1
                if ed>1 and N%ed==0 and exact_div(d.off,ed) is not None:
                    t=llir.Ty('int'); t.w=8*ed; t.size=ed
                    for k in range(0,N,ed): ex.store(st,d.plus(k),concat(*reversed(vs[k:k+ed])),t)
                else:
                    for k,v in enumerate(vs): ex.store(st,d.plus(k),v,t1)
                return
        if ed==1 and es in(2,4,8) and exact_div(os_,es) is not None and exact_div(n,es) is not None:     # wide elements into bytes, little endian
            j=exact_div(os_,es); k=exact_div(n,es); A,La=st.mem[rd.id]; B,Lb=st.mem[rs.id]; sh={2:1,4:2,8:3}[es]
            ex.check(st,"memcpy source in bounds of %s"%rs.name,Or(eq(k,c64(0)),And(ule(j,Lb),ule(k,Lb-j))),kind='bounds')
            ex.check(st,"memcpy destination in bounds of %s"%rd.name,Or(eq(n,c64(0)),And(ule(od,La),ule(n,La-od))),kind='bounds')
            if rd.info=='const': ex.check(st,"memcpy into constant",FALSE,kind='bounds')
            def byte(q):
                v=B.sel(j+lshr(q,c64(sh))); r=extract(v,7,0)
                for t in range(1,es): r=Ite(eq(q&(es-1),c64(t)),extract(v,8*t+7,8*t),r)
                return r
            ex.setarr(st,rd,A.copy(od,n,SArr.fn(byte,8),c64(0))); return
        raise Unsupported("memcpy between element sizes %d/%d"%(ed,es))
    i=exact_div(od,ed); j=exact_div(os_,es); k=exact_div(n,ed)
    if i is None: i=ex.divide(st,od,ed,rd)
    if j is None: j=ex.divide(st,os_,es,rs)
    if k is None: k=ex.divide(st,n,ed,rd)
    A,La=st.mem[rd.id]; B,Lb=st.mem[rs.id]
    ex.check(st,"memcpy source in bounds of %s"%rs.name,Or(eq(k,c64(0)),And(ule(j,Lb),ule(k,Lb-j))),kind='bounds')
    ex.check(st,"memcpy destination in bounds of %s"%rd.name,Or(eq(k,c64(0)),And(ule(i,La),ule(k,La-i))),kind='bounds')
    if rd.info=='const': ex.check(st,"memcpy into constant",FALSE,kind='bounds')
    ex.setarr(st,rd,A.copy(i,k,B,j))
def mem_set(ex,st,d,v,n):
    if isc(n) and val(n)==0: return
    if d.r is None:
        ex.check(st,"memset null",eq(n,c64(0)),kind='bounds'); return
    rd,od=ex.resolve(d)
    b=extract(v,7,0)
    if rd.kind=='cells':
        if not isc(n) or not isc(od): raise Unsupported("symbolic memset of cells")
        N=val(n); o=val(od)
        done=set()
        if isc(b) and val(b)==0:
            for k in sorted(st.mem[rd.id]):
                sz,x=st.mem[rd.id][k]
                if o<=k and k+sz<=o+N:
                    ex.store_cells(st,rd,k,sz,NULL if not isinstance(x,T) else const(0,8*sz)); done.update(range(k,k+sz))
        for a_,b_,k_ in rd.kids:
            if o<=a_ and b_<=o+N:
                kb=concat(*[b]*k_.esize)
                ex.setarr(st,k_,SArr.fn(lambda i,kb=kb: kb,kb.w)); done.update(range(a_,b_))
        for k in range(o,o+N):
            if k not in done: ex.store_cells(st,rd,k,1,b)
        return
    e=rd.esize; i=exact_div(od,e); k=exact_div(n,e)
    if i is None or k is None: raise Unsupported("memset alignment")
    A,L=st.mem[rd.id]
    ex.check(st,"memset in bounds of %s"%rd.name,Or(eq(k,c64(0)),And(ule(i,L),ule(k,L-i))),kind='bounds')
    ex.setarr(st,rd,A.fill(i,k,concat(*[b]*e)))
@model(r'^llvm\.mem(cpy|move)\.',r'^mem(cpy|move)$')
def m_memcpy(ex,st,name,args,I):
    "memcpy/memmove copy exactly n bytes"
    if 'memcpy' in name and isinstance(args[0],P) and isinstance(args[1],P) and args[0].r is args[1].r and args[0].r is not None and not (args[0].off is args[1].off):
        d,s_,n=args[0].off,args[1].off,args[2]
        ex.check(st,"memcpy regions do not overlap",Or(ule(d+n,s_),ule(s_+n,d)),kind='bounds')
    mem_copy(ex,st,args[0],args[1],args[2]); return args[0] if I.ty.k=='ptr' else None
@model(r'^llvm\.memset\.',r'^memset$')
def m_memset(ex,st,name,args,I):
    "memset fills exactly n bytes"
    mem_set(ex,st,args[0],args[1],args[2]); return args[0] if I.ty.k=='ptr' else None
@model(r'^explicit_bzero$')
def m_bzero(ex,st,name,args,I):
    "explicit_bzero zeroes exactly n bytes"
    mem_set(ex,st,args[0],const(0,8),args[1])
    return None
@model(r'^wmemcpy$')
def m_wmemcpy(ex,st,name,args,I):
    "wmemcpy"
    mem_copy(ex,st,args[0],args[1],scale(args[2],4)); return args[0]
# arithmetic intrinsics
@model(r'^llvm\.([us])(add|sub|mul)\.with\.overflow')
def m_ovf(ex,st,name,args,I):
    "llvm *.with.overflow: wrapped result and exact overflow flag"
    k=re.match(r'^llvm\.([us])(add|sub|mul)',name); a,b=args; w=a.w
    e=zext if k[1]=='u' else sext
    op={'add':add,'sub':sub,'mul':mul}[k[2]]
    r=op(a,b); W=2*w if k[2]=='mul' else w+1
    if k[2]=='mul' and k[1]=='u':
        return [r,uf_umulo(a,b)]
    wide=op(e(a,W),e(b,W))
    return [r,ne(wide,e(r,W))]
def uf_umulo(a,b):
    w=a.w
    return ne(extract(mul(zext(a,2*w),zext(b,2*w)),2*w-1,w),const(0,w))
@model(r'^llvm\.bswap\.')
def m_bswap(ex,st,name,args,I):
    "llvm.bswap reverses bytes"
    return bswap(args[0])
@model(r'^llvm\.fsh([lr])\.')
def m_fsh(ex,st,name,args,I):
    "llvm funnel shift"
    a,b,c=args; w=a.w
    if not isc(c): 
        cc=zext(urem(c,const(w,w)),2*w); x=concat(a,b)
        return extract(shl(x,cc),2*w-1,w) if 'fshl' in name else extract(lshr(x,cc),w-1,0)
    n=val(c)%w; x=concat(a,b)
    return extract(x,2*w-1-n,w-n) if 'fshl' in name else extract(x,w-1+n,n)
@model(r'^llvm\.(umin|umax|smin|smax)\.')
def m_minmax(ex,st,name,args,I):
    "llvm min/max"
    a,b=args; f={'umin':ult(a,b),'umax':ult(b,a),'smin':slt(a,b),'smax':slt(b,a)}[name.split('.')[1]]
    return Ite(f,a,b)
@model(r'^llvm\.abs\.')
def m_abs(ex,st,name,args,I):
    "llvm.abs"
    a=args[0]; return Ite(slt(a,const(0,a.w)),-a,a)
@model(r'^abs$',r'^labs$',r'^llabs$')
def m_cabs(ex,st,name,args,I):
    "abs"
    a=args[0]; return Ite(slt(a,const(0,a.w)),-a,a)
@model(r'^llvm\.(ctlz|cttz|ctpop)\.')
def m_ct(ex,st,name,args,I):
    "bit counts"
    a=args[0]; w=a.w; r=const(w if 'ctpop' not in name else 0,w)
    if 'ctpop' in name:
        for i in range(w): r=r+zext(extract(a,i,i),w)
        return r
    rng=range(w) if 'ctlz' in name else reversed(range(w))
    for i in rng: r=Ite(eq(extract(a,i,i),const(1,1)),const(w-1-i if 'ctlz' in name else i,w),r)
    return r
@model(r'^__errno_location$')
def m_errno(ex,st,name,args,I):
    "errno is a private int"
    if 'errno' not in st.ghost:
        r=Region('errno','cells',1,4); st.mem[r.id]={}; st.ghost['errno']=P(r)
    return st.ghost['errno']
Ex.ghost_havoc={'errno':lambda v:v}
# ---- guards for function-local statics -----------------------------------
@model(r'^__cxa_guard_acquire$')
def guard_acq(ex,st,name,args,I):
    "function-local statics are initialised on first use (0 = already initialised is not assumed)"
    return const(1,32)
@model(r'^__cxa_guard_release$')
def guard_rel(ex,st,name,args,I):
    "guard release"
    return None
# ---- std::basic_string -----------------------------------------------------
BS=r'std::__cxx11::basic_string<(char|wchar_t|char16_t|char32_t|unsigned int|unsigned short),.*?>::'
def strw(dem):
    m=re.search(r'basic_string<(char16_t|char32_t|char|wchar_t|unsigned int|unsigned short)',dem); return {'char':1,'wchar_t':4,'char16_t':2,'char32_t':4,'unsigned int':4,'unsigned short':2}[m[1]]
def dem(ex,name): return ex.m.funcs[name].dem
def new_string(ex,st,name,esize,n=None,arr=None,at=None):
    """symbolic std::basic_string object; returns pointer to the object"""
    ln=n if n is not None else var(fresh_name(name+".len"),64)
    st.assume(ult(ln,MAXLEN))
    buf=ex.new_arr(st,name+".buf",esize,ln+1,arr)
    A,L=st.mem[buf.id]; st.mem[buf.id]=(A.store(ln,const(0,8*esize)),L) if arr is None and n is None else (A,L)
    if at is None:
        obj=ex.new_cells(st,name,32); p=P(obj)
    else: p=at
    set_str(ex,st,p,buf,ln)
    return p
def rawcell(ex,st,p,size,v):
    r,off=ex.resolve(p)
    ex.store_cells(st,r,val(off),size,v)
def set_str(ex,st,p,buf,ln):
    rawcell(ex,st,p,8,P(buf)); rawcell(ex,st,p.plus(8),8,ln)
def str_parts(ex,st,p):
    r,off=ex.resolve(p)
    b=ex.load_cells(st,r,val(off),8,ptr=True); n=ex.load_cells(st,r,val(off)+8,8)
    if not isinstance(b,P) or b.r is None or b.r.kind=='undef': raise Unsupported("string object not initialised")
    return b.r,n
def str_set(ex,st,p,A,n):
    """replace content; keeps buffer region identity"""
    buf,old=str_parts(ex,st,p)
    if n is not old: st.assume(ult(n,MAXLEN))
    ex.setarr(st,buf,A.store(n,const(0,A.ew)),n+1)
    if n is not old: rawcell(ex,st,p.plus(8),8,n)
def init_str(ex,st,p,esize,A=None,n=None):
    buf=ex.new_arr(st,"str",esize,c64(1)); 
    r,off=ex.resolve(p)
    set_str(ex,st,p,buf,c64(0)); 
    str_set(ex,st,p,A if A is not None else SArr.fresh("e",8*esize),n if n is not None else c64(0))
def src_range(ex,st,p,n,esize):
    """read n elements at p: returns (SArr,start) after bounds check"""
    if p.r is None:
        ex.check(st,"null source only for zero length",eq(n,c64(0)),kind='bounds'); return SArr.fresh("nil",8*esize),c64(0)
    r,off=ex.resolve(p)
    if r.kind=='cells': 
        if not isc(n): raise Unsupported("string from cells")
        vs=[ex.load_raw(st,p.plus(k*esize),esize) for k in range(val(n))]
        return SArr.consts(vs,8*esize),c64(0)
    i=exact_div(off,esize); A,L=st.mem[r.id]
    if r.esize!=esize or i is None: raise Unsupported("string source element size")
    ex.check(st,"source range in bounds of %s"%r.name,Or(eq(n,c64(0)),And(ule(i,L),ule(n,L-i))),kind='bounds')
    return A,i
def do_append(ex,st,this,p,n,esize):
    A,i=src_range(ex,st,p,n,esize)
    buf,ln=str_parts(ex,st,this); B,_=st.mem[buf.id]
    str_set(ex,st,this,B.copy(ln,n,A,i),ln+n)
def cstrlen(ex,st,p,esize):
    """length of the zero-terminated string at p: assumed contract of strlen (needs a terminator inside the region)"""
    r,off=ex.resolve(p)
    A,L=st.mem[r.id]; i=exact_div(off,esize)
    if isc(L) and isc(i) and val(L)<400:
        for k in range(val(i),val(L)):
            v=A.sel(c64(k))
            if not isc(v): break
            if val(v)==0: return c64(k-val(i))
    n=fresh("strlen",64)
    ex.check(st,"strlen argument in bounds",ult(i,L),kind='bounds')
    if ex.zterm_ok is None or not ex.zterm_ok(st,r): raise Unsupported("strlen on region without terminator fact: %r"%r)
    st.assume(And(ult(i+n,L),ule(n,MAXLEN),eq(A.sel(i+n),const(0,8*esize))))
    ex.strlen_facts.append((A,i,n))
    return n
Ex.zterm_ok=None; Ex.strlen_facts=[]
@model(BS+r'(operator\+=|push_back)\((char|wchar_t|char16_t|char32_t|unsigned int|unsigned short)\)')
def s_push(ex,st,name,args,I):
    "std::basic_string::push_back / operator+=(char) appends one element"
    this=args[0]; buf,n=str_parts(ex,st,this); A,_=st.mem[buf.id]
    str_set(ex,st,this,A.store(n,args[1]),n+1); return this if I.ty.k=='ptr' else None
@model(BS+r'(append|operator\+=)\((char|wchar_t|char16_t|char32_t|unsigned int|unsigned short) const\*(, unsigned long)?\)')
def s_append(ex,st,name,args,I):
    "std::basic_string::append(ptr[,n]) appends the range"
    es=strw(dem(ex,name)); n=args[2] if len(args)>2 else cstrlen(ex,st,args[1],es)
    do_append(ex,st,args[0],args[1],n,es); return args[0]
@model(BS+r'append\(unsigned long, (char|wchar_t|char16_t|char32_t|unsigned int|unsigned short)\)')
def s_appendn(ex,st,name,args,I):
    "std::basic_string::append(n,c)"
    buf,ln=str_parts(ex,st,args[0]); A,_=st.mem[buf.id]
    str_set(ex,st,args[0],A.fill(ln,args[1],args[2]),ln+args[1]); return args[0]
@model(BS+r'(append|operator\+=)\(std::__cxx11::basic_string<[^()]*> const&\)')
def s_appends(ex,st,name,args,I):
    "std::basic_string::append(str)"
    b2,n2=str_parts(ex,st,args[1]); do_append(ex,st,args[0],P(b2),n2,strw(dem(ex,name))); return args[0]
@model(BS+r'reserve\(unsigned long\)',r'std::__cxx11::basic_string<.*>::shrink_to_fit')
def s_reserve(ex,st,name,args,I):
    "std::basic_string::reserve does not change the content"
    return None
@model(BS+r'clear\(\)')
def s_clear(ex,st,name,args,I):
    "std::basic_string::clear"
    buf,_=str_parts(ex,st,args[0]); str_set(ex,st,args[0],st.mem[buf.id][0],c64(0)); return None
@model(BS+r'resize\(unsigned long(, \w+)?\)')
def s_resize(ex,st,name,args,I):
    "std::basic_string::resize"
    es=strw(dem(ex,name)); buf,n=str_parts(ex,st,args[0]); m=args[1]; c=args[2] if len(args)>2 else const(0,8*es)
    A,_=st.mem[buf.id]
    str_set(ex,st,args[0],SArr('ite',A.ew,None,(ult(n,m),A.fill(n,m-n,c),A)),m); return None
@model(BS+r'erase\(unsigned long, unsigned long\)')
def s_erase(ex,st,name,args,I):
    "std::basic_string::erase(pos,n)"
    this,pos,cnt=args; buf,n=str_parts(ex,st,this); A,_=st.mem[buf.id]
    out=[]
    bad=st.fork(); bad.assume(ult(n,pos))
    if ex.feasible(bad): out.append(('throw',bad,('_ZTISt12out_of_range',None)))
    st.assume(ule(pos,n))
    k=umin(cnt,n-pos)
    str_set(ex,st,this,A.copy(pos,n-pos-k,A,pos+k),n-k)
    out.append(('ret',st,this)); return out
@model(BS+r'basic_string\(\)$')
def s_ctor0(ex,st,name,args,I):
    "std::basic_string default construction"
    init_str(ex,st,args[0],strw(dem(ex,name))); return None
@model(BS+r'basic_string\(std::__cxx11::basic_string<[^()]*> const&\)')
def s_ctorc(ex,st,name,args,I):
    "std::basic_string copy construction"
    b,n=str_parts(ex,st,args[1]); init_str(ex,st,args[0],strw(dem(ex,name)),st.mem[b.id][0],n); return None
@model(BS+r'basic_string\(std::__cxx11::basic_string<[^()]*>&&\)')
def s_ctorm(ex,st,name,args,I):
    "std::basic_string move construction"
    b,n=str_parts(ex,st,args[1]); init_str(ex,st,args[0],strw(dem(ex,name)),st.mem[b.id][0],n)
    str_set(ex,st,args[1],st.mem[b.id][0],c64(0)); return None
@model(BS+r'basic_string(<.*>)?\((char|wchar_t|char16_t|char32_t|unsigned int|unsigned short) const\*(, unsigned long)?, std::allocator<.*> const&\)')
def s_ctorp(ex,st,name,args,I):
    "std::basic_string construction from a range"
    es=strw(dem(ex,name)); n=args[2] if len(args)>3 else cstrlen(ex,st,args[1],es)
    A,i=src_range(ex,st,args[1],n,es)
    init_str(ex,st,args[0],es,SArr.fresh("e",8*es).copy(c64(0),n,A,i),n); return None
@model(BS+r'basic_string(<.*>)?\(unsigned long, (char|wchar_t|char16_t|char32_t|unsigned int|unsigned short), std::allocator<.*> const&\)')
def s_ctorn(ex,st,name,args,I):
    "std::basic_string construction from count copies"
    es=strw(dem(ex,name)); init_str(ex,st,args[0],es,SArr.fresh("e",8*es).fill(c64(0),args[1],args[2]),args[1]); return None
@model(BS+r'~basic_string\(\)')
def s_dtor(ex,st,name,args,I):
    "std::basic_string destruction"
    return None
@model(BS+r'(assign|operator=)\((char|wchar_t|char16_t|char32_t|unsigned int|unsigned short) const\*(, unsigned long)?\)')
def s_assign(ex,st,name,args,I):
    "std::basic_string::assign(range)"
    es=strw(dem(ex,name)); n=args[2] if len(args)>2 else cstrlen(ex,st,args[1],es)
    A,i=src_range(ex,st,args[1],n,es); buf,_=str_parts(ex,st,args[0])
    str_set(ex,st,args[0],st.mem[buf.id][0].copy(c64(0),n,A,i),n); return args[0]
@model(BS+r'(assign|operator=)\(std::__cxx11::basic_string<[^()]*>(&&| const&)\)')
def s_assigns(ex,st,name,args,I):
    "std::basic_string assignment"
    b,n=str_parts(ex,st,args[1]); A=st.mem[b.id][0]
    str_set(ex,st,args[0],A,n); return args[0]
@model(BS+r'swap\(')
def s_swap(ex,st,name,args,I):
    "std::basic_string::swap"
    b1,n1=str_parts(ex,st,args[0]); b2,n2=str_parts(ex,st,args[1]); A1=st.mem[b1.id][0]; A2=st.mem[b2.id][0]
    str_set(ex,st,args[0],A2,n2); str_set(ex,st,args[1],A1,n1); return None
# ---- std::vector of integers ----------------------------------------------
SZ={'unsigned char':1,'char':1,'signed char':1,'unsigned short':2,'short':2,'char16_t':2,'unsigned int':4,'int':4,'char32_t':4,'wchar_t':4,'unsigned long':8,'long':8,'bool':None}
VEC=r'std::vector<(unsigned char|char|signed char|unsigned short|short|char16_t|unsigned int|int|char32_t|wchar_t|unsigned long|long), std::allocator<[^<>]*>>::'
def vecw(d): return SZ[re.search(r'std::vector<([a-z_0-9 ]+?),',d)[1]]
def new_vector(ex,st,name,esize,n=None,arr=None,at=None,unit=None):
    """symbolic std::vector object; unit = elements of esize per vector item"""
    ln=n if n is not None else var(fresh_name(name+".len"),64)
    st.assume(ult(ln,MAXLEN))
    buf=ex.new_arr(st,name+".buf",esize,ln,arr)
    p=at if at is not None else P(ex.new_cells(st,name,24))
    rawcell(ex,st,p,8,P(buf)); rawcell(ex,st,p.plus(8),8,P(buf,scale(ln,esize))); rawcell(ex,st,p.plus(16),8,P(buf,scale(ln,esize)))
    return p
def vec_parts(ex,st,p,esize):
    r,off=ex.resolve(p); o=val(off)
    a=ex.load_cells(st,r,o,8,ptr=True); b=ex.load_cells(st,r,o+8,8,ptr=True)
    if not isinstance(a,P): a=ex.inttoptr(a) if isinstance(a,T) else a
    if a is None or (a.r is not None and a.r.kind=='undef'): raise Unsupported("vector not initialised")
    if a.r is None:
        buf=ex.new_arr(st,"vec",esize,c64(0)); rawcell(ex,st,p,8,P(buf)); rawcell(ex,st,p.plus(8),8,P(buf)); rawcell(ex,st,p.plus(16),8,P(buf))
        return buf,c64(0)
    return a.r,exact_div(b.off,esize) if exact_div(b.off,esize) is not None else udiv(b.off,c64(esize))
def vec_set(ex,st,p,buf,A,n,esize):
    st.assume(ult(n,MAXLEN))
    ex.setarr(st,buf,A,n)
    rawcell(ex,st,p.plus(8),8,P(buf,scale(n,esize))); rawcell(ex,st,p.plus(16),8,P(buf,scale(n,esize)))
@model(VEC+r'push_back\(')
def v_push(ex,st,name,args,I):
    "std::vector::push_back appends one element"
    es=vecw(dem(ex,name)); v=args[1]
    if isinstance(v,P): v=ex.load_raw(st,v,es)
    buf,n=vec_parts(ex,st,args[0],es); A,_=st.mem[buf.id]
    vec_set(ex,st,args[0],buf,A.store(n,v),n+1,es); return None
@model(VEC+r'emplace_back<')
def v_emplace(ex,st,name,args,I):
    "std::vector::emplace_back appends one element"
    es=vecw(dem(ex,name)); v=ex.load_raw(st,args[1],es)
    buf,n=vec_parts(ex,st,args[0],es); A,_=st.mem[buf.id]
    vec_set(ex,st,args[0],buf,A.store(n,v),n+1,es); return P(buf,scale(n,es))
@model(VEC+r'reserve\(',VEC+r'shrink_to_fit')
def v_reserve(ex,st,name,args,I):
    "std::vector::reserve does not change the content"
    return None
@model(VEC+r'clear\(\)')
def v_clear(ex,st,name,args,I):
    "std::vector::clear"
    es=vecw(dem(ex,name)); buf,n=vec_parts(ex,st,args[0],es); vec_set(ex,st,args[0],buf,st.mem[buf.id][0],c64(0),es); return None
@model(VEC+r'resize\(unsigned long')
def v_resize(ex,st,name,args,I):
    "std::vector::resize"
    es=vecw(dem(ex,name)); m=args[1]; out=[]
    if not isc(m) and ex.feasible(st,ult(c64((1<<63)//es-1),m)):
        y=st.fork(); y.assume(ult(c64((1<<63)//es-1),m)); out=[('throw',y,('_ZTISt12length_error',None))]
    buf,n=vec_parts(ex,st,args[0],es)
    c=ex.load_raw(st,args[2],es) if len(args)>2 else const(0,8*es)
    A,_=st.mem[buf.id]
    vec_set(ex,st,args[0],buf,SArr('ite',A.ew,None,(ult(n,m),A.fill(n,m-n,c),A)),m,es); return out+[('ret',st,None)] if out else None
@model(VEC+r'vector\(\)$')
def v_ctor0(ex,st,name,args,I):
    "std::vector default construction"
    es=vecw(dem(ex,name)); new_vector(ex,st,"vec",es,c64(0),at=args[0]); return None
@model(VEC+r'~vector\(\)')
def v_dtor(ex,st,name,args,I):
    "std::vector destruction"
    return None
@model(VEC+r'vector\(unsigned long, ')
def v_ctorn(ex,st,name,args,I):
    "std::vector construction from count"
    es=vecw(dem(ex,name)); c=const(0,8*es)
    new_vector(ex,st,"vec",es,args[1],SArr.fn(lambda i: c,8*es),at=args[0]); return None
