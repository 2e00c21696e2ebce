"""zero-terminated / count-limited texts shared by the string contracts"""
from fw import *
Z=const(0,64); ONE=const(1,64); NPOS=const((1<<64)-1,64)
WIDTH=dict(c=1,w=4,h=2)
class Text:
    """text of code units of the given width; L = ghost index of the first zero; lim = count limit or None (zero-terminated). Memory exists up to the terminator or the limit, whichever is first: reading further is out of bounds. cap: the memory has exactly cap units instead (destination buffers). conv: the unit conversion under which a unit counts as zero."""
    def __init__(s,c,name,t,lim=None,cap=None,conv=None):
        s.c=c; s.es=WIDTH[t]; s.w=8*s.es; s.t=t; s.lim=lim; s.cap=cap; L=s.L=c.size(name+'.L'); cv=s.conv=conv or (lambda x:x)
        s.n=cap if cap is not None else L+1 if lim is None else Ite(ult(L,lim),L+1,lim); s.E=L if lim is None else Ite(ult(L,lim),L,lim)
        if cap is not None:
            c.assume(ult(L,cap) if lim is None else ule(lim,cap))
        s.r=c.arr(name,s.es,s.n); s.A=c.st.mem[s.r.id][0]; s.p=P(s.r)
        z0=cv(s.A.sel(L)); f=eq(z0,const(0,z0.w)); c.assume(f if lim is None else Implies(ult(L,lim),f))
        c.ex.read_ax[s.r.id]=[lambda st,idx: s.fact(idx)]
    def fact(s,i): x=s.conv(s.A.sel(i)); return Implies(ult(i,s.L),ne(x,const(0,x.w)))
    def inn(s,i): return TRUE if s.lim is None else ult(i,s.lim)
    def __getitem__(s,i): return s.A.sel(i)
def ext(t,x,w=34): return (sext if t in 'cw' else zext)(x,w)
def lower(x): w=x.w; return Ite(And(ule(const(0x41,w),x),ule(x,const(0x5a,w))),x|const(0x20,w),x)
def upper(x): w=x.w; return Ite(And(ule(const(0x61,w),x),ule(x,const(0x7a,w))),x&const((1<<w)-1-0x20,w),x)
def loclower(x): return uf('loc_tolower%d'%x.w,x.w,x)
locupper=lambda x: uf('loc_toupper%d'%x.w,x.w,x)
locspace=lambda x: uf('loc_space%d'%x.w,0,x)
FOLD=dict(n=lambda x:x,a=lower,l=loclower)
def fold_contracts(c):
    """callers of tolower/toupper are checked against the contracts proved by the roots of the same names"""
    c.model(r'^\w+ stdex::tolower<\w+>\(\w+\)$',lambda ex,st,n,a,I: lower(a[0]),"contract of stdex::tolower (discharged by root tolower)")
    c.model(r'^\w+ stdex::toupper<\w+>\(\w+\)$',lambda ex,st,n,a,I: upper(a[0]),"contract of stdex::toupper (discharged by root toupper)")
def fold_root(c,fn,spec,t):
    x=c.var('chr',8*WIDTH[t])
    for k,y in c.call(fn,[x]):
        c.cover(y); c.post(y,"maps exactly the 26 letters",And(boolc(k=='end'),eq(y.ghost['ret'],spec(x))))
def len_contracts(c,*texts):
    """callers of strlen/strnlen are checked against their contract (discharged for every text by the roots strlen_*/strnlen_*)"""
    def f(ex,st,n,a,I):
        for x in texts:
            if a[0].r is x.r:
                ex.check(st,"measured from its start",eq(a[0].off,Z),kind='pre')
                if len(a)==1:
                    ex.check(st,"strlen of a terminated text",boolc(x.lim is None) if x.lim is None else ult(x.L,x.lim),kind='pre'); return x.L
                if x.lim is not None: ex.check(st,"strnlen limit within the memory of the text",Or(ule(a[1],x.n),ult(x.L,x.n)),kind='pre')
                else: pass
                return Ite(ult(x.L,a[1]),x.L,a[1])
        raise Unsupported("strlen of an unknown text")
    c.model(r'^unsigned long stdex::strn?len<\w+>\(\w+ const\*',f,"contract of stdex::strlen/strnlen (discharged by the roots strlen_*, strnlen_* of C13)")
def locale_model(c):
    """std::use_facet<std::ctype<T>> returns the facet; ctype::tolower(T) is an arbitrary total function of the character (with tolower(0)==0); collate::compare records its ranges"""
    c.model(r'.*std::use_facet<',lambda ex,st,n,a,I: P(Region("facet",'undef')),"std::use_facet<facet>(locale) returns the facet and does not throw")
    def tl(ex,st,n,a,I):
        x=a[1]; r=loclower(x); st.assume(eq(eq(r,const(0,r.w)) if False else boolc(True),TRUE)); st.assume(Iff(eq(r,const(0,r.w)),eq(x,const(0,x.w)))); return r
    c.model(r'std::(ctype|__ctype_abstract_base)<\w+>::tolower\(\w+\) const$',tl,"std::ctype::tolower(c) is a function of c and maps only the terminator to the terminator")
    c.model(r'std::(ctype|__ctype_abstract_base)<\w+>::toupper\(\w+\) const$',lambda ex,st,n,a,I: locupper(a[1]),"std::ctype::toupper(c) is a function of c")
    c.model(r'std::(ctype|__ctype_abstract_base)<\w+>::is\(unsigned short, \w+\) const$',lambda ex,st,n,a,I: locspace(a[2]),"std::ctype::is(space,c) is a function of c")
