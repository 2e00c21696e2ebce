"""LLVM IR front end: loads a .ll/.bc file through libLLVM-18's C API (ctypes) into small Python objects."""
import ctypes as C, subprocess, re, functools

_L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM.so")
VP = C.c_void_p
def _f(name, res, *args):
    f = getattr(_L, name); f.restype = res; f.argtypes = list(args); return f
ContextCreate=_f("LLVMContextCreate",VP)
MemBufFile=_f("LLVMCreateMemoryBufferWithContentsOfFile",C.c_int,C.c_char_p,C.POINTER(VP),C.POINTER(C.c_char_p))
ParseIR=_f("LLVMParseIRInContext",C.c_int,VP,VP,C.POINTER(VP),C.POINTER(C.c_char_p))
FirstFn=_f("LLVMGetFirstFunction",VP,VP); NextFn=_f("LLVMGetNextFunction",VP,VP)
FirstGl=_f("LLVMGetFirstGlobal",VP,VP); NextGl=_f("LLVMGetNextGlobal",VP,VP)
FirstAl=_f("LLVMGetFirstGlobalAlias",VP,VP); NextAl=_f("LLVMGetNextGlobalAlias",VP,VP)
Aliasee=_f("LLVMAliasGetAliasee",VP,VP)
Name2=_f("LLVMGetValueName2",C.POINTER(C.c_char),VP,C.POINTER(C.c_size_t))
FirstBB=_f("LLVMGetFirstBasicBlock",VP,VP); NextBB=_f("LLVMGetNextBasicBlock",VP,VP)
FirstI=_f("LLVMGetFirstInstruction",VP,VP); NextI=_f("LLVMGetNextInstruction",VP,VP)
BBName=_f("LLVMGetBasicBlockName",C.c_char_p,VP)
BBAsValue=_f("LLVMBasicBlockAsValue",VP,VP); ValueAsBB=_f("LLVMValueAsBasicBlock",VP,VP)
IsDecl=_f("LLVMIsDeclaration",C.c_int,VP)
Opcode=_f("LLVMGetInstructionOpcode",C.c_int,VP)
ConstOpcode=_f("LLVMGetConstOpcode",C.c_int,VP)
NumOps=_f("LLVMGetNumOperands",C.c_int,VP); Op=_f("LLVMGetOperand",VP,VP,C.c_uint)
Kind=_f("LLVMGetValueKind",C.c_int,VP)
TypeOf=_f("LLVMTypeOf",VP,VP); TypeKind=_f("LLVMGetTypeKind",C.c_int,VP)
IntW=_f("LLVMGetIntTypeWidth",C.c_uint,VP)
ZExtVal=_f("LLVMConstIntGetZExtValue",C.c_ulonglong,VP)
PrintVal=_f("LLVMPrintValueToString",VP,VP); DisposeMsg=_f("LLVMDisposeMessage",None,VP)
PrintTy=_f("LLVMPrintTypeToString",VP,VP)
ElemTy=_f("LLVMGetElementType",VP,VP); ArrLen=_f("LLVMGetArrayLength2",C.c_ulonglong,VP)
VecSize=_f("LLVMGetVectorSize",C.c_uint,VP)
NStruct=_f("LLVMCountStructElementTypes",C.c_uint,VP); StructEl=_f("LLVMStructGetTypeAtIndex",VP,VP,C.c_uint)
StructName=_f("LLVMGetStructName",C.c_char_p,VP); IsOpaque=_f("LLVMIsOpaqueStruct",C.c_int,VP)
DL=_f("LLVMGetModuleDataLayout",VP,VP)
OffsetOf=_f("LLVMOffsetOfElement",C.c_ulonglong,VP,VP,C.c_uint)
ABISize=_f("LLVMABISizeOfType",C.c_ulonglong,VP,VP)
StoreSize=_f("LLVMStoreSizeOfType",C.c_ulonglong,VP,VP)
GEPSrc=_f("LLVMGetGEPSourceElementType",VP,VP)
AllocTy=_f("LLVMGetAllocatedType",VP,VP)
IPred=_f("LLVMGetICmpPredicate",C.c_int,VP); FPred=_f("LLVMGetFCmpPredicate",C.c_int,VP)
NIdx=_f("LLVMGetNumIndices",C.c_uint,VP); Idx=_f("LLVMGetIndices",C.POINTER(C.c_uint),VP)
NSucc=_f("LLVMGetNumSuccessors",C.c_uint,VP); Succ=_f("LLVMGetSuccessor",VP,VP,C.c_uint)
NInc=_f("LLVMCountIncoming",C.c_uint,VP); IncV=_f("LLVMGetIncomingValue",VP,VP,C.c_uint); IncB=_f("LLVMGetIncomingBlock",VP,VP,C.c_uint)
NArgs=_f("LLVMCountParams",C.c_uint,VP); Param=_f("LLVMGetParam",VP,VP,C.c_uint)
NCallArgs=_f("LLVMGetNumArgOperands",C.c_uint,VP); Called=_f("LLVMGetCalledValue",VP,VP)
NormalDest=_f("LLVMGetNormalDest",VP,VP); UnwindDest=_f("LLVMGetUnwindDest",VP,VP)
NClauses=_f("LLVMGetNumClauses",C.c_uint,VP); Clause=_f("LLVMGetClause",VP,VP,C.c_uint); IsCleanup=_f("LLVMIsCleanup",C.c_int,VP)
Init=_f("LLVMGetInitializer",VP,VP); IsGConst=_f("LLVMIsGlobalConstant",C.c_int,VP)
GetTypeByName=_f("LLVMGetTypeByName2",VP,VP,C.c_char_p)
GValTy=_f("LLVMGlobalGetValueType",VP,VP)
RetTy=_f("LLVMGetReturnType",VP,VP)
IsCStr=_f("LLVMIsConstantString",C.c_int,VP); CStr=_f("LLVMGetAsString",C.POINTER(C.c_char),VP,C.POINTER(C.c_size_t))
AggEl=_f("LLVMGetAggregateElement",VP,VP,C.c_uint)
GetNSW=_f("LLVMGetNSW",C.c_int,VP); GetNUW=_f("LLVMGetNUW",C.c_int,VP); GetExact=_f("LLVMGetExact",C.c_int,VP)
RMWOp=_f("LLVMGetAtomicRMWBinOp",C.c_int,VP)
DbgLine=_f("LLVMGetDebugLocLine",C.c_uint,VP)
ConstReal=_f("LLVMConstRealGetDouble",C.c_double,VP,C.POINTER(C.c_int))

OPC={1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'getelementptr',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',49:'va_arg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad'}
IPRED={32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FPRED={0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}

class Ty:
    __slots__=("k","w","elems","offs","size","n","elem","name","storesize")
    def __init__(s,k): s.k=k; s.w=0; s.elems=None; s.offs=None; s.size=0; s.n=0; s.elem=None; s.name=None
    def __repr__(s):
        return {'int':"i%d"%s.w}.get(s.k, s.k if s.k not in('struct','array') else (s.name or s.k)+"[%d]"%s.size)

class Val:
    __slots__=()
class CInt(Val):
    __slots__=("v","w")
    def __init__(s,v,w): s.v=v; s.w=w
class CNull(Val): __slots__=()
class CUndef(Val):
    __slots__=("ty",)
    def __init__(s,ty): s.ty=ty
class CZero(Val):
    __slots__=("ty",)
    def __init__(s,ty): s.ty=ty
class CAgg(Val):
    __slots__=("ty","elems")
    def __init__(s,ty,e): s.ty=ty; s.elems=e
class CFloat(Val):
    __slots__=("v","k")
    def __init__(s,v,k): s.v=v; s.k=k
class GRef(Val):
    __slots__=("name",)
    def __init__(s,n): s.name=n
class FRef(Val):
    __slots__=("name",)
    def __init__(s,n): s.name=n
class CExpr(Val):
    __slots__=("op","ops","src","ty")
    def __init__(s,op,ops,src,ty): s.op=op; s.ops=ops; s.src=src; s.ty=ty
class Arg(Val):
    __slots__=("name","ty","i")
class Inst(Val):
    __slots__=("op","ty","ops","name","x","line","id","bb")

class Block:
    __slots__=("name","insts","idx","fn")
class Func:
    def __init__(s,m,ref,name): s.m=m; s.ref=ref; s.name=name; s.dem=name; s.decl=bool(IsDecl(ref)); s._b=None
    @property
    def blocks(s):
        if s._b is None: s._load()
        return s._b
    @property
    def args(s):
        if s._b is None: s._load()
        return s._args
    def _load(s):
        m=s.m; s._args=[]; vm={}
        for i in range(NArgs(s.ref)):
            p=Param(s.ref,i); a=Arg(); a.name=vname(p); a.ty=m.ty(TypeOf(p)); a.i=i; vm[p]=a; s._args.append(a)
        s.retty=m.ty(RetTy(GValTy(s.ref)))
        bbs=[]; b=FirstBB(s.ref)
        bm={}
        while b:
            B=Block(); B.name=(BBName(b) or b"").decode(); B.idx=len(bbs); B.insts=[]; B.fn=s; bm[b]=B; bbs.append((b,B)); b=NextBB(b)
        order=[]
        for b,B in bbs:
            i=FirstI(b)
            while i:
                I=Inst(); I.op=OPC.get(Opcode(i),"op%d"%Opcode(i)); I.name=vname(i); I.ty=m.ty(TypeOf(i)); I.line=DbgLine(i) if I.op not in('phi',) else 0; I.id=len(order); I.bb=B; I.x=None
                vm[i]=I; order.append((i,I)); B.insts.append(I); i=NextI(i)
        g=lambda v: m.val(v,vm)
        for i,I in order:
            o=I.op
            if o=='phi': I.ops=[(g(IncV(i,k)),bm[IncB(i,k)]) for k in range(NInc(i))]
            elif o=='br':
                n=NumOps(i)
                if n==1: I.ops=[]; I.x=[bm[Succ(i,0)]]
                else: I.ops=[g(Op(i,0))]; I.x=[bm[Succ(i,0)],bm[Succ(i,1)]]
            elif o=='switch':
                I.ops=[g(Op(i,0))]; I.x=(bm[ValueAsBB(Op(i,1))],[(g(Op(i,2*k)),bm[ValueAsBB(Op(i,2*k+1))]) for k in range(1,NumOps(i)//2)])
            elif o in('call','invoke'):
                n=NCallArgs(i); cv=Called(i)
                I.ops=[g(Op(i,k)) if TypeKind(TypeOf(Op(i,k)))!=16 else None for k in range(n)]
                callee=g(cv); ext=None
                I.x=(callee,bm[NormalDest(i)] if o=='invoke' else None,bm[UnwindDest(i)] if o=='invoke' else None)
            elif o=='getelementptr':
                I.ops=[g(Op(i,k)) for k in range(NumOps(i))]; I.x=m.ty(GEPSrc(i))
            elif o=='alloca': I.ops=[g(Op(i,0))]; I.x=m.ty(AllocTy(i))
            elif o=='icmp': I.ops=[g(Op(i,0)),g(Op(i,1))]; I.x=(IPRED[IPred(i)],m.ty(TypeOf(Op(i,0))))
            elif o=='fcmp': I.ops=[g(Op(i,0)),g(Op(i,1))]; I.x=FPRED[FPred(i)]
            elif o in('extractvalue','insertvalue'):
                p=Idx(i); I.x=[p[k] for k in range(NIdx(i))]; I.ops=[g(Op(i,k)) for k in range(NumOps(i))]
            elif o=='landingpad':
                I.ops=[g(Clause(i,k)) for k in range(NClauses(i))]; I.x=bool(IsCleanup(i))
            elif o=='store': I.ops=[g(Op(i,0)),g(Op(i,1))]; I.x=m.ty(TypeOf(Op(i,0)))
            elif o=='atomicrmw': I.ops=[g(Op(i,0)),g(Op(i,1))]; I.x=(RMWOp(i),m.ty(TypeOf(Op(i,1))))
            elif o=='cmpxchg': I.ops=[g(Op(i,k)) for k in range(3)]; I.x=m.ty(TypeOf(Op(i,1)))
            elif o in('add','sub','mul','shl'): I.ops=[g(Op(i,0)),g(Op(i,1))]; I.x=(bool(GetNSW(i)),bool(GetNUW(i)))
            elif o in('udiv','sdiv','lshr','ashr'): I.ops=[g(Op(i,0)),g(Op(i,1))]; I.x=bool(GetExact(i))
            elif o in('trunc','zext','sext','ptrtoint','inttoptr','bitcast','fptoui','fptosi','uitofp','sitofp','fptrunc','fpext'):
                I.ops=[g(Op(i,0))]; I.x=m.ty(TypeOf(Op(i,0)))
            else: I.ops=[g(Op(i,k)) for k in range(NumOps(i)) ]
        s._b=[B for _,B in bbs]
        s._keep=vm

def vname(v):
    n=C.c_size_t(); p=Name2(v,C.byref(n)); return p[:n.value].decode()

class Module:
    def __init__(s,path):
        s.ctx=ContextCreate(); buf=VP(); err=C.c_char_p()
        if MemBufFile(path.encode(),C.byref(buf),C.byref(err)): raise RuntimeError(err.value)
        mod=VP()
        if ParseIR(s.ctx,buf,C.byref(mod),C.byref(err)): raise RuntimeError(err.value)
        s.mod=mod; s.dl=DL(mod); s._ty={}
        s.funcs={}; f=FirstFn(mod)
        while f: n=vname(f); s.funcs[n]=Func(s,f,n); f=NextFn(f)
        names=list(s.funcs)
        dem=subprocess.run(["llvm-cxxfilt-18"] if False else ["/usr/lib/llvm-18/bin/llvm-cxxfilt"],input="\n".join(names),capture_output=True,text=True).stdout.split("\n")
        s.bydem={}
        for n,d in zip(names,dem): s.funcs[n].dem=d; s.bydem.setdefault(d,s.funcs[n])
        s.globals={}; g=FirstGl(mod)
        while g: s.globals[vname(g)]=g; g=NextGl(g)
        s.aliases={}; a=FirstAl(mod)
        while a: s.aliases[vname(a)]=a; a=NextAl(a)
    def ty(s,t):
        r=s._ty.get(t)
        if r is not None: return r
        k=TypeKind(t)
        if k==8: r=Ty('int'); r.w=IntW(t); r.size=ABISize(s.dl,t); r.storesize=(r.w+7)//8
        elif k==12: r=Ty('ptr'); r.size=8
        elif k==10:
            r=Ty('struct'); s._ty[t]=r; r.name=(StructName(t) or b"").decode() or None
            if not IsOpaque(t):
                n=NStruct(t); r.elems=[s.ty(StructEl(t,i)) for i in range(n)]; r.offs=[OffsetOf(s.dl,t,i) for i in range(n)]; r.size=ABISize(s.dl,t)
        elif k==11: r=Ty('array'); r.n=ArrLen(t); r.elem=s.ty(ElemTy(t)); r.size=r.n*r.elem.size
        elif k==13: r=Ty('vector'); r.n=VecSize(t); r.elem=s.ty(ElemTy(t)); r.size=ABISize(s.dl,t)
        elif k in(2,3,4): r=Ty('float'); r.size=ABISize(s.dl,t); r.w=r.size*8
        elif k==0: r=Ty('void')
        else: r=Ty({9:'func',7:'label',14:'metadata',16:'token'}.get(k,"k%d"%k))
        s._ty[t]=r; return r
    def val(s,v,vm=None):
        if vm is not None:
            r=vm.get(v)
            if r is not None: return r
        k=Kind(v)
        if k==18:
            t=s.ty(TypeOf(v))
            if t.w<=64: return CInt(ZExtVal(v),t.w)
            st=PrintVal(v); txt=C.string_at(st).decode(); return CInt(int(txt.split()[1])%(1<<t.w),t.w)
        if k==20: return CNull()
        if k in(14,25): return CUndef(s.ty(TypeOf(v)))
        if k==5: return FRef(vname(v))
        if k==8: return GRef(vname(v))
        if k==6: return s.val(Aliasee(v))
        if k==15: return CZero(s.ty(TypeOf(v)))
        t=s.ty(TypeOf(v))
        if k in(11,12,13,16,17):
            n=t.n if t.k in('array','vector') else len(t.elems)
            return CAgg(t,[s.val(AggEl(v,i)) for i in range(n)])
        if k==19:
            l=C.c_int(); return CFloat(ConstReal(v,C.byref(l)),t.w)
        if k==10:
            op=OPC.get(ConstOpcode(v))
            ops=[s.val(Op(v,i)) for i in range(NumOps(v))]
            return CExpr(op,ops,s.ty(GEPSrc(v)) if op=='getelementptr' else None,t)
        if k in(1,22,23): return CUndef(t) if k!=23 else FRef("<asm>")
        raise RuntimeError("value kind %d"%k)
    def init(s,name):
        g=s.globals[name]; i=Init(g) if not IsDecl(g) else None
        return (s.val(i) if i else None), bool(IsGConst(g)), s.ty(GValTy(g))
    def struct(s,name):
        for n in (name,"class."+name,"struct."+name,"union."+name):
            t=GetTypeByName(s.ctx,n.encode())
            if t: return s.ty(t)
        raise KeyError("no IR type %s"%name)
    def k(s,name):
        """value of an exported constant of the harness TU"""
        i,_,_=s.init(name)
        if isinstance(i,CZero): return 0
        return i.v
