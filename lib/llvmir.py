"""Reads LLVM bitcode through the LLVM-C API (libLLVM-18, ctypes) into plain Python objects."""
import ctypes as C
import functools
import subprocess

L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")
P = C.c_void_p
def _sig(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f
u32, u64, i64, cstr = C.c_uint, C.c_ulonglong, C.c_longlong, C.c_char_p
ContextCreate = _sig("LLVMContextCreate", P)
MemBuf = _sig("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, cstr, C.POINTER(P), C.POINTER(cstr))
ParseIR = _sig("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(cstr))
FirstFn = _sig("LLVMGetFirstFunction", P, P); NextFn = _sig("LLVMGetNextFunction", P, P)
FirstBB = _sig("LLVMGetFirstBasicBlock", P, P); NextBB = _sig("LLVMGetNextBasicBlock", P, P)
FirstI = _sig("LLVMGetFirstInstruction", P, P); NextI = _sig("LLVMGetNextInstruction", P, P)
Opcode = _sig("LLVMGetInstructionOpcode", C.c_int, P)
NumOps = _sig("LLVMGetNumOperands", C.c_int, P); GetOp = _sig("LLVMGetOperand", P, P, u32)
TypeOf = _sig("LLVMTypeOf", P, P); TypeKind = _sig("LLVMGetTypeKind", C.c_int, P)
IntW = _sig("LLVMGetIntTypeWidth", u32, P)
GepTy = _sig("LLVMGetGEPSourceElementType", P, P)
ICmpP = _sig("LLVMGetICmpPredicate", C.c_int, P); FCmpP = _sig("LLVMGetFCmpPredicate", C.c_int, P)
CntInc = _sig("LLVMCountIncoming", u32, P); IncV = _sig("LLVMGetIncomingValue", P, P, u32); IncB = _sig("LLVMGetIncomingBlock", P, P, u32)
CalledV = _sig("LLVMGetCalledValue", P, P); CalledFT = _sig("LLVMGetCalledFunctionType", P, P)
NumArgOps = _sig("LLVMGetNumArgOperands", u32, P); ArgOp = GetOp
NormalDest = _sig("LLVMGetNormalDest", P, P); UnwindDest = _sig("LLVMGetUnwindDest", P, P)
NumSucc = _sig("LLVMGetNumSuccessors", u32, P); Succ = _sig("LLVMGetSuccessor", P, P, u32)
IsCond = _sig("LLVMIsConditional", C.c_int, P); Cond = _sig("LLVMGetCondition", P, P)
SExt = _sig("LLVMConstIntGetSExtValue", i64, P); ZExt = _sig("LLVMConstIntGetZExtValue", u64, P)
RealV = _sig("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
ValKind = _sig("LLVMGetValueKind", C.c_int, P)
NumIdx = _sig("LLVMGetNumIndices", u32, P); Idxs = _sig("LLVMGetIndices", C.POINTER(u32), P)
ValName = _sig("LLVMGetValueName2", cstr, P, C.POINTER(C.c_size_t))
StructN = _sig("LLVMCountStructElementTypes", u32, P); StructT = _sig("LLVMStructGetTypeAtIndex", P, P, u32)
StructName = _sig("LLVMGetStructName", cstr, P)
ArrLen = _sig("LLVMGetArrayLength2", u64, P); ElemTy = _sig("LLVMGetElementType", P, P)
DLStr = _sig("LLVMGetDataLayoutStr", cstr, P); MkTD = _sig("LLVMCreateTargetData", P, cstr)
OffOf = _sig("LLVMOffsetOfElement", u64, P, P, u32); ABISize = _sig("LLVMABISizeOfType", u64, P, P)
GetNSW = _sig("LLVMGetNSW", C.c_int, P); GetNUW = _sig("LLVMGetNUW", C.c_int, P)
AllocTy = _sig("LLVMGetAllocatedType", P, P)
GetInit = _sig("LLVMGetInitializer", P, P); IsGConst = _sig("LLVMIsGlobalConstant", C.c_int, P)
ConstOpc = _sig("LLVMGetConstOpcode", C.c_int, P)
PrintV = _sig("LLVMPrintValueToString", cstr, P); PrintT = _sig("LLVMPrintTypeToString", cstr, P)
CountParams = _sig("LLVMCountParams", u32, P); Param = _sig("LLVMGetParam", P, P, u32)
GVT = _sig("LLVMGlobalGetValueType", P, P)
RetTy = _sig("LLVMGetReturnType", P, P)
DbgLine = _sig("LLVMGetDebugLocLine", u32, P)
NamedGlobal = _sig("LLVMGetNamedGlobal", P, P, cstr)
Aliasee = _sig("LLVMAliasGetAliasee", P, P)
IsDecl = _sig("LLVMIsDeclaration", C.c_int, P)
AggElem = _sig("LLVMGetAggregateElement", P, P, u32)
CaseV = GetOp
BBasV = _sig("LLVMBasicBlockAsValue", P, P); VasBB = _sig("LLVMValueAsBasicBlock", P, P)
NumClauses = _sig("LLVMGetNumClauses", u32, P); IsCleanup = _sig("LLVMIsCleanup", C.c_int, P)

OPC = {1:"ret",2:"br",3:"switch",4:"indirectbr",5:"invoke",7:"unreachable",66:"fneg",
 8:"add",9:"fadd",10:"sub",11:"fsub",12:"mul",13:"fmul",14:"udiv",15:"sdiv",16:"fdiv",17:"urem",18:"srem",19:"frem",
 20:"shl",21:"lshr",22:"ashr",23:"and",24:"or",25:"xor",26:"alloca",27:"load",28:"store",29:"gep",
 30:"trunc",31:"zext",32:"sext",33:"fptoui",34:"fptosi",35:"uitofp",36:"sitofp",37:"fptrunc",38:"fpext",
 39:"ptrtoint",40:"inttoptr",41:"bitcast",60:"addrspacecast",42:"icmp",43:"fcmp",44:"phi",45:"call",46:"select",
 50:"extractelement",51:"insertelement",52:"shufflevector",53:"extractvalue",54:"insertvalue",68:"freeze",
 55:"fence",56:"cmpxchg",57:"atomicrmw",58:"resume",59:"landingpad"}
ICMP = {32:"eq",33:"ne",34:"ugt",35:"uge",36:"ult",37:"ule",38:"sgt",39:"sge",40:"slt",41:"sle"}
FCMP = {0:"false",1:"oeq",2:"ogt",3:"oge",4:"olt",5:"ole",6:"one",7:"ord",8:"uno",9:"ueq",10:"ugt",11:"uge",12:"ult",13:"ule",14:"une",15:"true"}
# type kinds
TK = {0:"void",1:"half",2:"float",3:"double",7:"label",8:"int",9:"func",10:"struct",11:"array",12:"ptr",13:"vector",14:"metadata",16:"token"}


class Type:
    __slots__ = ("kind", "width", "elems", "offs", "size", "n", "elem", "name")
    def __repr__(self):
        return self.kind + (str(self.width) if self.kind == "int" else "") + (f"[{self.name}]" if self.kind == "struct" else "")


class Value:
    """Operand: kind in {'inst','arg','int','fp','null','undef','func','global','constexpr','agg','block','zero','other'}"""
    __slots__ = ("kind", "type", "v", "name", "key")
    def __repr__(self):
        return f"<{self.kind} {self.v if self.v is not None else self.name}>"


class Inst:
    __slots__ = ("op", "type", "ops", "key", "pred", "incoming", "callee", "args", "succ", "cond", "srcty", "idx",
                 "nsw", "nuw", "line", "name", "cases", "normal", "unwind", "block", "clauses", "text")


class Block:
    __slots__ = ("key", "name", "insts", "preds", "succs", "fn")
    def __repr__(self):
        return f"%{self.name}"


class Function:
    def __init__(self, mod, ref):
        self.mod, self.ref = mod, ref
        n = C.c_size_t()
        self.name = ValName(ref, C.byref(n)).decode()
        self.decl = bool(IsDecl(ref))
        self._blocks = None
    @property
    def dem(self):
        return self.mod.demangled[self.name]
    @functools.cached_property
    def params(self):
        return [self.mod.value(Param(self.ref, i)) for i in range(CountParams(self.ref))]
    @functools.cached_property
    def rettype(self):
        return self.mod.type(RetTy(GVT(self.ref)))
    @property
    def blocks(self):
        if self._blocks is None:
            self._load()
        return self._blocks
    def _load(self):
        m = self.mod
        blocks = []
        bykey = {}
        b = FirstBB(self.ref)
        k = 0
        while b:
            blk = Block()
            blk.key = b
            blk.fn = self
            blk.insts, blk.preds, blk.succs = [], [], []
            n = C.c_size_t()
            nm = ValName(BBasV(b), C.byref(n))
            blk.name = (nm.decode() or f"b{k}")
            k += 1
            bykey[b] = blk
            blocks.append(blk)
            b = NextBB(b)
        for blk in blocks:
            i = FirstI(blk.key)
            while i:
                inst = m.inst(i, bykey)
                inst.block = blk
                blk.insts.append(inst)
                i = NextI(i)
            for s in blk.insts[-1].succ:
                if s not in blk.succs:
                    blk.succs.append(s)
                s.preds.append(blk)
        self._blocks = blocks


class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf, err = P(), cstr()
        if MemBuf(str(path).encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(err.value)
        mod = P()
        if ParseIR(self.ctx, buf, C.byref(mod), C.byref(err)):
            raise RuntimeError(err.value)
        self.mod = mod
        self.td = MkTD(DLStr(mod))
        self._types, self._values = {}, {}
        self.functions = {}
        f = FirstFn(mod)
        refs = []
        while f:
            fn = Function(self, f)
            self.functions[fn.name] = fn
            f = NextFn(f)
        names = list(self.functions)
        out = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        self.demangled = dict(zip(names, out))
        self.bydem = {}
        for n in names:
            self.bydem.setdefault(self.demangled[n], []).append(self.functions[n])

    def global_int(self, name):
        g = NamedGlobal(self.mod, name.encode())
        if not g:
            raise KeyError(name)
        return self.value(GetInit(g)).v
    def type(self, t):
        if t in self._types:
            return self._types[t]
        ty = Type()
        self._types[t] = ty
        k = TK.get(TypeKind(t), "other")
        ty.kind, ty.width, ty.elems, ty.offs, ty.size, ty.n, ty.elem, ty.name = k, None, None, None, None, None, None, None
        if k == "int":
            ty.width = IntW(t)
        if k == "struct":
            ty.elems = [self.type(StructT(t, i)) for i in range(StructN(t))]
            nm = StructName(t)
            ty.name = nm.decode() if nm else ""
            try:
                ty.offs = [OffOf(self.td, t, i) for i in range(len(ty.elems))]
            except Exception:
                ty.offs = None
        if k == "array":
            ty.n = ArrLen(t)
            ty.elem = self.type(ElemTy(t))
        if k in ("int", "ptr", "double", "float", "array") or (k == "struct" and ty.offs is not None):
            if not (k == "struct" and ty.name and len(ty.elems) == 0 and False):
                ty.size = ABISize(self.td, t)
        return ty

    def value(self, v, bykey=None):
        if v in self._values:
            return self._values[v]
        x = Value()
        x.key = v
        x.v = x.name = None
        x.type = self.type(TypeOf(v))
        k = ValKind(v)
        if k == 6:      # constructors are often aliases of each other
            self._values[v] = self.value(Aliasee(v))
            return self._values[v]
        # LLVMValueKind: 0 Argument,1 BasicBlock,2 MemUse..,5 Function,6 GlobalAlias,7 IFunc,8 GlobalVariable,9 BlockAddress,10 ConstantExpr,11 ConstArray,12 ConstStruct,13 ConstVector,14 Undef,15 AggZero,16 DataArray,17 DataVector,18 Int,19 FP,20 PtrNull,21 TokenNone,22 MetadataAsValue,23 InlineAsm,24 Instruction,25 Poison
        if k == 0:
            x.kind = "arg"
        elif k == 1:
            x.kind = "block"
        elif k == 5:
            x.kind = "func"
            n = C.c_size_t()
            x.name = ValName(v, C.byref(n)).decode()
        elif k == 8:
            x.kind = "global"
            n = C.c_size_t()
            x.name = ValName(v, C.byref(n)).decode()
        elif k == 10:
            x.kind = "constexpr"
            x.v = OPC.get(ConstOpc(v), "other")
        elif k in (14, 25):
            x.kind = "undef"
        elif k == 15:
            x.kind = "zero"
        elif k == 18:
            x.kind = "int"
            x.v = SExt(v) if x.type.width <= 64 else None
        elif k == 19:
            x.kind = "fp"
            lost = C.c_int()
            x.v = RealV(v, C.byref(lost))
        elif k == 20:
            x.kind = "null"
        elif k == 24:
            x.kind = "inst"
        elif k in (11, 12, 16):
            x.kind = "agg"
        else:
            x.kind = "other"
        self._values[v] = x
        return x

    def operands(self, v):
        return [self.value(GetOp(v, i)) for i in range(NumOps(v))]

    def text(self, key):
        return PrintV(key).decode()

    def inst(self, i, bykey):
        x = Inst()
        x.key = i
        x.op = OPC.get(Opcode(i), f"op{Opcode(i)}")
        x.type = self.type(TypeOf(i))
        x.line = DbgLine(i)
        n = C.c_size_t()
        nm = ValName(i, C.byref(n))
        x.name = nm.decode() if nm else ""
        x.pred = x.incoming = x.callee = x.args = x.cond = x.srcty = x.idx = x.cases = x.normal = x.unwind = x.clauses = None
        x.succ, x.nsw, x.nuw, x.ops, x.text = [], False, False, [], None
        op = x.op
        if op == "phi":
            x.incoming = [(bykey[IncB(i, k)], self.value(IncV(i, k))) for k in range(CntInc(i))]
        elif op in ("call", "invoke"):
            x.callee = self.value(CalledV(i))
            x.args = [self.value(GetOp(i, k)) for k in range(NumArgOps(i))]
            if op == "invoke":
                x.normal, x.unwind = bykey[NormalDest(i)], bykey[UnwindDest(i)]
                x.succ = [x.normal, x.unwind]
        elif op == "br":
            x.succ = [bykey[Succ(i, k)] for k in range(NumSucc(i))]
            if IsCond(i):
                x.cond = self.value(Cond(i))
        elif op == "switch":
            n = NumOps(i)
            x.cond = self.value(GetOp(i, 0))
            x.succ = [bykey[Succ(i, k)] for k in range(NumSucc(i))]
            x.cases = [(self.value(GetOp(i, 2 * k)), bykey[Succ(i, k)]) for k in range(1, NumSucc(i))]
        else:
            x.ops = self.operands(i)
            if op == "icmp":
                x.pred = ICMP[ICmpP(i)]
            elif op == "fcmp":
                x.pred = FCMP[FCmpP(i)]
            elif op == "gep":
                x.srcty = self.type(GepTy(i))
            elif op == "alloca":
                x.srcty = self.type(AllocTy(i))
            elif op in ("add", "sub", "mul", "shl"):
                x.nsw, x.nuw = bool(GetNSW(i)), bool(GetNUW(i))
            elif op in ("extractvalue", "insertvalue"):
                p = Idxs(i)
                x.idx = [p[k] for k in range(NumIdx(i))]
            elif op == "landingpad":
                x.clauses = NumClauses(i)
        return x


if __name__ == "__main__":
    import sys, time
    t = time.time()
    m = Module(sys.argv[1])
    print(len(m.functions), time.time() - t)
    for d, fs in m.bydem.items():
        if "DurationSegment::" in d:
            print(d, [f.decl for f in fs])
    f = m.bydem["pyvrp::DurationSegment::finaliseBack() const"][0]
    for b in f.blocks:
        print(b.name, [(i.op, i.type) for i in b.insts])
