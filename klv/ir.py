"""LLVM IR loader (through the LLVM-C API).  Functions are decoded lazily.

The IR is what clang 18 generates from /repo's sources at -O0 (plus mem2reg);
nothing is hand-translated here."""
import ctypes as C
import ctypes.util

_L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so" if __import__("os").path.exists("/usr/lib/llvm-18/lib/libLLVM-18.so") else "libLLVM-18.so.1")
_cxx = C.CDLL("libstdc++.so.6")
P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


U = C.c_uint
S = C.c_char_p
for n, r, a in [
    ("LLVMContextCreate", P, ()),
    ("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, (S, C.POINTER(P), C.POINTER(P))),
    ("LLVMParseIRInContext", C.c_int, (P, P, C.POINTER(P), C.POINTER(P))),
    ("LLVMGetModuleDataLayout", P, (P,)),
    ("LLVMGetFirstFunction", P, (P,)), ("LLVMGetNextFunction", P, (P,)),
    ("LLVMGetFirstGlobal", P, (P,)), ("LLVMGetNextGlobal", P, (P,)),
    ("LLVMGetFirstGlobalAlias", P, (P,)), ("LLVMGetNextGlobalAlias", P, (P,)),
    ("LLVMAliasGetAliasee", P, (P,)),
    ("LLVMGetValueName2", P, (P, C.POINTER(C.c_size_t))),
    ("LLVMIsDeclaration", C.c_int, (P,)),
    ("LLVMGetFirstBasicBlock", P, (P,)), ("LLVMGetNextBasicBlock", P, (P,)),
    ("LLVMGetFirstInstruction", P, (P,)), ("LLVMGetNextInstruction", P, (P,)),
    ("LLVMGetInstructionOpcode", C.c_int, (P,)),
    ("LLVMTypeOf", P, (P,)), ("LLVMGetTypeKind", C.c_int, (P,)),
    ("LLVMGetIntTypeWidth", U, (P,)),
    ("LLVMCountStructElementTypes", U, (P,)), ("LLVMStructGetTypeAtIndex", P, (P, U)),
    ("LLVMGetStructName", S, (P,)),
    ("LLVMGetElementType", P, (P,)), ("LLVMGetArrayLength2", C.c_uint64, (P,)),
    ("LLVMGetVectorSize", U, (P,)),
    ("LLVMGetReturnType", P, (P,)), ("LLVMCountParamTypes", U, (P,)),
    ("LLVMIsFunctionVarArg", C.c_int, (P,)),
    ("LLVMABISizeOfType", C.c_ulonglong, (P, P)), ("LLVMStoreSizeOfType", C.c_ulonglong, (P, P)),
    ("LLVMOffsetOfElement", C.c_ulonglong, (P, P, U)),
    ("LLVMABIAlignmentOfType", U, (P, P)),
    ("LLVMGetNumOperands", C.c_int, (P,)), ("LLVMGetOperand", P, (P, U)),
    ("LLVMGetValueKind", C.c_int, (P,)),
    ("LLVMConstIntGetZExtValue", C.c_ulonglong, (P,)),
    ("LLVMGetConstOpcode", C.c_int, (P,)),
    ("LLVMGetGEPSourceElementType", P, (P,)),
    ("LLVMGetAllocatedType", P, (P,)),
    ("LLVMGetICmpPredicate", C.c_int, (P,)), ("LLVMGetFCmpPredicate", C.c_int, (P,)),
    ("LLVMGetNumSuccessors", U, (P,)), ("LLVMGetSuccessor", P, (P, U)),
    ("LLVMIsConditional", C.c_int, (P,)), ("LLVMGetCondition", P, (P,)),
    ("LLVMCountIncoming", U, (P,)), ("LLVMGetIncomingValue", P, (P, U)), ("LLVMGetIncomingBlock", P, (P, U)),
    ("LLVMGetNumIndices", U, (P,)), ("LLVMGetIndices", C.POINTER(U), (P,)),
    ("LLVMGetNumArgOperands", U, (P,)), ("LLVMGetCalledValue", P, (P,)), ("LLVMGetCalledFunctionType", P, (P,)),
    ("LLVMGetNormalDest", P, (P,)), ("LLVMGetUnwindDest", P, (P,)),
    ("LLVMGetNumClauses", U, (P,)), ("LLVMGetClause", P, (P, U)), ("LLVMIsCleanup", C.c_int, (P,)),
    ("LLVMGetNUW", C.c_int, (P,)), ("LLVMGetNSW", C.c_int, (P,)), ("LLVMGetExact", C.c_int, (P,)),
    ("LLVMIsInBounds", C.c_int, (P,)),
    ("LLVMGetAtomicRMWBinOp", C.c_int, (P,)),
    ("LLVMGetDebugLocLine", U, (P,)), ("LLVMGetDebugLocFilename", P, (P, C.POINTER(U))),
    ("LLVMGetInitializer", P, (P,)), ("LLVMIsGlobalConstant", C.c_int, (P,)),
    ("LLVMGlobalGetValueType", P, (P,)),
    ("LLVMGetAggregateElement", P, (P, U)),
    ("LLVMIsConstantString", C.c_int, (P,)), ("LLVMGetAsString", P, (P, C.POINTER(C.c_size_t))),
    ("LLVMCountParams", U, (P,)), ("LLVMGetParam", P, (P, U)),
    ("LLVMValueAsBasicBlock", P, (P,)), ("LLVMBasicBlockAsValue", P, (P,)),
    ("LLVMPrintValueToString", P, (P,)), ("LLVMPrintTypeToString", P, (P,)), ("LLVMDisposeMessage", None, (P,)),
    ("LLVMGetEnumAttributeKindForName", U, (S, C.c_size_t)),
    ("LLVMGetCallSiteEnumAttribute", P, (P, U, U)), ("LLVMGetTypeAttributeValue", P, (P,)),
    ("LLVMGetEnumAttributeAtIndex", P, (P, U, U)),
    ("LLVMConstRealGetDouble", C.c_double, (P, C.POINTER(C.c_int))),
    ("LLVMIsNull", C.c_int, (P,)),
    ("LLVMGetPersonalityFn", P, (P,)), ("LLVMHasPersonalityFn", C.c_int, (P,)),
    ("LLVMGetSubprogram", P, (P,)), ("LLVMDISubprogramGetLine", U, (P,)),
    ("LLVMIsThreadLocal", C.c_int, (P,)),
    ("LLVMGetLinkage", C.c_int, (P,)), ("LLVMSetValueName2", None, (P, S, C.c_size_t)),
    ("LLVMGetOrdering", C.c_int, (P,)), ("LLVMGetVolatile", C.c_int, (P,)),
]:
    try:
        globals()[n] = _f(n, r, *a)
    except AttributeError:
        globals()[n] = None

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv",
       16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr",
       23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "getelementptr",
       30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp",
       44: "phi", 45: "call", 46: "select", 47: "userop1", 48: "userop2", 49: "vaarg",
       50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue",
       55: "fence", 56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad", 60: "addrspacecast",
       61: "cleanupret", 62: "catchret", 63: "catchpad", 64: "cleanuppad", 65: "catchswitch", 66: "fneg", 68: "freeze"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
RMW = ["xchg", "add", "sub", "and", "nand", "or", "xor", "max", "min", "umax", "umin", "fadd", "fsub", "fmax", "fmin"]

_dm = _cxx.__cxa_demangle
_dm.restype = P
_dm.argtypes = [S, P, P, C.POINTER(C.c_int)]
_libc = C.CDLL(None)
_libc.free.argtypes = [P]
_dcache = {}


def demangle(n):
    r = _dcache.get(n)
    if r is None:
        st = C.c_int()
        p = _dm(n.encode(), None, None, C.byref(st))
        if p:
            r = C.string_at(p).decode()
            _libc.free(p)
        else:
            r = n
        _dcache[n] = r
    return r


class Ty:
    __slots__ = ("k", "w", "elems", "el", "n", "size", "offs", "name", "ret", "params", "vararg")
    # k: void int ptr struct array vector float double func label metadata other

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.w
        if self.k == "struct":
            return "{" + ",".join(map(repr, self.elems)) + "}"
        if self.k == "array":
            return "[%d x %r]" % (self.n, self.el)
        return self.k


class Val:
    """operand"""
    __slots__ = ("k", "ty", "v", "x", "key")
    # k: local(v=key) int null undef func(v=name) global(v=name) expr(v=op,x=operands) agg(v=list) str(v=bytes) fp zero block

    def __repr__(self):
        return "<%s %r %r>" % (self.k, self.ty, self.v)


class Inst:
    __slots__ = ("op", "ty", "ops", "x", "line", "file", "key", "blk", "idx")

    def __repr__(self):
        return "<%s @%s:%s>" % (self.op, self.file, self.line)


class Block:
    __slots__ = ("id", "insts", "succs", "preds", "phis", "fn")

    def __repr__(self):
        return "bb%d" % self.id


class Func:
    __slots__ = ("mod", "ref", "name", "dname", "decl", "blocks", "params", "loops", "_dec", "headers", "retty", "byval", "vararg", "file", "line", "nounwind")

    def __repr__(self):
        return "<fn %s>" % self.dname


class Module:
    def __init__(self, path):
        ctx = LLVMContextCreate()
        buf, msg = P(), P()
        if LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("cannot read " + path)
        m = P()
        if LLVMParseIRInContext(ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError("parse " + C.string_at(msg).decode())
        self.m = m
        self.path = path
        self.dl = LLVMGetModuleDataLayout(m)
        self._ty = {}
        self._val = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        f = LLVMGetFirstFunction(m)
        while f:
            fn = Func()
            fn.mod, fn.ref, fn.name = self, f, self._name(f)
            fn.dname = demangle(fn.name)
            fn.decl = bool(LLVMIsDeclaration(f))
            fn._dec = False
            self.funcs[fn.name] = fn
            f = LLVMGetNextFunction(f)
        g = LLVMGetFirstGlobal(m)
        while g:
            self.globals[self._name(g)] = g
            g = LLVMGetNextGlobal(g)
        a = LLVMGetFirstGlobalAlias(m)
        while a:
            self.aliases[self._name(a)] = a
            a = LLVMGetNextGlobalAlias(a)
        self._attr_byval = LLVMGetEnumAttributeKindForName(b"byval", 5)

    def rename_internal(self, taken, tag):
        """internal symbols whose name another module uses too get a name of their own"""
        for tab in (self.globals, self.funcs):
            for n in list(tab):
                x = tab[n]
                ref = x.ref if tab is self.funcs else x
                if n in taken and LLVMGetLinkage(ref) in (8, 9) and not (tab is self.funcs and x.decl):
                    new = "%s.%s" % (n, tag)
                    b = new.encode()
                    LLVMSetValueName2(ref, b, len(b))
                    tab[new] = tab.pop(n)
                    if tab is self.funcs:
                        x.name = new

    def _name(self, v):
        n = C.c_size_t()
        p = LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode("utf8", "replace") if p else ""

    def ty(self, ref):
        t = self._ty.get(ref)
        if t is not None:
            return t
        t = Ty()
        self._ty[ref] = t
        kind = LLVMGetTypeKind(ref)
        t.w = t.elems = t.el = t.n = t.offs = t.name = t.ret = t.params = None
        t.size = 0
        if kind == 0:
            t.k = "void"
        elif kind == 8:
            t.k = "int"
            t.w = LLVMGetIntTypeWidth(ref)
            t.size = int(LLVMABISizeOfType(self.dl, ref))
        elif kind == 12:
            t.k = "ptr"
            t.size = 8
        elif kind == 10:
            t.k = "struct"
            nm = LLVMGetStructName(ref)
            t.name = nm.decode() if nm else None
            n = LLVMCountStructElementTypes(ref)
            t.elems = [self.ty(LLVMStructGetTypeAtIndex(ref, i)) for i in range(n)]
            try:
                t.size = int(LLVMABISizeOfType(self.dl, ref))
                t.offs = [int(LLVMOffsetOfElement(self.dl, ref, i)) for i in range(n)]
            except Exception:
                t.size = 0
        elif kind == 11:
            t.k = "array"
            t.el = self.ty(LLVMGetElementType(ref))
            t.n = int(LLVMGetArrayLength2(ref))
            t.size = t.el.size * t.n
        elif kind == 13:
            t.k = "vector"
            t.el = self.ty(LLVMGetElementType(ref))
            t.n = LLVMGetVectorSize(ref)
            t.size = int(LLVMABISizeOfType(self.dl, ref))
        elif kind == 2:
            t.k = "float"
            t.w, t.size = 32, 4
        elif kind == 3:
            t.k = "double"
            t.w, t.size = 64, 8
        elif kind == 4:
            t.k = "x86fp80"
            t.w, t.size = 80, 16
        elif kind == 9:
            t.k = "func"
            t.ret = self.ty(LLVMGetReturnType(ref))
            t.vararg = bool(LLVMIsFunctionVarArg(ref))
        elif kind == 7:
            t.k = "label"
        else:
            t.k = "other%d" % kind
        return t

    def val(self, ref):
        v = self._val.get(ref)
        if v is not None:
            return v
        v = Val()
        self._val[ref] = v
        k = LLVMGetValueKind(ref)
        v.key = ref
        v.x = None
        v.v = None
        v.ty = self.ty(LLVMTypeOf(ref)) if k not in (1,) else None
        # LLVMValueKind (LLVM 18): 0 Argument,1 BasicBlock,2 MemUse,3 MemDef,4 MemPhi,5 Function,6 GlobalAlias,7 IFunc,
        # 8 GlobalVariable,9 BlockAddress,10 ConstantExpr,11 ConstantArray,12 ConstantStruct,13 ConstantVector,
        # 14 UndefValue,15 AggregateZero,16 DataArray,17 DataVector,18 Int,19 FP,20 PointerNull,21 TokenNone,
        # 22 Metadata, 23 InlineAsm, 24 Instruction, 25 Poison, 26 TargetNone
        if k in (0, 24):
            v.k = "local"
            v.v = ref
        elif k == 5:
            v.k = "func"
            v.v = self._name(ref)
        elif k == 6:
            a = self.val(LLVMAliasGetAliasee(ref))
            v.k, v.v, v.x = a.k, a.v, a.x
        elif k == 8:
            v.k = "global"
            v.v = self._name(ref)
        elif k == 10:
            v.k = "expr"
            v.v = OPC.get(LLVMGetConstOpcode(ref))
            ops = [self.val(LLVMGetOperand(ref, i)) for i in range(LLVMGetNumOperands(ref))]
            x = None
            if v.v == "getelementptr":
                x = self.ty(LLVMGetGEPSourceElementType(ref))
            elif v.v == "icmp":
                x = ICMP[LLVMGetICmpPredicate(ref)]
            v.x = (ops, x)
        elif k in (11, 12, 13):
            v.k = "agg"
            v.v = [self.val(LLVMGetOperand(ref, i)) for i in range(LLVMGetNumOperands(ref))]
        elif k in (14, 25):
            v.k = "undef"
        elif k == 15:
            v.k = "zero"
        elif k in (16, 17):
            n = v.ty.n
            if v.ty.el.k == "int" and v.ty.el.w == 8 and k == 16:
                ln = C.c_size_t()
                p = LLVMGetAsString(ref, C.byref(ln))
                v.k = "str"
                v.v = C.string_at(p, ln.value)
                if len(v.v) < n:
                    v.v = v.v + b"\0" * (n - len(v.v))
            else:
                v.k = "agg"
                v.v = [self.val(LLVMGetAggregateElement(ref, i)) for i in range(n)]
        elif k == 18:
            if v.ty.w > 64:
                v.k = "int"
                p = LLVMPrintValueToString(ref)
                s = C.string_at(p).decode().split()[-1]
                v.v = int(s) & ((1 << v.ty.w) - 1)
            else:
                v.k = "int"
                v.v = int(LLVMConstIntGetZExtValue(ref))
        elif k == 19:
            v.k = "fp"
            li = C.c_int()
            v.v = LLVMConstRealGetDouble(ref, C.byref(li))
        elif k == 20:
            v.k = "null"
        elif k == 1:
            v.k = "block"
            v.v = LLVMValueAsBasicBlock(ref)
        elif k == 23:
            v.k = "asm"
        elif k == 22:
            v.k = "metadata"
        else:
            v.k = "other%d" % k
        return v

    def load_fn(self, fn):
        if fn._dec:
            return fn
        fn._dec = True
        ft = self.ty(LLVMGlobalGetValueType(fn.ref))
        fn.retty = ft.ret
        fn.vararg = ft.vararg
        fn.params = []
        fn.byval = {}
        for i in range(LLVMCountParams(fn.ref)):
            pr = LLVMGetParam(fn.ref, i)
            v = self.val(pr)
            fn.params.append(v)
            at = LLVMGetEnumAttributeAtIndex(fn.ref, i + 1, self._attr_byval)
            if at:
                fn.byval[i] = self.ty(LLVMGetTypeAttributeValue(at))
        fn.blocks = []
        fn.file = None
        fn.line = 0
        bmap = {}
        b = LLVMGetFirstBasicBlock(fn.ref)
        while b:
            bb = Block()
            bb.id = len(fn.blocks)
            bb.fn = fn
            bb.preds, bb.succs, bb.insts, bb.phis = [], [], [], []
            bmap[b] = bb
            fn.blocks.append(bb)
            b = LLVMGetNextBasicBlock(b)
        for b, bb in bmap.items():
            i = LLVMGetFirstInstruction(b)
            while i:
                ins = self._inst(i, bmap)
                ins.blk = bb
                if ins.op == "phi":
                    bb.phis.append(ins)
                else:
                    bb.insts.append(ins)
                if ins.line and fn.file is None and ins.file:
                    fn.file, fn.line = ins.file, ins.line
                i = LLVMGetNextInstruction(i)
            for n, ins in enumerate(bb.insts):
                ins.idx = n
        for bb in fn.blocks:
            t = bb.insts[-1]
            if t.op == "br":
                bb.succs = [s for s in t.x["succs"]]
            elif t.op == "switch":
                bb.succs = list(t.x["succs"])
            elif t.op == "invoke":
                bb.succs = [t.x["normal"], t.x["unwind"]]
            for s in bb.succs:
                s.preds.append(bb)
        fn.loops = None
        return fn

    def _inst(self, r, bmap):
        ins = Inst()
        op = OPC.get(LLVMGetInstructionOpcode(r), "?%d" % LLVMGetInstructionOpcode(r))
        ins.op = op
        ins.key = r
        ins.ty = self.ty(LLVMTypeOf(r))
        ins.line = LLVMGetDebugLocLine(r)
        n = U()
        fnm = LLVMGetDebugLocFilename(r, C.byref(n)) if ins.line else None
        ins.file = C.string_at(fnm, n.value).decode() if fnm else None
        x = {}
        ins.x = x
        ops = []
        if op == "br":
            x["succs"] = [bmap[LLVMGetSuccessor(r, i)] for i in range(LLVMGetNumSuccessors(r))]
            if LLVMIsConditional(r):
                ops = [self.val(LLVMGetCondition(r))]
        elif op == "switch":
            no = LLVMGetNumOperands(r)
            ops = [self.val(LLVMGetOperand(r, 0))]
            succs = [bmap[LLVMGetSuccessor(r, i)] for i in range(LLVMGetNumSuccessors(r))]
            x["succs"] = succs
            x["default"] = succs[0]
            x["cases"] = []
            for j in range(2, no, 2):
                cv = self.val(LLVMGetOperand(r, j))
                blk = bmap[LLVMValueAsBasicBlock(LLVMGetOperand(r, j + 1))]
                x["cases"].append((cv.v, blk))
        elif op == "phi":
            x["in"] = [(bmap[LLVMGetIncomingBlock(r, i)], self.val(LLVMGetIncomingValue(r, i))) for i in range(LLVMCountIncoming(r))]
        elif op in ("call", "invoke"):
            na = LLVMGetNumArgOperands(r)
            ops = [self.val(LLVMGetOperand(r, i)) for i in range(na)]
            x["callee"] = self.val(LLVMGetCalledValue(r))
            x["fty"] = self.ty(LLVMGetCalledFunctionType(r))
            bv = {}
            for i in range(na):
                at = LLVMGetCallSiteEnumAttribute(r, i + 1, self._attr_byval)
                if at:
                    bv[i] = self.ty(LLVMGetTypeAttributeValue(at))
            x["byval"] = bv
            if op == "invoke":
                x["normal"] = bmap[LLVMGetNormalDest(r)]
                x["unwind"] = bmap[LLVMGetUnwindDest(r)]
        elif op == "landingpad":
            x["cleanup"] = bool(LLVMIsCleanup(r))
            x["clauses"] = [self.val(LLVMGetClause(r, i)) for i in range(LLVMGetNumClauses(r))]
        elif op in ("extractvalue", "insertvalue"):
            k = LLVMGetNumIndices(r)
            p = LLVMGetIndices(r)
            x["idx"] = [p[i] for i in range(k)]
            ops = [self.val(LLVMGetOperand(r, i)) for i in range(LLVMGetNumOperands(r))]
        elif op == "getelementptr":
            x["src"] = self.ty(LLVMGetGEPSourceElementType(r))
            x["inbounds"] = bool(LLVMIsInBounds(r))
            ops = [self.val(LLVMGetOperand(r, i)) for i in range(LLVMGetNumOperands(r))]
        elif op == "alloca":
            x["aty"] = self.ty(LLVMGetAllocatedType(r))
            ops = [self.val(LLVMGetOperand(r, 0))]
        elif op == "icmp":
            x["pred"] = ICMP[LLVMGetICmpPredicate(r)]
            ops = [self.val(LLVMGetOperand(r, i)) for i in range(2)]
        elif op == "fcmp":
            x["pred"] = LLVMGetFCmpPredicate(r)
            ops = [self.val(LLVMGetOperand(r, i)) for i in range(2)]
        elif op == "atomicrmw":
            x["bin"] = RMW[LLVMGetAtomicRMWBinOp(r)]
            ops = [self.val(LLVMGetOperand(r, i)) for i in range(2)]
        else:
            ops = [self.val(LLVMGetOperand(r, i)) for i in range(LLVMGetNumOperands(r))]
            if op in ("add", "sub", "mul", "shl"):
                x["nsw"] = bool(LLVMGetNSW(r))
                x["nuw"] = bool(LLVMGetNUW(r))
        ins.ops = ops
        return ins

    def find(self, pred):
        """functions whose demangled name satisfies pred / matches regex"""
        import re
        if isinstance(pred, str):
            rx = re.compile(pred)
            return [f for f in self.funcs.values() if rx.search(f.dname)]
        return [f for f in self.funcs.values() if pred(f)]


class Loop:
    __slots__ = ("header", "blocks", "parent")


def loops_of(fn):
    if fn.loops is not None:
        return fn.loops
    blocks = fn.blocks
    entry = blocks[0]
    # dominators (iterative)
    order, seen = [], set()
    st = [(entry, iter(entry.succs))]
    seen.add(entry.id)
    while st:
        b, it = st[-1]
        for s in it:
            if s.id not in seen:
                seen.add(s.id)
                st.append((s, iter(s.succs)))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    allb = {b.id for b in order}
    dom = {b.id: set(allb) for b in order}
    dom[entry.id] = {entry.id}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [dom[p.id] for p in b.preds if p.id in allb]
            nd = set.intersection(*ps) if ps else set()
            nd = nd | {b.id}
            if nd != dom[b.id]:
                dom[b.id] = nd
                ch = True
    loops = {}
    for b in order:
        for s in b.succs:
            if s.id in dom[b.id]:
                L = loops.get(s.id)
                if L is None:
                    L = Loop()
                    L.header = s
                    L.blocks = {s.id}
                    loops[s.id] = L
                # collect
                wl = [b]
                while wl:
                    q = wl.pop()
                    if q.id not in L.blocks:
                        L.blocks.add(q.id)
                        wl.extend(p for p in q.preds if p.id in allb)
    fn.loops = loops
    return loops
