"""Read LLVM IR (produced by clang from /repo's sources) through libLLVM's C API into
plain Python objects.  Nothing is interpreted here."""
import ctypes as C, os, struct

_CANDS = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1",
          "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "libLLVM-18.so"]
_L = None


def lib():
    global _L
    if _L is None:
        for c in _CANDS:
            try:
                _L = C.CDLL(c)
                break
            except OSError:
                continue
        if _L is None:
            raise RuntimeError("libLLVM-18 not found")
        P = C.c_void_p
        for name, res, args in [
            ("LLVMContextCreate", P, []),
            ("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, [C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p)]),
            ("LLVMParseIRInContext", C.c_int, [P, P, C.POINTER(P), C.POINTER(C.c_char_p)]),
            ("LLVMGetFirstFunction", P, [P]), ("LLVMGetNextFunction", P, [P]),
            ("LLVMGetFirstGlobal", P, [P]), ("LLVMGetNextGlobal", P, [P]),
            ("LLVMGetFirstGlobalAlias", P, [P]), ("LLVMGetNextGlobalAlias", P, [P]), ("LLVMAliasGetAliasee", P, [P]),
            ("LLVMGetValueName2", C.c_void_p, [P, C.POINTER(C.c_size_t)]),
            ("LLVMCountBasicBlocks", C.c_uint, [P]),
            ("LLVMGetFirstBasicBlock", P, [P]), ("LLVMGetNextBasicBlock", P, [P]),
            ("LLVMGetFirstInstruction", P, [P]), ("LLVMGetNextInstruction", P, [P]),
            ("LLVMGetInstructionOpcode", C.c_int, [P]),
            ("LLVMGetNumOperands", C.c_int, [P]), ("LLVMGetOperand", P, [P, C.c_uint]),
            ("LLVMTypeOf", P, [P]), ("LLVMGetTypeKind", C.c_int, [P]),
            ("LLVMGetIntTypeWidth", C.c_uint, [P]),
            ("LLVMCountParams", C.c_uint, [P]), ("LLVMGetParam", P, [P, C.c_uint]),
            ("LLVMGetICmpPredicate", C.c_int, [P]), ("LLVMGetFCmpPredicate", C.c_int, [P]),
            ("LLVMGetCalledValue", P, [P]), ("LLVMGetNumArgOperands", C.c_uint, [P]),
            ("LLVMCountIncoming", C.c_uint, [P]), ("LLVMGetIncomingValue", P, [P, C.c_uint]),
            ("LLVMGetIncomingBlock", P, [P, C.c_uint]),
            ("LLVMGetNormalDest", P, [P]), ("LLVMGetUnwindDest", P, [P]),
            ("LLVMGetNumSuccessors", C.c_uint, [P]), ("LLVMGetSuccessor", P, [P, C.c_uint]),
            ("LLVMIsConditional", C.c_int, [P]),
            ("LLVMGetAllocatedType", P, [P]), ("LLVMGetGEPSourceElementType", P, [P]),
            ("LLVMGetNumIndices", C.c_uint, [P]), ("LLVMGetIndices", C.POINTER(C.c_uint), [P]),
            ("LLVMGetNumMaskElements", C.c_uint, [P]), ("LLVMGetMaskValue", C.c_int, [P, C.c_uint]),
            ("LLVMGetModuleDataLayout", P, [P]), ("LLVMABISizeOfType", C.c_ulonglong, [P, P]),
            ("LLVMStoreSizeOfType", C.c_ulonglong, [P, P]),
            ("LLVMABIAlignmentOfType", C.c_uint, [P, P]),
            ("LLVMOffsetOfElement", C.c_ulonglong, [P, P, C.c_uint]),
            ("LLVMCountStructElementTypes", C.c_uint, [P]), ("LLVMStructGetTypeAtIndex", P, [P, C.c_uint]),
            ("LLVMGetElementType", P, [P]), ("LLVMGetArrayLength2", C.c_uint64, [P]),
            ("LLVMGetVectorSize", C.c_uint, [P]), ("LLVMGetReturnType", P, [P]),
            ("LLVMGlobalGetValueType", P, [P]),
            ("LLVMGetValueKind", C.c_int, [P]),
            ("LLVMConstIntGetSExtValue", C.c_longlong, [P]), ("LLVMConstIntGetZExtValue", C.c_ulonglong, [P]),
            ("LLVMConstRealGetDouble", C.c_double, [P, C.POINTER(C.c_int)]),
            ("LLVMGetConstOpcode", C.c_int, [P]), ("LLVMGetInitializer", P, [P]),
            ("LLVMIsGlobalConstant", C.c_int, [P]),
            ("LLVMGetAggregateElement", P, [P, C.c_uint]),
            ("LLVMIsConstantString", C.c_int, [P]), ("LLVMGetAsString", C.c_void_p, [P, C.POINTER(C.c_size_t)]),
            ("LLVMPrintValueToString", C.c_void_p, [P]), ("LLVMPrintTypeToString", C.c_void_p, [P]),
            ("LLVMGetNumClauses", C.c_uint, [P]), ("LLVMGetClause", P, [P, C.c_uint]), ("LLVMIsCleanup", C.c_int, [P]),
            ("LLVMGetCalledFunctionType", P, [P]),
            ("LLVMGetAtomicRMWBinOp", C.c_int, [P]),
            ("LLVMGetNumOperands", C.c_int, [P]),
            ("LLVMGetSwitchDefaultDest", P, [P]),
            ("LLVMGetInstructionParent", P, [P]),
        ]:
            f = getattr(_L, name)
            f.restype = res
            f.argtypes = args
    return _L


OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub",
       11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi",
       45: "call", 46: "select", 50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue",
       54: "insertvalue", 55: "fence", 56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad",
       60: "addrspacecast", 66: "fneg", 68: "freeze"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
        10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}


class Ty:
    """Structural type: kind in void,int,float,double,ptr,struct,array,vector,other."""
    __slots__ = ("kind", "bits", "elems", "offs", "n", "size", "align", "store")

    def __repr__(self):
        if self.kind == "int":
            return "i%d" % self.bits
        if self.kind in ("array", "vector"):
            return "[%d x %r]" % (self.n, self.elems[0])
        if self.kind == "struct":
            return "{%s}" % ",".join(map(repr, self.elems))
        return self.kind


class Val:
    pass


class Const(Val):
    __slots__ = ("kind", "ty", "v")
    # kind: int(v) fp(v) null undef zero agg(list) global(name) func(name) expr((op, operands, extra)) bytes

    def __init__(s, kind, ty, v=None):
        s.kind, s.ty, s.v = kind, ty, v

    def __repr__(s):
        return "C<%s %r>" % (s.kind, s.v)


class Arg(Val):
    __slots__ = ("idx", "ty")

    def __init__(s, i, ty):
        s.idx, s.ty = i, ty


class Instr(Val):
    __slots__ = ("op", "ty", "ops", "x", "id", "block")

    def __repr__(s):
        return "%%%d=%s" % (s.id, s.op)


class Block:
    __slots__ = ("fn", "idx", "instrs", "doomed", "name", "loop", "phis")


class Function:
    __slots__ = ("name", "args", "blocks", "ret", "module", "loops", "ninst")


class Module:
    def __init__(self, path):
        L = lib()
        ctx = L.LLVMContextCreate()
        buf = C.c_void_p()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("cannot read " + path)
        m = C.c_void_p()
        if L.LLVMParseIRInContext(ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError("cannot parse IR: %r" % msg.value)
        self.L, self.m = L, m
        self.dl = L.LLVMGetModuleDataLayout(m)
        self._ty = {}
        self._const = {}
        self.fnptr = {}
        self.funcs = {}
        self.decls = set()
        self.gptr = {}
        self.aliases = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            n = self._name(f)
            self.fnptr[n] = f
            if L.LLVMCountBasicBlocks(f) == 0:
                self.decls.add(n)
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            self.gptr[self._name(g)] = g
            g = L.LLVMGetNextGlobal(g)
        a = L.LLVMGetFirstGlobalAlias(m)
        while a:
            self.aliases[self._name(a)] = self._name(L.LLVMAliasGetAliasee(a))
            a = L.LLVMGetNextGlobalAlias(a)

    def _name(self, v):
        n = C.c_size_t()
        p = self.L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode() if n.value else ""

    def text(self, v):
        return C.string_at(self.L.LLVMPrintValueToString(v)).decode()

    def ty(self, t):
        r = self._ty.get(t)
        if r is not None:
            return r
        L = self.L
        r = Ty()
        self._ty[t] = r
        k = L.LLVMGetTypeKind(t)
        r.bits = 0; r.elems = []; r.offs = []; r.n = 0; r.size = 0; r.align = 1; r.store = 0
        if k == 0:
            r.kind = "void"
        elif k == 2:
            r.kind = "float"
        elif k == 3:
            r.kind = "double"
        elif k == 8:
            r.kind = "int"; r.bits = L.LLVMGetIntTypeWidth(t)
        elif k == 10:
            r.kind = "struct"
            r.n = L.LLVMCountStructElementTypes(t)
            r.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(r.n)]
            try:
                r.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(r.n)]
            except Exception:
                r.offs = []
        elif k == 11:
            r.kind = "array"; r.n = L.LLVMGetArrayLength2(t); r.elems = [self.ty(L.LLVMGetElementType(t))]
        elif k == 12:
            r.kind = "ptr"
        elif k == 13:
            r.kind = "vector"; r.n = L.LLVMGetVectorSize(t); r.elems = [self.ty(L.LLVMGetElementType(t))]
        else:
            r.kind = "other"
            return r
        if r.kind != "void":
            r.size = L.LLVMABISizeOfType(self.dl, t)
            r.store = L.LLVMStoreSizeOfType(self.dl, t)
            r.align = L.LLVMABIAlignmentOfType(self.dl, t)
        return r

    def const(self, v):
        r = self._const.get(v)
        if r is not None:
            return r
        L = self.L
        k = L.LLVMGetValueKind(v)
        ty = self.ty(L.LLVMTypeOf(v))
        # ValueKinds (LLVM-C): 0 Arg,1 BB,2 MemUse..,5 Function,6 Alias,7 IFunc,8 GlobalVar,9 BlockAddress,10 ConstExpr,
        # 11 ConstArray,12 ConstStruct,13 ConstVector,14 Undef,15 AggZero,16 DataArray,17 DataVector,18 Int,19 FP,
        # 20 NullPtr,21 TokenNone,22 Metadata,23 InlineAsm,24 Instruction,25 Poison,26 TargetNone
        if k == 5:
            r = Const("func", ty, self._name(v))
        elif k == 6:
            r = Const("global", ty, self._name(v))
        elif k == 8:
            r = Const("global", ty, self._name(v))
        elif k == 10:
            op = OPC.get(L.LLVMGetConstOpcode(v), "?")
            ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            extra = self.ty(L.LLVMGetGEPSourceElementType(v)) if op == "gep" else None
            r = Const("expr", ty, (op, ops, extra))
        elif k in (11, 12, 13, 16, 17):
            n = ty.n
            r = Const("agg", ty, [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(n)])
        elif k in (14, 25):
            r = Const("undef", ty)
        elif k == 15:
            r = Const("zero", ty)
        elif k == 18:
            if ty.bits <= 64:
                val = L.LLVMConstIntGetSExtValue(v)
            else:
                s = self.text(v).split()[-1]
                val = int(s)
            r = Const("int", ty, val)
        elif k == 19:
            loses = C.c_int()
            r = Const("fp", ty, L.LLVMConstRealGetDouble(v, C.byref(loses)))
        elif k == 20:
            r = Const("null", ty)
        else:
            r = Const("other", ty, k)
        self._const[v] = r
        return r

    def global_init(self, name):
        g = self.gptr.get(name)
        if g is None:
            return None, None
        ty = self.ty(self.L.LLVMGlobalGetValueType(g))
        i = self.L.LLVMGetInitializer(g)
        return ty, (self.const(i) if i else None)

    def func(self, name):
        name = self.aliases.get(name, name)
        f = self.funcs.get(name)
        if f is not None:
            return f
        if name in self.decls or name not in self.fnptr:
            return None
        L = self.L
        fv = self.fnptr[name]
        F = Function()
        F.name, F.module = name, self
        F.loops = None
        vals = {}
        F.args = []
        for i in range(L.LLVMCountParams(fv)):
            p = L.LLVMGetParam(fv, i)
            a = Arg(i, self.ty(L.LLVMTypeOf(p)))
            vals[p] = a
            F.args.append(a)
        F.blocks = []
        bmap = {}
        b = L.LLVMGetFirstBasicBlock(fv)
        raw = []
        nid = 0
        while b:
            B = Block()
            B.fn, B.idx, B.instrs, B.doomed, B.loop, B.phis = F, len(F.blocks), [], False, None, []
            bmap[b] = B
            F.blocks.append(B)
            i = L.LLVMGetFirstInstruction(b)
            while i:
                I = Instr()
                I.op = OPC.get(L.LLVMGetInstructionOpcode(i), "?%d" % L.LLVMGetInstructionOpcode(i))
                I.id = nid
                nid += 1
                I.block = B
                I.ty = self.ty(L.LLVMTypeOf(i))
                vals[i] = I
                raw.append((i, I))
                B.instrs.append(I)
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        F.ninst = nid

        def V(v):
            if v in vals:
                return vals[v]
            if v in bmap:
                return bmap[v]
            return self.const(v)
        for i, I in raw:
            op = I.op
            I.x = None
            if op == "phi":
                I.ops = []
                I.x = [(V(L.LLVMGetIncomingValue(i, j)), bmap[L.LLVMGetIncomingBlock(i, j)]) for j in range(L.LLVMCountIncoming(i))]
            elif op == "br":
                if L.LLVMIsConditional(i):
                    I.ops = [V(L.LLVMGetOperand(i, 0))]
                    I.x = [bmap[L.LLVMGetSuccessor(i, 0)], bmap[L.LLVMGetSuccessor(i, 1)]]
                else:
                    I.ops = []
                    I.x = [bmap[L.LLVMGetSuccessor(i, 0)]]
            elif op == "switch":
                n = L.LLVMGetNumOperands(i)
                I.ops = [V(L.LLVMGetOperand(i, 0))]
                cases = []
                for j in range(2, n, 2):
                    cases.append((self.const(L.LLVMGetOperand(i, j)).v, bmap[L.LLVMGetOperand(i, j + 1)]))
                I.x = (bmap[L.LLVMGetSwitchDefaultDest(i)], cases)
            elif op in ("call", "invoke"):
                na = L.LLVMGetNumArgOperands(i)
                I.ops = []
                for j in range(na):
                    o = L.LLVMGetOperand(i, j)
                    I.ops.append(V(o) if L.LLVMGetValueKind(o) != 22 else Const("other", None, 22))
                cal = V(L.LLVMGetCalledValue(i))
                if op == "invoke":
                    I.x = (cal, bmap[L.LLVMGetNormalDest(i)], bmap[L.LLVMGetUnwindDest(i)])
                else:
                    I.x = (cal,)
            else:
                I.ops = [V(L.LLVMGetOperand(i, j)) for j in range(L.LLVMGetNumOperands(i))] if op != "landingpad" else []
                if op == "icmp":
                    I.x = ICMP[L.LLVMGetICmpPredicate(i)]
                elif op == "fcmp":
                    I.x = FCMP[L.LLVMGetFCmpPredicate(i)]
                elif op == "alloca":
                    I.x = self.ty(L.LLVMGetAllocatedType(i))
                elif op == "gep":
                    I.x = self.ty(L.LLVMGetGEPSourceElementType(i))
                elif op in ("extractvalue", "insertvalue"):
                    n = L.LLVMGetNumIndices(i)
                    p = L.LLVMGetIndices(i)
                    I.x = [p[j] for j in range(n)]
                elif op == "shufflevector":
                    I.x = [L.LLVMGetMaskValue(i, j) for j in range(L.LLVMGetNumMaskElements(i))]
                elif op == "landingpad":
                    n = L.LLVMGetNumClauses(i)
                    I.x = ([self.const(L.LLVMGetClause(i, j)) for j in range(n)], bool(L.LLVMIsCleanup(i)))
                elif op == "atomicrmw":
                    I.x = L.LLVMGetAtomicRMWBinOp(i)
        for B in F.blocks:
            B.phis = [I for I in B.instrs if I.op == "phi"]
        self.funcs[name] = F
        return F
