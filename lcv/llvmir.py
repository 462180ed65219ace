"""Loader: LLVM bitcode/IR (LLVM 18, through the C API) -> plain Python structures."""
import ctypes, struct
from fractions import Fraction

L = ctypes.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")
P = ctypes.c_void_p
U = ctypes.c_uint


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


CtxCreate = _f("LLVMContextCreate", P)
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", ctypes.c_int, ctypes.c_char_p, ctypes.POINTER(P), ctypes.POINTER(ctypes.c_char_p))
ParseIR = _f("LLVMParseIRInContext", ctypes.c_int, P, P, ctypes.POINTER(P), ctypes.POINTER(ctypes.c_char_p))
DataLayout = _f("LLVMGetModuleDataLayout", P, P)
FirstFunction = _f("LLVMGetFirstFunction", P, P)
NextFunction = _f("LLVMGetNextFunction", P, P)
FirstGlobal = _f("LLVMGetFirstGlobal", P, P)
NextGlobal = _f("LLVMGetNextGlobal", P, P)
FirstAlias = _f("LLVMGetFirstGlobalAlias", P, P)
NextAlias = _f("LLVMGetNextGlobalAlias", P, P)
Aliasee = _f("LLVMAliasGetAliasee", P, P)
GetInitializer = _f("LLVMGetInitializer", P, P)
IsDeclaration = _f("LLVMIsDeclaration", ctypes.c_int, P)
IsGlobalConstant = _f("LLVMIsGlobalConstant", ctypes.c_int, P)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
ValueName2 = _f("LLVMGetValueName2", P, P, ctypes.POINTER(ctypes.c_size_t))
CountParams = _f("LLVMCountParams", U, P)
GetParam = _f("LLVMGetParam", P, P, U)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
BBAsValue = _f("LLVMBasicBlockAsValue", P, P)
ValueAsBB = _f("LLVMValueAsBasicBlock", P, P)
FirstInst = _f("LLVMGetFirstInstruction", P, P)
NextInst = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", ctypes.c_int, P)
NumOperands = _f("LLVMGetNumOperands", ctypes.c_int, P)
GetOperand = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", ctypes.c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", U, P)
ElementType = _f("LLVMGetElementType", P, P)
ArrayLength = _f("LLVMGetArrayLength2", ctypes.c_uint64, P)
VectorSize = _f("LLVMGetVectorSize", U, P)
CountStruct = _f("LLVMCountStructElementTypes", U, P)
StructElt = _f("LLVMStructGetTypeAtIndex", P, P, U)
OffsetOfElt = _f("LLVMOffsetOfElement", ctypes.c_ulonglong, P, P, U)
ABISize = _f("LLVMABISizeOfType", ctypes.c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", ctypes.c_ulonglong, P, P)
TypeIsSized = _f("LLVMTypeIsSized", ctypes.c_int, P)
ValueKind = _f("LLVMGetValueKind", ctypes.c_int, P)
ICmpPred = _f("LLVMGetICmpPredicate", ctypes.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", ctypes.c_int, P)
ConstZExt = _f("LLVMConstIntGetZExtValue", ctypes.c_ulonglong, P)
ConstReal = _f("LLVMConstRealGetDouble", ctypes.c_double, P, ctypes.POINTER(ctypes.c_int))
ConstOpcode = _f("LLVMGetConstOpcode", ctypes.c_int, P)
GEPSrcElt = _f("LLVMGetGEPSourceElementType", P, P)
NumIndices = _f("LLVMGetNumIndices", U, P)
GetIndices = _f("LLVMGetIndices", ctypes.POINTER(U), P)
NumMask = _f("LLVMGetNumMaskElements", U, P)
MaskValue = _f("LLVMGetMaskValue", ctypes.c_int, P, U)
AllocatedType = _f("LLVMGetAllocatedType", P, P)
CalledValue = _f("LLVMGetCalledValue", P, P)
NumArgOps = _f("LLVMGetNumArgOperands", U, P)
CountIncoming = _f("LLVMCountIncoming", U, P)
IncomingValue = _f("LLVMGetIncomingValue", P, P, U)
IncomingBlock = _f("LLVMGetIncomingBlock", P, P, U)
InstParent = _f("LLVMGetInstructionParent", P, P)
NormalDest = _f("LLVMGetNormalDest", P, P)
UnwindDest = _f("LLVMGetUnwindDest", P, P)
DataElt = _f("LLVMGetElementAsConstant", P, P, U)
AggElt = _f("LLVMGetAggregateElement", P, P, U)
RMWOp = _f("LLVMGetAtomicRMWBinOp", ctypes.c_int, P)
PrintVal = _f("LLVMPrintValueToString", ctypes.c_char_p, P)
FnReturnType = _f("LLVMGetReturnType", P, P)
IsConditional = _f("LLVMIsConditional", ctypes.c_int, P)

OPS = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub',
       12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr',
       22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext',
       32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence',
       56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq', 10: 'ugt',
        11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}


class Ty:
    __slots__ = ('k', 'w', 'elts', 'offs', 'n', 'size', 'ssize')

    def __repr__(s):
        return f"{s.k}{s.w if s.k == 'int' else ''}"


class Inst:
    __slots__ = ('op', 'id', 'ty', 'a', 'x', 'txt')


class Block:
    __slots__ = ('name', 'idx', 'phis', 'insts', 'succs')


class Func:
    __slots__ = ('name', 'params', 'blocks', 'decl', 'rettype', 'ref', 'loaded', 'info', 'ninst')


class GVar:
    __slots__ = ('name', 'ty', 'init', 'const', 'ref')


class Module:
    def __init__(self, path):
        self.ctx = CtxCreate()
        mb = P()
        err = ctypes.c_char_p()
        if MemBuf(path.encode(), ctypes.byref(mb), ctypes.byref(err)):
            raise RuntimeError(err.value)
        m = P()
        if ParseIR(self.ctx, mb, ctypes.byref(m), ctypes.byref(err)):
            raise RuntimeError(err.value)
        self.m = m
        self.dl = DataLayout(m)
        self._ty = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        f = FirstFunction(m)
        while f:
            fn = Func()
            fn.name = self.name(f)
            fn.ref = f
            fn.decl = bool(IsDeclaration(f))
            fn.loaded = False
            fn.blocks = None
            fn.info = None
            fn.rettype = self.ty(FnReturnType(GlobalValueType(f)))
            self.funcs[fn.name] = fn
            f = NextFunction(f)
        g = FirstGlobal(m)
        while g:
            gv = GVar()
            gv.name = self.name(g)
            gv.ref = g
            gv.ty = self.ty(GlobalValueType(g))
            gv.const = bool(IsGlobalConstant(g))
            gv.init = None if IsDeclaration(g) else GetInitializer(g)
            self.globals[gv.name] = gv
            g = NextGlobal(g)
        a = FirstAlias(m)
        while a:
            self.aliases[self.name(a)] = Aliasee(a)
            a = NextAlias(a)
        self._cc = {}

    def name(self, v):
        n = ctypes.c_size_t()
        p = ValueName2(v, ctypes.byref(n))
        return ctypes.string_at(p, n.value).decode()

    def ty(self, t):
        r = self._ty.get(t)
        if r is not None:
            return r
        k = TypeKind(t)
        r = Ty()
        self._ty[t] = r
        r.w = 0
        r.elts = r.offs = None
        r.n = 0
        r.size = 0
        r.ssize = 0
        if k == 0:
            r.k = 'void'
        elif k == 2:
            r.k = 'float'; r.w = 32
        elif k == 3:
            r.k = 'double'; r.w = 64
        elif k == 4:
            r.k = 'x86_fp80'; r.w = 80
        elif k == 8:
            r.k = 'int'; r.w = IntWidth(t)
        elif k == 10:
            r.k = 'struct'
            n = CountStruct(t)
            r.elts = [self.ty(StructElt(t, i)) for i in range(n)]
            if TypeIsSized(t):
                r.offs = [OffsetOfElt(self.dl, t, i) for i in range(n)]
        elif k == 11:
            r.k = 'array'
            r.elts = [self.ty(ElementType(t))]
            r.n = ArrayLength(t)
        elif k == 12:
            r.k = 'ptr'; r.w = 64
        elif k == 13:
            r.k = 'vector'
            r.elts = [self.ty(ElementType(t))]
            r.n = VectorSize(t)
        elif k == 9:
            r.k = 'func'
        else:
            r.k = 'other%d' % k
        if r.k in ('float', 'double', 'int', 'struct', 'array', 'ptr', 'vector', 'x86_fp80') and TypeIsSized(t):
            r.size = ABISize(self.dl, t)
            r.ssize = StoreSize(self.dl, t)
        return r

    # ---- constants -> tagged tuples
    def const(self, v):
        r = self._cc.get(v)
        if r is None:
            r = self._const(v)
            self._cc[v] = r
        return r

    def _const(self, v):
        k = ValueKind(v)
        t = self.ty(TypeOf(v))
        if k == 18:
            if t.w > 64:
                s = PrintVal(v).decode().split()[-1]
                return ('int', int(s) & ((1 << t.w) - 1), t)
            return ('int', ConstZExt(v) & ((1 << t.w) - 1), t)
        if k == 19:
            lossy = ctypes.c_int()
            return ('fp', ConstReal(v, ctypes.byref(lossy)), t)
        if k == 20:
            return ('null', None, t)
        if k in (14, 25):
            return ('undef', None, t)
        if k == 15:
            return ('zero', None, t)
        if k == 5:
            return ('func', self.name(v), t)
        if k == 8:
            return ('global', self.name(v), t)
        if k == 6:
            return self.const(Aliasee(v))
        if k in (11, 12, 13, 16, 17):
            n = t.n if t.k in ('array', 'vector') else len(t.elts)
            out = []
            for i in range(n):
                out.append(self.const(AggElt(v, i)))
            return ('agg', out, t)
        if k == 10:
            op = OPS.get(ConstOpcode(v), '?')
            n = NumOperands(v)
            ops = [self.const(GetOperand(v, i)) for i in range(n)]
            if op == 'gep':
                return ('ce', ('gep', self.ty(GEPSrcElt(v)), ops), t)
            if op == 'icmp':
                return ('ce', ('icmp', ICMP[ICmpPred(v)], ops), t)
            return ('ce', (op, None, ops), t)
        if k in (22, 23):
            return ('meta', None, t)
        if k == 4:
            return ('meta', None, t)
        raise NotImplementedError("const kind %d" % k)

    def operand(self, v, ids):
        i = ids.get(v)
        if i is not None:
            return i
        return self.const(v)

    def load(self, fn):
        """decode the body of a function (lazily)"""
        if fn.loaded:
            return fn
        fn.loaded = True
        f = fn.ref
        ids = {}
        n = 0
        fn.params = []
        for i in range(CountParams(f)):
            p = GetParam(f, i)
            ids[p] = n
            fn.params.append((n, self.ty(TypeOf(p))))
            n += 1
        bbs = []
        bidx = {}
        b = FirstBB(f)
        while b:
            bidx[b] = len(bbs)
            bbs.append(b)
            b = NextBB(b)
        raw = []
        for b in bbs:
            i = FirstInst(b)
            lst = []
            while i:
                ids[i] = n
                n += 1
                lst.append(i)
                i = NextInst(i)
            raw.append(lst)
        fn.blocks = []
        fn.ninst = n
        for bi, b in enumerate(bbs):
            B = Block()
            B.name = self.name(BBAsValue(b))
            B.idx = bi
            B.phis = []
            B.insts = []
            B.succs = []
            for i in raw[bi]:
                I = Inst()
                I.op = OPS.get(Opcode(i), 'op%d' % Opcode(i))
                I.id = ids[i]
                I.ty = self.ty(TypeOf(i))
                I.x = None
                I.txt = None
                op = I.op
                if op == 'phi':
                    I.a = {}
                    for k in range(CountIncoming(i)):
                        I.a[bidx[IncomingBlock(i, k)]] = self.operand(IncomingValue(i, k), ids)
                    B.phis.append(I)
                    continue
                nops = NumOperands(i)
                if op == 'br':
                    if IsConditional(i):
                        # operands: cond, false, true
                        I.a = [self.operand(GetOperand(i, 0), ids)]
                        I.x = (bidx[ValueAsBB(GetOperand(i, 2))], bidx[ValueAsBB(GetOperand(i, 1))])
                        B.succs = list(I.x)
                    else:
                        I.a = []
                        I.x = (bidx[ValueAsBB(GetOperand(i, 0))],)
                        B.succs = [I.x[0]]
                elif op == 'switch':
                    I.a = [self.operand(GetOperand(i, 0), ids)]
                    cases = []
                    for k in range(2, nops, 2):
                        cases.append((self.const(GetOperand(i, k))[1], bidx[ValueAsBB(GetOperand(i, k + 1))]))
                    I.x = (bidx[ValueAsBB(GetOperand(i, 1))], cases)
                    B.succs = [I.x[0]] + [c[1] for c in cases]
                elif op in ('call', 'invoke'):
                    na = NumArgOps(i)
                    cv = CalledValue(i)
                    callee = self.operand(cv, ids)
                    args = []
                    for k in range(na):
                        o = GetOperand(i, k)
                        args.append((self.operand(o, ids), self.ty(TypeOf(o))))
                    I.a = args
                    if op == 'invoke':
                        nd = bidx[NormalDest(i)]
                        I.x = (callee, nd)
                        B.succs = [nd, bidx[UnwindDest(i)]]
                    else:
                        I.x = (callee, None)
                elif op == 'gep':
                    I.a = [self.operand(GetOperand(i, k), ids) for k in range(nops)]
                    I.x = self.ty(GEPSrcElt(i)), [self.ty(TypeOf(GetOperand(i, k))) for k in range(nops)]
                elif op == 'alloca':
                    I.a = [self.operand(GetOperand(i, 0), ids)]
                    I.x = self.ty(AllocatedType(i))
                elif op in ('icmp', 'fcmp'):
                    I.a = [self.operand(GetOperand(i, 0), ids), self.operand(GetOperand(i, 1), ids)]
                    I.x = ((ICMP[ICmpPred(i)] if op == 'icmp' else FCMP[FCmpPred(i)]), self.ty(TypeOf(GetOperand(i, 0))))
                elif op in ('extractvalue', 'insertvalue'):
                    I.a = [self.operand(GetOperand(i, k), ids) for k in range(nops)]
                    p = GetIndices(i)
                    I.x = [p[k] for k in range(NumIndices(i))]
                elif op == 'shufflevector':
                    I.a = [self.operand(GetOperand(i, k), ids) for k in range(2)]
                    I.x = [MaskValue(i, k) for k in range(NumMask(i))]
                elif op == 'atomicrmw':
                    I.a = [self.operand(GetOperand(i, k), ids) for k in range(nops)]
                    I.x = RMWOp(i)
                elif op in ('landingpad',):
                    I.a = []
                else:
                    I.a = [self.operand(GetOperand(i, k), ids) for k in range(nops)]
                    I.x = [self.ty(TypeOf(GetOperand(i, k))) for k in range(nops)]
                B.insts.append(I)
            fn.blocks.append(B)
        return fn
