"""Reads LLVM bitcode/IR through the LLVM-C API (ctypes, libLLVM-18)."""
import ctypes
import ctypes.util
import glob
import os

_cands = ['/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so',
          '/usr/lib/x86_64-linux-gnu/libLLVM-18.so'] + glob.glob('/usr/lib/llvm-*/lib/libLLVM*.so')
L = None
for _c in _cands:
    if os.path.exists(_c):
        try:
            L = ctypes.CDLL(_c)
            break
        except OSError:
            pass
if L is None:
    raise RuntimeError('libLLVM not found')

P = ctypes.c_void_p
U = ctypes.c_uint
I = ctypes.c_int
S = ctypes.c_char_p
Q = ctypes.c_ulonglong
SZ = ctypes.c_size_t


def fn(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = args
    return f


ContextCreate = fn('LLVMContextCreate', P)
MemBuf = fn('LLVMCreateMemoryBufferWithContentsOfFile', I, S, ctypes.POINTER(P), ctypes.POINTER(S))
ParseIR = fn('LLVMParseIRInContext', I, P, P, ctypes.POINTER(P), ctypes.POINTER(S))
FirstFn = fn('LLVMGetFirstFunction', P, P)
NextFn = fn('LLVMGetNextFunction', P, P)
FirstGl = fn('LLVMGetFirstGlobal', P, P)
NextGl = fn('LLVMGetNextGlobal', P, P)
FirstAlias = fn('LLVMGetFirstGlobalAlias', P, P)
NextAlias = fn('LLVMGetNextGlobalAlias', P, P)
Aliasee = fn('LLVMAliasGetAliasee', P, P)
GetName2 = fn('LLVMGetValueName2', P, P, ctypes.POINTER(SZ))
CountBB = fn('LLVMCountBasicBlocks', U, P)
FirstBB = fn('LLVMGetFirstBasicBlock', P, P)
NextBB = fn('LLVMGetNextBasicBlock', P, P)
FirstI = fn('LLVMGetFirstInstruction', P, P)
NextI = fn('LLVMGetNextInstruction', P, P)
Opcode = fn('LLVMGetInstructionOpcode', I, P)
NumOps = fn('LLVMGetNumOperands', I, P)
Operand = fn('LLVMGetOperand', P, P, U)
TypeOf = fn('LLVMTypeOf', P, P)
TypeKind = fn('LLVMGetTypeKind', I, P)
IntWidth = fn('LLVMGetIntTypeWidth', U, P)
ArrLen = fn('LLVMGetArrayLength2', Q, P)
VecLen = fn('LLVMGetVectorSize', U, P)
ElemTy = fn('LLVMGetElementType', P, P)
StructN = fn('LLVMCountStructElementTypes', U, P)
StructEl = fn('LLVMStructGetTypeAtIndex', P, P, U)
ModDL = fn('LLVMGetModuleDataLayout', P, P)
ABISize = fn('LLVMABISizeOfType', Q, P, P)
StoreSize = fn('LLVMStoreSizeOfType', Q, P, P)
ABIAlign = fn('LLVMABIAlignmentOfType', U, P, P)
OffEl = fn('LLVMOffsetOfElement', Q, P, P, U)
IsConst = fn('LLVMIsConstant', I, P)
ValueKind = fn('LLVMGetValueKind', I, P)
ZExt = fn('LLVMConstIntGetZExtValue', Q, P)
RealVal = fn('LLVMConstRealGetDouble', ctypes.c_double, P, ctypes.POINTER(I))
ConstOp = fn('LLVMGetConstOpcode', I, P)
AggEl = fn('LLVMGetAggregateElement', P, P, U)
Initz = fn('LLVMGetInitializer', P, P)
IsConstGl = fn('LLVMIsGlobalConstant', I, P)
GlobTy = fn('LLVMGlobalGetValueType', P, P)
PrintV = fn('LLVMPrintValueToString', P, P)
DisposeMsg = fn('LLVMDisposeMessage', None, P)
ICmpP = fn('LLVMGetICmpPredicate', I, P)
FCmpP = fn('LLVMGetFCmpPredicate', I, P)
NumSucc = fn('LLVMGetNumSuccessors', U, P)
Succ = fn('LLVMGetSuccessor', P, P, U)
NumInc = fn('LLVMCountIncoming', U, P)
IncV = fn('LLVMGetIncomingValue', P, P, U)
IncB = fn('LLVMGetIncomingBlock', P, P, U)
NumIdx = fn('LLVMGetNumIndices', U, P)
Idx = fn('LLVMGetIndices', ctypes.POINTER(U), P)
GEPTy = fn('LLVMGetGEPSourceElementType', P, P)
AllocTy = fn('LLVMGetAllocatedType', P, P)
Called = fn('LLVMGetCalledValue', P, P)
NumArg = fn('LLVMGetNumArgOperands', U, P)
NormalDest = fn('LLVMGetNormalDest', P, P)
UnwindDest = fn('LLVMGetUnwindDest', P, P)
NumClauses = fn('LLVMGetNumClauses', U, P)
Clause = fn('LLVMGetClause', P, P, U)
IsCleanup = fn('LLVMIsCleanup', I, P)
CountParams = fn('LLVMCountParams', U, P)
Param = fn('LLVMGetParam', P, P, U)
NumMask = fn('LLVMGetNumMaskElements', U, P)
MaskVal = fn('LLVMGetMaskValue', I, P, U)
IsUndef = fn('LLVMIsUndef', I, P)
IsPoison = fn('LLVMIsPoison', I, P)
IsNull = fn('LLVMIsNull', I, P)
RMWOp = fn('LLVMGetAtomicRMWBinOp', I, P)
Ordering = fn('LLVMGetOrdering', I, P)
BBAsValue = fn('LLVMBasicBlockAsValue', P, P)
FnTy = fn('LLVMGlobalGetValueType', P, P)
RetTy = fn('LLVMGetReturnType', P, P)
IsVarArg = fn('LLVMIsFunctionVarArg', I, P)
SwitchDef = fn('LLVMGetSwitchDefaultDest', P, P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr',
       66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv',
       15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr',
       23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc',
       31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc',
       38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp',
       43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence',
       56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
# value kinds
VK = {0: 'arg', 1: 'bb', 5: 'func', 6: 'alias', 7: 'ifunc', 8: 'gvar', 9: 'blockaddr', 10: 'cexpr',
      11: 'carray', 12: 'cstruct', 13: 'cvector', 14: 'undef', 15: 'aggzero', 16: 'cdataarr',
      17: 'cdatavec', 18: 'cint', 19: 'cfp', 20: 'cnull', 21: 'ctoknone', 22: 'md', 23: 'asm',
      24: 'inst', 25: 'poison', 26: 'cttn'}
TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'x86_fp80', 5: 'fp128', 7: 'label', 8: 'int',
      9: 'func', 10: 'struct', 11: 'array', 12: 'ptr', 13: 'vec', 14: 'metadata', 16: 'token'}


class Ty(object):
    __slots__ = ('kind', 'w', 'n', 'el', 'els', 'offs', 'size', 'store', 'align')

    def __repr__(self):
        return '%s%s' % (self.kind, self.w or '')


class Module(object):
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf = P()
        msg = S()
        if MemBuf(path.encode(), ctypes.byref(buf), ctypes.byref(msg)):
            raise RuntimeError('cannot read ' + path)
        m = P()
        if ParseIR(self.ctx, buf, ctypes.byref(m), ctypes.byref(msg)):
            raise RuntimeError('cannot parse IR %s: %s' % (path, msg.value))
        self.m = m.value
        self.dl = ModDL(self.m)
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        f = FirstFn(self.m)
        while f:
            self.funcs[self.name(f)] = f
            f = NextFn(f)
        g = FirstGl(self.m)
        while g:
            self.globals[self.name(g)] = g
            g = NextGl(g)
        a = FirstAlias(self.m)
        while a:
            self.aliases[self.name(a)] = Aliasee(a)
            a = NextAlias(a)

    def name(self, v):
        n = SZ()
        p = GetName2(v, ctypes.byref(n))
        return ctypes.string_at(p, n.value).decode('latin1')

    def text(self, v):
        p = PrintV(v)
        s = ctypes.string_at(p).decode('latin1')
        DisposeMsg(p)
        return s

    def ty(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        r = Ty()
        self.types[t] = r
        k = TK.get(TypeKind(t), '?')
        r.kind = k
        r.w = r.n = r.el = r.els = r.offs = None
        r.size = r.store = r.align = 0
        if k == 'int':
            r.w = IntWidth(t)
        elif k == 'array':
            r.n = ArrLen(t)
            r.el = self.ty(ElemTy(t))
        elif k == 'vec':
            r.n = VecLen(t)
            r.el = self.ty(ElemTy(t))
        elif k == 'struct':
            n = StructN(t)
            r.els = [self.ty(StructEl(t, i)) for i in range(n)]
            try:
                r.offs = [OffEl(self.dl, t, i) for i in range(n)]
            except Exception:
                r.offs = None
        if k in ('int', 'float', 'double', 'x86_fp80', 'ptr', 'array', 'struct', 'vec', 'half', 'fp128'):
            r.size = ABISize(self.dl, t)
            r.store = StoreSize(self.dl, t)
            r.align = ABIAlign(self.dl, t)
        return r
