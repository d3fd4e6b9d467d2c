"""Thin ctypes binding of the LLVM-C API (libLLVM-18), as far as needed to
read a bitcode module."""
import ctypes as C
import glob

_cands = (glob.glob('/usr/lib/llvm-18/lib/libLLVM-18.so*') +
          glob.glob('/usr/lib/llvm-18/lib/libLLVM.so*') +
          glob.glob('/usr/lib/*/libLLVM-18.so*'))
L = C.CDLL(_cands[0])
P = C.c_void_p
U = C.c_uint
S = C.c_char_p


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ContextCreate = _f('LLVMContextCreate', P)
CreateMemBuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, S,
                  C.POINTER(P), C.POINTER(S))
ParseBitcode = _f('LLVMParseBitcodeInContext2', C.c_int, P, P, C.POINTER(P))
FirstFunction = _f('LLVMGetFirstFunction', P, P)
NextFunction = _f('LLVMGetNextFunction', P, P)
FirstGlobal = _f('LLVMGetFirstGlobal', P, P)
NextGlobal = _f('LLVMGetNextGlobal', P, P)
FirstAlias = _f('LLVMGetFirstGlobalAlias', P, P)
NextAlias = _f('LLVMGetNextGlobalAlias', P, P)
AliasGetAliasee = _f('LLVMAliasGetAliasee', P, P)
_GetValueName2 = _f('LLVMGetValueName2', P, P, C.POINTER(C.c_size_t))
IsDeclaration = _f('LLVMIsDeclaration', C.c_int, P)
CountParams = _f('LLVMCountParams', U, P)
GetParam = _f('LLVMGetParam', P, P, U)
FirstBB = _f('LLVMGetFirstBasicBlock', P, P)
NextBB = _f('LLVMGetNextBasicBlock', P, P)
FirstInst = _f('LLVMGetFirstInstruction', P, P)
NextInst = _f('LLVMGetNextInstruction', P, P)
InstOpcode = _f('LLVMGetInstructionOpcode', C.c_int, P)
NumOperands = _f('LLVMGetNumOperands', C.c_int, P)
GetOperand = _f('LLVMGetOperand', P, P, U)
TypeOf = _f('LLVMTypeOf', P, P)
TypeKind = _f('LLVMGetTypeKind', C.c_int, P)
IntWidth = _f('LLVMGetIntTypeWidth', U, P)
ValueKind = _f('LLVMGetValueKind', C.c_int, P)
ConstIntZ = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
ConstRealD = _f('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
ConstOpcode = _f('LLVMGetConstOpcode', C.c_int, P)
AllocatedType = _f('LLVMGetAllocatedType', P, P)
GEPSrcType = _f('LLVMGetGEPSourceElementType', P, P)
NumIndices = _f('LLVMGetNumIndices', U, P)
GetIndices = _f('LLVMGetIndices', C.POINTER(U), P)
ICmpPred = _f('LLVMGetICmpPredicate', C.c_int, P)
FCmpPred = _f('LLVMGetFCmpPredicate', C.c_int, P)
CalledValue = _f('LLVMGetCalledValue', P, P)
CalledFType = _f('LLVMGetCalledFunctionType', P, P)
ReturnType = _f('LLVMGetReturnType', P, P)
NumArgOperands = _f('LLVMGetNumArgOperands', U, P)
NormalDest = _f('LLVMGetNormalDest', P, P)
UnwindDest = _f('LLVMGetUnwindDest', P, P)
NumClauses = _f('LLVMGetNumClauses', U, P)
GetClause = _f('LLVMGetClause', P, P, U)
IsCleanup = _f('LLVMIsCleanup', C.c_int, P)
CountIncoming = _f('LLVMCountIncoming', U, P)
IncomingValue = _f('LLVMGetIncomingValue', P, P, U)
IncomingBlock = _f('LLVMGetIncomingBlock', P, P, U)
NumSuccessors = _f('LLVMGetNumSuccessors', U, P)
GetSuccessor = _f('LLVMGetSuccessor', P, P, U)
IsConditional = _f('LLVMIsConditional', C.c_int, P)
GetCondition = _f('LLVMGetCondition', P, P)
DataLayout = _f('LLVMGetModuleDataLayout', P, P)
OffsetOfElement = _f('LLVMOffsetOfElement', C.c_ulonglong, P, P, U)
ABISize = _f('LLVMABISizeOfType', C.c_ulonglong, P, P)
StoreSize = _f('LLVMStoreSizeOfType', C.c_ulonglong, P, P)
ABIAlign = _f('LLVMABIAlignmentOfType', U, P, P)
GetInitializer = _f('LLVMGetInitializer', P, P)
GlobalValueType = _f('LLVMGlobalGetValueType', P, P)
AggElement = _f('LLVMGetAggregateElement', P, P, U)
IsConstString = _f('LLVMIsConstantString', C.c_int, P)
_GetAsString = _f('LLVMGetAsString', P, P, C.POINTER(C.c_size_t))
ElementType = _f('LLVMGetElementType', P, P)
ArrayLength2 = _f('LLVMGetArrayLength2', C.c_ulonglong, P)
VectorSize = _f('LLVMGetVectorSize', U, P)
CountStructElems = _f('LLVMCountStructElementTypes', U, P)
StructElem = _f('LLVMStructGetTypeAtIndex', P, P, U)
DebugLine = _f('LLVMGetDebugLocLine', U, P)
_DebugFile = _f('LLVMGetDebugLocFilename', P, P, C.POINTER(U))
RMWBinOp = _f('LLVMGetAtomicRMWBinOp', C.c_int, P)
PrintValue = _f('LLVMPrintValueToString', P, P)
PrintType = _f('LLVMPrintTypeToString', P, P)
DisposeMessage = _f('LLVMDisposeMessage', None, P)
AttrKind = _f('LLVMGetEnumAttributeKindForName', U, S, C.c_size_t)
CallSiteAttr = _f('LLVMGetCallSiteEnumAttribute', P, P, U, U)
TypeAttrValue = _f('LLVMGetTypeAttributeValue', P, P)
IsThreadLocal = _f('LLVMIsThreadLocal', C.c_int, P)
GetUndefMaskElem = None
NumMaskElements = _f('LLVMGetNumMaskElements', U, P)
MaskValue = _f('LLVMGetMaskValue', C.c_int, P, U)
BYVAL = AttrKind(b'byval', 5)


def name_of(v):
    n = C.c_size_t()
    p = _GetValueName2(v, C.byref(n))
    return C.string_at(p, n.value).decode()


def const_bytes(v):
    n = C.c_size_t()
    p = _GetAsString(v, C.byref(n))
    return C.string_at(p, n.value)


def print_value(v):
    p = PrintValue(v)
    s = C.string_at(p).decode(errors='replace')
    DisposeMessage(p)
    return s


def print_type(v):
    p = PrintType(v)
    s = C.string_at(p).decode(errors='replace')
    DisposeMessage(p)
    return s


def debug_loc(i):
    n = U()
    p = _DebugFile(i, C.byref(n))
    if not p:
        return None
    return (C.string_at(p, n.value).decode(), DebugLine(i))


def load_module(path):
    ctx = ContextCreate()
    mb = P()
    err = S()
    if CreateMemBuf(path.encode(), C.byref(mb), C.byref(err)):
        raise RuntimeError(err.value)
    m = P()
    if ParseBitcode(ctx, mb, C.byref(m)):
        raise RuntimeError('cannot parse ' + path)
    return m


# LLVMOpcode numbers (llvm-c/Core.h)
OP = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke',
      7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub',
      11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
      17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr',
      23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store',
      29: 'getelementptr', 30: 'trunc', 31: 'zext', 32: 'sext',
      33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc',
      38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast',
      60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
      46: 'select', 49: 'va_arg', 50: 'extractelement', 51: 'insertelement',
      52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue',
      68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw',
      58: 'resume', 59: 'landingpad'}
TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'fp80', 5: 'fp128',
      7: 'label', 8: 'int', 9: 'func', 10: 'struct', 11: 'array', 12: 'ptr',
      13: 'vector', 14: 'metadata', 16: 'token'}
# LLVMValueKind
VK = {0: 'arg', 1: 'bb', 5: 'func', 6: 'alias', 7: 'ifunc', 8: 'gvar',
      9: 'blockaddr', 10: 'cexpr', 11: 'carray', 12: 'cstruct',
      13: 'cvector', 14: 'undef', 15: 'czero', 16: 'cdataarray',
      17: 'cdatavector', 18: 'cint', 19: 'cfp', 20: 'cnull', 21: 'ctoken',
      22: 'metadata', 23: 'asm', 24: 'inst', 25: 'poison'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule',
        38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole',
        6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq', 10: 'ugt', 11: 'uge',
        12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
