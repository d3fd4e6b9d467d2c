"""Lazy decoder: LLVM bitcode -> compact Python instruction objects."""
import re
import subprocess
import numpy as np
from . import llvmc as L

VOID = ('void',)
PTR = ('p',)


def fp80_from_hex(h):
    v = int(h, 16)
    sign = v >> 79
    exp = (v >> 64) & 0x7fff
    man = v & ((1 << 64) - 1)
    if exp == 0x7fff:
        r = np.longdouble('inf') if man == 1 << 63 else np.longdouble('nan')
    else:
        r = np.ldexp(np.longdouble(np.uint64(man)), exp - 16383 - 63)
    return -r if sign else r


class Inst:
    __slots__ = ('op', 'd', 'a', 't', 'x', 'ref', 'h', 'w')

    def __init__(self, op, d, a, t, x=None, ref=None):
        self.op = op      # opcode
        self.d = d        # destination register or -1
        self.a = a        # operand registers
        self.t = t        # result type / operand type
        self.x = x        # extra
        self.ref = ref    # LLVMValueRef for debug locations
        self.h = None
        self.w = 0


class Block:
    __slots__ = ('phis', 'code', 'idx', 'name')

    def __init__(self, idx):
        self.idx = idx
        self.phis = {}     # pred block idx -> list of (dst, src)
        self.code = []


class Function:
    def __init__(self, mod, ref, name):
        self.mod = mod
        self.ref = ref
        self.name = name
        self.decl = bool(L.IsDeclaration(ref))
        self.decoded = False
        self.nargs = L.CountParams(ref)
        self.addr = 0
        self.stub = None
        self.stub_known = False

    def __repr__(self):
        return '<fn %s>' % self.name


class Module:
    def __init__(self, path):
        self.ref = L.load_module(path)
        self.dl = L.DataLayout(self.ref)
        self.tcache = {}
        self.funcs = {}
        self.fbyref = {}
        self.gvars = {}        # name -> ref
        self.gbyref = {}
        self.aliases = {}
        f = L.FirstFunction(self.ref)
        while f:
            n = L.name_of(f)
            fn = Function(self, f, n)
            self.funcs[n] = fn
            self.fbyref[f] = fn
            f = L.NextFunction(f)
        g = L.FirstGlobal(self.ref)
        while g:
            n = L.name_of(g)
            self.gvars[n] = g
            self.gbyref[g] = n
            g = L.NextGlobal(g)
        a = L.FirstAlias(self.ref)
        while a:
            self.aliases[a] = L.AliasGetAliasee(a)
            a = L.NextAlias(a)
        self.demangled = {}
        self._demangle()

    def _demangle(self):
        names = list(self.funcs) + list(self.gvars)
        out = subprocess.run(['c++filt'], input='\n'.join(names), text=True,
                             capture_output=True).stdout.split('\n')
        for n, d in zip(names, out):
            self.demangled[n] = d

    # -- types -------------------------------------------------------------
    def type(self, tr):
        t = self.tcache.get(tr)
        if t is not None:
            return t
        k = L.TK.get(L.TypeKind(tr))
        if k == 'int':
            t = ('i', L.IntWidth(tr))
        elif k in ('float', 'double', 'fp80'):
            t = ('f', k)
        elif k == 'ptr':
            t = PTR
        elif k == 'void':
            t = VOID
        elif k == 'struct':
            n = L.CountStructElems(tr)
            el = tuple(self.type(L.StructElem(tr, i)) for i in range(n))
            try:
                offs = tuple(L.OffsetOfElement(self.dl, tr, i)
                             for i in range(n))
                size = L.ABISize(self.dl, tr)
            except Exception:
                offs, size = (), 0
            t = ('s', el, offs, size)
        elif k == 'array':
            e = self.type(L.ElementType(tr))
            n = L.ArrayLength2(tr)
            t = ('a', e, n, L.ABISize(self.dl, tr))
        elif k == 'vector':
            e = self.type(L.ElementType(tr))
            t = ('v', e, L.VectorSize(tr), L.ABISize(self.dl, tr))
        elif k == 'func':
            t = ('fn', self.type(L.ReturnType(tr)))
        else:
            t = ('other', k)
        self.tcache[tr] = t
        return t

    def size(self, t):
        k = t[0]
        if k == 'i':
            w = t[1]
            return 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else \
                8 if w <= 64 else 16
        if k == 'p':
            return 8
        if k == 'f':
            return {'float': 4, 'double': 8, 'fp80': 16}[t[1]]
        if k in ('s', 'a', 'v'):
            return t[3]
        raise ValueError(t)

    # -- functions ---------------------------------------------------------
    def decode(self, fn, ex):
        """ex supplies const values: ex.const_float, ex.global_addr ..."""
        if fn.decoded:
            return
        fn.decoded = True
        regs = {}          # value ref -> index
        template = []
        blocks = {}
        border = []
        b = L.FirstBB(fn.ref)
        while b:
            blk = Block(len(border))
            blocks[b] = blk
            border.append((b, blk))
            b = L.NextBB(b)
        for i in range(fn.nargs):
            regs[L.GetParam(fn.ref, i)] = len(template)
            template.append(None)
        # allot instruction registers
        insts = []
        for bref, blk in border:
            i = L.FirstInst(bref)
            lst = []
            while i:
                regs[i] = len(template)
                template.append(None)
                lst.append(i)
                i = L.NextInst(i)
            insts.append(lst)
        consts = {}

        def opnd(v):
            r = regs.get(v)
            if r is not None:
                return r
            r = consts.get(v)
            if r is not None:
                return r
            val = self.const(v, ex)
            r = len(template)
            template.append(val)
            consts[v] = r
            return r

        ty = self.type
        for (bref, blk), lst in zip(border, insts):
            for i in lst:
                op = L.OP[L.InstOpcode(i)]
                d = regs[i]
                n = L.NumOperands(i)
                if op == 'phi':
                    for k in range(L.CountIncoming(i)):
                        pb = blocks[L.IncomingBlock(i, k)].idx
                        blk.phis.setdefault(pb, []).append(
                            (d, opnd(L.IncomingValue(i, k))))
                    continue
                t = ty(L.TypeOf(i))
                x = None
                if op in ('call', 'invoke'):
                    cv = L.CalledValue(i)
                    na = L.NumArgOperands(i)
                    args = [L.GetOperand(i, k) for k in range(na)]
                    a = []
                    for v in args:
                        tk = L.TypeKind(L.TypeOf(v))
                        if tk == 14:      # metadata
                            a.append(-1)
                        else:
                            a.append(opnd(v))
                    byval = []
                    for k in range(na):
                        at = L.CallSiteAttr(i, k + 1, L.BYVAL)
                        if at:
                            byval.append((k, self.size(
                                ty(L.TypeAttrValue(at)))))
                    while cv in self.aliases:
                        cv = self.aliases[cv]
                    callee = self.fbyref.get(cv)
                    cop = None
                    if callee is None:
                        if L.VK.get(L.ValueKind(cv)) == 'asm':
                            callee = 'asm'
                        else:
                            cop = opnd(cv)
                    atypes = [ty(L.TypeOf(v)) if a[k] >= 0 else VOID
                              for k, v in enumerate(args)]
                    nd = ud = None
                    if op == 'invoke':
                        nd = blocks[L.NormalDest(i)].idx
                        ud = blocks[L.UnwindDest(i)].idx
                    x = (callee, cop, byval, atypes, nd, ud)
                    ins = Inst(op, d, a, t, x, i)
                    if callee is not None and callee != 'asm' and \
                            callee.name.startswith(('llvm.dbg.',
                                                    'llvm.lifetime',
                                                    'llvm.experimental.noalias')):
                        continue
                elif op == 'br':
                    if L.IsConditional(i):
                        c = opnd(L.GetCondition(i))
                        ins = Inst('condbr', -1, [c], t,
                                   (blocks[L.GetSuccessor(i, 0)].idx,
                                    blocks[L.GetSuccessor(i, 1)].idx), i)
                    else:
                        ins = Inst('br', -1, [], t,
                                   blocks[L.GetSuccessor(i, 0)].idx, i)
                elif op == 'switch':
                    c = opnd(L.GetOperand(i, 0))
                    w = ty(L.TypeOf(L.GetOperand(i, 0)))[1]
                    cases = []
                    for k in range(2, n, 2):
                        cases.append((L.ConstIntZ(L.GetOperand(i, k)),
                                      blocks[L.GetSuccessor(i, k // 2)].idx))
                    ins = Inst('switch', -1, [c], ('i', w),
                               (blocks[L.GetSuccessor(i, 0)].idx, cases), i)
                elif op == 'ret':
                    ins = Inst('ret', -1,
                               [opnd(L.GetOperand(i, 0))] if n else [], t,
                               None, i)
                elif op == 'alloca':
                    at = ty(L.AllocatedType(i))
                    ins = Inst('alloca', d, [opnd(L.GetOperand(i, 0))], at,
                               self.size(at), i)
                elif op == 'load':
                    ins = Inst('load', d, [opnd(L.GetOperand(i, 0))], t,
                               None, i)
                elif op == 'store':
                    vt = ty(L.TypeOf(L.GetOperand(i, 0)))
                    ins = Inst('store', -1, [opnd(L.GetOperand(i, 0)),
                                             opnd(L.GetOperand(i, 1))], vt,
                               None, i)
                elif op == 'getelementptr':
                    ins = self._gep(i, d, opnd, ex)
                elif op == 'icmp':
                    ot = ty(L.TypeOf(L.GetOperand(i, 0)))
                    ins = Inst('icmp', d, [opnd(L.GetOperand(i, 0)),
                                           opnd(L.GetOperand(i, 1))], ot,
                               L.ICMP[L.ICmpPred(i)], i)
                elif op == 'fcmp':
                    ot = ty(L.TypeOf(L.GetOperand(i, 0)))
                    ins = Inst('fcmp', d, [opnd(L.GetOperand(i, 0)),
                                           opnd(L.GetOperand(i, 1))], ot,
                               L.FCMP[L.FCmpPred(i)], i)
                elif op in ('extractvalue', 'insertvalue'):
                    ni = L.NumIndices(i)
                    p = L.GetIndices(i)
                    idx = [p[k] for k in range(ni)]
                    ins = Inst(op, d, [opnd(L.GetOperand(i, k))
                                       for k in range(n)], t, idx, i)
                elif op == 'landingpad':
                    cl = []
                    for k in range(L.NumClauses(i)):
                        c = L.GetClause(i, k)
                        ct = ty(L.TypeOf(c))
                        if ct[0] == 'a':
                            cl.append(('filter', None))
                        else:
                            cl.append(('catch', self.const(c, ex)))
                    ins = Inst(op, d, [], t, (cl, bool(L.IsCleanup(i))), i)
                elif op in ('trunc', 'zext', 'sext', 'fptoui', 'fptosi',
                            'uitofp', 'sitofp', 'fptrunc', 'fpext',
                            'ptrtoint', 'inttoptr', 'bitcast',
                            'addrspacecast'):
                    o = L.GetOperand(i, 0)
                    ins = Inst(op, d, [opnd(o)], t, ty(L.TypeOf(o)), i)
                elif op == 'atomicrmw':
                    vt = ty(L.TypeOf(L.GetOperand(i, 1)))
                    ins = Inst(op, d, [opnd(L.GetOperand(i, 0)),
                                       opnd(L.GetOperand(i, 1))], vt,
                               L.RMWBinOp(i), i)
                elif op == 'shufflevector':
                    ins = Inst(op, d, [opnd(L.GetOperand(i, k))
                                       for k in range(n)], t,
                               [L.MaskValue(i, k) for k in
                                range(L.NumMaskElements(i))], i)
                else:
                    ins = Inst(op, d, [opnd(L.GetOperand(i, k))
                                       for k in range(n)], t, None, i)
                ins.h = ex.handler(ins.op)
                blk.code.append(ins)
        fn.blocks = [blk for _, blk in border]
        fn.template = template

    def _gep(self, i, d, opnd, ex):
        base = opnd(L.GetOperand(i, 0))
        const, var = self._gep_parts(i, ex)
        a = [base]
        sc = []
        for v, scale, w in var:
            a.append(opnd(v))
            sc.append((scale, w))
        return Inst('getelementptr', d, a, PTR, (const, sc), i)

    def _gep_parts(self, i, ex):
        """(constant byte offset, [(value ref, scale, width)])"""
        n = L.NumOperands(i)
        t = self.type(L.GEPSrcType(i))
        off = 0
        var = []
        for k in range(1, n):
            v = L.GetOperand(i, k)
            isint = L.VK.get(L.ValueKind(v)) == 'cint'
            w = self.type(L.TypeOf(v))[1]
            if isint:
                c = L.ConstIntZ(v)
                if w < 64:
                    c &= (1 << w) - 1
                if c >> (w - 1):
                    c -= 1 << w
            if k == 1:
                sz = self.size(t)
            elif t[0] == 's':
                off += t[2][c]
                t = t[1][c]
                continue
            else:      # array / vector
                t = t[1]
                sz = self.size(t)
            if isint:
                off += c * sz
            else:
                var.append((v, sz, w))
        return off, var

    # -- constants ---------------------------------------------------------
    def const(self, v, ex):
        k = L.VK.get(L.ValueKind(v))
        t = self.type(L.TypeOf(v)) if k != 'bb' else None
        if k == 'cint':
            w = t[1]
            if w <= 64:
                return L.ConstIntZ(v) & ((1 << w) - 1)
            s = L.print_value(v).split()[-1]
            return int(s) & ((1 << w) - 1)
        if k == 'cfp':
            if t[1] == 'fp80':
                s = L.print_value(v).split()[-1]
                m = re.match(r'0xK([0-9A-Fa-f]+)', s)
                return ex.const_float(fp80_from_hex(m.group(1)), 'fp80')
            lo = L.C.c_int()
            return ex.const_float(L.ConstRealD(v, L.C.byref(lo)), t[1])
        if k == 'cnull':
            return 0
        if k in ('undef', 'poison'):
            return self.zero(t, ex)
        if k == 'czero':
            return self.zero(t, ex)
        if k == 'func':
            return ex.func_addr(self.fbyref[v])
        if k == 'gvar':
            return ex.global_addr(self.gbyref[v])
        if k == 'alias':
            return self.const(self.aliases[v], ex)
        if k in ('carray', 'cstruct', 'cvector', 'cdataarray', 'cdatavector'):
            n = t[2] if t[0] in ('a', 'v') else len(t[1])
            return [self.const(L.AggElement(v, j), ex) for j in range(n)]
        if k == 'cexpr':
            op = L.OP[L.ConstOpcode(v)]
            if op == 'getelementptr':
                base = self.const(L.GetOperand(v, 0), ex)
                off, var = self._gep_parts(v, ex)
                for vv, sc, w in var:
                    c = self.const(vv, ex)
                    if c >> (w - 1):
                        c -= 1 << w
                    off += c * sc
                return (base + off) & (2**64 - 1)
            o = [self.const(L.GetOperand(v, j), ex)
                 for j in range(L.NumOperands(v))]
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return o[0]
            if op == 'sub':
                return (o[0] - o[1]) & ((1 << t[1]) - 1)
            if op == 'add':
                return (o[0] + o[1]) & ((1 << t[1]) - 1)
            if op == 'trunc':
                return o[0] & ((1 << t[1]) - 1)
            raise NotImplementedError('constexpr ' + op)
        if k == 'metadata' or k == 'bb':
            return None
        if k == 'ctoken':
            return None
        raise NotImplementedError('const kind %s: %s' % (k, L.print_value(v)))

    def zero(self, t, ex):
        k = t[0]
        if k in ('i', 'p'):
            return 0
        if k == 'f':
            return ex.const_float(0.0, t[1])
        if k == 's':
            return [self.zero(e, ex) for e in t[1]]
        if k in ('a', 'v'):
            return [self.zero(t[1], ex) for _ in range(t[2])]
        return 0
