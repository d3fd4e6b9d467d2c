"""Symbolic executor for LLVM bitcode."""
import bisect
import time
import z3
from . import llvmc as L
from .ir import Module, PTR
from .solver import Solver
from .fpdom import FPDom, Unsupported, is_sym

M64 = (1 << 64) - 1
MASK = [(1 << w) - 1 for w in range(129)]


class PathEnd(Exception):
    """the current path is over"""

    def __init__(self, why):
        self.why = why


class Cxx(Exception):
    pass


class Obj:
    __slots__ = ('base', 'size', 'cells', 'owner', 'kind', 'const')

    def __init__(self, base, size, kind, owner):
        self.base = base
        self.size = size
        self.cells = {}      # off -> (value, nbytes, kind) kind: 'i' | fkind
        self.owner = owner
        self.kind = kind
        self.const = False


class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'ip', 'allocas', 'ret_ins', 'prev',
                 'exc')

    def __init__(self, fn, regs):
        self.fn = fn
        self.regs = regs
        self.blk = fn.blocks[0]
        self.ip = 0
        self.allocas = []
        self.ret_ins = None     # call instruction of the caller
        self.prev = -1
        self.exc = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.regs = self.regs[:]
        f.blk = self.blk
        f.ip = self.ip
        f.allocas = self.allocas[:]
        f.ret_ins = self.ret_ins
        f.prev = self.prev
        f.exc = self.exc
        return f


class State:
    _n = 0
    real = False

    def __init__(self):
        State._n += 1
        self.id = State._n
        self.frames = []
        self.mem = {}
        self.pc = []
        self.model = None
        self.inputs = []        # (name, kind, value, aux)
        self.outs = []          # (name, kind, value)
        self.reached = []
        self.uf = False
        self.exc_stack = []     # caught exceptions
        self.exc_info = {}      # exception object base -> (typeinfo, dtor)
        self.counters = {}
        self.steps = 0
        self.user = {}
        self.trace = []

    def fork(self):
        s = State.__new__(State)
        State._n += 1
        s.id = State._n
        # both sides give up ownership of memory objects: bump own id as well
        State._n += 1
        self.id = State._n
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = self.pc[:]
        s.model = self.model
        s.inputs = self.inputs[:]
        s.outs = self.outs[:]
        s.reached = self.reached[:]
        s.uf = self.uf
        s.exc_stack = self.exc_stack[:]
        s.exc_info = dict(self.exc_info)
        s.counters = dict(self.counters)
        s.steps = self.steps
        s.user = dict(self.user)
        s.trace = self.trace[:]
        return s

    def add(self, c):
        """add a constraint that is known not to cut feasible behaviours
        beyond its intent; invalidates the model if it contradicts it"""
        if isinstance(c, (bool, int)):
            return
        self.pc.append(c)
        if self.model is not None:
            v = self.model.eval(c, model_completion=not State.real)
            if not z3.is_true(v):
                self.model = None


class Violation:
    def __init__(self, label, kind, state, model, loc, stack):
        self.label = label
        self.kind = kind
        self.inputs = None
        self.model = model
        self.loc = loc
        self.stack = stack
        self.pc = list(state.pc)
        self.ins = list(state.inputs)


class Executor:
    def __init__(self, bc, dom='ieee', max_paths=100000, max_steps=5000000,
                 deadline=None, opts=None):
        self.opts = opts or {}
        self.handlers = {}
        self.next_addr = 0x10000000
        self.bases = []
        self.gaddr = {}
        self.gobj = {}
        self.faddr = {}
        self.fbyaddr = {}
        self.next_faddr = 0x1000
        self.solver = Solver(real=(dom == 'real'))
        if dom == 'real':
            from .realdom import RealDom
            State.real = True
            self.dom = RealDom(self)
        else:
            self.dom = FPDom(self)
        self.mod = Module(bc)
        from .stubs import Stubs
        self.stubs = Stubs(self)
        self.work = []
        self.violations = []
        self.asserts = {}       # label -> [discharged, violated, unknown]
        self.paths = 0
        self.ended = {}
        self.steps = 0
        self.forks = 0
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.deadline = deadline
        self.incomplete = []
        self.witness = []       # finished states kept for native validation
        self.encoded = set()
        self.reach = {}
        self.boolsrc = {}
        self.packs = {}
        self.fresh_n = 0
        self.max_viol_per_label = self.opts.get('max_viol', 8)

    # -- naming ---------------------------------------------------------
    def handler(self, op):
        return getattr(self, 'x_' + op, None)

    def const_float(self, x, kind):
        return self.dom.const(x, kind)

    def func_addr(self, fn):
        a = self.faddr.get(fn.name)
        if a is None:
            a = self.next_faddr
            self.next_faddr += 16
            self.faddr[fn.name] = a
            self.fbyaddr[a] = fn
        return a

    def global_addr(self, name):
        a = self.gaddr.get(name)
        if a is None:
            ref = self.mod.gvars[name]
            t = self.mod.type(L.GlobalValueType(ref))
            size = max(1, self.mod.size(t)) if t[0] != 'other' else 8
            a = self.alloc_addr(size)
            self.gaddr[name] = a
            self.gobj[a] = (name, ref, t, size)
        return a

    def alloc_addr(self, size):
        a = self.next_addr
        self.next_addr += ((size + 15) // 16) * 16 + 64
        self.bases.append(a)
        return a

    def fresh(self, pre):
        self.fresh_n += 1
        return '%s!%d' % (pre, self.fresh_n)

    # -- memory ---------------------------------------------------------
    def new_obj(self, st, size, kind):
        a = self.alloc_addr(size)
        o = Obj(a, size, kind, st.id)
        st.mem[a] = o
        return o

    def obj_at(self, st, addr, n, ins=None, what='access', write=False):
        """object containing [addr, addr+n)"""
        i = bisect.bisect_right(self.bases, addr) - 1
        o = None
        if i >= 0:
            b = self.bases[i]
            o = st.mem.get(b)
            if o is None and b in self.gobj:
                o = self.init_global(st, b)
        if o is None:
            if addr < 0x1000:
                self.fail(st, 'memory', 'null pointer ' + what)
            if addr < 0x10000000:
                self.fail(st, 'memory', 'bad pointer ' + what)
            self.fail(st, 'memory', what + ' of freed or unknown memory')
        if addr - o.base + n > o.size:
            self.fail(st, 'memory', 'out-of-bounds ' + what)
        if write and o.owner != st.id:
            c = Obj(o.base, o.size, o.kind, st.id)
            c.cells = dict(o.cells)
            st.mem[o.base] = c
            o = c
        return o

    def init_global(self, st, base):
        name, ref, t, size = self.gobj[base]
        o = Obj(base, size, 'global', st.id)
        st.mem[base] = o
        init = L.GetInitializer(ref)
        if init:
            if L.IsConstString(init):
                for k, ch in enumerate(L.const_bytes(init)):
                    o.cells[k] = (ch, 1, 'i')
                return o
            v = self.mod.const(init, self)
            self.put(o, 0, t, v)
        else:
            self.stubs.extern_global(st, name, o)
        return o

    def put(self, o, off, t, v):
        k = t[0]
        if k in ('i', 'p'):
            if is_sym(v) and k == 'i' and v.get_id() in self.packs:
                cells, n, _ = self.packs[v.get_id()]
                self.clear(o, off, n)
                o.cells.pop(off, None)
                for f, c in cells:
                    o.cells[off + f] = c
                return
            self.clear(o, off, self.mod.size(t))
            o.cells[off] = (v, self.mod.size(t), 'i')
        elif k == 'f':
            self.clear(o, off, self.mod.size(t))
            o.cells[off] = (v, self.mod.size(t), t[1])
        elif k == 's':
            for e, f, x in zip(t[1], t[2], v):
                self.put(o, off + f, e, x)
        elif k in ('a', 'v'):
            sz = self.mod.size(t[1])
            for j, x in enumerate(v):
                self.put(o, off + j * sz, t[1], x)

    def clear(self, o, off, n):
        """remove cells overlapping [off, off+n), splitting partial ones"""
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[1] == n:
            return        # will be overwritten
        for k in range(max(0, off - 15), off + n):
            c = cells.get(k)
            if c is None or k + c[1] <= off:
                continue
            del cells[k]
            if k < off or k + c[1] > off + n:
                bs = self.cell_bytes(c)
                for j, b in enumerate(bs):
                    if not (off <= k + j < off + n):
                        cells[k + j] = (b, 1, 'i')

    def cell_bytes(self, c):
        v, n, k = c
        if k != 'i':
            v, m = self.dom.to_bits(v, k)
            if m < n and not is_sym(v):
                pass
        if not is_sym(v):
            return [(v >> (8 * j)) & 255 for j in range(n)]
        if z3.is_bool(v):
            v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        w = v.size()
        if w < 8 * n:
            v = z3.ZeroExt(8 * n - w, v)
        return [z3.Extract(8 * j + 7, 8 * j, v) for j in range(n)]

    def read(self, st, o, off, t):
        """typed read of a scalar at a concrete offset"""
        k = t[0]
        if k in ('s', 'a', 'v'):
            if k == 's':
                return [self.read(st, o, off + f, e)
                        for e, f in zip(t[1], t[2])]
            sz = self.mod.size(t[1])
            return [self.read(st, o, off + j * sz, t[1])
                    for j in range(t[2])]
        n = self.mod.size(t)
        want = t[1] if k == 'f' else 'i'
        c = o.cells.get(off)
        if c is not None and c[1] == n:
            v, _, ck = c
            if ck == want:
                if k == 'i' and t[1] == 1:
                    return self.trunc(v, 8 if not (is_sym(v) and z3.is_bool(v)) else 1, 1)
                return v
            if ck == 'i':
                return self.bits_to_float(v, want)
            if want == 'i':
                if is_sym(v) or self.dom.real:
                    return self.mkpack([(0, c)], n)
                v, _ = self.dom.to_bits(v, ck)
                return v
            if ck != want:
                raise Unsupported('float kind pun')
        # slow path
        bs = [None] * n
        cells = o.cells
        for p in range(max(0, off - 15), off + n):
            c = cells.get(p)
            if c is None or p + c[1] <= off:
                continue
            cb = self.cell_bytes(c)
            for j, b in enumerate(cb):
                q = p + j - off
                if 0 <= q < n:
                    bs[q] = b
        if all(b is None for b in bs):
            if o.kind == 'global' and False:
                return self.mod.zero(t, self)
            nm = self.fresh('uninit')
            self.stubs.note_uninit(st)
            if k == 'f':
                v = self.dom.fresh(nm, t[1])
            elif k == 'i' and t[1] == 1:
                v = z3.Bool(nm)
            elif k == 'p':
                return 0xdead0000
            else:
                v = z3.BitVec(nm, t[1])
            self.put_cell(st, o, off, v, n, want)
            return v
        if k == 'i':
            r = self.pack(o, off, n)
            if r is not None:
                return r
        for q in range(n):
            if bs[q] is None:
                bs[q] = z3.BitVec(self.fresh('uninitb'), 8)
        if not any(is_sym(b) for b in bs):
            v = 0
            for q in range(n):
                v |= bs[q] << (8 * q)
        else:
            v = z3.simplify(z3.Concat(*[b if is_sym(b) else z3.BitVecVal(b, 8)
                                        for b in reversed(bs)])) if n > 1 \
                else bs[0]
        if k == 'f':
            return self.dom.from_bits(v, t[1])
        if k == 'i' and t[1] < 8 * n:
            return self.trunc(v, 8 * n, t[1])
        return v

    def pack(self, o, off, n):
        """integer read over several cells, some of them symbolic floats or
        uninitialised: an opaque integer remembering the cells"""
        cells = []
        odd = False
        covered = 0
        for p in range(max(0, off - 15), off + n):
            c = o.cells.get(p)
            if c is None or p + c[1] <= off:
                continue
            if p < off or p + c[1] > off + n:
                return None
            cells.append((p - off, c))
            covered += c[1]
            if c[2] != 'i' and (is_sym(c[0]) or self.dom.real):
                odd = True
        if not odd and covered == n:
            return None
        return self.mkpack(cells, n)

    def bits_to_float(self, v, kind):
        if is_sym(v) and v.get_id() in self.packs:
            cells, n, _ = self.packs[v.get_id()]
            if len(cells) == 1 and cells[0][1][2] == kind:
                return cells[0][1][0]
            v = self.unpack_bits(v)
        return self.dom.from_bits(v, kind)

    def mkpack(self, cells, n):
        v = z3.BitVec(self.fresh('pack'), 8 * n)
        self.packs[v.get_id()] = (cells, n, v)
        return v

    def unpack_bits(self, v):
        """real integer value of a pack"""
        cells, n, _ = self.packs[v.get_id()]
        bs = [None] * n
        for f, c in cells:
            for j, b in enumerate(self.cell_bytes(c)):
                bs[f + j] = b
        bs = [z3.BitVec(self.fresh('uninitb'), 8) if b is None else b
              if is_sym(b) else z3.BitVecVal(b, 8) for b in bs]
        return z3.simplify(z3.Concat(*reversed(bs)))

    def put_cell(self, st, o, off, v, n, k):
        if o.owner != st.id:
            c = Obj(o.base, o.size, o.kind, st.id)
            c.cells = dict(o.cells)
            st.mem[o.base] = c
            o = c
        o.cells[off] = (v, n, k)

    # address resolution
    def resolve(self, st, addr, n, what, write=False):
        """concrete (obj, off) or symbolic: (obj, [(cond, off)...])"""
        if not is_sym(addr):
            o = self.obj_at(st, addr, n, what=what, write=write)
            return o, addr - o.base
        a = z3.simplify(addr)
        if z3.is_bv_value(a):
            o = self.obj_at(st, a.as_long(), n, what=what, write=write)
            return o, a.as_long() - o.base
        m = self.get_model(st)
        if m is None:
            raise Unsupported('symbolic address without model')
        c = m.eval(a, model_completion=True).as_long()
        # find the object
        i = bisect.bisect_right(self.bases, c) - 1
        b = self.bases[i] if i >= 0 else 0
        o = st.mem.get(b)
        if o is None and b in self.gobj:
            o = self.init_global(st, b)
        # base object of the expression: prefer the object named by the
        # constant part of the address
        cb = self.const_base(a)
        if cb is not None:
            i = bisect.bisect_right(self.bases, cb) - 1
            b2 = self.bases[i] if i >= 0 else 0
            o2 = st.mem.get(b2)
            if o2 is None and b2 in self.gobj:
                o2 = self.init_global(st, b2)
            if o2 is not None and cb - b2 <= o2.size:
                o = o2
        if o is None:
            self.fail(st, 'memory', what + ' of freed or unknown memory')
        inb = z3.And(z3.UGE(a, z3.BitVecVal(o.base, 64)),
                     z3.ULE(a, z3.BitVecVal(o.base + o.size - n, 64)))
        self.require(st, inb, 'memory', 'out-of-bounds ' + what)
        if write and o.owner != st.id:
            cc = Obj(o.base, o.size, o.kind, st.id)
            cc.cells = dict(o.cells)
            st.mem[o.base] = cc
            o = cc
        cand = []
        stride = self.stride(a)
        offs = range(0, o.size - n + 1)
        if stride:
            base0 = (c - o.base) % stride
            offs = range(base0, o.size - n + 1, stride)
        if len(offs) > 4096:
            raise Unsupported('symbolic address over a large object')
        # prune infeasible offsets when there are few
        for off in offs:
            cand.append((a == z3.BitVecVal(o.base + off, 64), off))
        return o, cand

    def const_base(self, a):
        """the constant summand of a bvadd tree"""
        if z3.is_app_of(a, z3.Z3_OP_BADD):
            for ch in a.children():
                if z3.is_bv_value(ch) and ch.as_long() >= 0x10000000:
                    return ch.as_long()
                r = self.const_base(ch)
                if r is not None:
                    return r
        return None

    def stride(self, a):
        """largest power of two known to divide every non-constant part"""
        def tz(e):
            if z3.is_bv_value(e):
                v = e.as_long()
                return 64 if v == 0 else (v & -v).bit_length() - 1
            if z3.is_app_of(e, z3.Z3_OP_BADD):
                return min(tz(c) for c in e.children())
            if z3.is_app_of(e, z3.Z3_OP_BMUL):
                return sum(tz(c) for c in e.children())
            if z3.is_app_of(e, z3.Z3_OP_CONCAT):
                ch = e.children()
                if z3.is_bv_value(ch[-1]) and ch[-1].as_long() == 0:
                    return ch[-1].size()
                return 0
            if z3.is_app_of(e, z3.Z3_OP_BSHL):
                ch = e.children()
                if z3.is_bv_value(ch[1]):
                    return ch[1].as_long()
                return 0
            if z3.is_app_of(e, z3.Z3_OP_ITE):
                return min(tz(c) for c in e.children()[1:])
            return 0
        if z3.is_app_of(a, z3.Z3_OP_BADD):
            parts = [tz(c) for c in a.children() if not z3.is_bv_value(c)]
            t = min(parts) if parts else 0
        else:
            t = tz(a)
        return 1 << min(t, 16)

    def load(self, st, addr, t):
        n = self.mod.size(t)
        o, off = self.resolve(st, addr, n, 'read')
        if not isinstance(off, list):
            return self.read(st, o, off, t)
        if t[0] not in ('i', 'f', 'p'):
            raise Unsupported('aggregate load at symbolic address')
        if t[0] == 'p':
            # decide the offset
            for c, f in off:
                if self.decide(st, c):
                    return self.read(st, o, f, t)
            raise PathEnd('infeasible')
        vals = []
        for c, f in off:
            # skip offsets which do not start a cell (padding)
            vals.append((c, self.read(st, o, f, t)))
        v = vals[-1][1]
        for c, x in reversed(vals[:-1]):
            v = self.ite(c, x, v, t)
        return v

    def store(self, st, addr, t, v):
        n = self.mod.size(t)
        o, off = self.resolve(st, addr, n, 'write', write=True)
        if not isinstance(off, list):
            self.put(o, off, t, v)
            return
        if t[0] not in ('i', 'f', 'p'):
            raise Unsupported('aggregate store at symbolic address')
        for c, f in off:
            old = self.read(st, o, f, t)
            o = st.mem[o.base]
            self.put(o, f, t, self.ite(c, v, old, t))

    def ite(self, c, a, b, t):
        if not is_sym(c):
            return a if c else b
        if t[0] == 'f':
            return self.dom.ite(c, a, b, t[1])
        if not is_sym(a) and not is_sym(b) and a == b:
            return a
        if t[0] == 'i' and t[1] == 1:
            return z3.If(c, self.asbool(a), self.asbool(b))
        w = 64 if t[0] == 'p' else t[1]
        return z3.If(c, self.bv(a, w), self.bv(b, w))

    def memcpy(self, st, dst, src, n):
        if is_sym(n):
            n = self.concretize(st, n)
        if n == 0:
            return
        if is_sym(dst):
            dst = self.concretize(st, dst)
        if is_sym(src):
            src = self.concretize(st, src)
        so = self.obj_at(st, src, n, what='read')
        do = self.obj_at(st, dst, n, what='write', write=True)
        so = st.mem[so.base]
        s0, d0 = src - so.base, dst - do.base
        moved = []
        it = so.cells.items() if len(so.cells) < 4 * n + 64 else \
            [(k, so.cells[k]) for k in range(max(0, s0 - 15), s0 + n)
             if k in so.cells]
        for k, c in it:
            if k >= s0 and k + c[1] <= s0 + n:
                moved.append((k - s0, c))
            elif k < s0 + n and k + c[1] > s0:
                for j, b in enumerate(self.cell_bytes(c)):
                    if s0 <= k + j < s0 + n:
                        moved.append((k + j - s0, (b, 1, 'i')))
        # clear destination
        if n > 64 and d0 == 0 and n == do.size:
            do.cells.clear()
        else:
            self.clear(do, d0, n)
            do.cells.pop(d0, None)
        for f, c in moved:
            do.cells[d0 + f] = c

    def memset(self, st, dst, byte, n):
        if is_sym(n):
            n = self.concretize(st, n)
        if is_sym(dst):
            dst = self.concretize(st, dst)
        if n == 0:
            return
        o = self.obj_at(st, dst, n, what='write', write=True)
        off = dst - o.base
        if d_full(off, n, o):
            o.cells.clear()
        else:
            self.clear(o, off, n)
            o.cells.pop(off, None)
        if is_sym(byte):
            for j in range(n):
                o.cells[off + j] = (byte, 1, 'i')
            return
        byte &= 255
        j = 0
        pat8 = int.from_bytes(bytes([byte]) * 8, 'little')
        while j < n and (off + j) % 8:
            o.cells[off + j] = (byte, 1, 'i')
            j += 1
        while j + 8 <= n:
            o.cells[off + j] = (pat8, 8, 'i')
            j += 8
        while j < n:
            o.cells[off + j] = (byte, 1, 'i')
            j += 1

    def cstr(self, st, addr, limit=4096):
        out = bytearray()
        for k in range(limit):
            b = self.load(st, addr + k, ('i', 8))
            if is_sym(b):
                raise Unsupported('symbolic C string')
            if b == 0:
                break
            out.append(b)
        return out.decode(errors='replace')

    # -- integers -------------------------------------------------------
    def bv(self, v, w):
        if is_sym(v):
            if z3.is_bool(v):
                r = z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
                self.boolsrc[r.get_id()] = (v, r)
                return r
            return v
        return z3.BitVecVal(v, w)

    def asbool(self, v):
        if is_sym(v):
            if z3.is_bool(v):
                return v
            return v == z3.BitVecVal(1, v.size())
        return z3.BoolVal(bool(v))

    def trunc(self, v, w0, w1):
        if not is_sym(v):
            return v & MASK[w1]
        if z3.is_bool(v):
            return v
        if w1 == 1:
            s = self.boolsrc.get(v.get_id())
            if s is not None:
                return s[0]
            return z3.Extract(0, 0, v) == z3.BitVecVal(1, 1)
        if w1 == w0:
            return v
        pk = self.packs.get(v.get_id())
        if pk is not None:
            cells, n, _ = pk
            sub = [(f, c) for f, c in cells if f * 8 < w1]
            if w1 % 8 == 0 and all((f + c[1]) * 8 <= w1 for f, c in sub):
                if len(sub) == 1 and sub[0][0] == 0 and \
                        sub[0][1][1] * 8 == w1 and sub[0][1][2] == 'i':
                    return sub[0][1][0]
                return self.mkpack(sub, w1 // 8)
            v = self.unpack_bits(v)
        s = self.boolsrc.get(v.get_id())
        if s is not None:
            return self.bv(s[0], w1)
        return z3.Extract(w1 - 1, 0, v)

    # -- solver interface --------------------------------------------------
    def get_model(self, st):
        if st.model is None:
            r, m = self.solver.check(st.pc, None)
            if r == 'unsat':
                raise PathEnd('infeasible')
            if r == 'sat':
                st.model = m
        return st.model

    def merge_model(self, st, m):
        old = st.model
        if old is None:
            return None
        nm = z3.Model()
        seen = set()
        for d in m.decls():
            if d.arity() == 0:
                nm.update_value(d, m[d])
                seen.add(d.name())
        for d in old.decls():
            if d.arity() == 0 and d.name() not in seen:
                nm.update_value(d, old[d])
        return nm

    def feasible(self, st, c):
        """(answer, model) for pc and c"""
        # definitional atoms not in the model make completion unreliable in
        # the real domain
        if st.model is not None and (not self.solver.real or
                                     self.model_covers(st.model, c)):
            v = st.model.eval(c, model_completion=True)
            if z3.is_true(v):
                self.solver.stats.model_hits += 1
                return 'sat', st.model
        r, m = self.solver.check(st.pc, c)
        if r == 'sat':
            mm = self.merge_model(st, m)
            return 'sat', mm
        return r, None

    def model_covers(self, m, c):
        names = getattr(m, '_vp_names', None)
        if names is None:
            names = frozenset(d.name() for d in m.decls())
            m._vp_names = names
        return self.solver.vars(c) <= names

    def decide(self, st, c):
        """Branch on c.  Returns the side taken by the current state; the
        other side, if feasible, is queued and re-executes the current
        instruction."""
        if not is_sym(c):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        nc = z3.simplify(z3.Not(c))
        ci, ni = c.get_id(), nc.get_id()
        for p in reversed(st.pc):
            i = p.get_id()
            if i == ci:
                return True
            if i == ni:
                return False
        rt, mt = self.feasible(st, c)
        if rt == 'unsat':
            st.pc.append(nc)
            return False
        rf, mf = self.feasible(st, nc)
        if rf == 'unsat':
            # path implies c: record it so that slices see it
            st.pc.append(c)
            return True
        self.forks += 1
        other = st.fork()
        other.pc.append(nc)
        other.model = mf if rf == 'sat' else None
        self.work.append(other)
        st.pc.append(c)
        st.model = mt if rt == 'sat' else None
        return True

    def concretize(self, st, e, limit=64):
        e = z3.simplify(e) if is_sym(e) else e
        if not is_sym(e):
            return e
        if z3.is_bv_value(e):
            return e.as_long()
        m = self.get_model(st)
        if m is None:
            raise Unsupported('concretize without model')
        v = m.eval(e, model_completion=True).as_long()
        k = ('conc', len(st.frames), st.frames[-1].blk.idx, st.frames[-1].ip,
             st.frames[-1].fn.name)
        n = st.counters.get(k, 0) + 1
        st.counters[k] = n
        if n > limit:
            raise Unsupported('too many values in concretize')
        if self.decide(st, e == z3.BitVecVal(v, e.size())):
            return v
        raise PathEnd('infeasible')

    def loc(self, st):
        for f in reversed(st.frames):
            try:
                ins = f.blk.code[f.ip]
                d = L.debug_loc(ins.ref)
                if d:
                    return '%s:%d' % d
            except Exception:
                pass
        return st.frames[-1].fn.name if st.frames else '?'

    def stack(self, st):
        out = []
        for f in st.frames:
            out.append(self.mod.demangled.get(f.fn.name, f.fn.name)[:120])
        return out

    def require(self, st, c, kind, label):
        """check that c holds on every input of this path"""
        lab = kind + ': ' + label if kind != 'assert' else label
        ent = self.asserts.setdefault(lab, [0, 0, 0])
        if not is_sym(c):
            if c:
                ent[0] += 1
                return
            self.fail(st, kind, label)
        c = z3.simplify(c)
        if z3.is_true(c):
            ent[0] += 1
            return
        if z3.is_false(c):
            self.fail(st, kind, label)
        nc = z3.Not(c)
        r, m = self.feasible(st, nc)
        if r == 'unknown':
            r, m = self.solver.check(st.pc, nc, hard=True,
                                     timeout=self.solver.assert_timeout)
            if r == 'sat':
                m = self.merge_model(st, m) or m
        if r == 'unsat':
            ent[0] += 1
            return
        if r == 'unknown':
            ent[2] += 1
            self.report(st, kind, lab, None, nc, unknown=True)
        else:
            ent[1] += 1
            self.report(st, kind, lab, m, nc)
        # continue on the side where it holds
        rt, mt = self.feasible(st, c)
        if rt == 'unsat':
            raise PathEnd('violation')
        st.pc.append(c)
        st.model = mt if rt == 'sat' else None

    def fail(self, st, kind, label):
        """unconditional failure on this path"""
        lab = kind + ': ' + label if kind != 'assert' else label
        ent = self.asserts.setdefault(lab, [0, 0, 0])
        r, m = 'sat', st.model
        if m is None:
            r, m = self.solver.check(st.pc, None, hard=True,
                                     timeout=self.solver.assert_timeout)
        if r == 'unsat':
            raise PathEnd('infeasible')
        ent[1 if r == 'sat' else 2] += 1
        self.report(st, kind, lab, m, unknown=(r == 'unknown'))
        raise PathEnd('violation')

    def report(self, st, kind, lab, model, nc=None, unknown=False):
        pc = list(st.pc)
        if nc is not None:
            pc.append(nc)
        n = sum(1 for v in self.violations if v.label == lab)
        if n >= self.max_viol_per_label:
            return
        v = Violation(lab, kind, st, model, self.loc(st), self.stack(st))
        v.pc = pc
        v.unknown = unknown
        self.violations.append(v)

    def dom_alternatives(self, v, seed, cap):
        f = getattr(self.dom, 'alternatives', None)
        return f(v, seed, cap) if f else ()

    # -- running ---------------------------------------------------------
    def call_fn(self, st, fn, args, ins):
        if not fn.decoded:
            self.mod.decode(fn, self)
            self.encoded.add(fn.name)
        fr = Frame(fn, fn.template[:])
        fr.regs[:len(args)] = args
        fr.ret_ins = ins
        if len(st.frames) > 400:
            raise Unsupported('call depth')
        st.frames.append(fr)

    def run(self, entry, args=()):
        fn = self.mod.funcs[entry]
        st = State()
        self.mod.decode(fn, self)
        self.encoded.add(fn.name)
        r, m = self.solver.check([], None)
        st.model = m
        # static constructors
        self.pending_ctors = self.stubs.ctors()
        self.call_fn(st, fn, list(args), None)
        for c in reversed(self.pending_ctors):
            self.call_fn(st, c, [], None)
        self.work = [st]
        while self.work:
            if self.deadline and time.time() > self.deadline:
                self.incomplete.append('time budget: %d states unexplored'
                                       % len(self.work))
                break
            if self.paths >= self.max_paths:
                self.incomplete.append('path budget: %d states unexplored'
                                       % len(self.work))
                break
            st = self.work.pop()
            try:
                self.run_state(st)
                why = 'done'
            except PathEnd as e:
                why = e.why
            except Unsupported as e:
                why = 'unsupported: %s at %s' % (e, self.loc(st))
                self.incomplete.append(why)
                if self.opts.get('debug'):
                    print(why, self.stack(st))
            if why != 'infeasible':
                self.paths += 1
            self.ended[why] = self.ended.get(why, 0) + 1
            self.steps += st.steps
            if why == 'done':
                self.finish(st)
        return self

    def finish(self, st):
        for r in set(st.reached):
            self.reach[r] = self.reach.get(r, 0) + 1
        if len(self.witness) < self.opts.get('witness', 6) or \
                any(r not in self.wit_reach for r in st.reached):
            self.wit_reach = getattr(self, 'wit_reach', set())
            self.wit_reach |= set(st.reached)
            self.witness.append(st)

    wit_reach = set()

    def run_state(self, st):
        frames = st.frames
        limit = self.max_steps
        n = 0
        try:
            while frames:
                fr = frames[-1]
                ins = fr.blk.code[fr.ip]
                n += 1
                if n > limit:
                    raise Unsupported('step budget')
                if not n & 0x3fff and self.deadline and \
                        time.time() > self.deadline:
                    raise Unsupported('time budget inside a path')
                if ins.h is None:
                    raise Unsupported('instruction ' + ins.op)
                ins.h(st, fr, ins)
        finally:
            st.steps += n

    # -- instructions --------------------------------------------------------
    def goto(self, fr, b):
        blk = fr.fn.blocks[b]
        if blk.phis:
            moves = blk.phis[fr.blk.idx]
            regs = fr.regs
            if len(moves) == 1:
                d, s = moves[0]
                regs[d] = regs[s]
            else:
                vals = [regs[s] for _, s in moves]
                for (d, _), v in zip(moves, vals):
                    regs[d] = v
        fr.blk = blk
        fr.ip = 0

    def x_br(self, st, fr, ins):
        self.goto(fr, ins.x)

    def x_condbr(self, st, fr, ins):
        c = fr.regs[ins.a[0]]
        if is_sym(c):
            c = self.decide(st, c)
        self.goto(fr, ins.x[0] if c else ins.x[1])

    def x_switch(self, st, fr, ins):
        v = fr.regs[ins.a[0]]
        dflt, cases = ins.x
        if not is_sym(v):
            for c, b in cases:
                if c == v:
                    self.goto(fr, b)
                    return
            self.goto(fr, dflt)
            return
        w = ins.t[1]
        for c, b in cases:
            if self.decide(st, v == z3.BitVecVal(c, w)):
                self.goto(fr, b)
                return
        self.goto(fr, dflt)

    def x_unreachable(self, st, fr, ins):
        raise PathEnd('unreachable')

    def x_ret(self, st, fr, ins):
        v = fr.regs[ins.a[0]] if ins.a else None
        st.frames.pop()
        for a in fr.allocas:
            st.mem.pop(a, None)
        if st.frames:
            self.after_call(st, st.frames[-1], fr.ret_ins, v)

    def after_call(self, st, fr, ins, v):
        if ins is None:
            return            # static constructor frame
        fr.regs[ins.d] = v
        if ins.op == 'invoke':
            self.goto(fr, ins.x[4])
        else:
            fr.ip += 1

    def x_call(self, st, fr, ins):
        callee, cop, byval, atypes, nd, ud = ins.x
        regs = fr.regs
        args = [regs[a] if a >= 0 else None for a in ins.a]
        if callee is None:
            p = regs[cop]
            if is_sym(p):
                p = self.concretize(st, p)
            callee = self.fbyaddr.get(p)
            if callee is None:
                self.fail(st, 'memory', 'call through a bad function pointer')
        elif callee == 'asm':
            self.after_call(st, fr, ins, None)
            return
        stub = callee.stub
        if not callee.stub_known:
            stub = callee.stub = self.stubs.find(callee)
            callee.stub_known = True
        if stub is not None:
            r = stub(st, args, atypes, ins, callee)
            if r is not Ellipsis:       # Ellipsis: control already moved
                self.after_call(st, fr, ins, r)
            return
        if callee.decl:
            raise Unsupported('call to external ' + self.mod.demangled.get(
                callee.name, callee.name))
        for k, sz in byval:
            o = self.new_obj(st, sz, 'stack')
            fr.allocas.append(o.base)
            self.memcpy(st, o.base, args[k], sz)
            args[k] = o.base
        if len(args) > callee.nargs:      # variadic
            st.user = dict(st.user)
            args = args[:callee.nargs]
        self.call_fn(st, callee, args, ins)

    x_invoke = x_call

    def x_alloca(self, st, fr, ins):
        n = fr.regs[ins.a[0]]
        if is_sym(n):
            n = self.concretize(st, n)
        o = self.new_obj(st, ins.x * n, 'stack')
        fr.allocas.append(o.base)
        fr.regs[ins.d] = o.base
        fr.ip += 1

    def x_load(self, st, fr, ins):
        v = self.load(st, fr.regs[ins.a[0]], ins.t)
        if ins.t is PTR and is_sym(v):
            v = self.concretize(st, v)
        fr.regs[ins.d] = v
        fr.ip += 1

    def x_store(self, st, fr, ins):
        self.store(st, fr.regs[ins.a[1]], ins.t, fr.regs[ins.a[0]])
        fr.ip += 1

    def x_getelementptr(self, st, fr, ins):
        off, sc = ins.x
        regs = fr.regs
        p = regs[ins.a[0]]
        symp = None
        for (scale, w), r in zip(sc, ins.a[1:]):
            v = regs[r]
            if is_sym(v):
                v = self.bv(v, w)
                if w < 64:
                    v = z3.SignExt(64 - w, v)
                t = v * z3.BitVecVal(scale, 64)
                symp = t if symp is None else symp + t
            else:
                if v >> (w - 1):
                    v -= 1 << w
                off += v * scale
        if symp is None and not is_sym(p):
            regs[ins.d] = (p + off) & M64
        else:
            b = self.bv(p, 64)
            if off:
                b = b + z3.BitVecVal(off & M64, 64)
            if symp is not None:
                b = b + symp
            regs[ins.d] = z3.simplify(b)
            if z3.is_bv_value(regs[ins.d]):
                regs[ins.d] = regs[ins.d].as_long()
        fr.ip += 1

    def vec(self, st, fr, ins, f):
        a = [fr.regs[k] for k in ins.a]
        fr.regs[ins.d] = [f(*xs) for xs in zip(*a)]
        fr.ip += 1

    def _intbin(self, op, a, b, w, st):
        sa, sb = is_sym(a), is_sym(b)
        if sa and a.get_id() in self.packs:
            cells, n, _ = self.packs[a.get_id()]
            if op == 'lshr' and not sb and b % 8 == 0:
                k = b // 8
                sub = [(f - k, c) for f, c in cells if f >= k]
                if all(f >= k or f + c[1] <= k for f, c in cells):
                    sub += [(n - k + j, (0, 1, 'i')) for j in range(k)]
                    return self.mkpack(sub, n)
            a = self.unpack_bits(a)
        if sb and b.get_id() in self.packs:
            b = self.unpack_bits(b)
        if not sa and not sb:
            m = MASK[w]
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                s = a - (1 << w) if a >> (w - 1) else a
                return (s >> min(b, w - 1)) & m
            if b == 0:
                self.fail(st, 'ub', 'integer division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            s = a - (1 << w) if a >> (w - 1) else a
            t = b - (1 << w) if b >> (w - 1) else b
            q = abs(s) // abs(t)
            if (s < 0) != (t < 0):
                q = -q
            if op == 'sdiv':
                return q & m
            return (s - q * t) & m
        if w == 1:
            A, B = self.asbool(a), self.asbool(b)
            if op == 'and':
                return z3.And(A, B)
            if op == 'or':
                return z3.Or(A, B)
            if op in ('xor', 'add', 'sub'):
                if not sb:
                    return z3.Not(A) if b else A
                if not sa:
                    return z3.Not(B) if a else B
                return z3.Xor(A, B)
            if op == 'mul':
                return z3.And(A, B)
            raise Unsupported('i1 ' + op)
        if not sb:
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr',
                                 'ashr'):
                return a
            if op == 'and' and b == MASK[w]:
                return a
            if op == 'and' and sa:
                s = self.boolsrc.get(a.get_id())
                if s is not None:
                    return a if b & 1 else 0
            if op == 'mul' and b == 1:
                return a
            if op in ('and', 'mul') and b == 0:
                return 0
        if not sa:
            if a == 0 and op in ('add', 'or', 'xor'):
                return b
            if a == 0 and op in ('and', 'mul', 'shl', 'lshr', 'ashr'):
                return 0
        A, B = self.bv(a, w), self.bv(b, w)
        if op == 'add':
            return A + B
        if op == 'sub':
            return A - B
        if op == 'mul':
            return A * B
        if op == 'and':
            return A & B
        if op == 'or':
            return A | B
        if op == 'xor':
            return A ^ B
        if op == 'shl':
            return A << B
        if op == 'lshr':
            return z3.LShR(A, B)
        if op == 'ashr':
            return A >> B
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if sb:
                self.require(st, B != z3.BitVecVal(0, w), 'ub',
                             'integer division by zero')
            elif b == 0:
                self.fail(st, 'ub', 'integer division by zero')
            return {'udiv': z3.UDiv, 'urem': z3.URem,
                    'sdiv': lambda x, y: x / y,
                    'srem': z3.SRem}[op](A, B)
        raise Unsupported(op)

    def _mkint(op):
        def h(self, st, fr, ins):
            t = ins.t
            if t[0] == 'v':
                return self.vec(st, fr, ins, lambda x, y: self._intbin(
                    op, x, y, t[1][1], st))
            fr.regs[ins.d] = self._intbin(op, fr.regs[ins.a[0]],
                                          fr.regs[ins.a[1]], t[1], st)
            fr.ip += 1
        return h

    for _o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl',
               'lshr', 'ashr', 'and', 'or', 'xor'):
        locals()['x_' + _o] = _mkint(_o)

    def _mkflt(op):
        def h(self, st, fr, ins):
            t = ins.t
            if t[0] == 'v':
                return self.vec(st, fr, ins, lambda x, y: self.dom.binop(
                    op, x, y, t[1][1], st))
            fr.regs[ins.d] = self.dom.binop(op, fr.regs[ins.a[0]],
                                            fr.regs[ins.a[1]], t[1], st)
            fr.ip += 1
        return h

    for _o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        locals()['x_' + _o] = _mkflt(_o)

    def x_fneg(self, st, fr, ins):
        if ins.t[0] == 'v':
            return self.vec(st, fr, ins,
                            lambda x: self.dom.fneg(x, ins.t[1][1]))
        fr.regs[ins.d] = self.dom.fneg(fr.regs[ins.a[0]], ins.t[1])
        fr.ip += 1

    def x_icmp(self, st, fr, ins):
        a, b = fr.regs[ins.a[0]], fr.regs[ins.a[1]]
        if ins.t[0] == 'v':
            return self.vec(st, fr, ins, lambda x, y: self.icmp(
                ins.x, x, y, ins.t[1][1] if ins.t[1][0] == 'i' else 64))
        w = 64 if ins.t[0] == 'p' else ins.t[1]
        fr.regs[ins.d] = self.icmp(ins.x, a, b, w)
        fr.ip += 1

    def icmp(self, p, a, b, w):
        if is_sym(a) and a.get_id() in self.packs:
            a = self.unpack_bits(a)
        if is_sym(b) and b.get_id() in self.packs:
            b = self.unpack_bits(b)
        if not is_sym(a) and not is_sym(b):
            if p == 'eq':
                return int(a == b)
            if p == 'ne':
                return int(a != b)
            if p[0] == 's':
                if a >> (w - 1):
                    a -= 1 << w
                if b >> (w - 1):
                    b -= 1 << w
            o = p[1:]
            return int(a > b if o == 'gt' else a >= b if o == 'ge' else
                       a < b if o == 'lt' else a <= b)
        if w == 1:
            A, B = self.asbool(a), self.asbool(b)
            if p == 'eq':
                return (A if b else z3.Not(A)) if not is_sym(b) else A == B
            if p == 'ne':
                return (z3.Not(A) if b else A) if not is_sym(b) \
                    else z3.Xor(A, B)
            A, B = self.bv(a, 1), self.bv(b, 1)
        else:
            if not is_sym(b) and p in ('eq', 'ne'):
                s = self.boolsrc.get(a.get_id())
                if s is not None:
                    if b == 0:
                        return s[0] if p == 'ne' else z3.Not(s[0])
                    if b == 1:
                        return s[0] if p == 'eq' else z3.Not(s[0])
                    return int(p == 'ne')
            A, B = self.bv(a, w), self.bv(b, w)
        return {'eq': lambda: A == B, 'ne': lambda: A != B,
                'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B),
                'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
                'sgt': lambda: A > B, 'sge': lambda: A >= B,
                'slt': lambda: A < B, 'sle': lambda: A <= B}[p]()

    def x_fcmp(self, st, fr, ins):
        if ins.t[0] == 'v':
            return self.vec(st, fr, ins, lambda x, y: self.dom.fcmp(
                ins.x, x, y, ins.t[1][1], st))
        fr.regs[ins.d] = self.dom.fcmp(ins.x, fr.regs[ins.a[0]],
                                       fr.regs[ins.a[1]], ins.t[1], st)
        fr.ip += 1

    def x_select(self, st, fr, ins):
        c, a, b = (fr.regs[k] for k in ins.a)
        if isinstance(c, list):
            fr.regs[ins.d] = [self.ite(x, y, z, ins.t[1])
                              for x, y, z in zip(c, a, b)]
        elif not is_sym(c):
            fr.regs[ins.d] = a if c else b
        elif ins.t[0] in ('i', 'f') and not (self.dom.real and
                                             ins.t[0] == 'f'):
            fr.regs[ins.d] = self.ite(c, a, b, ins.t)
        else:
            fr.regs[ins.d] = a if self.decide(st, c) else b
        fr.ip += 1

    def x_trunc(self, st, fr, ins):
        fr.regs[ins.d] = self.trunc(fr.regs[ins.a[0]], ins.x[1], ins.t[1])
        fr.ip += 1

    def x_zext(self, st, fr, ins):
        v = fr.regs[ins.a[0]]
        if is_sym(v) and v.get_id() in self.packs:
            cells, n, _ = self.packs[v.get_id()]
            m = ins.t[1] // 8
            fr.regs[ins.d] = self.mkpack(
                cells + [(j, (0, 1, 'i')) for j in range(n, m)], m)
            fr.ip += 1
            return
        if isinstance(v, list):
            raise Unsupported('vector zext')
        if is_sym(v):
            if z3.is_bool(v):
                v = int(self.decide(st, v)) if self.dom.real else \
                    self.bv(v, ins.t[1])
            else:
                s = self.boolsrc.get(v.get_id())
                if s is not None:
                    v = self.bv(s[0], ins.t[1])
                else:
                    v = z3.ZeroExt(ins.t[1] - ins.x[1], v)
        fr.regs[ins.d] = v
        fr.ip += 1

    def x_sext(self, st, fr, ins):
        v = fr.regs[ins.a[0]]
        w0, w1 = ins.x[1], ins.t[1]
        if is_sym(v):
            if z3.is_bool(v):
                v = z3.If(v, z3.BitVecVal(MASK[w1], w1), z3.BitVecVal(0, w1))
            else:
                v = z3.SignExt(w1 - w0, v)
        elif v >> (w0 - 1):
            v = (v | (MASK[w1] & ~MASK[w0]))
        fr.regs[ins.d] = v
        fr.ip += 1

    def _fptoi(self, st, fr, ins, signed):
        v, ok = self.dom.fptoi(fr.regs[ins.a[0]], ins.x[1], ins.t[1], signed,
                               st)
        if self.opts.get('check_fptoi', True):
            self.require(st, ok, 'ub', 'floating-point to integer conversion '
                         'out of range')
        elif is_sym(ok):
            if not self.decide(st, ok):
                v = z3.BitVec(self.fresh('fptoi'), ins.t[1])
        elif not ok:
            v = z3.BitVec(self.fresh('fptoi'), ins.t[1])
        fr.regs[ins.d] = v
        fr.ip += 1

    def x_fptoui(self, st, fr, ins):
        self._fptoi(st, fr, ins, False)

    def x_fptosi(self, st, fr, ins):
        self._fptoi(st, fr, ins, True)

    def x_uitofp(self, st, fr, ins):
        fr.regs[ins.d] = self.dom.itofp(fr.regs[ins.a[0]], ins.x[1], False,
                                        ins.t[1], st)
        fr.ip += 1

    def x_sitofp(self, st, fr, ins):
        fr.regs[ins.d] = self.dom.itofp(fr.regs[ins.a[0]], ins.x[1], True,
                                        ins.t[1], st)
        fr.ip += 1

    def x_fptrunc(self, st, fr, ins):
        fr.regs[ins.d] = self.dom.conv(fr.regs[ins.a[0]], ins.x[1],
                                       ins.t[1], st)
        fr.ip += 1

    x_fpext = x_fptrunc

    def x_ptrtoint(self, st, fr, ins):
        v = fr.regs[ins.a[0]]
        w = ins.t[1]
        fr.regs[ins.d] = self.trunc(v, 64, w) if w < 64 else v
        fr.ip += 1

    def x_inttoptr(self, st, fr, ins):
        fr.regs[ins.d] = fr.regs[ins.a[0]]
        fr.ip += 1

    def x_bitcast(self, st, fr, ins):
        v = fr.regs[ins.a[0]]
        f, t = ins.x, ins.t
        if f == t:
            pass
        elif f[0] == 'i' and t[0] == 'f':
            v = self.bits_to_float(v, t[1])
        elif f[0] == 'f' and t[0] == 'i':
            v, _ = self.dom.to_bits(v, f[1])
        else:
            raise Unsupported('bitcast')
        fr.regs[ins.d] = v
        fr.ip += 1

    def x_freeze(self, st, fr, ins):
        fr.regs[ins.d] = fr.regs[ins.a[0]]
        fr.ip += 1

    def x_fence(self, st, fr, ins):
        fr.ip += 1

    def x_extractvalue(self, st, fr, ins):
        v = fr.regs[ins.a[0]]
        for k in ins.x:
            v = v[k]
        fr.regs[ins.d] = v
        fr.ip += 1

    def x_insertvalue(self, st, fr, ins):
        agg, v = fr.regs[ins.a[0]], fr.regs[ins.a[1]]

        def rec(a, idx):
            a = list(a)
            a[idx[0]] = v if len(idx) == 1 else rec(a[idx[0]], idx[1:])
            return a
        fr.regs[ins.d] = rec(agg, ins.x)
        fr.ip += 1

    def x_extractelement(self, st, fr, ins):
        v, k = fr.regs[ins.a[0]], fr.regs[ins.a[1]]
        if is_sym(k):
            raise Unsupported('symbolic extractelement')
        fr.regs[ins.d] = v[k]
        fr.ip += 1

    def x_insertelement(self, st, fr, ins):
        v, x, k = (fr.regs[a] for a in ins.a)
        if is_sym(k):
            raise Unsupported('symbolic insertelement')
        v = list(v)
        v[k] = x
        fr.regs[ins.d] = v
        fr.ip += 1

    def x_shufflevector(self, st, fr, ins):
        a, b = fr.regs[ins.a[0]], fr.regs[ins.a[1]]
        ab = list(a) + list(b)
        fr.regs[ins.d] = [ab[k] if k >= 0 else ab[0] for k in ins.x]
        fr.ip += 1

    def x_atomicrmw(self, st, fr, ins):
        p, v = fr.regs[ins.a[0]], fr.regs[ins.a[1]]
        old = self.load(st, p, ins.t)
        w = ins.t[1]
        op = {0: None, 1: 'add', 2: 'sub', 3: 'and', 5: 'or',
              6: 'xor'}[ins.x]
        new = v if op is None else self._intbin(op, old, v, w, st)
        self.store(st, p, ins.t, new)
        fr.regs[ins.d] = old
        fr.ip += 1

    def x_cmpxchg(self, st, fr, ins):
        p, cmp, new = (fr.regs[a] for a in ins.a)
        t = ins.t[1][0]
        old = self.load(st, p, t)
        c = self.icmp('eq', old, cmp, 64 if t[0] == 'p' else t[1])
        if self.decide(st, c) if is_sym(c) else c:
            self.store(st, p, t, new)
            fr.regs[ins.d] = [old, 1]
        else:
            fr.regs[ins.d] = [old, 0]
        fr.ip += 1

    # -- exceptions -----------------------------------------------------
    def throw(self, st, exobj, tinfo):
        """unwind to the nearest matching landing pad"""
        st.exc_info[exobj] = tinfo
        # search phase
        self.unwind(st, exobj, tinfo)

    def unwind(self, st, exobj, tinfo):
        # the frame on top contains the throwing call/resume instruction
        first = True
        frames = st.frames
        # search: is there any handler at all?
        found = None
        for fr in reversed(frames):
            ins = fr.blk.code[fr.ip]
            if ins.op == 'invoke':
                lp = self.landing(fr, ins)
                sel = self.match(st, lp, tinfo)
                if sel is not None:
                    found = True
                    break
        if not found:
            self.fail(st, 'terminate', 'uncaught exception '
                      + self.stubs.tinfo_name(st, tinfo))
        while frames:
            fr = frames[-1]
            ins = fr.blk.code[fr.ip]
            if ins.op == 'invoke':
                lp = self.landing(fr, ins)
                sel = self.match(st, lp, tinfo)
                if sel is not None or lp.x[1]:
                    self.goto(fr, ins.x[5])
                    # execute the landingpad
                    k = 0
                    while fr.blk.code[k].op != 'landingpad':
                        k += 1
                    fr.regs[lp.d] = [exobj, sel if sel is not None else 0]
                    fr.ip = k + 1
                    return
            frames.pop()
            for a in fr.allocas:
                st.mem.pop(a, None)
            if fr.ret_ins is None and frames:
                pass
        raise Unsupported('unwinding fell off the stack')

    def landing(self, fr, ins):
        blk = fr.fn.blocks[ins.x[5]]
        for i in blk.code:
            if i.op == 'landingpad':
                return i
        raise Unsupported('no landingpad')

    def match(self, st, lp, tinfo):
        for kind, t in lp.x[0]:
            if kind == 'catch':
                if t == 0:
                    return self.stubs.typeid(0)
                if self.stubs.derives(st, tinfo, t):
                    return self.stubs.typeid(t)
            else:
                return None
        return None

    def x_landingpad(self, st, fr, ins):
        raise Unsupported('landingpad reached directly')

    def x_resume(self, st, fr, ins):
        v = fr.regs[ins.a[0]]
        exobj = v[0]
        tinfo = st.exc_info[exobj]
        frames = st.frames
        frames.pop()
        for a in fr.allocas:
            st.mem.pop(a, None)
        if not frames:
            st.frames.append(fr)
            self.fail(st, 'terminate', 'uncaught exception')
        self.unwind(st, exobj, tinfo)


def d_full(off, n, o):
    return off == 0 and n == o.size
