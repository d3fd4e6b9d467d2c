"""Environment model: vp_* API, libc/libm, C++ ABI, logging and formatting."""
import re
import numpy as np
import z3
from . import llvmc as L
from .fpdom import is_sym, Unsupported

LIBM1 = ('fabs sqrt floor ceil trunc round rint nearbyint sin cos tan asin '
         'acos atan sinh cosh tanh exp log log10 log2 cbrt log1p expm1').split()
LIBM2 = 'fmin fmax copysign atan2 pow fmod hypot remainder fdim'.split()


def qualname(dem):
    """qualified function name of a demangled signature (without return type,
    template arguments and parameters)"""
    s = dem
    # strip parameter list: find first '(' at template depth 0 that is not
    # part of "(anonymous namespace)" or operator()
    s = s.replace('(anonymous namespace)', '{anon}')
    s = s.replace('operator()', 'operator{call}')
    s = s.replace('operator<<', 'operator{shl}').replace('operator>>', 'operator{shr}')
    s = s.replace('operator<=', 'operator{le}').replace('operator>=', 'operator{ge}')
    s = s.replace('operator->', 'operator{arrow}')
    s = re.sub(r'operator<(?=[(<])', 'operator{lt}', s)
    s = re.sub(r'operator>(?=[(<])', 'operator{gt}', s)
    out = []
    depth = 0
    for ch in s:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif ch == '(' and depth == 0:
            break
        elif depth == 0:
            out.append(ch)
    q = ''.join(out).strip()
    q = re.sub(r'\[abi:\w+\]', '', q)
    # drop return type
    if ' ' in q and not q.split(' ')[-1].startswith('operator'):
        if 'operator ' in q:
            pass
        else:
            q = q.split(' ')[-1]
    return q.lstrip('*&')


class Stubs:
    def __init__(self, ex):
        self.ex = ex
        self.tids = {}
        self.exact = {}
        self.user = {}        # qualified name -> callable
        self.hooks = []       # regex, callable
        self.uninit = 0
        for n in dir(self):
            if n.startswith('s_'):
                self.exact[n[2:]] = getattr(self, n)
        for n in LIBM1 + LIBM2:
            for suf, k in (('', 'double'), ('f', 'float'), ('l', 'fp80')):
                self.exact[n + suf] = self._libm(n, k)

    def _libm(self, n, k):
        def f(st, args, at, ins, fn):
            return self.ex.dom.libm(n, args, k, st)
        return f

    def note_uninit(self, st):
        self.uninit += 1

    # -- lookup ---------------------------------------------------------
    def find(self, fn):
        name = fn.name
        s = self.exact.get(name)
        if s is not None:
            return s
        if name.startswith('llvm.'):
            return self.intrinsic(name)
        dem = self.ex.mod.demangled.get(name, name)
        q = qualname(dem)
        if q in self.user:
            return self.user[q]
        if fn.decl and q in ('MaRC::debug',):
            return self.nop
        if q.startswith(('fmt::v8::', 'fmt::')):
            if q in ('fmt::v8::vformat', 'fmt::v8::format', 'fmt::format',
                     'fmt::v8::to_string', 'fmt::v8::vformat_to'):
                return self.empty_string
            return self.nop0
        if q in ('MaRC::debug', 'MaRC::info', 'MaRC::warn', 'MaRC::error',
                 'MaRC::critical', 'MaRC::details::debug',
                 'MaRC::details::info', 'MaRC::details::warn',
                 'MaRC::details::error', 'MaRC::details::critical'):
            return self.nop
        if q in ('std::__detail::_Prime_rehash_policy::_M_next_bkt',):
            return self.next_bkt
        if q in ('std::__detail::_Prime_rehash_policy::_M_need_rehash',):
            return self.need_rehash
        if q in ('std::ios_base::Init::Init', 'std::ios_base::Init::~Init'):
            return self.nop
        if q == 'std::operator{shl}' or q.startswith('std::ostream') or \
                q.startswith('std::basic_ostream') or \
                'std::ostream' in dem.split('(')[0] or \
                q.startswith('std::basic_istream'):
            if fn.decl or 'basic_ostream' in dem:
                return self.ret_arg0
        return None

    def nop(self, st, args, at, ins, fn):
        return None

    def nop0(self, st, args, at, ins, fn):
        if ins.t[0] == 'void':
            return None
        return self.ex.mod.zero(ins.t, self.ex)

    def ret_arg0(self, st, args, at, ins, fn):
        return args[0] if args else None

    def empty_string(self, st, args, at, ins, fn):
        """construct an empty std::string in the sret slot"""
        p = args[0]
        ex = self.ex
        ex.store(st, p, ('p',), p + 16)
        ex.store(st, p + 8, ('i', 64), 0)
        ex.store(st, p + 16, ('i', 8), 0)
        return None

    def next_bkt(self, st, args, at, ins, fn):
        n = args[1]
        if is_sym(n):
            n = self.ex.concretize(st, n)
        for p in (2, 3, 5, 7, 11, 13, 17, 23, 29, 37, 47, 59, 79, 97, 127,
                  199, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229):
            if p >= n:
                # _M_next_resize = p (max load factor 1)
                self.ex.store(st, args[0] + 8, ('i', 64), p)
                return p
        raise Unsupported('rehash')

    def need_rehash(self, st, args, at, ins, fn):
        this, nb, ne, ni = args
        ex = self.ex
        nr = ex.load(st, this + 8, ('i', 64))
        if ne + ni > nr:
            want = max(ne + ni, 11 if nr == 0 else 0)
            if want > nb:
                p = self.next_bkt(st, [this, max(want, nb * 2 + 1 if nr else want)], at, ins, fn)
                return [1, p]
            ex.store(st, this + 8, ('i', 64), nb)
        return [0, 0]

    # -- globals ----------------------------------------------------------
    def extern_global(self, st, name, o):
        if name == '__libc_single_threaded':
            o.cells[0] = (1, 1, 'i')
        elif name == '__dso_handle':
            o.cells[0] = (0, 1, 'i')
        elif name in ('stderr', 'stdout', 'stdin'):
            o.cells[0] = (0x900, 8, 'i')
        elif name.startswith('_ZTVN10__cxxabiv1'):
            for k in range(0, o.size, 8):
                o.cells[k] = (0, min(8, o.size - k), 'i')

    def ctors(self):
        m = self.ex.mod
        out = []
        skip = self.ex.opts.get('skip_ctors')
        if 'llvm.global_ctors' in m.gvars and not skip:
            init = L.GetInitializer(m.gvars['llvm.global_ctors'])
            t = m.type(L.GlobalValueType(m.gvars['llvm.global_ctors']))
            for k in range(t[2]):
                e = L.AggElement(init, k)
                f = L.AggElement(e, 1)
                fn = m.fbyref.get(f)
                if fn is not None:
                    pat = self.ex.opts.get('ctor_filter')
                    out.append(fn)
        return out

    # -- type info -----------------------------------------------------------
    def gname(self, addr):
        g = self.ex.gobj.get(addr)
        return g[0] if g else None

    def tinfo_name(self, st, t):
        n = self.gname(t)
        return self.ex.mod.demangled.get(n, str(n)) if n else hex(t)

    def typeid(self, t):
        if t not in self.tids:
            self.tids[t] = len(self.tids) + 1
        return self.tids[t]

    def bases_of(self, st, t):
        """direct bases of a class type_info object: [(base, offset)]"""
        ex = self.ex
        g = ex.gobj.get(t)
        if g is None:
            return []
        name, ref, ty, size = g
        init = L.GetInitializer(ref)
        if not init:
            return []
        o = st.mem.get(t) or ex.init_global(st, t)
        vt = o.cells[0][0]
        vname = None
        for nm, a in ex.gaddr.items():
            if a <= vt < a + 64 and nm.startswith('_ZTVN10__cxxabiv1'):
                vname = nm
        if vname is None:
            return []
        if '__si_class_type_info' in vname:
            return [(o.cells[16][0], 0)]
        if '__vmi_class_type_info' in vname:
            n = o.cells[20][0]
            out = []
            for k in range(n):
                b = o.cells[24 + 16 * k][0]
                fl = o.cells[32 + 16 * k][0]
                if fl & 1:
                    raise Unsupported('virtual base')
                out.append((b, fl >> 8))
            return out
        return []

    def derives(self, st, t, target):
        if t == target or self.gname(t) == self.gname(target):
            return True
        return any(self.derives(st, b, target)
                   for b, _ in self.bases_of(st, t))

    # -- vp API ---------------------------------------------------------
    def _name(self, st, p):
        return self.ex.cstr(st, p)

    def _inname(self, st, nm):
        k = ('in', nm)
        n = st.counters.get(k, 0)
        st.counters[k] = n + 1
        return nm if n == 0 else '%s#%d' % (nm, n)

    def s_vp_double(self, st, args, at, ins, fn):
        nm = self._inname(st, self._name(st, args[0]))
        v = self.ex.dom.fresh(nm, 'double')
        st.inputs.append((nm, 'double', v, None))
        return v

    def s_vp_float(self, st, args, at, ins, fn):
        nm = self._inname(st, self._name(st, args[0]))
        v = self.ex.dom.fresh(nm, 'float')
        st.inputs.append((nm, 'float', v, None))
        return v

    def _int(self, w):
        def f(st, args, at, ins, fn):
            nm = self._inname(st, self._name(st, args[0]))
            v = z3.BitVec(nm, w)
            st.inputs.append((nm, 'i%d' % w, v, None))
            return v
        return f

    def s_vp_u8(self, st, args, at, ins, fn):
        return self._int(8)(st, args, at, ins, fn)

    def s_vp_u16(self, st, args, at, ins, fn):
        return self._int(16)(st, args, at, ins, fn)

    def s_vp_u32(self, st, args, at, ins, fn):
        return self._int(32)(st, args, at, ins, fn)

    def s_vp_u64(self, st, args, at, ins, fn):
        return self._int(64)(st, args, at, ins, fn)

    def s_vp_bool(self, st, args, at, ins, fn):
        nm = self._inname(st, self._name(st, args[0]))
        v = z3.Bool(nm)
        st.inputs.append((nm, 'bool', v, None))
        return v

    def s_vp_choice(self, st, args, at, ins, fn):
        """an integer in [0, n), concretised by forking"""
        nm0 = self._name(st, args[0])
        n = args[1]
        key = ('choice', nm0)
        cur = st.user.get('pending_choice')
        if cur is None:
            # first execution: create the variable, remember it for the
            # restarted forks
            nm = self._inname(st, nm0)
            v = z3.BitVec(nm, 32)
            st.inputs.append((nm, 'i32', v, None))
            st.add(z3.ULT(v, z3.BitVecVal(n, 32)))
            self.ex.get_model(st)
            st.user['pending_choice'] = v
            cur = v
        for k in range(n - 1):
            if self.ex.decide(st, cur == z3.BitVecVal(k, 32)):
                st.user['pending_choice'] = None
                return k
        st.user['pending_choice'] = None
        return n - 1

    def s_vp_angle(self, st, args, at, ins, fn):
        nm = self._inname(st, self._name(st, args[0]))
        lo, hi = args[1], args[2]
        v = self.ex.dom.angle_input(st, nm, lo, hi)
        return v

    def s_vp_assume(self, st, args, at, ins, fn):
        c = args[0]
        if not is_sym(c):
            if not c:
                from .exec import PathEnd
                raise PathEnd('infeasible')
            return None
        from .exec import PathEnd
        c = z3.simplify(self.ex.asbool(c))
        if z3.is_true(c):
            return None
        if z3.is_false(c):
            raise PathEnd('infeasible')
        r, m = self.ex.feasible(st, c)
        if r == 'unsat':
            raise PathEnd('infeasible')
        st.pc.append(c)
        st.model = m if r == 'sat' else None
        return None

    def s_vp_assert(self, st, args, at, ins, fn):
        c = args[0]
        self.ex.require(st, self.ex.asbool(c) if is_sym(c) else c, 'assert',
                        self._name(st, args[1]))
        return None

    def s_vp_fail(self, st, args, at, ins, fn):
        self.ex.fail(st, 'assert', self._name(st, args[0]))

    def s_vp_reach(self, st, args, at, ins, fn):
        st.reached.append(self._name(st, args[0]))
        return None

    def s_vp_out(self, st, args, at, ins, fn):
        st.outs.append((self._name(st, args[0]), 'double', args[1]))
        return None

    def s_vp_outi(self, st, args, at, ins, fn):
        st.outs.append((self._name(st, args[0]), 'i64', args[1]))
        return None

    def s_vp_symbolic(self, st, args, at, ins, fn):
        return 1

    def s_vp_and(self, st, args, at, ins, fn):
        a, b = args
        if not is_sym(a) and not is_sym(b):
            return int(bool(a) and bool(b))
        return z3.And(self.ex.asbool(a), self.ex.asbool(b))

    def s_vp_or(self, st, args, at, ins, fn):
        a, b = args
        if not is_sym(a) and not is_sym(b):
            return int(bool(a) or bool(b))
        return z3.Or(self.ex.asbool(a), self.ex.asbool(b))

    def _either(self, st, strong, weak):
        """the strong form if it is valid, else the weak one (which has more
        robust counterexamples)"""
        if not is_sym(strong):
            return 1 if strong else weak
        r, m = self.ex.solver.check(st.pc, z3.Not(strong))
        if r == 'unsat':
            return 1
        return weak

    def s_vp_eq(self, st, args, at, ins, fn):
        d = self.ex.dom
        a, b, tol = args
        if not is_sym(a) and not is_sym(b):
            return int(a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b)))
        if d.special(a) or d.special(b):
            return 0
        diff = d.radd(d.lift_r(a), d.lift_r(b), -1)
        strong = d.cmp0(diff, 'eq', st)
        if not is_sym(strong) and strong:
            return 1
        t = d.rconst(tol)
        return self._either(st, strong, d.conj(
            d.cmp0(d.radd(diff, t, -1), 'le', st),
            d.cmp0(d.radd(diff, t), 'ge', st)))

    def s_vp_hint_square(self, st, args, at, ins, fn):
        if is_sym(args[0]) and self.ex.dom.real:
            self.ex.dom.hint_square(self.ex.dom.lift_r(args[0]))
        return None

    def s_vp_le(self, st, args, at, ins, fn):
        return self.ex.dom.fcmp('ole', args[0], args[1], 'double', st)

    def s_vp_angle_eq(self, st, args, at, ins, fn):
        d = self.ex.dom
        a, b, tol = args
        if any(not is_sym(x) and (x != x or np.isinf(x)) for x in (a, b)):
            return 0
        diff = d.radd(d.lift_r(a), d.lift_r(b), -1)
        s, c = d.sincos(st, diff)
        t = d.rconst(tol)
        cp = d.cmp0(c, 'gt', st)
        strong = d.conj(d.cmp0(s, 'eq', st), cp)
        return self._either(st, strong, d.conj(cp, d.conj(
            d.cmp0(d.radd(s, t, -1), 'le', st),
            d.cmp0(d.radd(s, t), 'ge', st))))

    def s_ldexp(self, st, args, at, ins, fn):
        x, n = args
        if is_sym(n):
            raise Unsupported('ldexp exponent')
        n = n - (1 << 32) if n >> 31 else n
        return self.ex.dom.binop('fmul', x, self.ex.dom.const(2.0**n, 'double'),
                                 'double', st)

    # -- libc -----------------------------------------------------------
    def s___assert_fail(self, st, args, at, ins, fn):
        m = self.ex.cstr(st, args[0])
        self.ex.fail(st, 'abort', 'assertion failed: ' + m[:120])

    def s_abort(self, st, args, at, ins, fn):
        self.ex.fail(st, 'abort', 'abort()')

    def s_malloc(self, st, args, at, ins, fn):
        n = args[0]
        if is_sym(n):
            n = self.ex.concretize(st, n)
        if n > (1 << 40):
            self.ex.fail(st, 'memory', 'allocation of %d bytes' % n)
        return self.ex.new_obj(st, n, 'heap').base

    def s__Znwm(self, st, args, at, ins, fn):
        return self.s_malloc(st, args, at, ins, fn)

    def s__Znam(self, st, args, at, ins, fn):
        return self.s_malloc(st, args, at, ins, fn)

    def s__ZnwmRKSt9nothrow_t(self, st, args, at, ins, fn):
        return self.s_malloc(st, args, at, ins, fn)

    def s_calloc(self, st, args, at, ins, fn):
        p = self.s_malloc(st, [args[0] * args[1]], at, ins, fn)
        self.ex.memset(st, p, 0, args[0] * args[1])
        return p

    def s_realloc(self, st, args, at, ins, fn):
        p = self.s_malloc(st, [args[1]], at, ins, fn)
        if args[0]:
            o = self.ex.obj_at(st, args[0], 0)
            self.ex.memcpy(st, p, args[0], min(o.size, args[1]))
            st.mem.pop(args[0])
        return p

    def s_free(self, st, args, at, ins, fn):
        p = args[0]
        if is_sym(p):
            p = self.ex.concretize(st, p)
        if p == 0:
            return None
        o = st.mem.get(p)
        if o is None or o.kind != 'heap':
            self.ex.fail(st, 'memory', 'invalid or double free')
        del st.mem[p]
        return None

    s__ZdlPv = s_free
    s__ZdaPv = s_free
    s__ZdlPvm = s_free
    s__ZdaPvm = s_free

    def s_memcpy(self, st, args, at, ins, fn):
        self.ex.memcpy(st, args[0], args[1], args[2])
        return args[0]

    s_memmove = s_memcpy

    def s_memset(self, st, args, at, ins, fn):
        self.ex.memset(st, args[0], args[1], args[2])
        return args[0]

    def s_memchr(self, st, args, at, ins, fn):
        p, c, n = args
        n = self.ex.concretize(st, n) if is_sym(n) else n
        for k in range(n):
            b = self.ex.load(st, p + k, ('i', 8))
            e = self.ex.icmp('eq', b, c & 255, 8)
            if self.ex.decide(st, e) if is_sym(e) else e:
                return p + k
        return 0

    def s_strlen(self, st, args, at, ins, fn):
        k = 0
        while True:
            b = self.ex.load(st, args[0] + k, ('i', 8))
            e = self.ex.icmp('eq', b, 0, 8)
            if self.ex.decide(st, e) if is_sym(e) else e:
                return k
            k += 1

    def s_memcmp(self, st, args, at, ins, fn):
        n = args[2]
        n = self.ex.concretize(st, n) if is_sym(n) else n
        return self._cmp(st, args[0], args[1], n, False)

    s_bcmp = s_memcmp

    def _cmp(self, st, p, q, n, stop):
        k = 0
        ex = self.ex
        while n is None or k < n:
            a = ex.load(st, p + k, ('i', 8))
            b = ex.load(st, q + k, ('i', 8))
            e = ex.icmp('eq', a, b, 8)
            if not (ex.decide(st, e) if is_sym(e) else e):
                l = ex.icmp('ult', a, b, 8)
                return 0xffffffff if (ex.decide(st, l) if is_sym(l) else l) \
                    else 1
            if stop:
                z = ex.icmp('eq', a, 0, 8)
                if ex.decide(st, z) if is_sym(z) else z:
                    return 0
            k += 1
        return 0

    def s_strcmp(self, st, args, at, ins, fn):
        return self._cmp(st, args[0], args[1], None, True)

    def s_strncmp(self, st, args, at, ins, fn):
        return self._cmp(st, args[0], args[1], args[2], True)

    def s___errno_location(self, st, args, at, ins, fn):
        p = st.user.get('errno')
        if p is None:
            o = self.ex.new_obj(st, 4, 'heap')
            o.cells[0] = (0, 4, 'i')
            p = st.user['errno'] = o.base
        return p

    # -- C++ ABI ----------------------------------------------------------
    def s___cxa_atexit(self, st, args, at, ins, fn):
        return 0

    def s___cxa_guard_acquire(self, st, args, at, ins, fn):
        b = self.ex.load(st, args[0], ('i', 8))
        return 0 if b else 1

    def s___cxa_guard_release(self, st, args, at, ins, fn):
        self.ex.store(st, args[0], ('i', 8), 1)
        return None

    def s___cxa_guard_abort(self, st, args, at, ins, fn):
        return None

    def s___cxa_allocate_exception(self, st, args, at, ins, fn):
        return self.ex.new_obj(st, max(args[0], 8), 'exc').base

    def s___cxa_free_exception(self, st, args, at, ins, fn):
        st.mem.pop(args[0], None)
        return None

    def s___cxa_throw(self, st, args, at, ins, fn):
        self.ex.throw(st, args[0], args[1])
        return Ellipsis

    def s___cxa_begin_catch(self, st, args, at, ins, fn):
        st.exc_stack.append(args[0])
        return args[0]

    def s___cxa_get_exception_ptr(self, st, args, at, ins, fn):
        return args[0]

    def s___cxa_end_catch(self, st, args, at, ins, fn):
        if st.exc_stack:
            st.exc_stack.pop()
        return None

    def s___cxa_rethrow(self, st, args, at, ins, fn):
        e = st.exc_stack[-1]
        self.ex.throw(st, e, st.exc_info[e])
        return Ellipsis

    def s___clang_call_terminate(self, st, args, at, ins, fn):
        self.ex.fail(st, 'terminate', 'exception left a noexcept function')

    def s__ZSt9terminatev(self, st, args, at, ins, fn):
        self.ex.fail(st, 'terminate', 'std::terminate')

    def s___cxa_pure_virtual(self, st, args, at, ins, fn):
        self.ex.fail(st, 'abort', 'pure virtual call')

    def s___cxa_bad_cast(self, st, args, at, ins, fn):
        self.ex.fail(st, 'terminate', 'bad cast')

    def s___gxx_personality_v0(self, st, args, at, ins, fn):
        return 0

    def s___dynamic_cast(self, st, args, at, ins, fn):
        p, src, dst, hint = args
        ex = self.ex
        if p == 0:
            return 0
        vptr = ex.load(st, p, ('p',))
        off = ex.load(st, vptr - 16, ('i', 64))
        ti = ex.load(st, vptr - 8, ('p',))
        if off >> 63:
            off -= 1 << 64
        whole = (p + off) & ((1 << 64) - 1)
        if self.derives(st, ti, dst):
            d = self.base_offset(st, ti, dst)
            return whole + d
        return 0

    def base_offset(self, st, t, target):
        if t == target:
            return 0
        for b, o in self.bases_of(st, t):
            if self.derives(st, b, target):
                return o + self.base_offset(st, b, target)
        return 0

    def s__ZNKSt9type_infoeqERKS_(self, st, args, at, ins, fn):
        return int(args[0] == args[1])

    # -- intrinsics -----------------------------------------------------
    def intrinsic(self, name):
        ex = self.ex
        base = name[5:]
        if base.startswith(('memcpy', 'memmove')):
            return lambda st, a, at, ins, fn: ex.memcpy(st, a[0], a[1], a[2])
        if base.startswith('memset'):
            return lambda st, a, at, ins, fn: ex.memset(st, a[0], a[1], a[2])
        if base.startswith(('stacksave', )):
            return lambda st, a, at, ins, fn: 0
        if base.startswith(('stackrestore', 'assume', 'va_end', 'donothing',
                            'prefetch')):
            return lambda st, a, at, ins, fn: None
        if base.startswith('trap'):
            return lambda st, a, at, ins, fn: ex.fail(st, 'abort', 'trap')
        if base.startswith('expect'):
            return lambda st, a, at, ins, fn: a[0]
        if base.startswith('eh.typeid.for'):
            return lambda st, a, at, ins, fn: self.typeid(a[0])
        if base.startswith('is.constant'):
            return lambda st, a, at, ins, fn: 0
        if base.startswith('objectsize'):
            return lambda st, a, at, ins, fn: (1 << 64) - 1
        if base.startswith('is.fpclass'):
            return lambda st, a, at, ins, fn: ex.dom.classify(a[0], a[1],
                                                              at[0][1])
        m = re.match(r'(fabs|sqrt|floor|ceil|trunc|round|rint|nearbyint|sin|'
                     r'cos|exp|log10|log2|log|pow|copysign|minnum|maxnum)\.',
                     base)
        if m:
            n = {'minnum': 'fmin', 'maxnum': 'fmax'}.get(m.group(1),
                                                         m.group(1))

            def f(st, a, at, ins, fn):
                return ex.dom.libm(n, a, ins.t[1], st)
            return f
        if base.startswith('fmuladd') or base.startswith('fma.'):
            def g(st, a, at, ins, fn):
                p = ex.dom.binop('fmul', a[0], a[1], ins.t[1], st)
                return ex.dom.binop('fadd', p, a[2], ins.t[1], st)
            return g
        m = re.match(r'(umax|umin|smax|smin)\.', base)
        if m:
            pr = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt',
                  'smin': 'slt'}[m.group(1)]

            def h(st, a, at, ins, fn):
                c = ex.icmp(pr, a[0], a[1], ins.t[1])
                return ex.ite(c, a[0], a[1], ins.t)
            return h
        if base.startswith('abs.'):
            def ab(st, a, at, ins, fn):
                w = ins.t[1]
                c = ex.icmp('slt', a[0], 0, w)
                return ex.ite(c, ex._intbin('sub', 0, a[0], w, st), a[0],
                              ins.t)
            return ab
        m = re.match(r'([us])(add|sub|mul)\.with\.overflow', base)
        if m:
            def ov(st, a, at, ins, fn):
                w = at[0][1]
                r = ex._intbin(m.group(2), a[0], a[1], w, st)
                if not is_sym(a[0]) and not is_sym(a[1]):
                    x, y = a
                    if m.group(1) == 's':
                        x = x - (1 << w) if x >> (w - 1) else x
                        y = y - (1 << w) if y >> (w - 1) else y
                    e = {'add': x + y, 'sub': x - y, 'mul': x * y}[m.group(2)]
                    rr = r - (1 << w) if m.group(1) == 's' and \
                        r >> (w - 1) else r
                    return [r, int(e != rr)]
                X, Y = ex.bv(a[0], w), ex.bv(a[1], w)
                sg = m.group(1) == 's'
                ext = (lambda v: z3.SignExt(w, v)) if sg else \
                    (lambda v: z3.ZeroExt(w, v))
                E = {'add': lambda: ext(X) + ext(Y),
                     'sub': lambda: ext(X) - ext(Y),
                     'mul': lambda: ext(X) * ext(Y)}[m.group(2)]()
                return [r, E != ext(ex.bv(r, w))]
            return ov
        return None
