"""Exact IEEE-754 domain: concrete Python/numpy floats or z3 FP terms."""
import ctypes
import math
import struct
import numpy as np
import z3

np.seterr(all='ignore')
_m = ctypes.CDLL('libm.so.6')
SORT = {'float': z3.FPSort(8, 24), 'double': z3.FPSort(11, 53),
        'fp80': z3.FPSort(15, 64)}
RNE = z3.RNE()
RTZ = z3.RTZ()
LD = np.longdouble
PREC = {'float': 24, 'double': 53, 'fp80': 64}
RANK = {'float': 0, 'double': 1, 'fp80': 2}


def _c(name, n, kind):
    f = getattr(_m, name + {'double': '', 'float': 'f', 'fp80': 'l'}[kind])
    ct = {'double': ctypes.c_double, 'float': ctypes.c_float,
          'fp80': ctypes.c_longdouble}[kind]
    f.restype = ct
    f.argtypes = [ct] * n
    return f


def conc(x, kind):
    """normalise a concrete value to its kind"""
    if kind == 'double':
        return float(x)
    if kind == 'float':
        return float(np.float32(x))
    return LD(x)


def is_sym(x):
    return isinstance(x, z3.ExprRef)


class Unsupported(Exception):
    pass


def fp80_parts(x):
    """np.longdouble -> (sign, exp, man) of the x87 format"""
    b = np.array([x], dtype=LD).tobytes()
    man = int.from_bytes(b[:8], 'little')
    se = int.from_bytes(b[8:10], 'little')
    return se >> 15, se & 0x7fff, man


def low_bits(x, width):
    """the low bits of x, keeping sign and zero extensions visible"""
    k = x.decl().kind() if z3.is_app(x) else None
    if k in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
        y = x.arg(0)
        if y.size() == width:
            return y
        if y.size() < width:
            f = z3.SignExt if k == z3.Z3_OP_SIGN_EXT else z3.ZeroExt
            return f(width - y.size(), y)
        return low_bits(y, width)
    return z3.Extract(width - 1, 0, x)


def unwrap_ext(v):
    """nested sign (zero) extensions as a single one"""
    k = v.decl().kind()
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = v.params()
        if lo == 0:
            w = low_bits(v.arg(0), hi + 1)
            return v if z3.is_app_of(w, z3.Z3_OP_EXTRACT) else unwrap_ext(w)
        return v
    if k == z3.Z3_OP_CONCAT:      # what simplification makes of them
        x = v.arg(v.num_args() - 1)
        for i in range(v.num_args() - 1):
            e = v.arg(i)
            if not z3.is_app_of(e, z3.Z3_OP_EXTRACT) or \
                    not e.arg(0).eq(x) or \
                    e.params() != [x.size() - 1, x.size() - 1]:
                return v
        return z3.SignExt(v.size() - x.size(), x)
    if k not in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
        return v
    y = unwrap_ext(v.arg(0))
    k2 = y.decl().kind()
    if k2 == k or (k2 == z3.Z3_OP_ZERO_EXT and k == z3.Z3_OP_SIGN_EXT):
        f = z3.SignExt if k2 == z3.Z3_OP_SIGN_EXT else z3.ZeroExt
        return f(v.size() - y.arg(0).size(), y.arg(0))
    return v


class FPDom:
    name = 'ieee'
    real = False

    def __init__(self, ex):
        self.ex = ex
        self.ufcache = {}
        self.lift_cache = {}
        self.int_src = {}
        self.ext_src = {}     # id of a widened term -> (source, kind, term)
        self.bits_src = {}    # id of to_ieee_bv term -> (fp term, kind, term)

    def const(self, x, kind):
        return conc(x, kind)

    def lift(self, x, kind):
        if is_sym(x):
            return x
        if kind == 'fp80':
            s, e, m = fp80_parts(x)
            if e == 0x7fff:
                if m == 1 << 63:
                    return z3.fpInfinity(SORT[kind], bool(s))
                return z3.fpNaN(SORT[kind])
            # drop the explicit integer bit
            frac = m & ((1 << 63) - 1)
            return z3.fpFP(z3.BitVecVal(s, 1), z3.BitVecVal(e, 15),
                           z3.BitVecVal(frac, 63))
        if x != x:
            return z3.fpNaN(SORT[kind])
        if math.isinf(x):
            return z3.fpInfinity(SORT[kind], x < 0)
        if x == 0.0:
            return (z3.fpMinusZero(SORT[kind])
                    if math.copysign(1.0, x) < 0 else z3.fpPlusZero(SORT[kind]))
        if kind == 'double':
            b = struct.unpack('<Q', struct.pack('<d', x))[0]
            return z3.simplify(z3.fpFP(z3.BitVecVal(b >> 63, 1),
                                       z3.BitVecVal((b >> 52) & 0x7ff, 11),
                                       z3.BitVecVal(b & ((1 << 52) - 1), 52)))
        b = struct.unpack('<I', struct.pack('<f', x))[0]
        return z3.simplify(z3.fpFP(z3.BitVecVal(b >> 31, 1),
                                   z3.BitVecVal((b >> 23) & 0xff, 8),
                                   z3.BitVecVal(b & ((1 << 23) - 1), 23)))

    def fresh(self, name, kind):
        return z3.FP(name, SORT[kind])

    # arithmetic -------------------------------------------------------
    def binop(self, op, a, b, kind, st=None):
        if not is_sym(a) and not is_sym(b):
            return self.cbin(op, a, b, kind)
        if op == 'frem':
            return self.libm('fmod', [a, b], kind, st)
        # exact cheap identities
        if op == 'fmul':
            if not is_sym(b) and b == 1.0:
                return a
            if not is_sym(a) and a == 1.0:
                return b
        if op == 'fdiv' and not is_sym(b) and b == 1.0:
            return a
        A, B = self.lift(a, kind), self.lift(b, kind)
        if op == 'fadd':
            return z3.fpAdd(RNE, A, B)
        if op == 'fsub':
            return z3.fpSub(RNE, A, B)
        if op == 'fmul':
            return z3.fpMul(RNE, A, B)
        if op == 'fdiv':
            return z3.fpDiv(RNE, A, B)
        raise Unsupported(op)

    def cbin(self, op, a, b, kind):
        if kind == 'float':
            a, b = np.float32(a), np.float32(b)
        elif kind == 'double':
            a, b = np.float64(a), np.float64(b)
        if op == 'fadd':
            r = a + b
        elif op == 'fsub':
            r = a - b
        elif op == 'fmul':
            r = a * b
        elif op == 'fdiv':
            r = a / b
        elif op == 'frem':
            r = np.fmod(a, b)
        else:
            raise Unsupported(op)
        return conc(r, kind)

    def fneg(self, a, kind):
        return z3.fpNeg(a) if is_sym(a) else -a

    def fcmp(self, pred, a, b, kind, st=None):
        if not is_sym(a) and not is_sym(b):
            nan = (a != a) or (b != b)
            if pred == 'true':
                return 1
            if pred == 'false':
                return 0
            if pred == 'ord':
                return int(not nan)
            if pred == 'uno':
                return int(nan)
            if nan:
                return int(pred[0] == 'u')
            o = pred[1:]
            return int({'eq': a == b, 'gt': a > b, 'ge': a >= b,
                        'lt': a < b, 'le': a <= b, 'ne': a != b}[o])
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        if pred in ('ord', 'uno'):
            parts = [z3.fpIsNaN(v) for v in (a, b) if is_sym(v)]
            if any((not is_sym(v)) and v != v for v in (a, b)):
                return int(pred == 'uno')
            if len(parts) == 2 and parts[0].eq(parts[1]):
                parts = parts[:1]
            u = z3.Or(*parts) if len(parts) > 1 else parts[0]
            return u if pred == 'uno' else z3.Not(u)
        ia = self.as_int(a, kind)
        ib = self.as_int(b, kind) if ia is not None else None
        if ib is not None:
            o = pred[1:]
            return {'eq': lambda: ia == ib, 'gt': lambda: ia > ib,
                    'ge': lambda: ia >= ib, 'lt': lambda: ia < ib,
                    'le': lambda: ia <= ib, 'ne': lambda: ia != ib}[o]()
        a, b, kind = self.narrow(a, b, kind)
        A, B = self.lift(a, kind), self.lift(b, kind)
        same = A.eq(B)
        o = pred[1:]
        base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ,
                'lt': z3.fpLT, 'le': z3.fpLEQ}.get(o)
        if pred[0] == 'o':
            if o == 'ne':
                return z3.Or(z3.fpLT(A, B), z3.fpGT(A, B))
            if same:
                return (z3.Not(z3.fpIsNaN(A)) if o in ('eq', 'ge', 'le')
                        else 0)
            return base(A, B)
        # unordered: negation of the ordered complement
        if o == 'ne':
            return z3.fpIsNaN(A) if same else z3.Not(z3.fpEQ(A, B))
        comp = {'gt': z3.fpLEQ, 'ge': z3.fpLT, 'lt': z3.fpGEQ,
                'le': z3.fpGT}.get(o)
        if comp:
            return z3.Not(comp(A, B))
        return z3.Or(z3.fpIsNaN(A), z3.fpIsNaN(B), z3.fpEQ(A, B))

    def conv(self, v, frm, to, st=None):
        if frm == to:
            return v
        if is_sym(v):
            src = self.ext_src.get(v.get_id())
            if src is not None:      # widening is exact: convert the source
                return self.conv(src[0], src[1], to)
            if z3.is_app_of(v, z3.Z3_OP_ITE):
                c, x, y = v.children()
                if x.get_id() in self.ext_src or y.get_id() in self.ext_src:
                    return z3.If(c, self.lift(self.conv(x, frm, to), to),
                                 self.lift(self.conv(y, frm, to), to))
            if z3.is_fp_value(v):
                return conc(fp_numeral(v, frm), to)
            r = z3.fpFPToFP(RNE, v, SORT[to])
            if RANK[to] > RANK[frm]:
                self.ext_src[r.get_id()] = (v, frm, r)
            return r
        return conc(v, to)

    def narrow(self, a, b, kind):
        """compare widened values in their source format when both sides
        are exactly representable there"""
        def src(v):
            if is_sym(v):
                s = self.ext_src.get(v.get_id())
                return (s[0], s[1]) if s is not None else (v, kind)
            for k in ('float', 'double'):
                if RANK[k] < RANK[kind] and (v != v or
                                             conc(v, kind) == conc(conc(v, k), kind)):
                    return conc(v, k), k
            return v, kind
        (x, k1), (y, k2) = src(a), src(b)
        k = k1 if RANK[k1] >= RANK[k2] else k2
        if k == kind:
            return a, b, kind
        return self.conv(x, k1, k), self.conv(y, k2, k), k

    def itofp(self, v, width, signed, kind, st=None):
        if not is_sym(v):
            if signed and v >> (width - 1):
                v -= 1 << width
            if kind == 'fp80':
                hi, lo = v >> 32, v & 0xffffffff
                return LD(hi) * LD(2.0**32) + LD(lo)
            if kind == 'float':
                # exact rounding through fractions
                return float(np.float32(v)) if abs(v) < 2**53 else \
                    _round_int_to_float(v)
            return float(v)
        if z3.is_bool(v):
            one = self.const(-1.0 if signed else 1.0, kind)
            return z3.If(v, self.lift(one, kind),
                         self.lift(self.const(0.0, kind), kind))
        v0 = unwrap_ext(v)
        if v0 is v and not z3.is_const(v):
            v0 = unwrap_ext(z3.simplify(v))
        if z3.is_app_of(v0, z3.Z3_OP_ZERO_EXT):
            v = v0.arg(0)
            width = v.size()
            signed = False
        elif signed and z3.is_app_of(v0, z3.Z3_OP_SIGN_EXT):
            v = v0.arg(0)
            width = v.size()
        elif z3.is_app_of(v0, z3.Z3_OP_CONCAT) and \
                z3.is_bv_value(v0.arg(0)) and v0.arg(0).as_long() == 0 and \
                v0.num_args() == 2:
            v = v0.arg(1)
            width = v.size()
            signed = False
        if signed:
            r = z3.fpSignedToFP(RNE, v, SORT[kind])
        else:
            r = z3.fpUnsignedToFP(RNE, v, SORT[kind])
        if width - (1 if signed else 0) <= PREC[kind]:
            self.int_src[r.get_id()] = (v, width, signed, r)
        return r

    def as_int(self, v, kind):
        """(signed 72-bit vector) of a float that is exactly an integer"""
        if is_sym(v):
            s = self.int_src.get(v.get_id())
            if s is None:
                e = self.ext_src.get(v.get_id())
                if e is not None:
                    return self.as_int(e[0], e[1])
                return None
            x, w, sg, _ = s
            return z3.SignExt(72 - w, x) if sg else z3.ZeroExt(72 - w, x)
        if v == v and abs(v) < 2.0**66 and v == np.floor(v) and not (
                v == 0 and np.signbit(v)):
            return z3.BitVecVal(int(v), 72)
        return None

    def fptoi(self, v, kind, width, signed, st):
        """returns (int value, in-range condition or True/False)"""
        lo = -(1 << (width - 1)) if signed else 0
        hi = (1 << (width - 1)) if signed else (1 << width)
        if not is_sym(v):
            if v != v or np.isinf(v):
                return 0, False
            iv = int(v)
            if not (lo <= iv < hi):
                return iv & ((1 << width) - 1), False
            return iv & ((1 << width) - 1), True
        x = self.as_int(v, kind)
        if x is not None:
            return low_bits(x, width), z3.And(
                x >= z3.BitVecVal(lo, 72), x < z3.BitVecVal(hi, 72))
        # v > lo-1 and v < hi, evaluated in a sort where both are exact
        vv, k = v, kind
        prec = {'float': 24, 'double': 53, 'fp80': 64}
        if width > prec[kind]:
            # lo-1 not representable: v >= lo suffices since v has no
            # fraction bits near there
            if signed:
                c1 = z3.fpGEQ(vv, self.lift(conc(float(lo), k), k))
            else:
                c1 = z3.fpGT(vv, self.lift(conc(-1.0, k), k))
        else:
            c1 = z3.fpGT(vv, self.lift(conc(float(lo - 1), k), k))
        c2 = z3.fpLT(vv, self.lift(conc(float(hi), k), k))
        rng = z3.And(c1, c2)
        if signed:
            r = z3.fpToSBV(RTZ, v, z3.BitVecSort(width))
        else:
            r = z3.fpToUBV(RTZ, v, z3.BitVecSort(width))
        return r, rng

    def ite(self, c, a, b, kind):
        return z3.If(c, self.lift(a, kind), self.lift(b, kind))

    def to_bits(self, v, kind):
        n = {'float': 4, 'double': 8, 'fp80': 10}[kind]
        if not is_sym(v):
            if kind == 'float':
                return struct.unpack('<I', struct.pack('<f', v))[0], n
            if kind == 'double':
                return struct.unpack('<Q', struct.pack('<d', v))[0], n
            s, e, m = fp80_parts(v)
            return (s << 79) | (e << 64) | m, n
        if kind == 'fp80':
            raise Unsupported('bits of symbolic fp80')
        r = z3.fpToIEEEBV(v)
        self.bits_src[r.get_id()] = (v, kind, r)
        return r, n

    def from_bits(self, b, kind):
        if not is_sym(b):
            if kind == 'float':
                return struct.unpack('<f', struct.pack('<I', b & 0xffffffff))[0]
            if kind == 'double':
                return struct.unpack('<d', struct.pack('<Q', b))[0]
            return np.frombuffer((b & ((1 << 80) - 1)).to_bytes(16, 'little'),
                                 dtype=LD)[0]
        if kind == 'fp80':
            raise Unsupported('fp80 from symbolic bits')
        src = self.bits_src.get(b.get_id())
        if src is not None and src[1] == kind:
            return src[0]
        return z3.fpBVToFP(b, SORT[kind])

    # libm -------------------------------------------------------------
    EXACT = {'fabs', 'sqrt', 'floor', 'ceil', 'trunc', 'round', 'rint',
             'nearbyint', 'fmin', 'fmax', 'copysign'}
    NARG = {'fmin': 2, 'fmax': 2, 'copysign': 2, 'atan2': 2, 'pow': 2,
            'fmod': 2, 'hypot': 2, 'remainder': 2, 'fdim': 2,
            'nextafter': 2, 'fma': 3}

    def libm(self, name, args, kind, st):
        if not any(is_sym(a) for a in args):
            if kind == 'fp80':
                f = getattr(np, {'pow': 'power', 'atan2': 'arctan2',
                                 'asin': 'arcsin', 'acos': 'arccos',
                                 'atan': 'arctan', 'round': 'vp_round'}.get(
                                     name, name), None)
                if name == 'round':
                    f = lambda x: np.copysign(np.floor(abs(x) + LD(0.5)), x)
                return LD(f(*[LD(a) for a in args]))
            return conc(_c(name, len(args), kind)(*args), kind)
        A = [self.lift(a, kind) for a in args]
        if name == 'fabs':
            return z3.fpAbs(A[0])
        if name == 'sqrt':
            return z3.fpSqrt(RNE, A[0])
        if name in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
            rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': RTZ,
                  'round': z3.RNA(), 'rint': RNE, 'nearbyint': RNE}[name]
            return z3.fpRoundToIntegral(rm, A[0])
        if name == 'fmin':
            return z3.If(z3.fpIsNaN(A[0]), A[1],
                         z3.If(z3.fpIsNaN(A[1]), A[0],
                               z3.If(z3.fpLEQ(A[0], A[1]), A[0], A[1])))
        if name == 'fmax':
            return z3.If(z3.fpIsNaN(A[0]), A[1],
                         z3.If(z3.fpIsNaN(A[1]), A[0],
                               z3.If(z3.fpGEQ(A[0], A[1]), A[0], A[1])))
        if name == 'copysign':
            ab = z3.fpAbs(A[0])
            return z3.If(z3.fpIsNegative(A[1]), z3.fpNeg(ab), ab)
        # uninterpreted with contract
        key = (name, kind) + tuple(a.get_id() for a in A)
        hit = self.ufcache.get(key)
        if hit is not None:
            r = hit[0]
            for c in hit[2]:
                st.add(c)
            return r
        r = self.fresh('uf_%s_%d' % (name, len(self.ufcache)), kind)
        cons = self.contract(name, A, r, kind)
        self.ufcache[key] = (r, A, cons)
        for c in cons:
            st.add(c)
        st.uf = True
        return r

    def contract(self, name, A, r, kind):
        k = lambda v: self.lift(conc(v, kind), kind)
        anynan = z3.Or(*[z3.fpIsNaN(a) for a in A])
        anyinf = z3.Or(*[z3.fpIsInf(a) for a in A])
        fin = z3.And(z3.Not(anynan), z3.Not(anyinf))
        between = lambda lo, hi: z3.And(z3.fpGEQ(r, k(lo)), z3.fpLEQ(r, k(hi)))
        out = []
        if name in ('sin', 'cos'):
            out.append(z3.If(fin, between(-1.0, 1.0), z3.fpIsNaN(r)))
        elif name == 'tan':
            out.append(z3.If(fin, z3.Not(z3.fpIsNaN(r)), z3.fpIsNaN(r)))
        elif name == 'atan':
            out.append(z3.If(anynan, z3.fpIsNaN(r),
                             between(-math.pi / 2, math.pi / 2)))
        elif name == 'atan2':
            out.append(z3.If(anynan, z3.fpIsNaN(r),
                             between(-math.pi, math.pi)))
        elif name in ('asin', 'acos'):
            ok = z3.And(z3.fpGEQ(A[0], k(-1.0)), z3.fpLEQ(A[0], k(1.0)))
            out.append(z3.If(ok, between(-math.pi / 2, math.pi / 2)
                             if name == 'asin' else between(0.0, math.pi),
                             z3.fpIsNaN(r)))
        elif name == 'hypot':
            out.append(z3.Implies(fin, z3.And(
                z3.fpGEQ(r, z3.fpAbs(A[0])), z3.fpGEQ(r, z3.fpAbs(A[1])))))
        elif name in ('exp',):
            out.append(z3.If(anynan, z3.fpIsNaN(r), z3.fpGEQ(r, k(0.0))))
        elif name == 'fmod':
            b = z3.fpAbs(A[1])
            okc = z3.And(z3.Not(anynan), z3.Not(z3.fpIsInf(A[0])),
                         z3.Not(z3.fpIsZero(A[1])))
            out.append(z3.If(okc, z3.And(z3.fpLT(z3.fpAbs(r), b),
                                         z3.fpLEQ(z3.fpAbs(r), z3.fpAbs(A[0])),
                                         z3.Or(z3.fpIsZero(r), z3.fpIsNegative(r) == z3.fpIsNegative(A[0])),
                                         z3.Implies(z3.fpLT(z3.fpAbs(A[0]), b), z3.fpEQ(r, A[0]))),
                             z3.fpIsNaN(r)))
        elif name in ('log', 'log10', 'log2'):
            out.append(z3.If(z3.fpGT(A[0], k(0.0)), z3.And(
                z3.Not(z3.fpIsNaN(r)),
                z3.fpGEQ(r, k(0.0)) == z3.fpGEQ(A[0], k(1.0)),
                z3.fpLEQ(z3.fpAbs(r), k(1100.0 if not kind == 'fp80' else 17000.0)) if True else True),
                True))
        return out

    def classify(self, v, mask, kind):
        """llvm.is.fpclass"""
        S_, Q, NI, NN, NS, NZ, PZ, PS, PN, PI = (1, 2, 4, 8, 16, 32, 64, 128,
                                                 256, 512)
        if not is_sym(v):
            if v != v:
                bit = Q
            elif np.isinf(v):
                bit = NI if v < 0 else PI
            elif v == 0:
                bit = NZ if np.signbit(v) else PZ
            else:
                tiny = {'float': np.finfo(np.float32).tiny,
                        'double': np.finfo(np.float64).tiny,
                        'fp80': np.finfo(LD).tiny}[kind]
                sub = abs(v) < tiny
                bit = (NS if sub else NN) if v < 0 else (PS if sub else PN)
            return int(bool(bit & mask))
        neg = z3.fpIsNegative(v)
        parts = []
        for fn, nb, pb in ((z3.fpIsInf, NI, PI), (z3.fpIsNormal, NN, PN),
                           (z3.fpIsSubnormal, NS, PS), (z3.fpIsZero, NZ, PZ)):
            if mask & nb and mask & pb:
                parts.append(fn(v))
            elif mask & nb:
                parts.append(z3.And(fn(v), neg))
            elif mask & pb:
                parts.append(z3.And(fn(v), z3.Not(neg)))
        if mask & 3:
            parts.append(z3.fpIsNaN(v))
        return z3.Or(*parts)

    def model_value(self, model, v, kind):
        """concrete value of v in the model"""
        if not is_sym(v):
            return v
        r = model.eval(v, model_completion=True)
        return fp_numeral(r, kind)


def _round_int_to_float(v):
    # correct rounding of a big python int to binary32
    from fractions import Fraction
    s = -1 if v < 0 else 1
    v = abs(v)
    n = v.bit_length()
    sh = n - 24
    q, rem = v >> sh, v & ((1 << sh) - 1)
    half = 1 << (sh - 1)
    if rem > half or (rem == half and q & 1):
        q += 1
    return s * math.ldexp(float(q), sh)


def fp_numeral(r, kind):
    if z3.is_fp(r) and not z3.is_fp_value(r):
        r = z3.simplify(r)
    if r.isNaN():
        return conc(float('nan'), kind)
    if r.isInf():
        return conc(float('-inf') if r.isNegative() else float('inf'), kind)
    if r.isZero():
        return conc(-0.0 if r.isNegative() else 0.0, kind)
    bv = z3.simplify(z3.fpToIEEEBV(r)).as_long()
    if kind == 'double':
        return struct.unpack('<d', struct.pack('<Q', bv))[0]
    if kind == 'float':
        return struct.unpack('<f', struct.pack('<I', bv))[0]
    s, e, f = bv >> 78, (bv >> 63) & 0x7fff, bv & ((1 << 63) - 1)
    man = f | ((1 << 63) if e else 0)
    x = np.ldexp(LD(np.uint64(man)), (e if e else 1) - 16383 - 63)
    return -x if s else x
