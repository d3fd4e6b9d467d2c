"""Real domain: floating-point values are exact reals.

A symbolic value is a rational function over atoms (inputs, sines and
cosines of base angles, square roots, ...), kept in normal form.  Comparisons
become polynomial constraints over the atoms for a nonlinear real solver.
The rules used to normalise are identities of real arithmetic:
  sin^2 + cos^2 = 1, addition theorems, sqrt(x)^2 = x, definitions of the
  inverse trigonometric functions.
Rounding is outside of this domain.
"""
import math
import random
from fractions import Fraction as F

import numpy as np
import z3

from .fpdom import FPDom, Unsupported, conc, is_sym

LD = np.longdouble


class Atom:
    __slots__ = ('id', 'name', 'z', 'deg', 'red', 'ev', 'nonneg', 'trig',
                 'base')

    def __init__(self, id_, name):
        self.id = id_
        self.name = name
        self.z = z3.Real(name)
        self.deg = 0          # x^deg -> red
        self.red = None
        self.ev = None        # numeric evaluation, None: an input
        self.nonneg = False
        self.trig = None      # (sin Rat, cos Rat) of this atom as an angle
        self.base = None


ONE = ()


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mdiv(a, b):
    """a / b or None"""
    d = dict(a)
    for x, e in b:
        v = d.get(x, 0) - e
        if v < 0:
            return None
        if v:
            d[x] = v
        else:
            d.pop(x)
    return tuple(sorted(d.items()))


def mkey(m):
    """monomial order: graded"""
    return (sum(e for _, e in m), m)


def pkey(p):
    return frozenset(p.items())


class Rat:
    """num / product of den factors (poly, exponent)"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}      # key -> (poly, exp)


class RealDom(FPDom):
    name = 'real'
    real = True

    def __init__(self, ex):
        super().__init__(ex)
        self.atoms = []
        self.by_name = {}
        self.val = {}         # id of placeholder -> (Rat, placeholder)
        self.rkeys = {}
        self.cache = {}
        self.zcache = {}
        self.consts = {}
        self.nn = set()
        self.squares = {}
        self.pi = self.atom('pi')
        self.pi.ev = lambda env: math.pi
        self.pi.nonneg = True
        z = self.pi.z
        ex.solver.defs['pi'] = [
            z > z3.RealVal('3.14159265358979'),
            z < z3.RealVal('3.14159265358980')]
        self.maxterms = ex.opts.get('maxterms', 4000)

    # -- atoms ------------------------------------------------------------
    def atom(self, name):
        a = self.by_name.get(name)
        if a is None:
            a = Atom(len(self.atoms), name)
            self.atoms.append(a)
            self.by_name[name] = a
        return a

    def avar(self, a):
        return Rat({((a.id, 1),): F(1)})

    def define(self, a, *cons):
        self.ex.solver.defs.setdefault(a.name, []).extend(cons)

    # -- polynomials --------------------------------------------------------
    def pmul(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        r = {}
        todo = []
        atoms = self.atoms
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = mmul(m1, m2)
                c = c1 * c2
                bad = False
                for x, e in m:
                    a = atoms[x]
                    if a.deg and e >= a.deg:
                        bad = True
                        break
                if bad:
                    todo.append((m, c))
                    continue
                v = r.get(m, 0) + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        for m, c in todo:
            r = padd(r, self.mreduce(m), c)
        if len(r) > self.maxterms:
            raise Unsupported('polynomial too large')
        return r

    def mreduce(self, m):
        key = ('mred', m)
        hit = self.cache.get(key)
        if hit is not None:
            return hit
        out = None
        for k, (x, e) in enumerate(m):
            a = self.atoms[x]
            if a.deg and e >= a.deg:
                rest = m[:k] + (((x, e - a.deg),) if e > a.deg else ()) + \
                    m[k + 1:]
                out = self.pmul(a.red, self.mreduce(rest))
                break
        if out is None:
            out = {m: F(1)}
        self.cache[key] = out
        return out

    def ppow(self, p, n):
        r = {ONE: F(1)}
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    def pdivide(self, p, q):
        """exact quotient p / q in the free polynomial ring, or None"""
        if len(q) == 1:
            (m, c), = q.items()
            out = {}
            for m1, c1 in p.items():
                d = mdiv(m1, m)
                if d is None:
                    return None
                out[d] = c1 / c
            return out
        if len(p) < len(q) or len(p) > 400:
            return None
        lead = max(q, key=mkey)
        lc = q[lead]
        r = dict(p)
        out = {}
        n = 0
        while r:
            m = max(r, key=mkey)
            d = mdiv(m, lead)
            if d is None:
                return None
            c = r[m] / lc
            out[d] = out.get(d, 0) + c
            for m2, c2 in q.items():
                mm = mmul(d, m2)
                v = r.get(mm, 0) - c * c2
                if v:
                    r[mm] = v
                else:
                    r.pop(mm, None)
            n += 1
            if n > 400:
                return None
        return out

    def pz(self, p):
        """z3 term of a polynomial, integer coefficients"""
        key = pkey(p)
        t = self.zcache.get(key)
        if t is not None:
            return t
        den = 1
        for c in p.values():
            den = den * c.denominator // math.gcd(den, c.denominator)
        g = 0
        for c in p.values():
            g = math.gcd(g, int(c * den))
        s = []
        for m in sorted(p, key=mkey):
            c = int(p[m] * den) // (g or 1)
            f = []
            for x, e in m:
                f += [self.atoms[x].z] * e
            if c != 1 or not f:
                f.insert(0, z3.RealVal(c))
            s.append(f[0] if len(f) == 1 else z3.Product(*f))
        t = z3.RealVal(0) if not s else s[0] if len(s) == 1 else z3.Sum(*s)
        self.zcache[key] = t
        return t

    # -- rationals -----------------------------------------------------------
    def lift_r(self, x):
        if isinstance(x, Rat):
            return x
        if is_sym(x):
            return self.val[x.get_id()][0]
        return self.rconst(x)

    def rconst(self, x):
        x = float(x)
        r = self.consts.get(x)
        if r is None:
            if x == 0:
                r = Rat({})
            else:
                q = x / math.pi
                f = F(q).limit_denominator(720)
                if f and abs(float(f) - q) <= 4e-16 * abs(q) and \
                        x != math.floor(x):
                    r = Rat({((self.pi.id, 1),): f})
                else:
                    q = x * math.pi
                    f = F(q).limit_denominator(720)
                    if f and abs(float(f) - q) <= 4e-16 * abs(q) and \
                            x != math.floor(x):
                        r = self.rdiv0(Rat({ONE: f}), self.avar(self.pi).n)
                    else:
                        r = Rat({ONE: F(repr(x))})
            self.consts[x] = r
        return r

    def norm_factor(self, p):
        """poly -> (constant, {key: (factor, exp)})"""
        fac = {}
        # monomial content
        common = None
        for m in p:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {x: min(e, d[x]) for x, e in common.items() if x in d}
        if common:
            cm = tuple(sorted(common.items()))
            p = {mdiv(m, cm): c for m, c in p.items()}
            for x, e in cm:
                f = {((x, 1),): F(1)}
                fac[pkey(f)] = (f, e)
        lead = max(p, key=mkey)
        k = p[lead]
        if len(p) == 1 and lead == ONE:
            return k, fac
        p = {m: c / k for m, c in p.items()}
        # a rational square times polynomial is left alone
        fac[pkey(p)] = (p, 1)
        return k, fac

    def rdiv0(self, a, p, exp=1):
        """a / p^exp for a polynomial p known to be nonzero"""
        n, d = a.n, dict(a.d)
        k, fac = self.norm_factor(p)
        n = pscale(n, F(1) / (k ** exp))
        for key, (f, e) in fac.items():
            e *= exp
            # rationalise square roots: 1/r = r/P
            if len(f) == 1:
                (m, _), = f.items()
                a_ = self.atoms[m[0][0]]
                if a_.deg == 2 and a_.base == 'sqrt':
                    for _ in range(e):
                        n = self.pmul(n, f)
                    r = self.rdiv0(Rat(n, d), a_.red, e)
                    n, d = r.n, dict(r.d)
                    continue
            while e:
                q = self.pdivide(n, f)
                if q is None:
                    break
                n = q
                e -= 1
            if e:
                old = d.get(key)
                d[key] = (f, e + (old[1] if old else 0))
        if not n:
            d = {}
        return Rat(n, d)

    def cancel(self, r):
        if not r.n:
            return Rat({})
        if not r.d:
            return r
        n, d = r.n, {}
        for key, (f, e) in r.d.items():
            while e:
                q = self.pdivide(n, f)
                if q is None:
                    break
                n = q
                e -= 1
            if e:
                d[key] = (f, e)
        return Rat(n, d)

    def radd(self, a, b, k=1):
        if not a.d and not b.d:
            return Rat(padd(a.n, b.n, k))
        an, bn = a.n, b.n
        d = dict(a.d)
        for key, (f, e) in b.d.items():
            have = d.get(key)
            h = have[1] if have else 0
            if e > h:
                d[key] = (f, e)
                an = self.pmul(an, self.ppow(f, e - h))
        for key, (f, e) in a.d.items():
            have = b.d.get(key)
            h = have[1] if have else 0
            if e > h:
                bn = self.pmul(bn, self.ppow(f, e - h))
        return self.cancel(Rat(padd(an, bn, k), d))

    def rmul(self, a, b):
        d = dict(a.d)
        an, bn = a.n, b.n
        # cancel crosswise first: keeps the products small
        if d:
            for key, (f, e) in list(d.items()):
                while e:
                    q = self.pdivide(bn, f)
                    if q is None:
                        break
                    bn = q
                    e -= 1
                if e:
                    d[key] = (f, e)
                else:
                    del d[key]
        for key, (f, e) in b.d.items():
            while e:
                q = self.pdivide(an, f)
                if q is None:
                    break
                an = q
                e -= 1
            if e:
                old = d.get(key)
                d[key] = (f, e + (old[1] if old else 0))
        return self.cancel(Rat(self.pmul(an, bn), d))

    def rneg(self, a):
        return Rat(pscale(a.n, -1), a.d)

    def req(self, a, b):
        return not self.radd(a, b, -1).n

    # value <-> placeholder -----------------------------------------------
    def mk(self, r):
        if not r.d and all(m == ONE for m in r.n):
            c = r.n.get(ONE, F(0))
            x = float(c)
            if F(repr(x)) == c if x == x and not math.isinf(x) else False:
                return x
        key = (pkey(r.n), frozenset((k, e) for k, (f, e) in r.d.items()))
        t = self.rkeys.get(key)
        if t is None:
            t = z3.Real('v!%d' % len(self.rkeys))
            self.rkeys[key] = t
            self.val[t.get_id()] = (r, t)
        return t

    # -- sign of denominators -------------------------------------------------
    def known_sign(self, st, p, key=None):
        """sign of a polynomial if it is known on this path"""
        key = key or pkey(p)
        s = st.user.get(('sg', key)) if st is not None else None
        if s is not None:
            return s
        # sum of terms that cannot be negative, one of them positive
        pos = True
        strict = False
        for m, c in p.items():
            if c < 0:
                pos = False
                break
            allnn = True
            for x, e in m:
                if e % 2 and not self.atoms[x].nonneg:
                    allnn = False
            if not allnn:
                pos = False
                break
            if m == ONE or all(self.atoms[x] is self.pi for x, e in m):
                strict = True
        if pos and strict:
            return 1
        return None

    def cmp0(self, r, op, st):
        """r op 0 as a formula"""
        sign = 1
        n = r.n
        if r.d and op not in ('eq', 'ne'):
            for key, (f, e) in r.d.items():
                if e % 2 == 0:
                    continue
                s = self.known_sign(st, f, key)
                if s is None:
                    n = self.pmul(n, f)
                else:
                    sign *= s
        if not n:
            return {'eq': 1, 'ne': 0, 'lt': 0, 'gt': 0, 'le': 1, 'ge': 1}[op]
        # nonzero constant
        if len(n) == 1 and ONE in n:
            c = n[ONE] * sign
            return int({'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'gt': c > 0,
                        'le': c <= 0, 'ge': c >= 0}[op])
        # positive factors do not matter for the sign
        if len(n) == 1:
            (m, c), = n.items()
            m2 = tuple((x, e) for x, e in m if self.atoms[x] is not self.pi)
            if not m2:
                c = c * sign
                return int({'eq': False, 'ne': True, 'lt': c < 0, 'gt': c > 0,
                            'le': c <= 0, 'ge': c >= 0}[op])
            n = {m2: c}
        else:
            # drop common pi
            while all(any(self.atoms[x] is self.pi for x, _ in m) for m in n):
                n = {mdiv(m, ((self.pi.id, 1),)): c for m, c in n.items()}
            if all(m == ONE or (len(m) == 1 and self.atoms[m[0][0]] is self.pi
                                and m[0][1] == 1) for m in n):
                c = (float(n.get(ONE, 0)) +
                     math.pi * float(n.get(((self.pi.id, 1),), 0))) * sign
                return int({'eq': False, 'ne': True, 'lt': c < 0, 'gt': c > 0,
                            'le': c <= 0, 'ge': c >= 0}[op])
        if self.squares and op in ('lt', 'ge') and sign > 0 or \
                self.squares and op in ('gt', 'le') and sign < 0:
            # positive multiples of squares are not negative
            hit = self.squares.get(pkey(self.primitive(n)))
            if hit is not None:
                q = self.pdivide(n, hit[1])
                if q is not None and len(q) == 1:
                    (m, c), = q.items()
                    if c > 0 and all(e % 2 == 0 or self.atoms[x].nonneg or
                                     self.known_sign(st, {((x, 1),): F(1)})
                                     == 1 for x, e in m):
                        return int(op in ('ge', 'le'))
        s = self.known_sign(st, n)
        if s is not None:
            s *= sign
            return int({'eq': 0, 'ne': 1, 'lt': s < 0, 'gt': s > 0,
                        'le': s < 0, 'ge': s > 0}[op])
        # orientation for canonical constraints
        lead = n[max(n, key=mkey)]
        if lead < 0:
            n = pscale(n, -1)
            sign = -sign
        t = self.pz(n)
        if sign < 0:
            op = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op)
        z = z3.RealVal(0)
        return {'eq': lambda: t == z, 'ne': lambda: t != z,
                'lt': lambda: t < z, 'gt': lambda: t > z,
                'le': lambda: t <= z, 'ge': lambda: t >= z}[op]()

    def sign_of(self, st, r):
        """-1, 0, 1: forks"""
        if self.ex.decide(st, self.cmp0(r, 'gt', st)):
            return 1
        if self.ex.decide(st, self.cmp0(r, 'lt', st)):
            return -1
        return 0

    def den_sign(self, st, p):
        """fork on the sign of a polynomial that becomes a denominator"""
        s = self.known_sign(st, p)
        if s is not None:
            return s
        k, fac = self.norm_factor(p)
        out = 1 if k > 0 else -1
        for key, (f, e) in fac.items():
            s = self.known_sign(st, f, key)
            if s is None:
                s = self.sign_of(st, Rat(f))
                if s == 0:
                    return 0
                st.user[('sg', key)] = s
                if len(f) == 1:
                    (m, _), = f.items()
                    a = self.atoms[m[0][0]]
                    if a.base == 'sqrt':
                        self.positive(st, a.red)
            if e % 2:
                out *= s
        return out

    def positive(self, st, p):
        """record that p > 0 on this path"""
        st.user[('sg', pkey(p))] = 1
        k, fac = self.norm_factor(p)
        rest = 1 if k > 0 else -1
        open_ = []
        for key, (f, e) in fac.items():
            s = self.known_sign(st, f, key)
            if s is None and len(f) == 1:
                (m, _), = f.items()
                a = self.atoms[m[0][0]]
                if a.nonneg:
                    s = 1
                    st.user[('sg', key)] = 1
                    if a.base == 'sqrt':
                        self.positive(st, a.red)
            if s is None:
                if e % 2:
                    open_.append(key)
            elif e % 2:
                rest *= s
        if len(open_) == 1:
            st.user[('sg', open_[0])] = rest

    def rpositive(self, st, r):
        """record that a rational function is positive on this path"""
        s = 1
        for key, (f, e) in r.d.items():
            k = self.known_sign(st, f, key)
            if k is None:
                if e % 2:
                    return
            elif e % 2:
                s *= k
        if s > 0:
            self.positive(st, r.n)
        else:
            self.positive(st, pscale(r.n, -1))

    # -- arithmetic interface ---------------------------------------------------
    def fresh(self, name, kind):
        a = self.atom(name)
        return self.mk(self.avar(a))

    def special(self, x):
        return not is_sym(x) and (x != x or np.isinf(x))

    def binop(self, op, a, b, kind, st=None):
        if not is_sym(a) and not is_sym(b):
            r = self.cbin(op, a, b, kind)
            # keep results that are not representable exact
            if self.special(a) or self.special(b) or self.special(r):
                return r
            if op in ('fdiv', 'fmul', 'fadd', 'fsub'):
                return self.mk_exact(op, a, b, r)
            return r
        if op == 'frem':
            return self.libm('fmod', [a, b], kind, st)
        if self.special(a) or self.special(b):
            return self.special_op(op, a, b, st)
        x, y = self.lift_r(a), self.lift_r(b)
        if op == 'fadd':
            r = self.mk(self.radd(x, y))
            if self.is_nn(a) and self.is_nn(b):
                self.set_nn(r)
            return r
        if op == 'fsub':
            return self.mk(self.radd(x, y, -1))
        if op == 'fmul':
            r = self.mk(self.rmul(x, y))
            if (is_sym(a) and is_sym(b) and a.eq(b)) or (
                    self.is_nn(a) and self.is_nn(b)):
                self.set_nn(r)
            return r
        if op == 'fdiv':
            if self.is_nn(a) and self.is_nn(b) and y.n:
                r = self.mk_div(st, x, y)
                self.set_nn(r)
                return r
            if not y.n:
                s = self.sign_of(st, x)
                return float('nan') if s == 0 else s * math.copysign(
                    float('inf'), b)
            return self.mk_div(st, x, y)
        raise Unsupported(op)

    def is_nn(self, v):
        """structurally not negative (squares, their sums, ...)"""
        if not is_sym(v):
            return v >= 0
        if v.get_id() in self.nn:
            return True
        r = self.lift_r(v)
        return not r.d and all(
            c > 0 and all(e % 2 == 0 or self.atoms[x].nonneg for x, e in m)
            for m, c in r.n.items())

    def set_nn(self, v):
        if is_sym(v):
            self.nn.add(v.get_id())

    def mk_exact(self, op, a, b, r):
        """exact result of an operation on constants"""
        if op in ('fadd', 'fsub', 'fmul') and abs(r) < 2**53 and \
                float(a).is_integer() and float(b).is_integer():
            return r
        x, y = self.lift_r(a), self.lift_r(b)
        if op == 'fadd':
            e = self.radd(x, y)
        elif op == 'fsub':
            e = self.radd(x, y, -1)
        elif op == 'fmul':
            e = self.rmul(x, y)
        else:
            if not y.n:
                return r
            inv = Rat({ONE: F(1)})
            for key, (f, ex) in y.d.items():
                inv = self.rmul(inv, Rat(self.ppow(f, ex)))
            e = self.rdiv0(self.rmul(x, inv), y.n)
        return self.mk(e)

    def mk_div(self, st, x, y):
        s = self.den_sign(st, y.n)
        if s == 0:
            # y == 0: signed zeros are not modelled, take +0
            sx = self.sign_of(st, x)
            return float('nan') if sx == 0 else sx * float('inf')
        inv = Rat({ONE: F(1)})
        for key, (f, e) in y.d.items():
            inv = self.rmul(inv, Rat(self.ppow(f, e)))
        return self.mk(self.rdiv0(self.rmul(x, inv), y.n))

    def special_op(self, op, a, b, st):
        if (not is_sym(a) and a != a) or (not is_sym(b) and b != b):
            return float('nan')
        ia, ib = self.special(a), self.special(b)
        if op in ('fadd', 'fsub'):
            if ia:
                return a
            return b if op == 'fadd' else -b
        if op == 'fdiv':
            if ib:
                return 0.0
            s = self.sign_of(st, self.lift_r(b))
            return a if s >= 0 else -a
        v, o = (a, b) if ia else (b, a)
        s = self.sign_of(st, self.lift_r(o))
        return float('nan') if s == 0 else v * s

    def fneg(self, a, kind):
        return self.mk(self.rneg(self.lift_r(a))) if is_sym(a) else -a

    def fcmp(self, pred, a, b, kind, st=None):
        if not is_sym(a) and not is_sym(b):
            return super().fcmp(pred, a, b, kind, st)
        if pred in ('true', 'false'):
            return int(pred == 'true')
        nan = any(not is_sym(v) and v != v for v in (a, b))
        if pred == 'ord':
            return int(not nan)
        if pred == 'uno':
            return int(nan)
        if nan:
            return int(pred[0] == 'u')
        o = pred[1:]
        if self.special(a) or self.special(b):
            x = float(a) if not is_sym(a) else 0.0
            y = float(b) if not is_sym(b) else 0.0
            return int({'eq': x == y, 'gt': x > y, 'ge': x >= y,
                        'lt': x < y, 'le': x <= y, 'ne': x != y}[o])
        d = self.radd(self.lift_r(a), self.lift_r(b), -1)
        return self.cmp0(d, o, st)

    def conv(self, v, frm, to, st=None):
        if is_sym(v):
            return v
        return conc(v, to)

    def itofp(self, v, width, signed, kind, st=None):
        if is_sym(v):
            if z3.is_bool(v):
                return -1.0 if (self.ex.decide(st, v) and signed) else \
                    1.0 if self.ex.decide(st, v) else 0.0
            v = self.ex.concretize(st, v)
        return super().itofp(v, width, signed, kind)

    def int_part(self, st, r, mode):
        """forks until the integer is known"""
        lo_hint = None
        m = self.ex.get_model(st)
        guess = None
        if m is not None:
            try:
                guess = math.floor(self.evalr(r, self.env(m, st.inputs)))
            except Exception:
                guess = None
        if guess is None or abs(guess) > 1e9:
            guess = 0
        k = ('int', len(st.frames), st.frames[-1].blk.idx, st.frames[-1].ip)
        n = st.counters.get(k, 0) + 1
        st.counters[k] = n
        if n > 400:
            raise Unsupported('too many integer values')
        for delta in (0, 1, -1, 2, -2):
            g = guess + delta
            c1 = self.cmp0(self.radd(r, self.rconst(g), -1), 'ge', st)
            c2 = self.cmp0(self.radd(r, self.rconst(g + 1), -1), 'lt', st)
            both = self.conj(c1, c2)
            if self.ex.decide(st, both):
                st.counters[k] = n - 1
                return g
        raise Unsupported('integer part not found')

    def conj(self, a, b):
        if not is_sym(a):
            return b if a else 0
        if not is_sym(b):
            return a if b else 0
        return z3.And(a, b)

    def fptoi(self, v, kind, width, signed, st):
        if not is_sym(v):
            return super().fptoi(v, kind, width, signed, st)
        r = self.lift_r(v)
        g = self.int_part(st, r, 'floor')
        if g < 0 and not self.ex.decide(
                st, self.cmp0(self.radd(r, self.rconst(g), -1), 'eq', st)):
            g += 1       # truncation
        lo = -(1 << (width - 1)) if signed else 0
        hi = (1 << (width - 1)) if signed else (1 << width)
        return g & ((1 << width) - 1), lo <= g < hi

    def ite(self, c, a, b, kind):
        if not is_sym(c):
            return a if c else b
        if is_sym(a) and is_sym(b) and a.eq(b):
            return a
        raise Unsupported('ite in real domain')

    def to_bits(self, v, kind):
        if is_sym(v):
            raise Unsupported('bits of a real')
        return super().to_bits(v, kind)

    def from_bits(self, b, kind):
        if is_sym(b):
            raise Unsupported('real from bits')
        return super().from_bits(b, kind)

    def classify(self, v, mask, kind):
        if not is_sym(v):
            return super().classify(v, mask, kind)
        r = self.lift_r(v)
        parts = []
        if mask & (8 | 16) and mask & (256 | 128):
            parts.append(self.cmp0(r, 'ne', None))
        elif mask & (8 | 16):
            parts.append(self.cmp0(r, 'lt', None))
        elif mask & (256 | 128):
            parts.append(self.cmp0(r, 'gt', None))
        if mask & (32 | 64):
            parts.append(self.cmp0(r, 'eq', None))
        if len(parts) == 2 and mask & 8 and mask & 256:
            return 1
        out = 0
        for p in parts:
            if not is_sym(p):
                if p:
                    return 1
                continue
            out = p if not is_sym(out) else z3.Or(out, p)
        return out

    # -- libm -------------------------------------------------------------------
    def libm(self, name, args, kind, st):
        if not any(is_sym(a) for a in args):
            return self.libm_const(name, args, kind, st)
        if any(self.special(a) for a in args):
            if any(not is_sym(a) and a != a for a in args):
                return float('nan')
            if name not in ('fmin', 'fmax', 'copysign'):
                raise Unsupported('libm of infinity')
        if name == 'fabs':
            r = self.lift_r(args[0])
            return self.mk(self.rabs(st, r))
        if name == 'sqrt':
            return self.sqrt(st, self.lift_r(args[0]))
        if name == 'hypot':
            x, y = map(self.lift_r, args)
            h2 = self.radd(self.rmul(x, x), self.rmul(y, y))
            self.set_nn(self.mk(h2))
            return self.sqrt(st, h2)
        if name in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
            return self.rounding(name, st, self.lift_r(args[0]))
        if name in ('fmin', 'fmax'):
            a, b = args
            c = self.fcmp('ole' if name == 'fmin' else 'oge', a, b, kind, st)
            return a if self.ex.decide(st, c) else b
        if name == 'copysign':
            m = self.libm('fabs', [args[0]], kind, st)
            b = args[1]
            neg = (np.signbit(b) if not is_sym(b) else self.ex.decide(
                st, self.cmp0(self.lift_r(b), 'lt', st)))
            return self.fneg(m, kind) if neg else m
        if name in ('sin', 'cos', 'tan'):
            s, c = self.sincos(st, self.lift_r(args[0]))
            if name == 'sin':
                return self.mk(s)
            if name == 'cos':
                return self.mk(c)
            if not c.n:
                raise Unsupported('tan of a right angle')
            return self.mk_div(st, s, c)
        if name in ('atan', 'asin', 'acos', 'atan2'):
            return self.arc(st, name, [self.lift_r(a) for a in args])
        if name == 'fmod':
            x, y = map(self.lift_r, args)
            q = self.lift_r(self.mk_div(st, x, y))
            k = self.int_part(st, q, 'floor')
            if k < 0 and not self.ex.decide(st, self.cmp0(
                    self.radd(q, self.rconst(k), -1), 'eq', st)):
                k += 1
            return self.mk(self.radd(x, self.rmul(self.rconst(k), y), -1))
        if name == 'pow':
            return self.power(st, args[0], args[1])
        if name == 'cbrt':
            r = self.lift_r(args[0])
            return self.mk(self.root3(r))
        if name == 'fma':
            x, y, z = map(self.lift_r, args)
            return self.mk(self.radd(self.rmul(x, y), z))
        if name in ('log', 'exp', 'log10', 'log2', 'sinh', 'cosh', 'tanh'):
            return self.opaque(st, name, [self.lift_r(a) for a in args])
        raise Unsupported('libm ' + name)

    def libm_const(self, name, args, kind, st):
        """constants: stay symbolic where the exact result is irrational"""
        if any(self.special(a) for a in args):
            return super().libm(name, args, kind, st)
        if name in ('sin', 'cos', 'tan'):
            r = self.rconst(args[0])
            try:
                s, c = self.sincos(st, r)
            except Unsupported:
                return super().libm(name, args, kind, st)
            if name == 'tan':
                return super().libm(name, args, kind, st) if not c.n \
                    else self.mk_div(st, s, c)
            return self.mk(s if name == 'sin' else c)
        if name == 'sqrt' and args[0] >= 0:
            return self.sqrt(st, self.rconst(args[0]))
        if name == 'hypot':
            x, y = map(self.rconst, args)
            return self.sqrt(st, self.radd(self.rmul(x, x), self.rmul(y, y)))
        if name in ('atan', 'asin', 'acos', 'atan2'):
            v = super().libm(name, args, kind, st)
            if v != v:
                return v
            r = self.rconst(v)
            if any(self.atoms[x] is self.pi for m in r.n for x, _ in m) or \
                    v == 0:
                return v
            return self.arc(st, name, [self.rconst(a) for a in args])
        return super().libm(name, args, kind, st)

    def rabs(self, st, r):
        if not r.n:
            return r
        s = self.sign_of(st, r)
        return self.rneg(r) if s < 0 else r

    def rounding(self, name, st, r):
        if name == 'round':
            if self.ex.decide(st, self.cmp0(r, 'ge', st)):
                return float(self.int_part(
                    st, self.radd(r, self.rconst(0.5)), 'floor'))
            r = self.rneg(r)
            return -float(self.int_part(
                st, self.radd(r, self.rconst(0.5)), 'floor'))
        g = self.int_part(st, r, 'floor')
        if name == 'floor':
            return float(g)
        if name in ('ceil', 'trunc'):
            if name == 'trunc' and g >= 0:
                return float(g)
            whole = self.ex.decide(st, self.cmp0(
                self.radd(r, self.rconst(g), -1), 'eq', st))
            return float(g if whole else g + 1)
        raise Unsupported(name)

    # square roots -----------------------------------------------------------
    def sqrt(self, st, r):
        if not r.n:
            return 0.0
        if not self.is_nn(self.mk(r)) and \
                self.ex.decide(st, self.cmp0(r, 'lt', st)):
            return float('nan')
        return self.mk(self.rsqrt(st, r))

    def rsqrt(self, st, r):
        """square root of a rational function that is not negative"""
        n = r.n
        out = Rat({ONE: F(1)})
        # sqrt(n / (prod f^e)) = sqrt(n * prod f^(e mod 2)) / prod |f|^ceil
        den = Rat({ONE: F(1)})
        for key, (f, e) in r.d.items():
            s = self.known_sign(st, f, key)
            if s is None:
                s = self.den_sign(st, f)
            if e % 2:
                n = self.pmul(n, f)
                e += 1
            g = f if s > 0 else pscale(f, -1)
            den = self.rmul(den, Rat(self.ppow(g, e // 2)))
        # monomial content
        common = None
        for m in n:
            d = dict(m)
            common = d if common is None else {
                x: min(e, d[x]) for x, e in common.items() if x in d}
        for x, e in list((common or {}).items()):
            h = e // 2
            if h:
                a = self.atoms[x]
                v = self.avar(a)
                n = {mdiv(m, ((x, 2 * h),)): c for m, c in n.items()}
                t = v if a.nonneg else self.rabs(st, v)
                for _ in range(h):
                    out = self.rmul(out, t)
        # coefficient content
        num = 0
        dn = 1
        for c in n.values():
            num = math.gcd(num, c.numerator)
            dn = dn * c.denominator // math.gcd(dn, c.denominator)
        cont = F(num, dn)
        n = pscale(n, 1 / cont)
        # cont = p/q ; sqrt = sqrt(p q)/q
        pq = cont.numerator * cont.denominator
        sq = 1
        for pr in (2, 3, 5, 7, 11, 13):
            while pq % (pr * pr) == 0:
                pq //= pr * pr
                sq *= pr
        w = math.isqrt(pq)
        if w * w == pq:
            sq *= w
            pq = 1
        out = Rat(pscale(out.n, F(sq, cont.denominator)), out.d)
        n = pscale(n, F(pq))
        core = self.sqrt_core(st, n)
        out = self.rmul(out, core)
        for key, (f, e) in den.d.items():
            raise Unsupported('sqrt den')
        return self.rdiv0(out, den.n) if den.n != {ONE: F(1)} else out

    def sqrt_core(self, st, n):
        if n == {ONE: F(1)}:
            return Rat({ONE: F(1)})
        q = self.square_root_poly(n)
        if q is not None:
            return self.rabs(st, Rat(q))
        key = ('sqrt', pkey(n))
        a = self.cache.get(key)
        if a is None:
            a = self.atom('sqrt!%d' % len(self.atoms))
            a.deg, a.red, a.nonneg, a.base = 2, n, True, 'sqrt'
            pr = self.pz_exact(n)
            self.define(a, a.z >= 0, a.z * a.z == pr)
            a.ev = (lambda env, n=n: math.sqrt(max(0.0, self.evalp(n, env))))
            self.cache[key] = a
        return self.avar(a)

    def pz_exact(self, p):
        den = 1
        for c in p.values():
            den = den * c.denominator // math.gcd(den, c.denominator)
        g = 0
        for c in p.values():
            g = math.gcd(g, int(c * den))
        t = self.pz(p)
        return t * z3.Q(g, den) if (g, den) != (1, 1) else t

    def primitive(self, p):
        """p without monomial content, monic"""
        common = None
        for m in p:
            d = dict(m)
            common = d if common is None else {
                x: min(e, d[x]) for x, e in common.items() if x in d}
        if common:
            cm = tuple(sorted(common.items()))
            p = {mdiv(m, cm): c for m, c in p.items()}
        lead = p[max(p, key=mkey)]
        return {m: c / lead for m, c in p.items()}

    def hint_square(self, r):
        """remember that the square of r's numerator is a square"""
        if not r.n:
            return
        q = self.primitive(r.n)
        if len(q) < 2:
            return
        n = self.pmul(q, q)
        n2 = self.primitive(n)
        # content of the square may be more than the square of the content
        self.squares[pkey(n2)] = (q, n)

    def square_root_poly(self, n):
        """q with q^2 == n (modulo the reductions) or None"""
        if self.squares and len(n) > 1:
            hit = self.squares.get(pkey(self.primitive(n)))
            if hit is not None:
                q, sq = hit
                lead = max(n, key=mkey)
                if lead in sq:
                    k = n[lead] / sq[lead]
                    p, d = math.isqrt(k.numerator) if k > 0 else 0, \
                        math.isqrt(k.denominator)
                    if k > 0 and p * p == k.numerator and \
                            d * d == k.denominator and \
                            pscale(sq, k) == n:
                        return pscale(q, F(p, d))
        # cos^2 of an angle: 1 - s^2
        for a in self.atoms:
            if a.deg == 2 and a.base == 'cos' and a.red == n:
                return {((a.id, 1),): F(1)}
        if len(n) == 1:
            (m, c), = n.items()
            if m == ONE:
                p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if p * p == c.numerator and q * q == c.denominator:
                    return {ONE: F(p, q)}
            return None
        # (a + b)^2 style: take square roots of the extreme monomials
        if len(n) > 60:
            return None
        ms = sorted(n, key=mkey)
        top = ms[-1]
        if any(e % 2 for _, e in top) or n[top] <= 0:
            return None
        c = n[top]
        p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if p * p != c.numerator or q * q != c.denominator:
            return None
        root = {tuple((x, e // 2) for x, e in top): F(p, q)}
        lead, lc = next(iter(root.items()))
        rem = padd(n, self.pmul(root, root), -1)
        for _ in range(30):
            if not rem:
                return root
            m = max(rem, key=mkey)
            d = mdiv(m, lead)
            if d is None:
                return None
            t = {d: rem[m] / (2 * lc)}
            if d in root:
                return None
            root = padd(root, t)
            rem = padd(n, self.pmul(root, root), -1)
        return None

    def root3(self, r):
        key = ('cbrt', pkey(r.n), frozenset((k, e) for k, (f, e)
                                            in r.d.items()))
        a = self.cache.get(key)
        if a is None:
            if r.d:
                raise Unsupported('cbrt of fraction')
            a = self.atom('cbrt!%d' % len(self.atoms))
            a.deg, a.red = 3, r.n
            self.define(a, a.z * a.z * a.z == self.pz_exact(r.n))
            a.ev = (lambda env, n=r.n: float(np.cbrt(self.evalp(n, env))))
            self.cache[key] = a
        return self.avar(a)

    def power(self, st, x, y):
        if is_sym(y):
            return self.opaque(st, 'pow', [self.lift_r(x), self.lift_r(y)])
        y = float(y)
        if y == int(y) and 0 <= y <= 12:
            r = Rat({ONE: F(1)})
            b = self.lift_r(x)
            for _ in range(int(y)):
                r = self.rmul(r, b)
            r = self.mk(r)
            if int(y) % 2 == 0:
                self.set_nn(r)
            return r
        if y == int(y) and -12 <= y < 0:
            p = self.power(st, x, -y)
            return self.binop('fdiv', 1.0, p, 'double', st)
        if y == 0.5:
            return self.sqrt(st, self.lift_r(x))
        if y == 1.5:
            r = self.sqrt(st, self.lift_r(x))
            return self.binop('fmul', x, r, 'double', st)
        return self.opaque(st, 'pow', [self.lift_r(x), self.lift_r(y)])

    def opaque(self, st, name, rs):
        key = (name,) + tuple((pkey(r.n), frozenset(
            (k, e) for k, (f, e) in r.d.items())) for r in rs)
        if name in ('log', 'log10', 'log2'):
            if self.ex.decide(st, self.cmp0(rs[0], 'le', st)):
                if self.ex.decide(st, self.cmp0(rs[0], 'eq', st)):
                    return float('-inf')
                return float('nan')
        if name == 'pow':
            if self.ex.decide(st, self.cmp0(rs[0], 'lt', st)):
                return float('nan')
        # exp(log x) = x
        if name == 'exp' and not rs[0].d and len(rs[0].n) == 1:
            (m, c), = rs[0].n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                a = self.atoms[m[0][0]]
                if a.base and a.base[0] == 'log':
                    return self.mk(a.base[1])
        a = self.cache.get(key)
        if a is None:
            a = self.atom('%s!%d' % (name, len(self.atoms)))
            a.base = (name, rs[0])
            f = {'log': math.log, 'exp': math.exp, 'log10': math.log10,
                 'log2': math.log2, 'pow': math.pow, 'sinh': math.sinh,
                 'cosh': math.cosh, 'tanh': math.tanh}[name]
            a.ev = (lambda env, rs=rs, f=f: f(*[self.evalr(r, env)
                                               for r in rs]))
            if name in ('exp', 'cosh'):
                self.define(a, a.z > 0)
                a.nonneg = True
            if name == 'pow':
                a.nonneg = True
                self.define(a, a.z >= 0)
            self.cache[key] = a
        return self.mk(self.avar(a))

    # trigonometry ------------------------------------------------------------
    def angle_input(self, st, nm, lo, hi):
        a = self.atom(nm)
        self.angle_trig(a, lo, hi)
        v = self.mk(self.avar(a))
        for c in self.range_cons(a, lo, hi):
            st.add(c)
        st.inputs.append((nm, 'angle', v, (a, float(lo), float(hi))))
        return v

    def range_cons(self, a, lo, hi):
        out = []
        v = self.avar(a)
        out.append(self.cmp0(self.radd(v, self.lift_r(lo), -1), 'ge', None))
        out.append(self.cmp0(self.radd(v, self.lift_r(hi), -1), 'le', None))
        return [c for c in out if is_sym(c)]

    def angle_trig(self, a, lo=None, hi=None):
        """sine and cosine atoms of a base angle"""
        if a.trig is not None:
            return a.trig
        s = self.atom('sin!' + a.name)
        c = self.atom('cos!' + a.name)
        c.deg, c.base = 2, 'cos'
        c.red = padd({ONE: F(1)}, {((s.id, 2),): F(1)}, -1)
        rel = s.z * s.z + c.z * c.z == 1
        self.define(s, rel)
        self.define(c, rel)
        s.ev = (lambda env, a=a: math.sin(self.evala(a, env)))
        c.ev = (lambda env, a=a: math.cos(self.evala(a, env)))
        a.trig = (self.avar(s), self.avar(c))
        if lo is not None:
            lo, hi = float(lo), float(hi)
            h = math.pi / 2
            e = 1e-12

            def inside(x, y):
                return lo >= x - e and hi <= y + e
            for k in (-4, 0, 4):
                if inside((k - 1) * h, (k + 1) * h):
                    self.define(c, c.z >= 0)
                    c.nonneg = True
                if inside(k * h, (k + 2) * h):
                    self.define(s, s.z >= 0)
                    s.nonneg = True
                if inside((k - 2) * h, k * h):
                    self.define(s, s.z <= 0)
                if inside((k + 1) * h, (k + 3) * h):
                    self.define(c, c.z <= 0)
        self.link(a, s.z, c.z, lo, hi)
        return a.trig

    def link(self, a, s, c, lo, hi):
        """signs of sine and cosine by quadrant"""
        t, pi = a.z, self.pi.z
        lo = -2 * math.pi if lo is None else lo
        hi = 2 * math.pi if hi is None else hi
        if lo < -6.3 or hi > 12.6:
            return
        h = math.pi / 2
        k0, k1 = math.floor(lo / h + 1e-9), math.ceil(hi / h - 1e-9)
        cons = []
        for k in range(k0, k1):
            q = k % 4
            left, right = pi * z3.Q(k, 2), pi * z3.Q(k + 1, 2)
            sg = {0: z3.And(s > 0, c > 0), 1: z3.And(s > 0, c < 0),
                  2: z3.And(s < 0, c < 0), 3: z3.And(s < 0, c > 0)}[q]
            cons.append(z3.Implies(z3.And(t > left, t < right), sg))
        for k in range(k0, k1 + 1):
            q = k % 4
            ex = {0: z3.And(s == 0, c == 1), 1: z3.And(s == 1, c == 0),
                  2: z3.And(s == 0, c == -1), 3: z3.And(s == -1, c == 0)}[q]
            cons.append(z3.Implies(t == pi * z3.Q(k, 2), ex))
        self.define(a, *cons)
        if self.ex.opts.get('link'):
            for v in (s, c):
                if v.num_args() == 0:
                    self.ex.solver.defs.setdefault(
                        v.decl().name(), []).extend(cons)

    def base_trig(self, m):
        """trig of a monomial used as an angle"""
        if len(m) == 1 and m[0][1] == 1:
            return self.angle_trig(self.atoms[m[0][0]])
        key = ('ang', m)
        a = self.cache.get(key)
        if a is None:
            a = self.atom('ang!%d' % len(self.atoms))
            a.ev = (lambda env, m=m: self.evalp({m: F(1)}, env))
            self.define(a, a.z == self.pz_exact({m: F(1)}))
            self.cache[key] = a
        return self.angle_trig(a)

    def half_trig(self, m, n):
        key = ('frac', m, n)
        a = self.cache.get(key)
        if a is None:
            a = self.atom('frac!%d' % len(self.atoms))
            a.ev = (lambda env, m=m, n=n: self.evalp({m: F(1, n)}, env))
            self.define(a, a.z * n == self.pz_exact({m: F(1)}))
            self.cache[key] = a
            s, c = self.angle_trig(a)
            # full angle in terms of the fraction
            S, C = self.times(s, c, n)
            fs, fc = self.base_trig(m)
            sa, ca = self.by_name['sin!' + a.name], self.by_name['cos!' + a.name]
            for x, y in ((S, fs), (C, fc)):
                d = self.radd(x, y, -1)
                if d.n:
                    con = self.cmp0(d, 'eq', None)
                    if is_sym(con):
                        self.define(sa, con)
                        self.define(ca, con)
        return self.angle_trig(a)

    def addang(self, p, q):
        return (self.radd(self.rmul(p[0], q[1]), self.rmul(p[1], q[0])),
                self.radd(self.rmul(p[1], q[1]), self.rmul(p[0], q[0]), -1))

    def times(self, s, c, n):
        neg = n < 0
        n = abs(n)
        r = (Rat({}), Rat({ONE: F(1)}))
        for _ in range(n):
            r = self.addang(r, (s, c))
        return (self.rneg(r[0]), r[1]) if neg else r

    def sincos(self, st, r):
        """sine and cosine of a rational function seen as a linear form"""
        key = ('sc', pkey(r.n), frozenset((k, e) for k, (f, e)
                                          in r.d.items()))
        hit = self.cache.get(key)
        if hit is not None:
            return hit
        if r.d:
            key2 = ('angr',) + key
            a = self.cache.get(key2)
            if a is None:
                a = self.atom('ang!%d' % len(self.atoms))
                a.ev = (lambda env, r=r: self.evalr(r, env))
                self.cache[key2] = a
            out = self.angle_trig(a)
            self.cache[key] = out
            return out
        out = (Rat({}), Rat({ONE: F(1)}))
        pim = ((self.pi.id, 1),)
        for m in sorted(r.n, key=mkey):
            q = r.n[m]
            if m == pim:
                part = self.pi_trig(q)
            else:
                if q.denominator == 1:
                    s, c = self.base_trig(m)
                else:
                    if q.denominator > 4:
                        return self.sincos_opaque(r, key)
                    s, c = self.half_trig(m, q.denominator)
                if abs(q.numerator) > 8:
                    return self.sincos_opaque(r, key)
                part = self.times(s, c, q.numerator)
            out = self.addang(out, part)
        self.cache[key] = out
        return out

    def sincos_opaque(self, r, key):
        a = self.atom('ang!%d' % len(self.atoms))
        a.ev = (lambda env, r=r: self.evalr(r, env))
        out = self.angle_trig(a)
        self.cache[key] = out
        return out

    def pi_trig(self, q):
        q = q - 2 * math.floor(q / 2)          # [0, 2)
        tbl = {F(0): (0, 1), F(1, 2): (1, 0), F(1): (0, -1), F(3, 2): (-1, 0)}
        if q in tbl:
            s, c = tbl[q]
            return (Rat({ONE: F(s)} if s else {}), Rat({ONE: F(c)} if c else {}))
        den = q.denominator
        h = F(1, 2)
        base = {F(1, 6): ({ONE: h}, 3), F(1, 4): (2, 2), F(1, 3): (3, h)}
        k = math.floor(q * 2)                  # quadrant
        rem = q - F(k, 2)
        if rem == F(1, 4):
            r2 = self.rconst_sqrt(2)
            s = c = Rat(pscale(r2.n, h))
        elif rem == F(1, 6):
            s, c = Rat({ONE: h}), Rat(pscale(self.rconst_sqrt(3).n, h))
        elif rem == F(1, 3):
            c, s = Rat({ONE: h}), Rat(pscale(self.rconst_sqrt(3).n, h))
        else:
            key = ('pifrac', rem)
            a = self.cache.get(key)
            if a is None:
                a = self.atom('pifrac!%d' % len(self.atoms))
                a.ev = (lambda env, rem=rem: math.pi * float(rem))
                self.define(a, a.z == self.pi.z * z3.Q(rem.numerator,
                                                       rem.denominator))
                self.cache[key] = a
                self.angle_trig(a, 0.0, math.pi / 2)
                for f, pre in ((math.sin, 'sin!'), (math.cos, 'cos!')):
                    x = self.by_name[pre + a.name]
                    v = f(math.pi * float(rem))
                    self.define(x, x.z > z3.RealVal('%.15f' % (v - 1e-14)),
                                x.z < z3.RealVal('%.15f' % (v + 1e-14)))
            s, c = a.trig
        for _ in range(k):
            s, c = c, self.rneg(s)
        return s, c

    def rconst_sqrt(self, n):
        return self.sqrt_core(None, {ONE: F(n)})

    def arc(self, st, name, rs):
        one = Rat({ONE: F(1)})
        x = rs[0]
        if name in ('asin', 'acos'):
            if self.ex.decide(st, self.cmp0(self.radd(x, one, -1), 'gt', st)) \
                    or self.ex.decide(st, self.cmp0(self.radd(x, one), 'lt',
                                                    st)):
                return float('nan')
            if not x.n:
                return 0.0 if name == 'asin' else math.pi / 2
            other = self.rsqrt(st, self.radd(one, self.rmul(x, x), -1))
            s, c = (x, other) if name == 'asin' else (other, x)
        elif name == 'atan':
            if not x.n:
                return 0.0
            h = self.rsqrt(st, self.radd(one, self.rmul(x, x)))
            self.rpositive(st, h)
            s, c = self.rdiv_any(st, x, h), self.rdiv_any(st, one, h)
        else:
            y, x = rs
            h2 = self.radd(self.rmul(x, x), self.rmul(y, y))
            if not h2.n:
                return 0.0
            if self.ex.decide(st, self.cmp0(h2, 'eq', st)):
                return 0.0
            if not y.n:
                return 0.0 if self.ex.decide(
                    st, self.cmp0(x, 'gt', st)) else math.pi
            h = self.rsqrt(st, h2)
            # the hypotenuse is positive here
            self.rpositive(st, h2)
            self.rpositive(st, h)
            s, c = self.rdiv_any(st, y, h), self.rdiv_any(st, x, h)
        # the result is a known angle if its sine and cosine are
        key = (name, self.rk(s), self.rk(c))
        a = self.cache.get(key)
        if a is None:
            a = self.atom('%s!%d' % (name, len(self.atoms)))
            a.trig = (s, c)
            a.ev = (lambda env, s=s, c=c: math.atan2(self.evalr(s, env),
                                                     self.evalr(c, env)))
            self.cache[key] = a
        if True:
            t, pi = a.z, self.pi.z
            # signs by polynomial numerators
            sp = self.cmp0(s, 'gt', st)
            sn = self.cmp0(s, 'lt', st)
            cp = self.cmp0(c, 'gt', st)
            cn = self.cmp0(c, 'lt', st)

            def B(f):
                return f if is_sym(f) else z3.BoolVal(bool(f))
            sp, sn, cp, cn = B(sp), B(sn), B(cp), B(cn)
            half = pi / 2
            cons = []
            if name == 'atan':
                cons += [t < half, t > -half, (t > 0) == sp, (t < 0) == sn]
            elif name == 'asin':
                cons += [t <= half, t >= -half, (t > 0) == sp, (t < 0) == sn,
                         z3.Implies(z3.And(z3.Not(sp), z3.Not(sn)), t == 0),
                         (t == half) == B(self.cmp0(self.radd(s, one, -1),
                                                    'eq', st)),
                         (t == -half) == B(self.cmp0(self.radd(s, one),
                                                     'eq', st))]
            elif name == 'acos':
                cons += [t <= pi, t >= 0, (t < half) == cp, (t > half) == cn,
                         (t == 0) == B(self.cmp0(self.radd(c, one, -1), 'eq',
                                                 st)),
                         (t == pi) == B(self.cmp0(self.radd(c, one), 'eq',
                                                  st))]
            else:
                cons += [t <= pi, t > -pi, (t < 0) == sn,
                         z3.And(t > 0, t < pi) == sp,
                         z3.And(t > -half, t < half) == cp,
                         z3.Or(t > half, t < -half) == cn]
            # signs of denominators may be known on this path only, so the
            # constraints belong to the path
            have = {c.get_id() for c in st.pc}
            for con in cons:
                con = z3.simplify(con)
                if not z3.is_true(con) and con.get_id() not in have:
                    st.pc.append(con)
                    st.model = None
        return self.mk(self.avar(a))

    def rk(self, r):
        return (pkey(r.n), frozenset((k, e) for k, (f, e) in r.d.items()))

    def rdiv_any(self, st, x, y):
        v = self.mk_div(st, x, y)
        return self.lift_r(v)

    # numeric evaluation ----------------------------------------------------
    def evala(self, a, env):
        v = env.get(a.id)
        if v is None:
            v = a.ev(env) if a.ev is not None else 0.0
            env[a.id] = v
        return v

    def evalp(self, p, env):
        t = 0.0
        for m, c in p.items():
            v = float(c)
            for x, e in m:
                v *= self.evala(self.atoms[x], env) ** e
            t += v
        return t

    def evalr(self, r, env):
        v = self.evalp(r.n, env)
        for key, (f, e) in r.d.items():
            v /= self.evalp(f, env) ** e
        return v

    def num(self, model, z):
        v = model.eval(z)
        return self.tofloat(v)

    @staticmethod
    def tofloat(v):
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        if z3.is_rational_value(v):
            f = F(v.numerator_as_long(), v.denominator_as_long())
            return float(f)
        return 0.0

    def env(self, model, inputs):
        if isinstance(model, dict):
            return dict(model['env'])
        env = {}
        for nm, kind, v, aux in inputs:
            if kind in ('double', 'float'):
                a = self.by_name[nm]
                env[a.id] = self.num(model, a.z)
            elif kind == 'angle':
                a = aux[0]
                env[a.id] = self.angle_value(model, v, aux)
        return env

    def angle_value(self, model, v, aux):
        a, lo, hi = aux
        if isinstance(model, dict):
            return model['env'][a.id]
        names = {d.name() for d in model.decls()}
        if 'sin!' + a.name in names or 'cos!' + a.name in names:
            s = self.num(model, z3.Real('sin!' + a.name))
            c = self.num(model, z3.Real('cos!' + a.name))
            t = math.atan2(s, c)
            for k in (0, 1, -1, 2, -2):
                if lo - 1e-12 <= t + 2 * math.pi * k <= hi + 1e-12:
                    return min(max(t + 2 * math.pi * k, lo), hi)
        if a.name in names:
            return min(max(self.num(model, a.z), lo), hi)
        return min(max(0.0, lo), hi)

    def model_value(self, model, v, kind):
        if not is_sym(v):
            return v
        r = self.lift_r(v)
        if isinstance(model, dict):
            return self.evalr(r, dict(model['env']))
        st = getattr(self, '_inputs', None) or ()
        env = self.env(model, st)
        for m in r.n:
            for x, _ in m:
                a = self.atoms[x]
                if a.ev is None and a.id not in env:
                    env[a.id] = self.num(model, a.z)
        return self.evalr(r, env)

    # concrete candidates -----------------------------------------------------
    def alternatives(self, v, seed, cap):
        """inputs near the solver's model, and others inside the path, on
        which the violated assertion is replayed"""
        import time
        rnd = random.Random(seed)
        ins = v.ins
        base = None
        if v.model is not None:
            base = self.env(v.model, ins)
        conds = []
        for c in v.pc:
            conds.append(c)
        n = 0
        spans = {}
        for nm, kind, val, aux in ins:
            if kind in ('double', 'float'):
                spans[self.by_name[nm].id] = self.span(nm, v.pc)
        t_end = min(cap, time.time() + 25)
        while time.time() < t_end and n < 40:
            env = {}
            mode = rnd.random()
            for nm, kind, val, aux in ins:
                if kind == 'angle':
                    a, lo, hi = aux
                    if base is not None and mode < 0.5:
                        t = base[a.id] + rnd.gauss(0, 0.2) * (
                            rnd.random() < 0.7)
                    else:
                        t = rnd.uniform(lo, hi)
                        if rnd.random() < 0.1:
                            t = rnd.choice([lo, hi, 0.0, (lo + hi) / 2])
                    env[a.id] = min(max(t, lo), hi)
                elif kind in ('double', 'float'):
                    a = self.by_name[nm]
                    lo, hi = spans[a.id]
                    if base is not None and mode < 0.5:
                        b = base[a.id]
                        t = b if rnd.random() < 0.3 else \
                            b + rnd.gauss(0, 0.2) * max(1.0, abs(b))
                    else:
                        t = rnd.uniform(lo, hi)
                        if rnd.random() < 0.2:
                            t = float(round(t))
                    env[a.id] = t
            try:
                if not self.holds(conds, env):
                    continue
            except (ZeroDivisionError, OverflowError, ValueError):
                continue
            n += 1
            yield dict(env=env, z=v.model)

    def span(self, nm, pc):
        lo, hi = -10.0, 10.0
        z = z3.Real(nm)
        for c in pc:
            # x <= k , x >= k
            if z3.is_app(c) and c.num_args() == 2 and c.arg(0).eq(z) and \
                    z3.is_rational_value(c.arg(1)):
                k = self.tofloat(c.arg(1))
                if c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT):
                    hi = k
                elif c.decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                    lo = k
        if lo >= hi:
            hi = lo + 20
        return lo, hi

    def holds(self, conds, env):
        subs = {}
        for c in conds:
            for nm in self.ex.solver.vars(c):
                a = self.by_name.get(nm)
                if a is not None:
                    subs[nm] = self.evala(a, env)
        for c in conds:
            if not self.ev_formula(c, subs):
                return False
        return True

    def ev_formula(self, c, subs):
        k = c.decl().kind()
        ch = c.children()
        if k == z3.Z3_OP_AND:
            return all(self.ev_formula(x, subs) for x in ch)
        if k == z3.Z3_OP_OR:
            return any(self.ev_formula(x, subs) for x in ch)
        if k == z3.Z3_OP_NOT:
            return not self.ev_formula(ch[0], subs)
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_IMPLIES:
            return (not self.ev_formula(ch[0], subs)) or \
                self.ev_formula(ch[1], subs)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT,
                 z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_arith(ch[0]):
            a, b = (self.ev_term(x, subs) for x in ch)
            eps = 1e-9 * max(1.0, abs(a), abs(b))
            if k == z3.Z3_OP_LE:
                return a <= b + eps
            if k == z3.Z3_OP_GE:
                return a >= b - eps
            if k == z3.Z3_OP_LT:
                return a < b
            if k == z3.Z3_OP_GT:
                return a > b
            if k == z3.Z3_OP_EQ:
                return abs(a - b) <= eps
            return abs(a - b) > eps
        return True        # integers and Booleans: taken from the model

    def ev_term(self, t, subs):
        k = t.decl().kind()
        if z3.is_rational_value(t):
            return self.tofloat(t)
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            return sum(self.ev_term(x, subs) for x in ch)
        if k == z3.Z3_OP_MUL:
            r = 1.0
            for x in ch:
                r *= self.ev_term(x, subs)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -self.ev_term(ch[0], subs)
        if k == z3.Z3_OP_SUB:
            r = self.ev_term(ch[0], subs)
            for x in ch[1:]:
                r -= self.ev_term(x, subs)
            return r
        if k == z3.Z3_OP_DIV:
            return self.ev_term(ch[0], subs) / self.ev_term(ch[1], subs)
        if k == z3.Z3_OP_POWER:
            return self.ev_term(ch[0], subs) ** self.ev_term(ch[1], subs)
        if k == z3.Z3_OP_UNINTERPRETED:
            return subs.get(t.decl().name(), 0.0)
        raise ValueError('term')
