"""Solver front end: slicing, caching, portfolio, statistics."""
import os
import time
import z3

SLOW = float(os.environ.get('VP_SLOW', '0'))


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.cached = 0
        self.model_hits = 0
        self.by_solver = {}

    def as_dict(self):
        return dict(queries=self.queries, sat=self.sat, unsat=self.unsat,
                    unknown=self.unknown, solver_time_s=round(self.time, 3),
                    cache_hits=self.cached, model_hits=self.model_hits,
                    by_solver=self.by_solver)


def _walk_vars(e, cache):
    """frozenset of uninterpreted constants (names) of e"""
    key = e.get_id()
    r = cache.get(key)
    if r is not None:
        return r[0]
    out = set()
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        c = cache.get(i)
        if c is not None:
            out |= c[0]
            continue
        n = x.num_args()
        if n == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            stack.extend(x.children())
    r = frozenset(out)
    cache[key] = (r, e)
    return r


class Solver:
    def __init__(self, real=False):
        self.stats = Stats()
        self.vcache = {}
        self.qcache = {}
        self.real = real
        self.defs = {}       # var name -> list of defining constraints
        self.keep = []
        self.feas_timeout = 5000
        self.assert_timeout = 60000

    def vars(self, e):
        return _walk_vars(e, self.vcache)

    def closure(self, pc, goal):
        """constraints of pc relevant to goal + definitions of the atoms"""
        want = set(self.vars(goal)) if goal is not None else None
        if want is None:
            want = set()
            for c in pc:
                want |= self.vars(c)
        out = []
        rest = [(c, self.vars(c)) for c in pc]
        defs_done = set()
        deflist = []
        changed = True
        while changed:
            changed = False
            todo = [v for v in want if v not in defs_done]
            for v in todo:
                defs_done.add(v)
                for d in self.defs.get(v, ()):
                    deflist.append(d)
                    dv = self.vars(d)
                    if not dv <= want:
                        want |= dv
                        changed = True
            nrest = []
            for c, vs in rest:
                if not vs or vs & want:
                    out.append(c)
                    if not vs <= want:
                        want |= vs
                        changed = True
                else:
                    nrest.append((c, vs))
            rest = nrest
            if any(v not in defs_done for v in want):
                changed = True
        return out, deflist

    def check(self, pc, goal=None, timeout=None, want_model=True, hard=False):
        """-> ('sat', model) | ('unsat', None) | ('unknown', None)"""
        cons, defs = self.closure(pc, goal)
        allc = cons + defs + ([goal] if goal is not None else [])
        uniq = {}
        for c in allc:
            uniq[c.get_id()] = c
        key = frozenset(uniq)
        hit = self.qcache.get(key)
        if hit is not None and (hit[0] != 'unknown' or not hard):
            self.stats.cached += 1
            return hit[0], hit[1]
        t0 = time.time()
        res, model = self._solve(list(uniq.values()),
                                 timeout or self.feas_timeout, hard)
        dt = time.time() - t0
        if SLOW and dt > SLOW:
            import sys
            sys.stderr.write('SLOW %.1fs %s goal=%s n=%d\n' % (
                dt, res, str(goal).replace('\n', ' ')[:300], len(uniq)))
            import z3 as _z
            q = _z.Solver()
            q.add(*uniq.values())
            open('/tmp/slow.smt2', 'w').write(q.to_smt2())
        self.stats.time += dt
        self.stats.queries += 1
        setattr(self.stats, res, getattr(self.stats, res) + 1)
        self.qcache[key] = (res, model, list(uniq.values()))
        return res, model

    def _note(self, name):
        d = self.stats.by_solver
        d[name] = d.get(name, 0) + 1

    def _solve(self, cs, timeout, hard):
        if not cs:
            s = z3.Solver()
            s.check()
            return 'sat', s.model()
        if self.real:
            return self._solve_real(cs, timeout, hard)
        s = z3.Solver()
        s.set('timeout', int(timeout))
        s.add(*cs)
        r = s.check()
        self._note('z3')
        if r == z3.sat:
            return 'sat', s.model()
        if r == z3.unsat:
            return 'unsat', None
        if hard:
            return self._cvc5(s, timeout)
        return 'unknown', None

    def _has_nonreal(self, cs):
        for c in cs:
            stack = [c]
            seen = set()
            while stack:
                x = stack.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_bv(x) or z3.is_int(x):
                    return True
                stack.extend(x.children())
        return False

    def _solve_real(self, cs, timeout, hard):
        nonreal = self._has_nonreal(cs)
        plans = []
        if nonreal:
            plans = [('z3', lambda: z3.Solver(), timeout)]
        else:
            plans = [('z3-nra', lambda: z3.SolverFor('QF_NRA'), timeout)]
            if hard:
                plans.append(('z3', lambda: z3.Solver(), timeout))
        last = None
        for nm, mk, to in plans:
            s = mk()
            s.set('timeout', int(to))
            s.add(*cs)
            r = s.check()
            self._note(nm)
            if r == z3.sat:
                return 'sat', s.model()
            if r == z3.unsat:
                return 'unsat', None
            last = s
        if hard:
            return self._cvc5(last, timeout)
        return 'unknown', None

    def _cvc5(self, s, timeout):
        """ask cvc5 through SMT-LIB; only unsat is taken from it"""
        import subprocess
        import tempfile
        import os
        txt = s.to_smt2()
        f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
        f.write('(set-logic ALL)\n' + txt)
        f.close()
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout), f.name],
                               capture_output=True, text=True,
                               timeout=timeout / 1000 + 10)
            out = p.stdout.strip().split('\n')
            self._note('cvc5')
            if '(error' in p.stdout:
                return 'unknown', None
            if out and out[0] == 'unsat':
                return 'unsat', None
        except subprocess.TimeoutExpired:
            pass
        finally:
            os.unlink(f.name)
        return 'unknown', None
