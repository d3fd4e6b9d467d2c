"""Runs the jobs of one property: symbolic execution in worker processes,
native replay of every counterexample, native validation of path witnesses,
evidence."""
import concurrent.futures as cf
import hashlib
import json
import math
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback

from .build import Builder, BuildError, VERIF

EVID = os.path.join(VERIF, 'evidence')


def fhex(x):
    x = float(x)
    if x != x:
        return 'nan'
    if math.isinf(x):
        return '-inf' if x < 0 else 'inf'
    return x.hex()


def input_lines(dom, model, ins):
    import z3
    out = []
    dom._inputs = ins
    full = model
    for nm, kind, v, aux in ins:
        model = full
        if isinstance(full, dict) and kind not in ('double', 'float',
                                                   'angle'):
            model = full['z'] or z3.Model()
        if kind in ('double', 'float'):
            out.append((nm, kind, fhex(dom.model_value(model, v, kind))))
        elif kind == 'angle':
            out.append((nm, 'double', fhex(dom.angle_value(model, v, aux))))
        elif kind == 'bool':
            r = model.eval(v, model_completion=True)
            out.append((nm, kind, '1' if z3.is_true(r) else '0'))
        else:
            r = model.eval(v, model_completion=True)
            out.append((nm, kind, str(r.as_long())))
    return out


def run_job(arg):
    """worker: returns a plain dict"""
    bc, job, tier, seed = arg
    t0 = time.time()
    res = dict(job=job['name'], ok=False)
    try:
        import resource
        lim = job.get('mem_gb', 6) << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        from .exec import Executor, State
        import z3
        opts = dict(job.get('opts', {}))
        budget = job.get('time', 240 if tier == 'quick' else 1500)
        ex = Executor(bc, dom=job.get('dom', 'ieee'),
                      max_paths=job.get('max_paths', 20000),
                      deadline=t0 + budget, opts=opts)
        ex.solver.feas_timeout = job.get('feas_ms', 5000)
        ex.solver.assert_timeout = job.get('assert_ms', 60000)
        for hook in job.get('hooks', ()):
            from . import hooks as H
            getattr(H, hook)(ex)
        z3.set_param('smt.random_seed', seed % 1000)
        ex.run(job['entry'], (list(job.get('args', ())) + [0, 0, 0, 0])[:4])
        viols = []
        cap = t0 + budget + 60
        for v in ex.violations:
            cands = []
            m = v.model
            try:
                if m is None and not v.unknown:
                    r, m = ex.solver.check(v.pc, None, hard=True,
                                           timeout=20000)
                if m is not None:
                    # full model over everything
                    names = {d.name() for d in m.decls()}
                    r, m2 = ex.solver.check(v.pc, None, timeout=20000)
                    m = m2 if m2 is not None else m
                    cands.append(input_lines(ex.dom, m, v.ins))
                if time.time() < cap:
                    for alt in ex.dom_alternatives(v, seed, cap):
                        cands.append(input_lines(ex.dom, alt, v.ins))
            except Exception as e:       # noqa
                res.setdefault('notes', []).append(
                    'model extraction: %r' % (e,))
            viols.append(dict(label=v.label, kind=v.kind, loc=v.loc,
                              stack=v.stack[-8:], unknown=v.unknown,
                              cands=cands))
        wits = []
        for st in ex.witness[:job.get('witness', 8)]:
            if st.uf:
                continue
            try:
                if st.model is None:
                    r, m = ex.solver.check(st.pc, None, timeout=3000)
                else:
                    r, m = 'sat', st.model
                if m is None:
                    continue
                outs = []
                ex.dom._inputs = st.inputs
                for nm, k, v in st.outs:
                    if k == 'double':
                        outs.append((nm, fhex(ex.dom.model_value(
                            m, v, 'double'))))
                    else:
                        if isinstance(v, int):
                            outs.append((nm, str(v)))
                        else:
                            outs.append((nm, str(m.eval(
                                ex.bv(v, 64),
                                model_completion=True).as_long())))
                wits.append(dict(inputs=input_lines(ex.dom, m, st.inputs),
                                 outs=outs, reached=list(st.reached)))
            except Exception as e:       # noqa
                res.setdefault('notes', []).append('witness: %r' % (e,))
        fns = []
        for n in ex.encoded:
            d = ex.mod.demangled.get(n, n)
            if 'MaRC::' in d.split('(')[0] or n.startswith('_ZN4MaRC') or \
                    'yyparse' in n:
                fns.append(d.split('(')[0][:140])
        res.update(ok=True, paths=ex.paths, ended=ex.ended, steps=ex.steps,
                   forks=ex.forks, asserts=ex.asserts, reach=ex.reach,
                   incomplete=ex.incomplete[:20], violations=viols,
                   witnesses=wits, functions=sorted(set(fns)),
                   nfunctions=len(ex.encoded),
                   uninit=ex.stubs.uninit,
                   solver=ex.solver.stats.as_dict())
    except MemoryError:
        res['error'] = 'out of memory'
    except Exception as e:               # noqa
        res['error'] = '%r\n%s' % (e, traceback.format_exc()[-1500:])
    res['wall'] = round(time.time() - t0, 2)
    return res


class Native:
    def __init__(self, builder):
        self.b = builder
        self.exe = None
        self.err = None

    def get(self):
        if self.exe is None and self.err is None:
            try:
                self.exe = self.b.native()
            except BuildError as e:
                self.err = str(e)
        return self.exe

    def run(self, job, lines, path):
        """-> (status, outs, text)"""
        with open(path, 'w') as f:
            f.write('# entry %s %s\n' % (job['entry'], ' '.join(
                str(a) for a in job.get('args', ()))))
            for nm, kind, v in lines:
                f.write('%s %s %s\n' % (nm, kind, v))
        if self.get() is None:
            return 'nobuild', [], self.err
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:' \
            'allocator_may_return_null=1'
        env['UBSAN_OPTIONS'] = 'print_stacktrace=0'
        cwd = self.b.tmp
        try:
            p = subprocess.run([self.exe, path, job['entry']] +
                               [str(a) for a in job.get('args', ())],
                               capture_output=True, text=True, timeout=60,
                               env=env, cwd=cwd, errors='replace')
        except subprocess.TimeoutExpired:
            return 'timeout', [], 'timeout'
        outs = []
        label = None
        end = False
        assume = False
        for ln in p.stdout.split('\n'):
            w = ln.split(' ')
            if w[0] in ('OUT', 'OUTI'):
                outs.append((w[1], w[2]))
            elif w[0] == 'ASSERT-FAILED':
                label = ln[len('ASSERT-FAILED '):]
            elif w[0] == 'ASSUME-FAILED':
                assume = True
            elif w[0] == 'END':
                end = True
        if label is not None:
            return 'assert:' + label, outs, p.stdout[-500:]
        if assume:
            return 'assume', outs, ''
        if end and p.returncode == 0:
            return 'ok', outs, ''
        return 'crash', outs, (p.stderr[-1500:] or
                               'exit status %d' % p.returncode)


def close(a, b, tol):
    a, b = float.fromhex(a) if 'x' in a else float(a), \
        float.fromhex(b) if 'x' in b else float(b)
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if tol == 0:
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p)).get('known', []):
            if e['property'] == prop:
                out.append(e)
    return out


def check(prop, spec, tier, seed):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    jobs = [j for j in spec['jobs'] if tier == 'thorough' or
            j.get('tier', 'quick') == 'quick']
    for j in jobs:
        j.setdefault('name', '%s(%s)' % (j['entry'], ','.join(
            str(a) for a in j.get('args', ()))))
    groups = {}
    for j in jobs:
        key = (j['h'], tuple(j.get('src', ())), bool(j.get('gen_parser')),
               j.get('lib', True), tuple(j.get('native_libs', ())),
               tuple(j.get('defs', ())))
        groups.setdefault(key, []).append(j)
    builders = []
    results = []
    errors = []
    verdict = []
    natives = {}
    validated = mismatched = 0
    mism = []
    replays_dir = os.path.join(EVID, 'replay')
    os.makedirs(replays_dir, exist_ok=True)
    try:
        tasks = []
        ctx = mp.get_context('spawn')
        pool = cf.ProcessPoolExecutor(8, mp_context=ctx,
                                      max_tasks_per_child=1)
        nat_threads = cf.ThreadPoolExecutor(4)
        for key, js in groups.items():
            b = Builder(key[0], src=key[1], gen_parser=key[2], lib=key[3],
                        native_libs=key[4], defs=key[5])
            builders.append(b)
            b.prepare()
            bc = b.bitcode()
            n = Native(b)
            for j in js:
                natives[j['name']] = n
                tasks.append((pool.submit(run_job, (bc, j, tier, seed)), j))
            nat_threads.submit(n.get)
        for fut, j in tasks:
            try:
                r = fut.result()
            except Exception as e:           # noqa: worker died
                r = dict(job=j['name'], ok=False, error=repr(e), wall=0)
            results.append((j, r))
            if not r['ok']:
                errors.append('%s: %s' % (j['name'], r.get('error')))
                continue
        pool.shutdown()
        nat_threads.shutdown(wait=True)
        # replay
        known = known_findings(prop)
        seen_known = {}
        done_labels = set()
        unrepro = []
        k = 0
        for j, r in results:
            if not r['ok']:
                continue
            nat = natives[j['name']]
            for v in r['violations']:
                lab = (j['name'], v['label'])
                if lab in done_labels:
                    continue
                ok = False
                tried = []
                for lines in v['cands']:
                    k += 1
                    path = os.path.join(replays_dir, '%s-%d.txt' % (prop, k))
                    status, outs, text = nat.run(j, lines, path)
                    tried.append(status)
                    if status.startswith('assert:') or status == 'crash':
                        ok = True
                        break
                    os.unlink(path)
                    if len(tried) > 40:
                        break
                if not ok:
                    unrepro.append(dict(job=j['name'], label=v['label'],
                                        loc=v['loc'], tried=tried[:6],
                                        unknown=v['unknown']))
                    continue
                done_labels.add(lab)
                sig = '%s | %s' % (j['name'], status if status != 'crash'
                                   else 'crash')
                hit = None
                for e in known:
                    if re.fullmatch(e['match'], sig) and \
                            re.search(e.get('where', ''), v['label']):
                        hit = e
                        break
                if hit is not None:
                    seen_known[hit['id']] = hit
                    continue
                with open(path, 'a') as f:
                    f.write('# property %s\n# job %s\n# violated: %s\n'
                            '# native outcome: %s\n# location: %s\n'
                            % (prop, j['name'], v['label'], status, v['loc']))
                    for ln in (text or '').split('\n')[:12]:
                        f.write('# | %s\n' % ln)
                    f.write('# native replay: harness %s compiled with '
                            'engine/rt/vp_native.cpp\n' % j['h'])
                verdict.append(dict(path=path, job=j['name'],
                                    label=v['label'], status=status,
                                    loc=v['loc'], inputs=lines))
            # translator validation
            tol = j.get('wit_tol', 1e-6 if j.get('dom') == 'real' else 0.0)
            for w in r['witnesses']:
                path = os.path.join(replays_dir, '%s-wit.txt' % prop)
                status, outs, text = nat.run(j, w['inputs'], path)
                if status == 'assume' and j.get('dom') == 'real':
                    continue
                if status.startswith('assert:') or status == 'crash':
                    # native run breaks an assertion which the symbolic
                    # path satisfies: rounding (real domain) or stub gap
                    mism.append('%s: native %s' % (j['name'], status))
                    mismatched += 1
                    continue
                a = [(n_, v_) for n_, v_ in w['outs']]
                good = len(a) == len(outs) and all(
                    x[0] == y[0] and close(x[1], y[1], tol)
                    for x, y in zip(a, outs))
                if good:
                    validated += 1
                else:
                    mismatched += 1
                    mism.append('%s: symbolic %s native %s inputs %s' % (
                        j['name'], a[:4], outs[:4], w['inputs'][:6]))
    except BuildError as e:
        errors.append('build: ' + str(e))
        unrepro, seen_known = [], {}
    finally:
        for b in builders:
            b.cleanup()
    wit = os.path.join(replays_dir, '%s-wit.txt' % prop)
    if os.path.exists(wit):
        os.unlink(wit)

    # evidence
    tot = dict(queries=0, sat=0, unsat=0, unknown=0, solver_time_s=0.0)
    by = {}
    asserts = {}
    fns = set()
    incomplete = []
    vac = []
    states = trans = 0
    samples = []
    perjob = []
    for j, r in results:
        if not r['ok']:
            continue
        for q in tot:
            tot[q] += r['solver'][q]
        for q, n in r['solver']['by_solver'].items():
            by[q] = by.get(q, 0) + n
        for lab, (d, v, u) in r['asserts'].items():
            e = asserts.setdefault(lab, [0, 0, 0])
            e[0] += d
            e[1] += v
            e[2] += u
        fns |= set(r['functions'])
        states += r['paths']
        trans += r['steps']
        for i in r['incomplete']:
            incomplete.append('%s: %s' % (r['job'], i))
        for lab in j.get('reach', ()):
            if not r['reach'].get(lab):
                vac.append('%s: witness %s not reached' % (r['job'], lab))
        for w in r['witnesses'][:1]:
            if len(samples) < 12:
                samples.append(dict(job=r['job'], inputs=w['inputs'][:12],
                                    outcome=w['outs'][:8]))
        perjob.append(dict(job=r['job'], dom=j.get('dom', 'ieee'),
                           paths=r['paths'], wall_s=r['wall'],
                           queries=r['solver']['queries'],
                           solver_s=r['solver']['solver_time_s']))
    tot['solver_time_s'] = round(tot['solver_time_s'], 2)
    undis = {l: e for l, e in asserts.items() if e[2]}
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=states, transitions=trans,
            traces_validated_against_impl=validated,
            samples=samples,
            explanation='bounded symbolic execution of LLVM bitcode compiled '
            'from the current working tree; states = completed symbolic '
            'paths, transitions = instructions executed symbolically; each '
            'assertion instance was decided by an SMT query over all inputs '
            'of its path',
            functions_encoded=sorted(fns), bounds=spec.get('bounds', ''),
            outside=spec.get('outside', ''),
            assertion_instances={l: dict(discharged=e[0], violated=e[1],
                                         undecided=e[2])
                                 for l, e in sorted(asserts.items())},
            solver=dict(tot, by_solver=by), jobs=perjob,
            incomplete=incomplete, vacuity_failures=vac,
            unreproduced_counterexamples=unrepro,
            translator_disagreements=mism[:20], errors=errors),
        assumptions=spec.get('assumptions', []),
        wall_s=round(time.time() - t0, 2), violations=len(verdict))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    # report
    nd = sum(e[0] for e in asserts.values())
    print('%s: %d jobs, %d paths, %d instructions, %d queries '
          '(%.1f s solver), %d assertion instances discharged, %d undecided, '
          '%d path witnesses validated natively, %.1f s'
          % (prop, len(jobs), states, trans, tot['queries'],
             tot['solver_time_s'], nd, sum(e[2] for e in undis.values()),
             validated, ev['wall_s']))
    for e in errors:
        print('note: ERROR', e)
    for i in incomplete[:20]:
        print('note: incomplete:', i)
    for i in vac:
        print('note: vacuity:', i)
    for u in unrepro[:20]:
        print('note: not reproduced natively, not reported: %s' % u)
    for l, e in undis.items():
        print('note: undecided: %s x%d' % (l, e[2]))
    for m in mism[:10]:
        print('note: translator disagreement:', m)
    for e in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    for v in verdict:
        print('violated: %s in %s at %s; inputs %s' % (
            v['label'], v['job'], v['loc'],
            ' '.join('%s=%s' % (a, c) for a, b, c in v['inputs'][:12])))
        print('VIOLATION property=%s replay=%s' % (prop, v['path']))
    sys.stdout.flush()
    if verdict:
        return 1
    return 2 if errors and (states == 0 or any(
        e.startswith('build:') for e in errors)) else 0
