#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property by symbolic
execution of the real code of /repo."""
import hashlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = os.environ.get('VF_REPO', '/repo')
EVIDENCE = os.environ.get('VF_OUT', os.path.join(VERIF, 'evidence'))
LATE = float(os.environ.get('VF_LATE', '150'))

from vf import engine as E            # noqa
from vf import values as V            # noqa
from vf import rt                     # noqa
from vf.api import H, Render          # noqa
from vf.jyproc import Jython, JyTimeout, JyError   # noqa
from vf.loader import Loader          # noqa
import z3                             # noqa

sys.setrecursionlimit(3000)
MAX_CAND = 4


class Job(object):
    def __init__(self, func, params, labels, opts):
        self.func = func
        self.params = params
        self.labels = labels
        self.opts = opts
        self.cands = []
        self.samples = []
        self.percand = {}

    # ---------------------------------------------------------- candidates
    def candidate(self, h, label, model, term, info):
        n = self.percand.get(label, 0)
        self.percand[label] = n + 1
        if n >= MAX_CAND:
            return
        e = h._e
        self.cands.append({
            'label': label, 'func': self.func, 'params': self.params,
            'inputs': self.render(e, model, term)[0]})

    def render(self, e, model, term=None):
        """Concrete inputs; prefers values which are exact as doubles."""
        nice = []
        for name, kind, t in e.inputs:
            if kind == 'real':
                nice.append(z3.IsInt(t * 4096))
            elif kind == 'dec':
                nice.append(z3.IsInt(t * 10 ** 6))
        if nice:
            e.solver.push()
            e.solver.add(nice)
            if term is not None:
                e.solver.add(z3.Not(term))
            e.solver.set('timeout', 3000)
            try:
                if e.solver.check() == z3.sat:
                    model = e.solver.model()
            finally:
                e.solver.set('timeout', min(1500, e.query_ms))
                e.solver.pop()
        r = Render(e, model, e.inputs)
        return dict((n, r.value(k, t)) for n, k, t in e.inputs), r

    # ---------------------------------------------------------- running
    def run(self, ld, deadline, seed, nsamples):
        t0 = time.time()
        mod = ld.modules['vfharness']
        func = getattr(mod, self.func)
        eng = E.Engine(query_ms=self.opts.get('query_ms', 20000),
                       max_steps=self.opts.get('max_steps', 60000),
                       deadline=deadline)
        eng.loader = ld
        eng.allreached = {}
        E.set_engine(eng)
        rnd = random.Random(seed)
        status = 'done'
        labels_seen = set()
        ids = {}

        def id_hook(x):
            ids.setdefault(id(x), (len(ids) + 1000, x))
            return ids[id(x)][0]
        eng.id_hook = id_hook

        def one(e):
            ld.restore()
            ld.fs.reset()
            ids.clear()
            e.stdout = rt.Out()
            h = H(e, ld, self, 'x')
            ok = False
            try:
                func(h, **self.params)
                ok = True
            except E.PathAbort:
                e.aborted += 1
            except E.StepLimit:
                self.uncaught(h, 'nontermination')
                if self.percand.get('nontermination'):
                    raise E.Budget('enough violations')
            except (E.Budget, E.EngineError):
                raise
            except RecursionError:
                self.uncaught(h, 'exception RecursionError')
            except BaseException as ex:
                if isinstance(ex, (MemoryError, z3.Z3Exception)):
                    raise
                self.uncaught(h, 'exception %s' % type(ex).__name__,
                              traceback.format_exc()[-1500:])
            for l in h._reached + h._checks:
                e.allreached[l] = e.allreached.get(l, 0) + 1
            if ok and not e.dead:
                sig = (tuple(h._reached), len(h._checks))
                new = sig not in labels_seen and len(labels_seen) < 400
                labels_seen.add(sig)
                if len(self.samples) < nsamples and (
                        new or rnd.random() < 0.3) or \
                        rnd.random() < nsamples / (20.0 + e.paths * 4):
                    try:
                        m = e.get_model()
                        inputs, r = self.render(e, m)
                        obs = [[n, r.obs(v)] for n, v in h._obs]
                        s = {'func': self.func, 'params': self.params,
                             'inputs': inputs, 'reached': h._reached,
                             'obs': obs, 'checks': h._checks, 'new': new}
                        if len(self.samples) < nsamples:
                            self.samples.append(s)
                        else:
                            self.samples[rnd.randrange(nsamples)] = s
                    except E.EngineError:
                        pass
            h = None
            if len(self.cands) >= 3 * MAX_CAND:
                raise E.Budget('enough violations')
        try:
            eng.explore(one)
            if not eng.exhausted:
                status = 'path limit'
        except E.Budget as ex:
            status = 'budget: %s' % ex
        except E.EngineError as ex:
            status = 'engine error: %s\n%s' % (
                ex, traceback.format_exc()[-1800:])
        except BaseException as ex:
            status = 'internal error: %s\n%s' % (
                ex, traceback.format_exc()[-2500:])
        miss = [l for l in self.labels if l not in eng.allreached]
        return dict(
            func=self.func, params=self.params, status=status,
            paths=eng.paths, aborted=eng.aborted, events=eng.events,
            branches=eng.branches, queries=eng.queries, sat=eng.sat,
            unsat=eng.unsat, unknown=eng.unknown,
            proved=eng.checks_proved, trivial=eng.checks_trivial,
            check_unknown=eng.check_unknown, solver_s=eng.solver_s,
            concretized=eng.concretized, functions=sorted(eng.functions),
            cands=self.cands, samples=self.samples, missing=miss,
            reached=eng.allreached, wall=time.time() - t0)

    def uncaught(self, h, label, info=''):
        e = h._e
        try:
            e.dead = False
            m = e.get_model()
        except E.Control:
            return
        n = self.percand.get(label, 0)
        self.percand[label] = n + 1
        if n < MAX_CAND:
            self.cands.append({
                'label': label, 'func': self.func, 'params': self.params,
                'inputs': self.render(e, m)[0], 'info': info})


def worker(args):
    idx, deadline, seed, ns = args
    ld, jobs = STATE
    ld.jy = Jython()     # a fresh one, started only if needed
    try:
        return jobs[idx].run(ld, deadline, seed + idx, ns)
    finally:
        ld.jy.stop()

STATE = None


def plain(x):
    """Harness job parameters as JSON values."""
    if isinstance(x, dict):
        return dict((k, plain(v)) for k, v in rt.getattr_(x, 'items')())
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


class Checker(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.harness = os.path.join(VERIF, 'harness', pid + '.py')
        self.common = os.path.join(VERIF, 'harness', 'common.py')
        self.jy = Jython()
        self.jy.start()

    def replay(self, c, timeout=40):
        return self.jy.request(dict(
            cmd='replay', modmap=self.ld.map, shadow=[],
            harness=self.harness, common=self.common, func=c['func'],
            params=c['params'], inputs=c['inputs'], salt=0,
            vf=os.path.join(VERIF, 'vf')), timeout)

    def confirm(self, c):
        """None if the real code does not misbehave on these inputs."""
        try:
            r = self.replay(c, 25 if c['label'] == 'nontermination' else 60)
        except JyTimeout:
            return {'what': 'the real code does not terminate'}
        if 'error' in r:
            return None
        if r['exc'] is not None:
            return {'what': 'uncaught ' + r['exc'], 'tb': r.get('tb')}
        bad = [k for k in r['checks'] if not k[1]]
        if bad and not r['assume_failed']:
            return {'what': bad[0][0], 'details': bad[0][2]}
        c['replayed'] = {k: r.get(k) for k in
                         ('checks', 'reached', 'assume_failed', 'missing',
                          'stopped')}
        return None

    def run(self):
        global STATE
        self.ld = ld = Loader(REPO, self.jy)
        eng = E.Engine()
        eng.loader = ld
        eng.stdout = rt.Out()
        E.set_engine(eng)
        mod = ld.load_harness([self.common, self.harness])
        jobs = []
        for j in mod.jobs(self.tier):
            func, params, labels = j[0], plain(j[1]), list(j[2])
            opts = plain(j[3]) if len(j) > 3 else {}
            jobs.append(Job(func, params, labels, opts))
        ld.snapshot()
        STATE = (ld, jobs)
        limit = 780 if self.tier == 'quick' else 6 * 3600
        deadline = self.t0 + float(os.environ.get('VF_LIMIT', limit))
        ns = max(2, (40 if self.tier == 'quick' else 150) // max(
            1, len(jobs)))
        only = os.environ.get('VF_ONLY')
        todo = [i for i in range(len(jobs))
                if not only or only in "%s %s" % (jobs[i].func, json.dumps(jobs[i].params))]
        results = []
        ctx = multiprocessing.get_context('fork')
        nproc = int(os.environ.get('VF_PROCS', '8'))
        if os.environ.get('VF_DEBUG'):
            for i in todo:
                results.append(worker((i, deadline, self.seed, ns)))
        else:
            with ctx.Pool(min(nproc, max(1, len(todo))),
                          maxtasksperchild=1) as pool:
                checked = set()
                for r in pool.imap_unordered(
                        worker, [(i, deadline, self.seed, ns)
                                 for i in todo], 1):
                    results.append(r)
                    if self.late() and self.early(results, checked):
                        pool.terminate()
                        break
                    if os.environ.get('VF_VERBOSE'):
                        print('  %s %s: %s, %d paths, %d queries, %.1fs '
                              '(solver %.1fs), cands %s %s' % (
                                  r['func'], json.dumps(r['params']),
                                  r['status'], r['paths'], r['queries'],
                                  r['wall'], r['solver_s'],
                                  [c['label'] for c in r['cands']],
                                  r['concretized']))
                        sys.stdout.flush()
        return self.conclude(results)

    def late(self):
        return self.tier == 'quick' and time.time() - self.t0 > LATE

    def early(self, results, checked):
        """Is there already a violation which is confirmed and new?"""
        for r in results:
            for c in r['cands']:
                key = (c['func'], c['label'])
                if key not in checked:
                    checked.add(key)
                    v = self.confirm(c)
                    if v is not None:
                        c = dict(c, verdict=v)
                        if not self.known(c):
                            return True
        return False

    def conclude(self, results):
        problems = []
        confirmed = []
        unconfirmed = []
        done = set()
        for r in results:
            for c in r['cands']:
                key = (c['func'], c['label'])
                if key in done:
                    continue
                if c['label'] == 'nontermination' and any(
                        k[1] == 'nontermination' for k in done):
                    continue    # each one takes long to confirm
                v = self.confirm(c)
                if v is not None:
                    done.add(key)
                    c['verdict'] = v
                    confirmed.append(c)
                else:
                    unconfirmed.append(c)
                if len(confirmed) >= 5:
                    break
        unconfirmed = [c for c in unconfirmed
                       if (c['func'], c['label']) not in done]
        known, fresh = [], []
        for c in confirmed:
            k = self.known(c)
            (known if k else fresh).append(c)
        # validation of the encoding: passing paths on the real code
        validated, mismatches, shown = 0, [], []
        if not fresh:
            samples = [s for r in results for s in r['samples']]
            samples.sort(key=lambda s: not s['new'])
            lim = 60 if self.tier == 'quick' else 400
            tend = time.time() + (60 if self.tier == 'quick' else 600)
            for s in samples[:lim]:
                if time.time() > tend:
                    break
                m = self.validate(s)
                if m is None:
                    validated += 1
                    if len(shown) < 4:
                        shown.append({'func': s['func'],
                                      'params': s['params'],
                                      'inputs': small(s['inputs'])})
                elif m[0] == 'violation':
                    s['label'] = m[1]
                    s['verdict'] = {'what': m[1], 'details': m[2]}
                    if self.known(s):
                        known.append(s)
                    else:
                        fresh.append(s)
                        break
                else:
                    mismatches.append((s, m))
        for r in results:
            if r['status'] != 'done' and not (
                    r['status'].startswith('budget: enough')):
                problems.append('%s %s: %s' % (r['func'], r['params'],
                                               r['status']))
            if r['check_unknown']:
                problems.append('%s: undecided %s' % (
                    r['func'], sorted(set(r['check_unknown']))))
            if r['missing'] and r['status'] == 'done' and not r['cands']:
                problems.append('%s %s: never reached %s' % (
                    r['func'], r['params'], r['missing']))
        for c in unconfirmed:
            problems.append('not reproduced: %s %s %s inputs=%s %s %s' % (
                c['func'], json.dumps(c['params']), c['label'],
                json.dumps(small(c['inputs'])), c.get('info', ''),
                json.dumps(c.get('replayed'))))
        for s, m in mismatches[:5]:
            problems.append('encoding mismatch: %s %s %s inputs=%s' % (
                s['func'], json.dumps(s['params']), m,
                json.dumps(small(s['inputs']))))
        code = 0
        for c in known:
            print('KNOWN-FINDING: property=%s %s' % (
                self.pid, c['verdict']['what']))
        if fresh:
            code = 1
            d = os.path.join(EVIDENCE, 'replays')
            os.makedirs(d, exist_ok=True)
            seen = set()
            for i, c in enumerate(fresh):
                if c['label'] in seen:
                    continue
                seen.add(c['label'])
                p = os.path.join(d, '%s-%d.json' % (self.pid, i))
                with open(p, 'w') as f:
                    json.dump(dict(property=self.pid, label=c['label'],
                                   func=c['func'], params=c['params'],
                                   inputs=c['inputs'],
                                   verdict=c['verdict']), f, indent=1)
                print('VIOLATION property=%s replay=%s' % (self.pid, p))
                print('  %s: %s' % (c['label'], json.dumps(
                    c['verdict'])[:700]))
                print('  inputs: %s' % json.dumps(small(c['inputs']))[:700])
        elif problems:
            code = 2
        for p in problems[:12]:
            print('PROBLEM: %s' % p[:3000])
        self.evidence(results, validated, shown, len(fresh), len(known),
                      problems)
        tot = lambda k: sum(r[k] for r in results)
        print('%s %s: exit %d; %d jobs, %d paths, %d queries, %d checks '
              'proved, solver %.1fs, %d traces validated, wall %.1fs' % (
                  self.pid, self.tier, code, len(results), tot('paths'),
                  tot('queries'), tot('proved') + tot('trivial'),
                  tot('solver_s'), validated, time.time() - self.t0))
        self.jy.stop()
        return code

    def known(self, c):
        """Is the violation one of the recorded findings?"""
        p = os.path.join(VERIF, 'KNOWN_FINDINGS')
        if not os.path.exists(p):
            return None
        for line in open(p):
            if not line.startswith('finding: '):
                continue
            d = json.loads(line[len('finding: '):])
            if d['property'] == self.pid and d['func'] == c['func'] and \
                    d['label'] == c['label'] and all(
                        c['inputs'].get(k, {}).get('v') == v
                        for k, v in d.get('inputs', {}).items()) and all(
                        c['params'].get(k) == v
                        for k, v in d.get('params', {}).items()):
                return d
        return None

    def validate(self, s):
        try:
            r = self.replay(s, 60)
        except (JyTimeout, JyError) as ex:
            return ('mismatch', 'replay: %r' % ex)
        if 'error' in r:
            return ('mismatch', 'replay: %s' % r['error'])
        if r['assume_failed']:
            return None       # the rounding of an input left the path
        if r['exc'] is not None:
            return ('violation', 'exception', r['exc'])
        bad = [k for k in r['checks'] if not k[1]]
        if bad:
            return ('violation', bad[0][0], bad[0][2])
        if r['missing']:
            return ('mismatch', 'missing inputs %s' % r['missing'])
        if r['reached'] != s['reached']:
            return ('mismatch', 'reached %s instead of %s' % (
                r['reached'], s['reached']))
        if not same(r['obs'], s['obs']):
            return ('mismatch', 'observed %s instead of %s' % (
                json.dumps(r['obs'])[:900], json.dumps(s['obs'])[:900]))
        return None

    def evidence(self, results, validated, shown, nviol, nknown, problems):
        tot = lambda k: sum(r[k] for r in results)
        funcs = sorted(set(f for r in results for f in r['functions']
                           if not f.startswith('!')
                           and not f.startswith('lib.')))
        conc = {}
        for r in results:
            for k, v in r['concretized'].items():
                conc[k] = conc.get(k, 0) + v
        mod = self.ld.modules['vfharness']
        srcs = {}
        for n, p in sorted(self.ld.map.items()):
            if p and p.startswith(REPO) and n in self.ld.modules:
                srcs[os.path.relpath(p, REPO)] = hashlib.sha256(
                    open(p, 'rb').read()).hexdigest()[:16]
        stubs = sorted(n for n, p in self.ld.map.items()
                       if p and n in self.ld.modules
                       and p.startswith(os.path.join(VERIF, 'stubs')))
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed,
            level='model_checking',
            coverage=dict(
                states=tot('paths'), transitions=tot('events'),
                traces_validated_against_impl=validated,
                samples=shown or ['no passing path was sampled'],
                method='symbolic execution of the translated source of '
                       '/repo; z3 decides every branch and check',
                functions_encoded=[f for f in funcs],
                source_sha256=srcs,
                bounds=str(getattr(mod, 'BOUNDS', '')),
                outside_bounds=str(getattr(mod, 'OUTSIDE', '')),
                stubs=stubs,
                solver_queries=tot('queries'), queries_sat=tot('sat'),
                queries_unsat=tot('unsat'), queries_unknown=tot('unknown'),
                checks_proved_by_solver=tot('proved'),
                checks_proved_by_simplification=tot('trivial'),
                solver_seconds=round(tot('solver_s'), 2),
                paths_infeasible=tot('aborted'),
                concretizations=conc,
                exhaustive=all(r['status'] == 'done' for r in results),
                jobs=[dict(func=r['func'], params=r['params'],
                           paths=r['paths'], queries=r['queries'],
                           status=r['status'][:100],
                           seconds=round(r['wall'], 2))
                      for r in results][:120],
                witnesses=sorted(set(l for r in results
                                     for l in r['reached']))[:120],
                problems=[p[:300] for p in problems[:10]],
                known_findings=nknown),
            assumptions=[str(a) for a in getattr(mod, 'ASSUMES', [])],
            wall_s=round(time.time() - self.t0, 2), violations=nviol)
        d = EVIDENCE
        os.makedirs(d, exist_ok=True)
        txt = json.dumps(ev, indent=1)
        while len(txt) > 60000 and ev['coverage']['jobs']:
            ev['coverage']['jobs'] = ev['coverage']['jobs'][
                :len(ev['coverage']['jobs']) // 2]
            txt = json.dumps(ev, indent=1)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            f.write(txt)


def small(inputs):
    return dict((k, v['v']) for k, v in inputs.items())


def same(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b or a == '\0' or b == '\0'
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))
    return a == b


def main():
    # a KeyboardInterrupt is always one raised by the code being checked
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
        'VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = None
    try:
        c = Checker(pid, tier, seed)
        code = c.run()
    except Exception:
        traceback.print_exc()
        print('PROBLEM: internal error')
        code = 2
    finally:
        if c is not None:
            c.jy.stop()
    sys.stdout.flush()
    sys.exit(code)


if __name__ == '__main__':
    main()
