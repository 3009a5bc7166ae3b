"""
Differential test of the translator (not a check): the snippets of
/verif/selftest are executed symbolically and every sampled path is replayed
on the real interpreter. Usage: python3-vt tools/selftest.py [T1] [snippet...]
"""
import json
import multiprocessing
import os
import sys
import time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, VERIF + '/vf')
import importlib
check = importlib.import_module('vf.check')
if os.environ.get('TB'):
    import traceback

    def outcome(self, f, *a, **k):
        try:
            return ('ok', f(*a, **k))
        except check.E.Control:
            raise
        except (Exception, SystemExit) as ex:
            traceback.print_exc()
            return ('exc', ex)
    check.H.outcome = outcome
NS = int(os.environ.get('NS', '60'))


def diff(a, b, path=''):
    if type(a) == type(b) == list and len(a) == len(b):
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            out += diff(x, y, '%s[%d]' % (path, i))
        return out
    return [] if check.same(a, b) else [(path, 'jython', a, 'symbolic', b)]


def main(name, only):
    c = check.Checker('T', 'quick', 1)
    c.harness = os.path.join(VERIF, 'selftest', name + '.py')
    c.ld = ld = check.Loader(check.REPO, c.jy)
    eng = check.E.Engine()
    eng.loader = ld
    eng.stdout = check.rt.Out()
    check.E.set_engine(eng)
    mod = ld.load_harness([c.common, c.harness])
    jobs = []
    for j in mod.jobs('quick'):
        params = check.plain(j[1])
        if not only or params['name'] in only:
            jobs.append(check.Job(j[0], params, [], {}))
    ld.snapshot()
    check.STATE = (ld, jobs)
    bad = 0
    with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=1) as p:
        for r in p.imap_unordered(check.worker, [
                (i, time.time() + 200, 1, NS) for i in range(len(jobs))], 1):
            n, msgs = 0, {}
            if r['status'] != 'done':
                msgs['status'] = r['status'][-1200:]
            for x in r['cands']:
                msgs[x['label']] = str(x['info'])[-900:]
            for s in r['samples']:
                a = c.replay(s, 60)
                if a.get('error') or a.get('exc') or a['missing']:
                    msgs['replay'] = str(a)[:800]
                elif not check.same(a['obs'], s['obs']):
                    for d in diff(a['obs'], s['obs'])[:4]:
                        msgs.setdefault(d[0], (d, check.small(s['inputs'])))
                else:
                    n += 1
            bad += bool(msgs)
            print('%-14s %4d paths %5.1fs %3d validated %s' % (
                r['params']['name'], r['paths'], r['wall'], n,
                'FAIL' if msgs else 'ok'))
            for k, v in msgs.items():
                print('     ', k, v if not isinstance(v, str)
                      else v.replace('\n', '\n      '))
            sys.stdout.flush()
    c.jy.stop()
    print('%d failures' % bad)


if __name__ == '__main__':
    main(sys.argv[1] if len(sys.argv) > 1 else 'T1', sys.argv[2:])
