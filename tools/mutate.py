"""Mutation testing of the checks.

mutate.py list                        -> the mutants, one per line
mutate.py run OUT [SAMPLE [SEED [FILTER]]]   runs the relevant checks on them

Every mutant is a small change of one place of a source file of /repo; the
checks whose evidence lists the function changed are run on a copy, the
cheapest first, until one of them reports a violation.
"""
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tokenize
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MU_REPO', '/repo')
SWAP = {'<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'],
        '==': ['!='], '!=': ['=='], '+': ['-'], '-': ['+'], '*': ['/'],
        '/': ['*'], '%': [], '+=': ['-='], '-=': ['+='],
        'and': ['or'], 'or': ['and'], 'True': ['False'],
        'False': ['True'], 'break': ['continue'], 'continue': ['break'],
        'sorted': ['list'], 'set': ['list'], 'min': ['max'],
        'max': ['min'], 'all': ['any'], 'any': ['all'],
        'append': ['extend'], 'startswith': ['endswith'],
        'endswith': ['startswith'], 'iteritems': [], 'strip': ['lower']}
KW = {'def', 'class', 'return', 'if', 'elif', 'while', 'for', 'else', 'try',
      'except', 'finally', 'with', 'import', 'from', 'raise', 'yield',
      'global', 'del', 'assert', '@', 'pass', 'break', 'continue', 'print'}


def mutants(path):
    """yields (line, col, endline, endcol, new text, kind)"""
    toks = list(tokenize.generate_tokens(open(path).readline))
    line = []
    depth = 0
    for i, t in enumerate(toks):
        if t.type in (tokenize.NL, tokenize.COMMENT, tokenize.INDENT,
                      tokenize.DEDENT):
            continue
        if t.type == tokenize.NEWLINE:
            for m in of_line(line):
                yield m
            line = []
            continue
        line.append(t)


def of_line(line):
    if not line:
        return
    first = line[0]
    if first.type == tokenize.STRING and len(line) == 1:
        return  # docstring
    if first.string in ('import', 'from', 'class'):
        return
    s, e = first.start, line[-1].end

    def stmt(new, kind):
        return (s[0], s[1], e[0], e[1], new, kind)
    if first.string == 'def':
        line = line[3:]  # defaults
    elif first.string in ('if', 'elif', 'while') and line[-1].string == ':':
        a, b = line[1].start, line[-1].start
        yield (a[0], a[1], b[0], b[1], 'True', 'cond')
        yield (a[0], a[1], b[0], b[1], 'False', 'cond')
    elif first.string == 'return':
        if len(line) > 1:
            yield stmt('return', 'return')
    elif first.string == '@':
        if 'context' not in line[1].string and line[1].string not in (
                'property', 'staticmethod', 'classmethod'):
            yield (s[0], s[1], e[0], e[1], '', 'decorator')
        return
    elif first.string in ('yield', 'raise', 'del', 'print', 'global'):
        yield stmt('pass', 'drop')
    elif first.string not in KW:
        yield stmt('pass', 'drop')
    for i, t in enumerate(line):
        s, e = t.start, t.end
        nxt = line[i + 1].string if i + 1 < len(line) else ''
        prev = line[i - 1].string if i else ''
        if t.string in SWAP:
            if t.string in ('*', '-', '+') and (prev in '(,=[:' or not prev):
                continue
            for new in SWAP[t.string]:
                yield (s[0], s[1], e[0], e[1], new, 'swap')
        elif t.string == 'not':
            if prev == 'is':
                yield (s[0], s[1], line[i].end[0], line[i].end[1], '', 'not')
            elif nxt == 'in':
                yield (s[0], s[1], e[0], e[1], '', 'not')
            else:
                yield (s[0], s[1], e[0], e[1], '', 'not')
        elif t.string == 'is' and nxt != 'not':
            yield (s[0], s[1], e[0], e[1], 'is not', 'not')
        elif t.string == 'in' and prev != 'not' and line[0].string in (
                'if', 'elif', 'return', 'while'):
            if 'for' not in [x.string for x in line[:i]]:
                yield (s[0], s[1], e[0], e[1], 'not in', 'not')
        elif t.type == tokenize.NUMBER:
            new = {'0': '1', '1': '2', '0.0': '1.0', '1.0': '2.0'}.get(
                t.string, t.string + ' + 1')
            yield (s[0], s[1], e[0], e[1], '(%s)' % new, 'number')
        elif t.type == tokenize.STRING and not t.string.startswith('"""'):
            yield (s[0], s[1], e[0], e[1], t.string[:-1] + 'x' +
                   t.string[-1], 'string')
            if len(t.string) > 2:
                yield (s[0], s[1], e[0], e[1], t.string[0] * 2 if
                       t.string[0] in '\'"' else "''", 'string')
        elif t.type == tokenize.NAME and t.string == 'None':
            yield (s[0], s[1], e[0], e[1], '0', 'none')
        elif (t.type == tokenize.NAME and nxt == '=' and prev in ('(', ',')
              and first.string != 'def'):
            # remove a keyword argument
            d, j = 0, i + 2
            while j < len(line) and not (
                    d == 0 and line[j].string in (',', ')')):
                d += line[j].string in '([{'
                d -= line[j].string in ')]}'
                j += 1
            if j < len(line):
                b = line[j]
                end = b.end if b.string == ',' else b.start
                yield (s[0], s[1], end[0], end[1], '', 'keyword')


def scopes(path):
    """line -> qualified name"""
    stack, out = [], {}
    for n, text in enumerate(open(path).read().split('\n'), 1):
        m = re.match(r'( *)(class|def) (\w+)', text)
        ind = len(text) - len(text.lstrip())
        if text.strip() and not text.lstrip().startswith('#'):
            while stack and ind <= stack[-1][0] and not (
                    text.lstrip()[0] in ')"'):
                stack.pop()
        if m:
            stack.append((ind, m.group(3)))
        out[n] = '.'.join(s[1] for s in stack)
    return out


def files():
    return [p for p in sorted(glob.glob(REPO + '/openquake/commonlib/*.py')
                              + glob.glob(REPO + '/bin/*.py'))]


def everything():
    out = []
    for p in files():
        sc = scopes(p)
        for m in mutants(p):
            out.append((os.path.relpath(p, REPO), sc.get(m[0], ''), m))
    return out


def apply(text, m):
    lines = text.split('\n')
    a, b, c, d, new, kind = m
    before = '\n'.join(lines[:a - 1] + [lines[a - 1][:b]])
    after = '\n'.join([lines[c - 1][d:]] + lines[c:])
    return before + new + after


class Router(object):
    def __init__(self):
        self.ev = {}
        for p in glob.glob(VERIF + '/evidence/*.json'):
            d = json.load(open(p))
            self.ev[d['property']] = (
                set(d['coverage']['functions_encoded']), d['wall_s'],
                d['coverage']['source_sha256'])

    def checks(self, fname, scope):
        mod = os.path.basename(fname)[:-3]
        full = (mod + '.' + scope).rstrip('.')
        out = []
        for pid, (funcs, wall, srcs) in self.ev.items():
            fs = [f for f in funcs if f == full or
                  f.split('<')[0].rstrip('.') == full or
                  full.startswith(f + '.')]
            if fname.startswith('bin'):
                fs = [f for f in funcs if scope and
                      f.endswith('.' + scope) and 'NRMLconvert' in f]
            if fs:
                out.append((wall, pid))
        if not out and (not scope or scope[0].isupper()):
            for pid, (funcs, wall, srcs) in self.ev.items():
                if any(f.startswith(full + '.') for f in funcs) or (
                        not scope and fname in srcs):
                    out.append((wall, pid))
        return [pid for wall, pid in sorted(out)]


def run_one(arg):
    k, fname, scope, m, checks = arg
    c = '/tmp/mutants/%d' % k
    shutil.rmtree(c, True)
    shutil.copytree(REPO, c, ignore=shutil.ignore_patterns('.git'))
    p = os.path.join(c, fname)
    text = open(p).read()
    new = apply(text, m)
    open(p, 'w').write(new)
    log, status = [], 'survived' if checks else 'uncovered'
    for pid in checks:
        env = dict(os.environ, VF_REPO=c, VF_PROCS=os.environ.get(
            'MU_PROCS', '2'), VF_LATE='0', VF_OUT=c + '/out',
            VF_LIMIT=os.environ.get('MU_LIMIT', '150'))
        try:
            r = subprocess.run(
                ['python3-vt', VERIF + '/vf/check.py', pid, 'quick'],
                env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                timeout=400)
            code = r.returncode
            out = r.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            code, out = 9, ''
        log.append((pid, code))
        if code == 1:
            status = 'killed'
            break
        if code not in (0, 1):
            log[-1] += (([l for l in out.split('\n') if 'PROBLEM' in l] +
                         [''])[0][:300],)
            if 'SyntaxError' in out:
                status = 'invalid'
                break
            if status == 'survived':
                status = 'noanswer'
    shutil.rmtree(c, True)
    old = text.split('\n')[m[0] - 1].strip()
    return dict(status=status, file=fname, line=m[0], scope=scope, kind=m[5],
                old=old, new=new.split('\n')[m[0] - 1].strip(), log=log)


def main(cmd, out=None, sample=None, seed='1', flt='.'):
    ms = [m for m in everything() if re.search(flt, m[0] + ':' + m[1])]
    router = Router()
    if cmd == 'list':
        for f, s, m in ms:
            print(f, s, m, router.checks(f, s))
        print(len(ms))
        return
    random.Random(int(seed)).shuffle(ms)
    ms = ms[:int(sample or len(ms))]
    top = int(os.environ.get('MU_CHECKS', '6'))
    args = [(k + int(seed) * 10000, f, s, m, router.checks(f, s)[:top])
            for k, (f, s, m) in enumerate(ms)]
    with ThreadPoolExecutor(int(os.environ.get('MU_WORKERS', '4'))) as ex:
        with open(out, 'a') as fo:
            for r in ex.map(run_one, args):
                fo.write(json.dumps(r) + '\n')
                fo.flush()


if __name__ == '__main__':
    main(*sys.argv[1:])
