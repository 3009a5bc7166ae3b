import os
from openquake.commonlib import logictree

import ltdoc

BOUNDS = ('trees of 1 or 2 levels with every combination of uncertainty '
          'types and filters, up to 2 branch sets on a level, up to 2 source '
          'models with up to 2 sources each of every type, arbitrary ids and '
          'tectonic region types; uncertainty values: every text of up to 5 '
          '(thorough 6) characters and pairs of texts of up to 3 (thorough '
          '4) characters in the alphabet "0189.+-eE_nx" and white space')
OUTSIDE = ('the XML parser and the schema validation, which are replaced by '
           'the parsed documents; longer texts; missing or unreadable source '
           'model files')
ASSUMES = ['the documents follow the schema', 'float() of the interpreter '
           'says which number a text denotes']

SOURCES = ['point', 'area', 'complexFault', 'simpleFault',
           'characteristicFault']
RELATIVE = ['bGRRelative', 'maxMagGRRelative']
ABSOLUTE = ['abGRAbsolute', 'maxMagGRAbsolute']
TYPES = ['sourceModel', 'gmpeModel'] + RELATIVE + ABSOLUTE
TRT, STYPE, SRCS = ('applyToTectonicRegionType', 'applyToSourceType',
                    'applyToSources')
ALPHABET = '0189.+-eE_nx'


def jobs(tier):
    out = []
    quick = tier == 'quick'
    for first in (['sourceModel'], ['sourceModel', 'sourceModel'],
                  ['bGRRelative'], ['gmpeModel'], ['sourceModel',
                                                   'bGRRelative']):
        for second in (0, 1, 2):
            ok = first == ['sourceModel']
            out.append(('structure', dict(first=first, second=second),
                        (['accepted'] if ok and second < 2 else []) +
                        (['refused'] if second or not ok else [])))
    for n in ((0, 1, 2)):
        for kinds in ([], [TRT], [STYPE], [SRCS], [TRT, STYPE], [TRT, SRCS],
                      [STYPE, SRCS], [TRT, STYPE, SRCS]):
            if n == 2 and len(kinds) > 1 and quick:
                continue
            labels = ['refused']
            if not kinds or len(kinds) == 1 and (n or kinds == [SRCS]):
                labels.append('accepted')
            out.append(('filters', dict(n=n, kinds=kinds), labels))
    for kinds in ([], [TRT], [STYPE], [SRCS]):
        out.append(('rootfilters', dict(kinds=kinds),
                    ['refused'] if kinds else ['accepted']))
    for n in range(6 if quick else 7):
        out.append(('single', dict(n=n), ['refused'] + (
            ['accepted'] if n else [])))
    m = 3 if quick else 4
    for a in range(m + 1):
        for b in range(m + 1):
            out.append(('pair', dict(a=a, b=b), ['refused'] + (
                ['accepted'] if a and b else [])))
    out.append(('pairs', {}, ['refused']))
    return out


def models(h, sources):
    """Writes the source models; each source is (type, id, trt)"""
    base = h.scratch()
    for i, srcs in zip(range(len(sources)), sources):
        f = open(os.path.join(base, 'model%d.xml' % i), 'w')
        f.write('<model%d/>' % i)
        f.close()
        nodes = [ltdoc.elem(t + 'Source', {
            'id': sid, 'tectonicRegion': trt, 'name': 'a name'}, [
                ltdoc.elem(t + 'Geometry', {}),
                ltdoc.elem('magScaleRel', {}, (), 'WC1994')])
            for t, sid, trt in srcs]
        ltdoc.register('<model%d/>' % i, ltdoc.elem('nrml', {}, [
            ltdoc.elem('sourceModel', {'name': 'x'}, nodes)]))
    return base


def root(n, attrs=None):
    """A branch set with n source models"""
    return ltdoc.branchset('sourceModel', attrs or {}, [
        ltdoc.branch('s%d' % i, ' model%d.xml ' % i,
                     '1' if i == 0 else '0') for i in range(n)])


def parse(h, base, doc):
    ltdoc.register('<lt/>', ltdoc.tree(doc))
    return h.outcome(lambda: logictree.SourceModelLogicTree(
        '<lt/>', base, 'lt.xml', validate=True))


def verdict(h, o, good):
    if o[0] == 'exc':
        h.reach('refused')
        h.check(isinstance(o[1], logictree.ValidationError),
                'errors are validation errors')
        h.check(h.Not(good), 'a valid tree is not refused')
        return False
    h.reach('accepted')
    h.check(good, 'an invalid tree is refused')
    return True


def structure(h, first, second):
    base = models(h, [[('point', 'p1', 'Shield')]])
    attrs = {'abGRAbsolute': {SRCS: 'p1'}, 'maxMagGRAbsolute': {SRCS: 'p1'}}
    values = {'sourceModel': 'model0.xml', 'abGRAbsolute': '1 2'}
    count = [0]

    def bset(utype):
        count[0] += 1
        return ltdoc.branchset(utype, attrs.get(utype, {}), [ltdoc.branch(
            'b%d' % count[0], values.get(utype, '3'), '1')])

    level0 = [bset(t) for t in first]
    types = []
    level1 = []
    for i in range(second):
        t = h.pick('type', TYPES)
        types.append(t)
        node = bset(t)
        if i:
            # attached to a branch which does not exist: not a validation of
            # the structure, but the reason of a refusal anyway
            node.attrib['applyToBranches'] = 'b1'
        level1.append(node)
    doc = [level0] + ([level1] if second else [])
    o = parse(h, base, doc)
    good = first == ['sourceModel'] and second < 2 and not any(
        t in ('sourceModel', 'gmpeModel') for t in types)
    if verdict(h, o, good):
        bs = o[1].root_branchset
        h.check(bs.uncertainty_type == 'sourceModel', 'root type')
        h.check(bs.branches[0].value == 'model0.xml', 'source model')
        child = bs.branches[0].child_branchset
        if second:
            h.check(child.uncertainty_type == types[0], 'type')
        else:
            h.check(child is None, 'no child')


def filters(h, n, kinds):
    srcs = [(h.pick('stype', SOURCES), h.tok('sid%d' % i), h.tok('trt%d' % i))
            for i in range(n)]
    # the sources are spread over two source models
    base = models(h, [srcs[:1], srcs[1:]])
    utype = h.pick('utype', RELATIVE + ABSOLUTE)
    attrs = {}
    good = len(kinds) <= 1
    if TRT in kinds:
        trt = h.tok('ftrt')
        attrs[TRT] = trt
        good = h.And(good, h.Or(*[trt == s[2] for s in srcs]))
    if STYPE in kinds:
        stype = h.pick('fstype', SOURCES + ['unknown'])
        attrs[STYPE] = stype
        good = h.And(good, h.Or(*[stype == s[0] for s in srcs]))
    ids = []
    if SRCS in kinds:
        ids = [h.tok('fid%d' % i) for i in range(h.size('nids', 0, 2))]
        attrs[SRCS] = ' '.join(ids)
        good = h.And(good, *[h.Or(*[i == s[1] for s in srcs]) for i in ids])
    if utype in ABSOLUTE:
        good = h.And(good, kinds == [SRCS] and len(ids) == 1)
    value = '1.5 0.5' if utype == 'abGRAbsolute' else '1.5'
    doc = [[root(2)], [ltdoc.branchset(
        utype, attrs, [ltdoc.branch('b1', value, '1')])]]
    o = parse(h, base, doc)
    if verdict(h, o, good):
        for br in o[1].root_branchset.branches:
            bs = br.child_branchset
            h.check(bs.uncertainty_type == utype, 'type')
            exp = dict(attrs)
            if SRCS in exp:
                exp[SRCS] = ids
            h.check(h.Eq(sorted(bs.filters), sorted(exp)), 'filters')
            for k in exp:
                h.check(h.same(bs.filters[k], exp[k]), 'filter values')


def rootfilters(h, kinds):
    base = models(h, [[('point', 'p1', 'Shield')]])
    attrs = dict((k, {TRT: 'Shield', STYPE: 'point', SRCS: 'p1'}[k])
                 for k in kinds)
    o = parse(h, base, [[root(1, attrs)]])
    verdict(h, o, not kinds)


def digits(s):
    return all([c in '0123456789' for c in s])


def is_decimal(s):
    """optional sign, digits, or digits with a point and digits after it"""
    if len(s) and s[0] in '+-':
        s = s[1:]
    parts = s.split('.')
    if len(parts) == 1:
        return len(s) > 0 and digits(s)
    return len(parts) == 2 and len(parts[1]) > 0 and digits(
        parts[0]) and digits(parts[1])


def valued(h, utype, text):
    base = models(h, [[('point', 'p1', 'Shield')]])
    attrs = {SRCS: 'p1'} if utype in ABSOLUTE else {}
    return parse(h, base, [[root(1)], [ltdoc.branchset(utype, attrs, [
        ltdoc.branch('b1', '\n ' + text + ' \n', '1')])]])


def value_of(o):
    return o[1].root_branchset.branches[0].child_branchset.branches[0].value


def single(h, n):
    utype = h.pick('utype', RELATIVE + ['maxMagGRAbsolute'])
    text = h.chars('text', n, ALPHABET)
    o = valued(h, utype, text)
    if verdict(h, o, is_decimal(text)):
        h.check(h.same(value_of(o), float(text)), 'value')


def pair(h, a, b):
    one, two = h.chars('a', a, ALPHABET), h.chars('b', b, ALPHABET)
    o = valued(h, 'abGRAbsolute', one + ' \t ' + two)
    good = is_decimal(one) and is_decimal(two)
    if verdict(h, o, good):
        got = value_of(o)
        h.check(len(got) == 2, 'a pair')
        h.check(h.same(got[0], float(one)), 'first value')
        h.check(h.same(got[1], float(two)), 'second value')


def pairs(h):
    k = h.pick('k', [0, 1, 3, 4])
    o = valued(h, 'abGRAbsolute', ' '.join(
        [h.chars('v%d' % i, 1, ALPHABET) for i in range(k)]))
    verdict(h, o, False)
