from openquake.risklib import scientific
from openquake.commonlib import converter, record, records

import nodetree

BOUNDS = ('discrete and continuous models of 1 or 2 (thorough 3) function '
          'sets, 1 to 3 limit states and 1 or 2 (thorough 3) levels, with '
          'every combination of the optional attributes (no-damage limit, '
          'type), arbitrary texts, increasing levels and numbers; limit '
          'states of a function in or out of the declared order; other '
          'spellings of the numbers, out of fixed lists')
OUTSIDE = ('larger models; function sets with less or more functions than '
           'limit states, which are not valid; empty descriptions')
ASSUMES = ['the limit states are distinct words; the texts are words without '
           'spaces', 'the arbitrary numbers are written in the canonical '
           'form']

WORDS = ('IML', 'poEs', 'limitStates')


def jobs(tier):
    shapes = [(1, 1, 1), (1, 2, 2), (1, 3, 1), (2, 1, 2), (2, 2, 1)]
    if tier != 'quick':
        shapes += [(1, 3, 3), (2, 3, 2), (3, 2, 2)]
    out = []
    for nsets, nstates, nlevels in shapes:
        p = dict(nsets=nsets, nstates=nstates, nlevels=nlevels)
        out.append(('discrete', p, ['done']))
        out.append(('refusal', p, ['refused']))
        if nlevels == 1 or nsets == 1:
            p = dict(nsets=nsets, nstates=nstates)
            out.append(('continuous', p, ['done']))
            out.append(('crefusal', p, ['refused']))
    for fmt in ('discrete', 'continuous'):
        for nstates in (1, 2):
            out.append(('spelled', dict(fmt=fmt, nstates=nstates), ['done']))
        for nstates in (1, 2, 3):
            out.append(('order', dict(fmt=fmt, nstates=nstates),
                        ['refused', 'accepted']))
    return out


def distinct(h, xs):
    for i in range(len(xs)):
        for j in range(i):
            h.assume(h.Not(h.Eq(xs[i], xs[j])))


def header(h, fmt, nstates):
    states = [h.tok('ls%d' % i) for i in range(nstates)]
    distinct(h, states)
    descr = h.tok('descr')
    return states, descr, lambda sets: nodetree.elem(
        'fragilityModel', {'format': fmt},
        [nodetree.elem('description', text=h.pick('pad', [
            '', '\n  ']) + descr + ' '),
         nodetree.elem('limitStates', text=states)] + sets)


def options(h, s, names):
    attrs, values = {}, {}
    for name in names:
        if h.flag('has_%s%d' % (name, s)):
            if name == 'type':
                attrs[name] = h.tok('type%d' % s)
            else:
                values[name] = h.real('%s%d' % (name, s), 0)
                attrs[name] = h.numtext(values[name])
    return attrs, values


def numbers(h, name, n, increasing=False):
    out = [h.real('%s_%d' % (name, k)) for k in range(n)]
    if increasing:
        for a, b in zip(out, out[1:]):
            h.assume(a < b)
    return out


def dmodel(h, nsets, nstates, nlevels):
    states, descr, build = header(h, 'discrete', nstates)
    sets, data = [], []
    for s in range(nsets):
        attrs, values = options(h, s, ['noDamageLimit'])
        imls = numbers(h, 'iml%d' % s, nlevels, True)
        h.assume(imls[0] > 0)
        nodes = [nodetree.elem('taxonomy', text=h.tok('tax%d' % s)),
                 nodetree.elem('IML', {'IMT': h.pick('imt%d' % s, [
                     'PGA', 'SA(0.1)'][:1 + (s == 0)]), 'imlUnit': h.tok(
                     'unit%d' % s)}, text=map(h.numtext, imls))]
        for i, ls in enumerate(states):
            poes = numbers(h, 'poe%d_%d' % (s, i), nlevels)
            for p in poes:
                h.assume(h.And(p >= 0, p <= 1))
            nodes.append(nodetree.elem('ffd', {'ls': ls}, [
                nodetree.elem('poEs', text=map(h.numtext, poes))]))
            data.append((imls, poes, values.get('noDamageLimit')))
        sets.append(nodetree.elem('ffs', attrs, nodes))
    return build(sets), data


def cmodel(h, nsets, nstates):
    states, descr, build = header(h, 'continuous', nstates)
    sets, data = [], []
    for s in range(nsets):
        attrs, values = options(h, s, ['noDamageLimit', 'type'])
        nodes = [nodetree.elem('taxonomy', text=h.tok('tax%d' % s)),
                 nodetree.elem('IML', {
                     'IMT': h.tok('imt%d' % s),
                     'imlUnit': h.tok('unit%d' % s),
                     'minIML': h.numtext(h.real('min%d' % s)),
                     'maxIML': h.numtext(h.real('max%d' % s))})]
        for i, ls in enumerate(states):
            mean, std = numbers(h, 'p%d_%d' % (s, i), 2)
            nodes.append(nodetree.elem('ffc', {'ls': ls}, [
                nodetree.elem('params', {'mean': h.numtext(mean),
                                         'stddev': h.numtext(std)})]))
            data.append((mean, std))
        sets.append(nodetree.elem('ffs', attrs, nodes))
    return build(sets), data


def make_copy(node):
    text = node.text
    if node.tag == 'description':
        text = text.strip()
    return nodetree.elem(node.tag, node.attrib, map(make_copy, node), text)


def check(h, model, clsname):
    exp = make_copy(model)
    conv = converter.Converter.from_nrml(nodetree.publish('m.xml', model))
    h.check(type(conv).__name__ == clsname, 'the converter')
    nodetree.compare(h, conv.to_node(), exp, '', WORDS)
    nodetree.compare(h, conv.to_node(), exp, 'again', WORDS)
    nodetree.compare(h, make_copy(model), exp, 'original', WORDS)
    h.reach('done')


def discrete(h, nsets, nstates, nlevels):
    model, data = dmodel(h, nsets, nstates, nlevels)
    check(h, model, 'FragilityDiscrete')


def continuous(h, nsets, nstates):
    model, data = cmodel(h, nsets, nstates)
    check(h, model, 'FragilityContinuous')


LEVELS = ['5E-2', '.5', '1e0', '+2.00', '030', '4E+1']
RATIOS = ['.5', '0.50', '5E-1', '1', '1e0', '0']
LIMITS = ['0.010', '1E-3', '.01']


def spellings(h, name, n, texts):
    i = h.size(name, 0, len(texts) - n)
    return ' '.join(texts[i:i + n])


def spelled(h, fmt, nstates):
    """The numbers are kept as they are written."""
    if fmt == 'discrete':
        model, data = dmodel(h, 1, nstates, 2)
    else:
        model, data = cmodel(h, 1, nstates)
    ffs = model.ffs
    if 'noDamageLimit' in ffs.attrib:
        ffs.attrib['noDamageLimit'] = h.pick('limit', LIMITS)
    if fmt == 'discrete':
        ffs.IML.text = spellings(h, 'levels', 2, LEVELS)
        for i, f in enumerate(ffs.getnodes('ffd')):
            f.poEs.text = spellings(h, 'poe%d' % i, 2, RATIOS)
    else:
        for a in ('minIML', 'maxIML'):
            ffs.IML.attrib[a] = h.pick(a, LEVELS[::2])
        for i, f in enumerate(ffs.getnodes('ffc')):
            for a in ('mean', 'stddev'):
                f.params.attrib[a] = h.pick('%s%d' % (a, i), RATIOS[1:4:2])
    check(h, model, 'Fragility' + fmt.capitalize())


def refusal(h, nsets, nstates, nlevels):
    """
    A function is refused if the risk library refuses it, with its no-damage
    limit: the curve starts there with probability zero.
    """
    model, data = dmodel(h, nsets, nstates, nlevels)
    imls, poes, limit = data[h.size('bad', 0, len(data) - 1)]
    if limit is not None:
        h.assume(limit > 0)
        imls, poes = [limit] + imls, [0.0] + poes

    def refuse(fun):
        if len(fun.imls) == len(imls) and h.And(
                h.Eq(list(fun.imls), imls), h.Eq(list(fun.poes), poes)):
            if fun.no_damage_limit is None:
                return 'not usable' if limit is None else None
            if limit is not None and fun.no_damage_limit == limit:
                return 'not usable'
    conv = converter.Converter.from_node(model)
    scientific.REFUSE[0] = refuse
    o = h.outcome(conv.to_node)
    h.check(is_value_error(o), 'an unusable function is refused', o[1],
            limit)
    h.reach('refused')


def crefusal(h, nsets, nstates):
    model, data = cmodel(h, nsets, nstates)
    mean, std = data[h.size('bad', 0, len(data) - 1)]

    def refuse(fun):
        if h.And(h.Eq(fun.mean, mean), h.Eq(fun.stddev, std)):
            return 'not usable'
    conv = converter.Converter.from_node(model)
    scientific.REFUSE[0] = refuse
    o = h.outcome(conv.to_node)
    h.check(is_value_error(o), 'an unusable function is refused', o[1])
    h.reach('refused')


def order(h, fmt, nstates):
    """The functions must be given in the order of the limit states."""
    if fmt == 'discrete':
        model, data = dmodel(h, 1, nstates, 1)
    else:
        model, data = cmodel(h, 1, nstates)
    states = model.limitStates.text.split()
    funs = model.ffs.getnodes('ffd' if fmt == 'discrete' else 'ffc')
    good = True
    for i, f in enumerate(funs):
        f.attrib['ls'] = h.tok('given%d' % i)
        good = h.And(good, h.same(f.attrib['ls'], states[i]))
    o = h.outcome(converter.Converter.from_node, model)
    if o[0] == 'ok':
        h.check(good, 'a function out of order is refused')
        h.reach('accepted')
    else:
        h.check(h.Not(good), 'functions in order are accepted')
        h.reach('refused')
