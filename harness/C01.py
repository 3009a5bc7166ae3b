from openquake.risklib import scientific
from openquake.commonlib import converter, record, records

import nodetree

BOUNDS = ('models of 1 or 2 (thorough 3) sets with 1 or 2 (thorough 3) '
          'functions each and 1 to 3 (thorough 4) levels, with arbitrary '
          'identifiers (distinct where they have to be), categories and '
          'distributions, arbitrary increasing levels and arbitrary ratios '
          'and coefficients; other spellings of the numbers, out of fixed '
          'lists')
OUTSIDE = ('larger models; sets without functions and functions without '
           'levels, which are not valid')
ASSUMES = ['identifiers of the sets are distinct, and those of the functions '
           'of a set; the texts are words without spaces',
           'the arbitrary numbers are written in the canonical form']

WORDS = ('IML', 'lossRatio', 'coefficientsVariation')


def jobs(tier):
    quick = tier == 'quick'
    shapes = [[(1, 1)], [(3, 1)], [(2, 2)], [(1, 1), (2, 1)],
              [(2, 1), (1, 2)]]
    if not quick:
        shapes += [[(4, 1)], [(1, 3)], [(3, 2)], [(2, 2), (2, 2)],
                   [(1, 1), (1, 1), (2, 1)]]
    out = []
    for shape in shapes:
        out.append(('roundtrip', dict(shape=shape), ['done']))
        out.append(('refusal', dict(shape=shape), ['refused']))
    for shape in shapes[1:2] + [[(2, 2)]][quick:]:
        out.append(('roundtrip', dict(shape=shape, spelled=1), ['done']))
    out.append(('kind', {}, ['done']))
    out.append(('dangling', {}, ['refused']))
    return out


def distinct(h, xs):
    for i in range(len(xs)):
        for j in range(i):
            h.assume(h.Not(h.Eq(xs[i], xs[j])))


RATIOS = ['.5', '0.50', '5E-1', '1', '1e0', '0']
LEVELS = ['5E-2', '.5', '1e0', '+2.00', '030', '4E+1']


def spellings(h, name, n, texts):
    """Numbers in unusual spellings"""
    i = h.size(name, 0, len(texts) - n)
    return ' '.join(texts[i:i + n])


def make(h, shape):
    sets, data = [], []
    for s, (levels, nfuns) in enumerate(shape):
        imls = [h.real('iml%d_%d' % (s, k), 0) for k in range(levels)]
        for a, b in zip(imls, imls[1:]):
            h.assume(a < b)
        imt = h.tok('imt%d' % s)
        nodes = [nodetree.elem('IML', {'IMT': imt},
                               text=map(h.numtext, imls))]
        funs = []
        for f in range(nfuns):
            ratios = [h.real('lr%d_%d_%d' % (s, f, k))
                      for k in range(levels)]
            covs = [h.real('cv%d_%d_%d' % (s, f, k)) for k in range(levels)]
            fid = h.tok('fun%d_%d' % (s, f))
            funs.append(fid)
            nodes.append(nodetree.elem(
                'discreteVulnerability',
                {'vulnerabilityFunctionID': fid,
                 'probabilisticDistribution': h.tok('d%d_%d' % (s, f))},
                [nodetree.elem('lossRatio', text=map(h.numtext, ratios)),
                 nodetree.elem('coefficientsVariation',
                               text=map(h.numtext, covs))]))
            data.append((imt, imls, ratios, covs))
        distinct(h, funs)
        sets.append(nodetree.elem(
            'discreteVulnerabilitySet',
            {'vulnerabilitySetID': h.tok('set%d' % s),
             'assetCategory': h.tok('ac%d' % s),
             'lossCategory': h.tok('lc%d' % s)}, nodes))
    distinct(h, [s.attrib['vulnerabilitySetID'] for s in sets])
    return nodetree.elem('vulnerabilityModel', {}, sets), data


def respell(h, model):
    for s, vset in enumerate(model):
        vset.IML.text = spellings(
            h, 'imls%d' % s, len(vset.IML.text.split()), LEVELS)
        for f, fun in enumerate(vset.getnodes('discreteVulnerability')):
            for node in fun:
                node.text = spellings(
                    h, '%s%d_%d' % (node.tag, s, f),
                    len(node.text.split()), RATIOS)


def roundtrip(h, shape, spelled=0):
    model, data = make(h, shape)
    if spelled:
        respell(h, model)
    exp = make_copy(model)
    conv = converter.Converter.from_nrml(nodetree.publish('m.xml', model))
    h.check(isinstance(conv, converter.Vulnerability), 'the converter')
    t = conv.tableset
    h.check([len(t.tableDiscreteVulnerabilitySet),
             len(t.tableDiscreteVulnerability),
             len(t.tableDiscreteVulnerabilityData)] ==
            [len(shape), sum(f for n, f in shape),
             sum(n * f for n, f in shape)], 'number of records')
    nodetree.compare(h, conv.to_node(), exp, '', WORDS)
    # the model is left alone, and can be converted again
    nodetree.compare(h, model, exp, 'original', WORDS)
    nodetree.compare(h, conv.to_node(), exp, 'again', WORDS)
    h.reach('done')


def make_copy(node):
    return nodetree.elem(node.tag, node.attrib, map(make_copy, node),
                         node.text)


def refusal(h, shape):
    """A function refused by the risk library is refused."""
    model, data = make(h, shape)
    imt, imls, ratios, covs = data[h.size('bad', 0, len(data) - 1)]

    def refuse(fun):
        if h.And(h.Eq(fun.imt, imt), h.Eq(list(fun.imls), imls),
                 h.Eq(list(fun.mean_loss_ratios), ratios),
                 h.Eq(list(fun.covs), covs)):
            return 'not usable'
    conv = converter.Converter.from_node(model)
    scientific.REFUSE[0] = refuse
    o = h.outcome(conv.to_node)
    h.check(is_value_error(o), 'an unusable function is refused', o[1])
    h.reach('refused')


def kind(h):
    """The record types of the model, in order."""
    h.check(converter.Vulnerability.recordtypes() == [
        records.DiscreteVulnerabilitySet, records.DiscreteVulnerability,
        records.DiscreteVulnerabilityData], 'record types')
    h.reach('done')


def dangling(h):
    """Data of an unknown set or function are refused."""
    t = record.TableSet(converter.Vulnerability)
    t.insert(records.DiscreteVulnerabilitySet(
        h.tok('s'), 'population', 'x', 'PGA'))
    s = t.tableDiscreteVulnerabilitySet[0][0]
    f = h.tok('f')
    t.insert(records.DiscreteVulnerability(s, f, 'LN'))
    s2, f2 = h.tok('s2'), h.tok('f2')
    h.assume(h.Or(h.Not(h.Eq(s, s2)), h.Not(h.Eq(f, f2))))
    o = h.outcome(t.insert, records.DiscreteVulnerabilityData(
        s2, f2, '1.0', '0.1', '0.1'))
    h.check(o[0] == 'exc' and isinstance(o[1], record.ForeignKeyError),
            'dangling data are refused', o[1])
    h.reach('refused')
