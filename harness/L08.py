import os
import random
from openquake.commonlib import logictree
import ltdoc

BOUNDS = ('trees of 1 or 2 levels with up to 3 branches; every seed and up '
          'to 3 samples; files in the directory of the calculation or below '
          'it; one defect in the document or in one source model')
OUTSIDE = ('larger trees; the XML parser and the schema validation; files '
           'which cannot be read')
ASSUMES = ['the generator is replaced by arbitrary draws in [0,1)']
TRT = 'applyToTectonicRegionType'
GSIMS = ['SadighEtAl1997', 'ChiouYoungs2008', 'ToroEtAl2002']


def jobs(tier):
    out = []
    for kind in ('source', 'gmpe'):
        for sizes in ([1], [2], [3], [2, 2]):
            for k in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3):
                out.append(('calculation', dict(kind=kind, sizes=sizes,
                                                k=k), ['same']))
        out.append(('parsing', dict(kind=kind), ['refused', 'accepted']))
        out.append(('location', dict(kind=kind), ['refused']))
    out.append(('models', {}, ['refused', 'accepted']))
    out.append(('unvalidated', {}, ['accepted']))
    return out


class Calculation(object):
    """The parameters of a hazard calculation"""
    def __init__(self, **kw):
        vars(self).update(kw)


def document(h, kind, sizes, line=7):
    levels = []
    for i, size in enumerate(sizes):
        ws = {1: ['1'], 2: ['0.25', '0.75'], 3: ['0.5', '0.2', '0.3']}[size]
        if kind == 'source':
            utype, attrs = ['sourceModel', 'bGRRelative'][i], {}
            val = lambda j: 'model%d.xml' % j if i == 0 else '0.%d' % j
        else:
            utype, attrs = 'gmpeModel', {TRT: 'trt%d' % i}
            val = lambda j: GSIMS[j]
        levels.append([ltdoc.branchset(utype, attrs, [
            ltdoc.branch('b%d_%d' % (i, j), val(j), ws[j])
            for j in range(size)], 'bs%d' % i)])
    return levels


def write(h, name, text):
    path = os.path.join(h.scratch(), name)
    if not os.path.exists(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    f = open(path, 'w')
    f.write(text)
    f.close()
    return path


def calculation(h, kind, sizes, k):
    """A tree made from the parameters of a calculation"""
    text, other = '<lt%s/>' % kind, '<other/>'
    ltdoc.register(text, ltdoc.tree(document(h, kind, sizes)))
    ltdoc.register(other, ltdoc.tree(document(
        h, 'gmpe' if kind == 'source' else 'source', [1])))
    name = h.pick('name', ['lt.xml', 'sub/lt.xml'])
    seed = h.int('seed')
    path = write(h, name, text)
    wrong = write(h, 'other.xml', other)
    inputs = {'source_model_logic_tree': path, 'gsim_logic_tree': wrong,
              'source': []}
    if kind == 'gmpe':
        inputs = {'source_model_logic_tree': wrong, 'gsim_logic_tree': path}
    base = h.pick('base', [h.scratch(), h.scratch() + '/elsewhere'])
    hc = Calculation(inputs=inputs, base_path=base, random_seed=seed,
                     number_of_logic_tree_samples=k)
    if kind == 'source':
        lt = logictree.SourceModelLogicTree.from_hc(hc)
        h.check(isinstance(lt, logictree.SourceModelLogicTree), 'the type')
    else:
        trts = ['trt%d' % i for i in range(len(sizes))]
        if h.flag('more'):
            trts.append('unknown')
        given = h.pick('given', [list, tuple, set])(trts)
        lt = logictree.GMPELogicTree.from_hc(hc, given)
        h.check(isinstance(lt, logictree.GMPELogicTree), 'the type')
        h.check(lt.tectonic_region_types == frozenset(trts),
                'the tectonic region types')
    h.check(lt.basepath == base, 'the directory')
    h.check(lt.filename == path, 'the file')
    h.check(h.same(lt.seed, seed), 'the seed')
    h.check(lt.num_samples == k, 'the number of samples')
    draws = []

    def draw(gen):
        u = h.real('u', 0, 1)
        h.assume(u < 1)
        draws.append((gen, u))
        return u
    random.DRAW[0] = draw
    got = list(lt)
    h.reach('same')
    if k == 0:
        n = 1
        for s in sizes:
            n = n * s
        h.check(len(got) == n and not draws, 'every path')
        h.check(len(set([p for v, w, p in got])) == n, 'distinct paths')
        return
    h.check(len(got) == k, 'the number of samples')
    h.check(len(draws) == k * len(sizes), 'the draws')
    for gen, u in draws:
        h.check(h.same([s for s in gen.seeds][-1], seed),
                'the seed of the draws')
        h.check(gen is draws[0][0], 'one generator')


def shows(h, exc, fname, base, line=None):
    text = str(exc)
    h.check(exc.filename == fname, 'the file of the error', exc.filename)
    h.check(exc.basepath == base, 'the directory of the error')
    h.check(fname in text, 'the message tells the file', text)
    h.check(base in text, 'the message tells the directory', text)
    h.check(len(exc.message) > 0 and exc.message in text,
            'the message tells the reason', text)
    if line is not None:
        h.check(exc.lineno == line, 'the line of the error', exc.lineno)
        h.check(str(line) in text.replace(fname, '').replace(base, ''),
                'the message tells the line', text)


def parsing(h, kind):
    """Documents which cannot be parsed or do not follow the schema"""
    which = h.pick('which', ['good', 'broken', 'invalid', 'empty', 'unicode'])
    text = '<lt/>'
    if which in ('good', 'unicode'):
        ltdoc.register(text, ltdoc.tree(document(h, kind, [1])))
    elif which == 'invalid':
        ltdoc.invalid(text, ltdoc.tree(document(h, kind, [1])))
    elif which == 'broken':
        text = '<broken'
    elif which == 'empty':
        text = ''
    content = unicode(text) if which == 'unicode' else text
    fname, base = 'some/' + h.tok('file'), '/dir/' + h.tok('base')
    validate = h.flag('validate') and kind == 'gmpe'
    args = [content, base, fname, validate]
    if kind == 'source':
        o = h.outcome(logictree.SourceModelLogicTree, *args)
    else:
        o = h.outcome(logictree.GMPELogicTree, ['trt0'], *args)
    if which in ('good', 'unicode'):
        h.check(o[0] == 'ok', 'a document is read', o[1])
        h.reach('accepted')
        return
    h.reach('refused')
    h.check(o[0] == 'exc' and isinstance(o[1], logictree.ParsingError) and
            isinstance(o[1], logictree.LogicTreeError),
            'refused with a parsing error', o)
    shows(h, o[1], fname, base)


def location(h, kind):
    """A validation error tells the line of the element"""
    if kind == 'source':
        levels = document(h, kind, [1])
        write(h, 'model0.xml', '<model0/>')
        ltdoc.register('<model0/>', ltdoc.elem('nrml', {}, []))
    else:
        levels = document(h, kind, [2, 1])
    lines = {}
    shown = h.flag('shown')
    line = h.pick('line', [2, 45, 1234]) if shown else h.int('line', 2, 99999)
    which = h.size('level', 0, len(levels) - 1)
    node = levels[which][0]
    what = h.pick('what', ['type', 'weights', 'value', 'id'])
    branches = list(node.findall('%slogicTreeBranch' % ltdoc.NS))
    if what == 'type':
        node.attrib['uncertaintyType'] = 'gmpeModel' if kind == 'source' \
            else 'sourceModel'
        bad = node
    elif what == 'weights':
        bad = node
        branches[-1].find('%suncertaintyWeight' % ltdoc.NS).text = '0.125'
    elif what == 'value':
        if kind == 'source':
            return h.reach('refused')   # any name of file is good
        bad = branches[0].find('%suncertaintyModel' % ltdoc.NS)
        bad.text = 'unknown'
    else:
        if which == 1 or len(branches) < 2:
            return h.reach('refused')
        bad = branches[1]
        bad.attrib['branchID'] = branches[0].attrib['branchID']
    bad.sourceline = line
    ltdoc.register('<lt/>', ltdoc.tree(levels))
    fname, base = 'logic.xml', h.scratch()
    if kind == 'source':
        o = h.outcome(logictree.SourceModelLogicTree, '<lt/>', base, fname)
    else:
        o = h.outcome(logictree.GMPELogicTree, ['trt0', 'trt1'], '<lt/>',
                      base, fname)
    h.reach('refused')
    h.check(o[0] == 'exc' and isinstance(o[1], logictree.ValidationError)
            and isinstance(o[1], logictree.LogicTreeError),
            'refused with a validation error', o)
    h.check(h.same(o[1].lineno, line), 'the line of the error')
    h.check(o[1].filename == fname and o[1].basepath == base, 'the file')
    if not shown:
        return
    text = str(o[1])
    h.check(fname in text and base in text, 'the message tells the file')
    h.check(o[1].message and o[1].message in text, 'the reason')
    h.check(str(line) in text, 'the message tells the line')


def models(h):
    """The source models are parsed too, in the directory given"""
    levels = document(h, 'source', [2])
    ltdoc.register('<lt/>', ltdoc.tree(levels))
    base = h.scratch() + h.pick('sub', ['', '/models'])
    bad = h.size('bad', 0, 2)
    which = h.pick('which', ['broken', 'invalid'])
    for i in range(2):
        text = '<model%d/>' % i
        path = os.path.join(base, 'model%d.xml' % i)
        root = ltdoc.elem('nrml', {}, [ltdoc.elem('sourceModel', {}, [
            ltdoc.elem('pointSource', {'id': 'p%d' % i,
                                       'tectonicRegion': 't%d' % i})])])
        if i != bad:
            ltdoc.register(text, root)
        elif which == 'invalid':
            ltdoc.invalid(text, root)
        write(h, path, text)
    o = h.outcome(logictree.SourceModelLogicTree, '<lt/>', base, 'lt.xml')
    if bad == 2:
        h.reach('accepted')
        h.check(o[0] == 'ok', 'accepted', o[1])
        h.check(sorted(o[1].source_ids) == ['p0', 'p1'], 'the sources')
        h.check(sorted(o[1].tectonic_region_types) == ['t0', 't1'],
                'the tectonic region types')
        h.check(sorted(o[1].source_types) == ['point'], 'the types')
        return
    h.reach('refused')
    h.check(o[0] == 'exc' and isinstance(o[1], logictree.ParsingError),
            'refused with a parsing error', o)
    shows(h, o[1], 'model%d.xml' % bad, base)


def unvalidated(h):
    """A tree of a calculation has been validated already: the source models
    are not read again and may be somewhere else"""
    levels = document(h, 'source', [h.size('size', 1, 3)])
    ltdoc.register('<lt/>', ltdoc.tree(levels))
    path = write(h, 'lt.xml', '<lt/>')
    hc = Calculation(inputs={'source_model_logic_tree': path},
                     base_path='/nowhere', random_seed=1,
                     number_of_logic_tree_samples=h.size('k', 0, 1))
    o = h.outcome(logictree.SourceModelLogicTree.from_hc, hc)
    h.check(o[0] == 'ok', 'accepted', o[1])
    h.check(len(o[1].source_ids) == 0, 'no source model is read')
    h.reach('accepted')
