from openquake.commonlib import general

BOUNDS = ('every pair of structures of depth up to 2 and width up to 2 (a '
          'sequence of numbers: 3) whose '
          'nodes are numbers (integers, long integers or reals), texts, None, lists, '
          'tuples, dictionaries (also of derived classes), objects and '
          'slotted objects; decimals 7 '
          'and 2; arbitrary numbers and texts; any subset of two names '
          'excluded')
OUTSIDE = ('deeper or wider structures; cyclic structures; generators; '
           'complex numbers, NaN; list against tuple; attributes declared '
           'in the slots of a base class; differences between 0.4 and 2 '
           'units of the last requested decimal')
ASSUMES = ['numbers are exact reals']


class Obj(object):
    pass


class Other(object):
    pass


class Special(Obj):
    pass


class Slotted(object):
    __slots__ = ['x', 'y']


class Slotted2(Slotted):
    __slots__ = ['x', 'y']


class Row(list):
    pass


class Pair(tuple):
    pass


class Table(dict):
    pass

LEAVES = ['int', 'real', 'text', 'none']
BOXES = ['list', 'dict', 'obj', 'slots', 'tuple']
NAMES = ['x', 'y']


def jobs(tier):
    out = []
    kinds = LEAVES + BOXES
    for a in kinds:
        for b in kinds:
            if set([a, b]) == set(['list', 'tuple']):
                continue
            lab = ['different']
            if a == b or set([a, b]) == set(['int', 'real']):
                lab.append('equal')
                if a == 'none':
                    lab.remove('different')
            out.append(('flat', dict(a=a, b=b), lab))
    for a in ('list', 'tuple'):
        out.append(('flat', dict(a=a, b=a, top=3), ['different', 'equal']))
    for box in BOXES:
        for a in kinds:
            for b in kinds:
                if set([a, b]) == set(['list', 'tuple']):
                    continue
                if tier == 'quick' and a != b and not (
                        a in LEAVES or b in LEAVES):
                    continue
                out.append(('nested', dict(box=box, a=a, b=b),
                            ['equal' if a == b == 'none' else
                             'different']))
    return out


def leaf(h, name, kind):
    if kind == 'int':
        return h.long(name) if h.flag(name + '.long') else h.int(name)
    if kind == 'real':
        return h.real(name)
    if kind == 'text':
        if h.flag(name + '.like'):
            return h.pick(name + '.lit', ['', 'None', '1', '1.0', 'x '])
        return h.tok(name)
    if kind == 'none':
        return None


class Node(object):
    """kind, list of (key, Node or None) and the leaf value"""
    def __init__(self, kind, value=None, children=()):
        self.kind = kind
        self.value = value
        self.children = list(children)


def make(h, name, kind, inner, top=2):
    """A structure, inner(name) gives the children."""
    if kind in LEAVES:
        v = leaf(h, name, kind)
        return Node(kind, v), v
    if kind in ('list', 'tuple'):
        subs = [inner('%s.%d' % (name, i))
                for i in range(h.size(name + '.n', 0, top))]
        v = [s[1] for s in subs]
        derived = h.flag(name + '.derived')
        if kind == 'list':
            v = (Row if derived else list)(v)
        else:
            v = (Pair if derived else tuple)(v)
        return Node(kind, None, enumerate([s[0] for s in subs])), v
    which = [n for n in NAMES if h.flag(name + '.has.' + n)]
    subs = [(n, inner(name + '.' + n)) for n in which]
    node = Node(kind, None, [(n, s[0]) for n, s in subs])
    if kind == 'dict':
        new = Table if h.flag(name + '.derived') else dict
        return node, new([(n, s[1]) for n, s in subs])
    if kind == 'obj':
        v = h.pick(name + '.class', [Obj, Other, Special])()
    else:
        v = (Slotted2 if h.flag(name + '.other') else Slotted)()
    node.value = v.__class__
    for n, s in subs:
        setattr(v, n, s[1])
    return node, v


def expected(h, a, b, tol, exclude):
    """Condition under which the structures are equal."""
    if a.kind in ('int', 'real') and b.kind in ('int', 'real'):
        d = a.value - b.value
        far = h.Or(d >= 2 * tol, -d >= 2 * tol)
        near = h.And(d <= tol * 0.4, -d <= tol * 0.4)
        h.assume(h.Or(near, far))
        return near
    if a.kind != b.kind:
        return False
    if a.kind == 'text':
        return a.value == b.value
    if a.kind == 'none':
        return True
    ca, cb = a.children, b.children
    if a.kind not in ('list', 'tuple'):
        if a.value is not b.value:
            return False
        ca = [c for c in ca if c[0] not in exclude]
        cb = [c for c in cb if c[0] not in exclude]
    if [c[0] for c in ca] != [c[0] for c in cb]:
        return False
    return h.And(*[expected(h, x[1], y[1], tol, exclude)
                   for x, y in zip(ca, cb)])


def verdict(h, na, va, nb, vb):
    decimal = 2
    exclude = [n for n in NAMES if h.flag('exclude.' + n)]
    if exclude or h.flag('decimal'):
        o = h.outcome(general.deep_eq, va, vb, decimal, exclude)
    else:
        decimal = 7
        o = h.outcome(general.deep_eq, va, vb)
    h.check(o[0] == 'ok', 'deep_eq answers', va, vb, o[1])
    equal, msg = o[1]
    h.check(equal is True or equal is False, 'the answer is a boolean')
    h.check(isinstance(msg, str), 'the message is a text')
    exp = expected(h, na, nb, 0.1 ** decimal, exclude)
    h.check(h.Iff(equal, exp), 'equal exactly when the contents are', va, vb,
            exclude)
    h.check(h.Iff(msg == '', equal), 'the message is empty exactly if equal',
            va, vb)
    h.reach('equal' if equal else 'different')


def flat(h, a, b, top=2):
    def inner(name):
        if a == b and a not in ('list', 'tuple') and h.flag(name + '.none'):
            return Node('none'), None
        v = leaf(h, name, 'int')
        return Node('int', v), v
    na, va = make(h, 'a', a, inner, top)
    nb, vb = make(h, 'b', b, inner, top)
    verdict(h, na, va, nb, vb)


def nested(h, box, a, b):
    """Same box, with different things inside."""
    def inner(name):
        v = leaf(h, name, 'int')
        return Node('int', v), v

    def wrap(name, sub):
        node, val = sub
        if box == 'list':
            return Node(box, None, [(0, node)]), [val]
        if box == 'tuple':
            return Node(box, None, [(0, node)]), (val,)
        if box == 'dict':
            return Node(box, None, [('z', node)]), {'z': val}
        v = Obj() if box == 'obj' else Slotted()
        setattr(v, 'y', val)
        return Node(box, v.__class__, [('y', node)]), v
    na, va = wrap('A', make(h, 'a', a, inner))
    nb, vb = wrap('B', make(h, 'b', b, inner))
    verdict(h, na, va, nb, vb)
