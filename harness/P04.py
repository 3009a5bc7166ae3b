import gc
import weakref
from openquake.commonlib import parallel

BOUNDS = ('sequences of up to 4 objects (thorough 5), given as a list, a '
          'tuple, an iterator or produced on the fly, with every sharing '
          'pattern, arbitrary values, compared by identity, always equal, similar to pickled objects or '
          'not comparable at all, objects of the builtin types, any of them already pickled, and every '
          'possible reuse of the identities of the objects which died')
OUTSIDE = 'longer sequences; objects which cannot be pickled'
ASSUMES = ['an identity is unique among the objects alive at the same time '
           'and may be given again to a new object after the death of the '
           'previous owner']


class Thing(object):
    def __init__(self, value):
        self.value = value

    def __reduce__(self):
        return Thing, (self.value,)


class Alike(Thing):
    """All of them are equal, each has its own value"""
    def __eq__(self, other):
        return isinstance(other, Alike)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 7

    def __reduce__(self):
        return Alike, (self.value,)


class Touchy(Thing):
    """Neither comparable nor hashable"""
    def __eq__(self, other):
        raise ValueError('compared')

    __ne__ = __eq__

    def __hash__(self):
        raise TypeError('hashed')

    def __reduce__(self):
        return Touchy, (self.value,)


class Wrapper(Thing):
    """With the attributes of a pickled object"""
    pik = 'something'

    def unpickle(self):
        return 0

    def __len__(self):
        return 9

    def __reduce__(self):
        return Wrapper, (self.value,)


CLASSES = [Thing, Alike, Touchy, Wrapper]


def jobs(tier):
    out = []
    top = 4 if tier == 'quick' else 5
    for n in range(top + 1):
        for how in ('list', 'tuple', 'iter'):
            out.append(('shared', dict(n=n, how=how), ['done']))
        out.append(('fresh', dict(n=n), ['done']))
    for n in (1, 2, 3):
        out.append(('plain', dict(n=n), ['done']))
    return out


class Heap(object):
    """Identities as a runtime which frees the dead objects at once."""
    def __init__(self, h):
        self.h = h
        self.refs = []          # (weak reference, identity)

    def born(self, obj):
        """Gives an identity to a new object and returns the object."""
        self(obj)
        return obj

    def __call__(self, obj):
        free = []
        if not self.h.symbolic and self.refs:
            gc.collect()
        for ref, ident in self.refs:
            o = ref()
            if o is obj:
                return ident
        live = set()
        for ref, ident in self.refs:
            if ref() is not None:
                live.add(ident)
        o = None
        for ref, ident in self.refs:    # any of them may be given again
            if ident not in live and ident not in free:
                free.append(ident)
        new = 1000 + len(self.refs)
        if free:
            new = self.h.pick('identity', [new] + free)
        self.refs.append((weakref.ref(obj), new))
        return new


def with_heap(heap, objects):
    h = heap.h
    parallel.id = heap
    try:
        return h.outcome(parallel.pickle_sequence, objects)
    finally:
        del parallel.id


def verify(h, o, values):
    n = len(values)
    h.check(o[0] == 'ok', 'no failure', o[1])
    out = o[1]
    h.check(isinstance(out, list) and len(out) == n,
            'one pickled object per object')
    for p in out:
        h.check(isinstance(p, parallel.Pickled), 'the elements are pickled')
    back = [p.unpickle() for p in out]
    h.check(all(isinstance(b, Thing) for b in back), 'the same type')
    h.check(h.And(*[b.value == v for b, v in zip(back, values)]),
            'the elements have the values of the objects, in order',
            [b.value for b in back], values)
    h.observe('values', [b.value for b in back])


def shared(h, n, how):
    heap = Heap(h)
    things, objects, which = [], [], []
    ready = []
    cls = h.pick('class', CLASSES)
    for i in range(n):
        j = h.size('which%d' % i, 0, len(things))
        if j == len(things):
            t = cls(h.int('value%d' % i))
            v = t.value
            if h.flag('pickled%d' % i):
                t = parallel.Pickled(t)
                ready.append(j)
            heap(t)
            things.append((t, v))
        which.append(j)
        objects.append(things[j][0])
    values = [things[j][1] for j in which]
    made = []
    real = parallel.Pickled.__init__

    def counted(self, obj):
        made.append(obj)
        real(self, obj)
    parallel.Pickled.__init__ = counted
    try:
        arg = {'list': list, 'tuple': tuple, 'iter': iter}[how](objects)
        o = with_heap(heap, arg)
    finally:
        parallel.Pickled.__init__ = real
    verify(h, o, values)
    for i, j in enumerate(which):
        if j in ready:
            h.check(o[1][i] is objects[i], 'passed through unchanged')
        else:
            h.check(len([x for x in made if x is objects[i]]) == 1,
                    'pickled only once')
    h.check(len(made) == len(things) - len(ready), 'nothing else is pickled')
    h.reach('done')


def fresh(h, n):
    """Objects produced on the fly: nobody else keeps them alive."""
    values = [h.int('value%d' % i) for i in range(n)]
    flags = [h.flag('pickled%d' % i) for i in range(n)]

    heap = Heap(h)

    def produce():
        for v, f in zip(values, flags):
            yield heap.born(parallel.Pickled(Thing(v)) if f else Thing(v))
    o = with_heap(heap, produce())
    verify(h, o, values)
    h.reach('done')


def plain(h, n):
    """Objects of the builtin types, which may be equal without being the
    same (1, 1.0 and True; () and equal tuples)"""
    values = [h.pick('value%d' % i, [
        1, 1.0, True, 0, False, None, '', '1', u'1', (), (1,), (1.0,),
        [1], [True], {1: 1.0}]) for i in range(n)]
    o = h.outcome(parallel.pickle_sequence, values)
    h.check(o[0] == 'ok', 'no failure', o[1])
    out = o[1]
    h.check(isinstance(out, list) and len(out) == n,
            'one pickled object per object')
    for p in out:
        h.check(isinstance(p, parallel.Pickled), 'the elements are pickled')
    back = [p.unpickle() for p in out]
    h.check(repr(back) == repr(values), 'the same objects, in order',
            back, values)
    h.reach('done')
