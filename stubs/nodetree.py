"""Builds and compares trees of nodes (used by the harnesses)."""
from openquake.nrmllib.node import Node, FILES


def elem(tag, attrs=(), nodes=(), text=None):
    if isinstance(text, list):
        text = ' '.join(text)
    return Node(tag, dict(attrs), text, list(nodes))


def publish(name, *models):
    """Makes a file with the models"""
    FILES[name] = Node('nrml', {}, None, list(models))
    return name


def compare(h, got, exp, where='', words=(), unordered=()):
    """
    The trees have the same elements, attributes and texts. The texts of the
    elements in words are sequences of words; the subelements of the elements
    in unordered are a set, identified by the given attribute.
    """
    where = where + '/' + exp.tag
    h.check(got.tag == exp.tag, 'same element', got.tag, where)
    h.check(sorted(got.attrib) == sorted(exp.attrib),
            'same attributes', where, sorted(got.attrib), sorted(exp.attrib))
    for k in sorted(exp.attrib):
        h.check(h.same(got.attrib[k], exp.attrib[k]),
                'same value of an attribute', where, k, got.attrib[k],
                exp.attrib[k])
    if exp.text is None:
        h.check(got.text is None or not got.text.strip(), 'no text', where)
    elif exp.tag in words:
        h.check(got.text is not None, 'some text', where)
        h.check(h.same(got.text.split(), exp.text.split()), 'same values',
                where, got.text, exp.text)
    else:
        h.check(got.text is not None and h.same(got.text, exp.text),
                'same text', where, got.text, exp.text)
    g, e = list(got), list(exp)
    h.check(len(g) == len(e), 'same number of subelements', where,
            [n.tag for n in g], [n.tag for n in e])
    key = dict(unordered).get(exp.tag)
    for i, y in enumerate(e):
        if key is None:
            x = g[i]
        else:
            found = [x for x in g if h.same(x.attrib[key], y.attrib[key])]
            h.check(len(found) == 1, 'the subelement is there once', where)
            x = found[0]
        compare(h, x, y, where, words, unordered)
