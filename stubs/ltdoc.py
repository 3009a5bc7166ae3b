"""Builds logic tree documents for the harnesses."""
from lxml import etree
from openquake import nrmllib

NS = '{%s}' % nrmllib.NAMESPACE


def elem(tag, attrib, children=(), text=None):
    return etree.Element(NS + tag, attrib, text, children, 7)


def branch(bid, value, weight):
    return elem('logicTreeBranch', {'branchID': bid}, [
        elem('uncertaintyModel', {}, (), value),
        elem('uncertaintyWeight', {}, (), weight)])


def branchset(utype, attrs, branches, bsid='bs'):
    d = {'uncertaintyType': utype, 'branchSetID': bsid}
    d.update(attrs)
    return elem('logicTreeBranchSet', d, branches)


def tree(levels):
    return elem('nrml', {}, [elem('logicTree', {'logicTreeID': 'lt'}, [
        elem('logicTreeBranchingLevel', {'branchingLevelID': 'bl%d' % i},
             bsets) for i, bsets in enumerate(levels)])])


def register(text, root):
    etree.DOCS[text] = root


def invalid(text, root):
    """A document which does not follow the schema"""
    register(text, root)
    etree.INVALID.append(text)
