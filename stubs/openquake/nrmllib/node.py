"""Stand-in for openquake.nrmllib.node: the documented behaviour of Node."""
FILES = {}      # pathname -> root node (the harness fills it)
WRITTEN = []    # (node, file object) pairs passed to node_to_nrml


class Node(object):
    """
    A tree of elements: the subnodes are attributes by name, the XML
    attributes are items by name and the subnodes are items by position.
    """
    __slots__ = ('tag', 'attrib', 'text', 'nodes', 'lineno')

    def __init__(self, fulltag, attrib=None, text=None, nodes=None,
                 lineno=None):
        self.tag = fulltag
        self.attrib = {} if attrib is None else attrib
        self.text = text
        self.nodes = [] if nodes is None else nodes
        self.lineno = lineno
        if self.nodes and self.text is not None:
            raise ValueError('A branch node cannot have a value')

    def __getattr__(self, name):
        if name[:2] == '__':
            raise AttributeError(name)
        for node in self.nodes:
            if node.tag == name:
                return node
        raise NameError("No subnode named '%s' found in '%s'" % (
            name, self.tag))

    def getnodes(self, name):
        """Return the direct subnodes with the given name"""
        return [node for node in self.nodes if node.tag == name]

    def append(self, node):
        """Append a new subnode"""
        if not isinstance(node, Node):
            raise TypeError('Expected Node instance')
        self.nodes.append(node)

    def __iter__(self):
        for n in self.nodes:
            yield n

    def __getitem__(self, i):
        if isinstance(i, str):
            return self.attrib[i]
        return self.nodes[i]

    def __setitem__(self, i, value):
        if isinstance(i, str):
            self.attrib[i] = value
        else:
            self.nodes[i] = value

    def __len__(self):
        return len(self.nodes)

    def __nonzero__(self):
        return True

    def __repr__(self):
        return '<%s>' % self.tag

    def to_str(self, expandattrs=True, expandvals=True):
        return '%s %s %s' % (self.tag, self.attrib, self.text)


def node_from_xml(xmlfile, nodefactory=Node):
    name = getattr(xmlfile, 'name', xmlfile)
    return FILES[name]


def node_from_nrml(xml):
    """The root is the nrml element; its first subnode is the model"""
    return node_from_xml(xml)


def node_to_nrml(node, output):
    """Writes the model in a file"""
    WRITTEN.append((node, output))
    output.write('<nrml %d>' % len(WRITTEN))
