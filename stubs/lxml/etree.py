"""Stand-in for lxml.etree: the part of the documented behaviour used here.
The harness builds the elements and registers them in DOCS, by the text of
the document they stand for."""
DOCS = {}       # text of a document -> root element
INVALID = []    # the documents which do not follow the schema
SCHEMAS = []    # the schemas used for parsing


class XMLSyntaxError(Exception):
    """Raised for texts which are not valid documents"""


class DocumentInvalid(Exception):
    """Raised for documents which do not follow the schema"""


class XMLSchema(object):
    def __init__(self, etree=None, file=None):
        self.file = file


class XMLParser(object):
    def __init__(self, schema=None, **kw):
        self.schema = schema


def _steps(query):
    """List of pairs (search all the descendants?, step)"""
    deep = False
    out = []
    while query:
        if query.startswith('//'):
            deep = True
            query = query[2:]
        elif query.startswith('/'):
            query = query[1:]
        else:
            i = 0
            inside = False
            while i < len(query) and (inside or query[i] != '/'):
                if query[i] in '{[':
                    inside = True
                elif query[i] in '}]':
                    inside = False
                i += 1
            if query[:i] != '.':
                out.append((deep, query[:i]))
                deep = False
            query = query[i:]
    return out


def _matcher(step, namespaces):
    attr = value = None
    if '[' in step:
        step, cond = step.split('[')
        cond = cond.rstrip(']').lstrip('@')
        attr, eq, value = cond.partition('=')
        value = value.strip('\'"') if eq else None
    if step != '*' and not step.startswith('{') and ':' in step:
        ns, tag = step.split(':')
        step = '{%s}%s' % (namespaces[ns], tag)

    def match(e):
        if step != '*' and e.tag != step:
            return False
        if attr is None:
            return True
        if value is None:
            return attr in e.attrib
        return e.get(attr) == value
    return match


def _select(node, query, namespaces):
    top = query.startswith('/')
    while top and node._parent is not None:
        node = node._parent     # an absolute query
    found = [node]
    for deep, step in _steps(query):
        match = _matcher(step, namespaces)
        new = []
        for e in found:
            if deep:
                pool = [x for x in e.iter() if top or x is not e]
            elif top:
                pool = [e]      # the first step of an absolute query
            else:
                pool = e._children
            for x in pool:
                if match(x) and not any([x is y for y in new]):
                    new.append(x)
        found = new
        top = False
    return found


class Element(object):
    def __init__(self, tag, attrib=None, text=None, children=(),
                 sourceline=None):
        self.tag = tag
        self.attrib = {} if attrib is None else attrib
        self.text = text
        self.tail = None
        self.sourceline = sourceline
        self._parent = None
        self._children = []
        for child in children:
            self.append(child)

    def append(self, child):
        child._parent = self
        self._children.append(child)

    def remove(self, child):
        for i, c in enumerate(self._children):
            if c is child:
                del self._children[i]
                child._parent = None
                return
        raise ValueError('Element is not a child of this node.')

    def get(self, key, default=None):
        return self.attrib.get(key, default)

    def __iter__(self):
        return iter(list(self._children))

    def __len__(self):
        return len(self._children)

    def __getitem__(self, i):
        return self._children[i]

    def findall(self, path, namespaces=None):
        return _select(self, path, namespaces or {})

    def find(self, path, namespaces=None):
        for e in _select(self, path, namespaces or {}):
            return e
        return None

    def clear(self):
        self.attrib = {}
        self.text = None
        self.tail = None
        for c in self._children:
            c._parent = None
        self._children = []

    def getparent(self):
        return self._parent

    def _sibling(self, step):
        if self._parent is None:
            return None
        sibs = self._parent._children
        for i, c in enumerate(sibs):
            if c is self:
                j = i + step
                if 0 <= j < len(sibs):
                    return sibs[j]
        return None

    def getprevious(self):
        return self._sibling(-1)

    def getnext(self):
        return self._sibling(1)

    def xpath(self, query, namespaces=None):
        """Queries made of steps ns:tag[@attr='value'], with / and //"""
        return _select(self, query, namespaces or {})

    def iter(self, *tags):
        """Document order"""
        out = []
        if not tags or self.tag in tags:
            out.append(self)
        for c in self._children:
            out.extend(c.iter(*tags))
        return out

    getiterator = iter

    def iterchildren(self, *tags):
        return iter([c for c in self._children
                     if not tags or c.tag in tags])

    def getchildren(self):
        return list(self._children)

    def iterdescendants(self, *tags):
        return iter([e for e in self.iter(*tags) if e is not self])

    def iterfind(self, path, namespaces=None):
        return iter(self.findall(path, namespaces))

    def findtext(self, path, default=None, namespaces=None):
        e = self.find(path, namespaces)
        return default if e is None else (e.text or '')

    def items(self):
        return list(self.attrib.items())

    def keys(self):
        return list(self.attrib)

    def getroottree(self):
        root = self
        while root._parent is not None:
            root = root._parent
        return ElementTree(root)


class ElementTree(object):
    def __init__(self, root):
        self._root = root

    def getroot(self):
        return self._root

    def xpath(self, query, namespaces=None):
        return self._root.xpath(query, namespaces)

    def findall(self, path, namespaces=None):
        return self._root.findall(path, namespaces)

    def find(self, path, namespaces=None):
        return self._root.find(path, namespaces)

    def iterfind(self, path, namespaces=None):
        return self._root.iterfind(path, namespaces)

    def iter(self, *tags):
        return self._root.iter(*tags)

    getiterator = iter


def _lookup(text, schema):
    SCHEMAS.append(schema)
    if text in INVALID and schema is not None and schema.file:
        raise XMLSyntaxError('not valid')
    try:
        return DOCS[text]
    except KeyError:
        raise XMLSyntaxError('not a document')


def fromstring(text, parser=None):
    return _lookup(text, parser and parser.schema)


def parse(source, parser=None):
    text = source.read() if hasattr(source, 'read') else open(source).read()
    return ElementTree(_lookup(text, parser and parser.schema))


def _ends(node):
    for child in list(node._children):
        for sub in _ends(child):
            yield sub
    yield node


def iterparse(source, events=('end',), tag=None, schema=None):
    """The elements in the order in which they end"""
    text = source.read() if hasattr(source, 'read') else open(source).read()
    for node in _ends(_lookup(text, schema)):
        if tag is None or node.tag == tag or (
                tag[-1:] == '*' and node.tag[:len(tag) - 1] == tag[:-1]):
            yield 'end', node
