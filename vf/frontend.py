"""Translates the syntax tree of Python 2 source (obtained from Jython, the
interpreter the code runs on) into a Python 3 code object in which every
operation whose meaning depends on symbolic values, or differs between Python 2
and 3, calls the run time support (vf/rt.py)."""
import ast as A

SPECIAL_ATTRS = frozenset(
    'next keys values items iterkeys itervalues iteritems has_key message '
    'sort index get pop setdefault __class__ __name__ __dict__ im_func '
    'im_self im_class func_name func_code func_defaults func_dict '
    'func_globals remove count'.split())
STR_METHODS = frozenset(
    'startswith endswith strip lstrip rstrip split rsplit join lower upper '
    'find rfind rindex replace isdigit encode decode partition rpartition '
    'format splitlines islower isupper isalnum isspace isalpha title '
    'capitalize zfill center ljust rjust expandtabs translate '
    'swapcase'.split())
RT_ATTRS = SPECIAL_ATTRS | STR_METHODS

CMP = dict(Lt='lt', LtE='le', Gt='gt', GtE='ge', Eq='eq', NotEq='ne',
           In='in_', NotIn='notin', Is='is_', IsNot='isnot')
BIN = dict(Add=A.Add, Sub=A.Sub, Mult=A.Mult, FloorDiv=A.FloorDiv,
           LShift=A.LShift, RShift=A.RShift, BitOr=A.BitOr, BitXor=A.BitXor,
           BitAnd=A.BitAnd)
HOOKBIN = dict(Div='div', Mod='mod', Pow='pow_')
CONSTS = {'None': None, 'True': True, 'False': False}


class Translator(object):
    def __init__(self, modname):
        self.modname = modname
        self.scope = []
        self.n = 0
        self.true_div = False

    # ---------------------------------------------------------------- utils
    def rt(self, name, *args):
        return A.Call(A.Attribute(A.Name('_rt', A.Load()), name, A.Load()),
                      list(args), [])

    def tmp(self, p='t'):
        self.n += 1
        return '_%s%d' % (p, self.n)

    def at(self, node, src):
        ln = src.get('l')
        if isinstance(ln, dict):
            ln = int(ln['v'])
        if ln:
            node.lineno = node.end_lineno = ln
            node.col_offset = node.end_col_offset = 0
        return node

    def module(self, tree):
        body = self.block(tree['body'], True)
        m = A.Module(body, [])
        A.fix_missing_locations(m)
        return m

    # ----------------------------------------------------------- statements
    def block(self, stmts, doc=False):
        out = []
        for s in stmts or ():
            r = self.stmt(s)
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out or [A.Pass()]

    def stmt(self, s):
        f = getattr(self, 's_' + s['_'], None)
        if f is None:
            raise NotImplementedError('statement %s' % s['_'])
        r = f(s)
        for x in r if isinstance(r, list) else [r]:
            self.at(x, s)
        return r

    def s_Expr(self, s):
        return A.Expr(self.expr(s['value']))

    def s_Pass(self, s):
        return A.Pass()

    def s_Break(self, s):
        return A.Break()

    def s_Continue(self, s):
        return A.Continue()

    def s_Return(self, s):
        return A.Return(self.expr(s['value']) if s['value'] else None)

    def s_Delete(self, s):
        return A.Delete([self.target(t, A.Del) for t in s['targets']])

    def s_Assign(self, s):
        return A.Assign([self.target(t) for t in s['targets']],
                        self.expr(s['value']))

    def s_AugAssign(self, s):
        op = s['op']['_'] if s['op']['_'] != 'Op' else s['op']['n']
        t = s['target']
        if op in BIN:
            return A.AugAssign(self.target(t), BIN[op](),
                               self.expr(s['value']))
        hook = HOOKBIN[op]
        if op == 'Div' and self.true_div:
            return A.AugAssign(self.target(t), A.Div(), self.expr(s['value']))
        # x.a[i] op= v : evaluate the container and index once
        pre = []
        k = t['_']
        if k == 'Name':
            load = self.expr(dict(t, ctx=None))
            store = self.target(t)
        elif k == 'Attribute':
            n = self.tmp()
            pre.append(A.Assign([A.Name(n, A.Store())],
                                self.expr(t['value'])))
            load = A.Attribute(A.Name(n, A.Load()), t['attr'], A.Load())
            store = A.Attribute(A.Name(n, A.Load()), t['attr'], A.Store())
        else:
            n, i = self.tmp(), self.tmp()
            pre.append(A.Assign([A.Name(n, A.Store())],
                                self.expr(t['value'])))
            pre.append(A.Assign([A.Name(i, A.Store())],
                                self.slice(t['slice'])))
            load = A.Subscript(A.Name(n, A.Load()), A.Name(i, A.Load()),
                               A.Load())
            store = A.Subscript(A.Name(n, A.Load()), A.Name(i, A.Load()),
                                A.Store())
        return pre + [A.Assign([store],
                               self.rt(hook, load, self.expr(s['value'])))]

    def s_Print(self, s):
        return A.Expr(self.rt(
            'print_', self.expr(s['dest']) if s['dest'] else A.Constant(None),
            A.Constant(bool(s['nl'])),
            *[self.expr(v) for v in s['values'] or ()]))

    def tick(self, s):
        return self.at(A.Expr(self.rt('tick')), s)

    def s_For(self, s):
        return A.For(self.target(s['target']), self.expr(s['iter']),
                     [self.tick(s)] + self.block(s['body']),
                     self.block(s['orelse']) if s['orelse'] else [])

    def s_While(self, s):
        return A.While(self.expr(s['test']),
                       [self.tick(s)] + self.block(s['body']),
                       self.block(s['orelse']) if s['orelse'] else [])

    def s_If(self, s):
        return A.If(self.expr(s['test']), self.block(s['body']),
                    self.block(s['orelse']) if s['orelse'] else [])

    def s_With(self, s):
        if s.get('items'):
            items = [A.withitem(self.expr(i['context_expr']),
                                self.target(i['optional_vars'])
                                if i['optional_vars'] else None)
                     for i in s['items']]
        else:
            items = [A.withitem(self.expr(s['context_expr']),
                                self.target(s['optional_vars'])
                                if s['optional_vars'] else None)]
        return A.With(items, self.block(s['body']))

    def s_Raise(self, s):
        if not s['type']:
            return A.Raise(None, None)
        args = [self.expr(s['type'])]
        if s['inst']:
            args.append(self.expr(s['inst']))
        return A.Raise(self.rt('exc', *args), None)

    def s_TryExcept(self, s):
        hs = [A.ExceptHandler(
            A.Attribute(A.Name('_rt', A.Load()), 'Control', A.Load()), None,
            [A.Raise(None, None)])]
        for h in s['handlers']:
            typ = self.expr(h['type']) if h['type'] else None
            name = None
            pre = []
            if h['name']:
                name = self.tmp('e')
                pre.append(A.Assign([self.target(h['name'])],
                                    A.Name(name, A.Load())))
            if typ is not None:
                typ = self.rt('exc_types', typ)
            hs.append(self.at(A.ExceptHandler(
                typ, name, pre + self.block(h['body'])), h))
        return A.Try(self.block(s['body']), hs,
                     self.block(s['orelse']) if s['orelse'] else [], [])

    def s_TryFinally(self, s):
        return A.Try(self.block(s['body']), [], [],
                     self.block(s['finalbody']))

    def s_Assert(self, s):
        return A.Assert(self.expr(s['test']),
                        self.expr(s['msg']) if s['msg'] else None)

    def s_Import(self, s):
        return A.Import([A.alias(a['name'], a['asname'] or None)
                         for a in s['names']])

    def s_ImportFrom(self, s):
        lvl = s['level']
        lvl = int(lvl['v']) if isinstance(lvl, dict) else (lvl or 0)
        mod = s['module'] or None
        if mod == '__future__':
            if any(a['name'] == 'division' for a in s['names']):
                self.true_div = True
            return A.Pass()
        return A.ImportFrom(mod, [A.alias(a['name'], a['asname'] or None)
                                  for a in s['names']], lvl)

    def s_Global(self, s):
        return A.Global([n if isinstance(n, str) else n['id']
                         for n in s['names']])

    def s_Exec(self, s):
        return A.Expr(self.rt(
            'exec_', self.expr(s['body']),
            self.expr(s['globals']) if s['globals'] else A.Call(
                A.Name('globals', A.Load()), [], []),
            self.expr(s['locals']) if s['locals'] else A.Constant(None)))

    # ------------------------------------------------------------ functions
    def arguments(self, a, pre):
        args = []
        for x in a['args'] or ():
            if x['_'] == 'Name':
                args.append(A.arg(x['id']))
            else:
                n = self.tmp('p')
                args.append(A.arg(n))
                pre.append(A.Assign([self.target(x)], A.Name(n, A.Load())))
        va = a['vararg']
        kw = a['kwarg']
        va = va['id'] if isinstance(va, dict) else va
        kw = kw['id'] if isinstance(kw, dict) else kw
        if kw:
            pre.append(A.Assign(
                [A.Name(kw, A.Store())],
                self.rt('mkkw', A.Name(kw, A.Load()))))
        return A.arguments([], args, A.arg(va) if va else None, [], [],
                           A.arg(kw) if kw else None,
                           [self.expr(d) for d in a['defaults'] or ()])

    def s_FunctionDef(self, s):
        pre = []
        args = self.arguments(s['args'], pre)
        decs = [self.expr(d) for d in s['decorator_list'] or ()]
        self.scope.append(s['name'])
        qual = '.'.join([self.modname] + self.scope)
        body = self.block(s['body'])
        self.scope.pop()
        doc = []
        if isinstance(body[0], A.Expr) and isinstance(
                body[0].value, A.Constant) and isinstance(
                    body[0].value.value, str):
            doc = [body[0]]
            body = body[1:] or [A.Pass()]
        head = [A.Expr(self.rt('enter', A.Constant(qual)))]
        for x in head + pre:
            self.at(x, s)
        body = pre + body
        if has_yield(s['body']):
            # Python 2: a StopIteration escaping from a generator ends it
            body = [self.at(A.Try(body, [A.ExceptHandler(
                A.Name('_StopIteration', A.Load()), None,
                [A.Return(None)])], [], []), s)]
        f = A.FunctionDef(s['name'], args, doc + head + body, decs, None, None)
        f.type_params = []
        return f

    def s_ClassDef(self, s):
        decs = [self.expr(d) for d in s['decorator_list'] or ()]
        decs.append(A.Attribute(A.Name('_rt', A.Load()), 'fix_class',
                                A.Load()))
        bases = [self.expr(b) for b in s['bases'] or ()]
        kws = []
        body = []
        self.scope.append(s['name'])
        for st in s['body']:
            if st['_'] == 'Assign' and len(st['targets']) == 1 and \
                    st['targets'][0].get('id') == '__metaclass__':
                kws.append(A.keyword('metaclass', self.expr(st['value'])))
                continue
            r = self.stmt(st)
            body.extend(r if isinstance(r, list) else [r])
        self.scope.pop()
        c = A.ClassDef(s['name'], bases, kws, body or [A.Pass()], decs)
        c.type_params = []
        return c

    # ---------------------------------------------------------- expressions
    def expr(self, e):
        f = getattr(self, 'e_' + e['_'], None)
        if f is None:
            raise NotImplementedError('expression %s %s' % (
                e['_'], e.get('n')))
        return self.at(f(e), e)

    def target(self, e, ctx=A.Store):
        k = e['_']
        if k == 'Name':
            n = A.Name(e['id'], ctx())
        elif k == 'Attribute':
            n = A.Attribute(self.expr(e['value']), e['attr'], ctx())
        elif k == 'Subscript':
            n = A.Subscript(self.expr(e['value']), self.slice(e['slice']),
                            ctx())
        elif k in ('Tuple', 'List'):
            cls = A.Tuple if k == 'Tuple' else A.List
            n = cls([self.target(x, ctx) for x in e['elts'] or ()], ctx())
        else:
            raise NotImplementedError('target %s' % k)
        return self.at(n, e)

    def e_Name(self, e):
        if e['id'] in CONSTS:
            return A.Constant(CONSTS[e['id']])
        return A.Name(e['id'], A.Load())

    def e_Num(self, e):
        n = e['n']
        k = n['_']
        if k == '#i':
            v = int(n['v'])
        elif k == '#f':
            v = float(n['v'])
        else:
            v = complex(float(n['re']), float(n['im']))
        return A.Constant(v)

    def e_Str(self, e):
        return A.Constant(e['s'])

    def e_Attribute(self, e):
        if e['attr'] in RT_ATTRS:
            return self.rt('getattr_', self.expr(e['value']),
                           A.Constant(e['attr']))
        return A.Attribute(self.expr(e['value']), e['attr'], A.Load())

    def e_Subscript(self, e):
        return A.Subscript(self.expr(e['value']), self.slice(e['slice']),
                           A.Load())

    def slice(self, s):
        k = s['_']
        if k == 'Index':
            return self.expr(s['value'])
        if k == 'Slice':
            g = lambda n: self.expr(s[n]) if s[n] else None
            return A.Slice(g('lower'), g('upper'), g('step'))
        if k == 'Ellipsis':
            return A.Constant(Ellipsis)
        return A.Tuple([self.slice(d) for d in s['dims']], A.Load())

    def e_Tuple(self, e):
        return A.Tuple([self.expr(x) for x in e['elts'] or ()], A.Load())

    def e_List(self, e):
        return A.List([self.expr(x) for x in e['elts'] or ()], A.Load())

    def e_Dict(self, e):
        return self.rt('mkdict', A.List(
            [A.Tuple([self.expr(k), self.expr(v)], A.Load())
             for k, v in zip(e['keys'] or (), e['values'] or ())], A.Load()))

    def e_Set(self, e):
        return self.rt('mkset', A.List([self.expr(x) for x in e['elts']],
                                       A.Load()))

    def comps(self, e):
        return [A.comprehension(self.target(g['target']),
                                self.expr(g['iter']),
                                [self.expr(i) for i in g['ifs'] or ()], 0)
                for g in e['generators']]

    def e_ListComp(self, e):
        return A.ListComp(self.expr(e['elt']), self.comps(e))

    def e_GeneratorExp(self, e):
        return A.GeneratorExp(self.expr(e['elt']), self.comps(e))

    def e_SetComp(self, e):
        return self.rt('mkset', A.ListComp(self.expr(e['elt']),
                                           self.comps(e)))

    def e_DictComp(self, e):
        return self.rt('mkdict', A.ListComp(
            A.Tuple([self.expr(e['key']), self.expr(e['value'])], A.Load()),
            self.comps(e)))

    def e_BoolOp(self, e):
        op = e['op']['_'] if e['op']['_'] != 'Op' else e['op']['n']
        return A.BoolOp(A.And() if op == 'And' else A.Or(),
                        [self.expr(v) for v in e['values']])

    def e_BinOp(self, e):
        op = e['op']['_'] if e['op']['_'] != 'Op' else e['op']['n']
        a, b = self.expr(e['left']), self.expr(e['right'])
        if op in BIN:
            return A.BinOp(a, BIN[op](), b)
        if op == 'Div' and self.true_div:
            return self.rt('truediv', a, b)
        return self.rt(HOOKBIN[op], a, b)

    def e_UnaryOp(self, e):
        op = e['op']['_'] if e['op']['_'] != 'Op' else e['op']['n']
        v = self.expr(e['operand'])
        if op == 'Not':
            return self.rt('not_', v)
        if op == 'USub':
            if isinstance(v, A.Constant):
                return A.Constant(-v.value)
            return A.UnaryOp(A.USub(), v)
        return A.UnaryOp(A.UAdd() if op == 'UAdd' else A.Invert(), v)

    def e_Compare(self, e):
        ops = [o['_'] if o['_'] != 'Op' else o['n'] for o in e['ops']]
        left = self.expr(e['left'])
        rest = [self.expr(c) for c in e['comparators']]
        if len(ops) == 1:
            o = ops[0]
            if o in ('Is', 'IsNot') and (
                    isinstance(rest[0], A.Constant) and
                    rest[0].value is None):
                return A.Compare(left, [A.Is() if o == 'Is' else A.IsNot()],
                                 rest)
            return self.rt(CMP[o], left, rest[0])
        pairs = []
        for o, r in zip(ops, rest):
            noargs = A.arguments([], [], None, [], [], None, [])
            pairs.append(A.Tuple([A.Constant(CMP[o]), A.Lambda(noargs, r)],
                                 A.Load()))
        return self.rt('chain', left, A.List(pairs, A.Load()))

    def e_Call(self, e):
        args = [self.expr(a) for a in e['args'] or ()]
        if e['starargs']:
            args.append(A.Starred(self.expr(e['starargs']), A.Load()))
        kws = [A.keyword(k['arg'], self.expr(k['value']))
               for k in e['keywords'] or ()]
        if e['kwargs']:
            kws.append(A.keyword(None, self.rt('kw', self.expr(e['kwargs']))))
        return A.Call(self.expr(e['func']), args, kws)

    def e_Lambda(self, e):
        pre = []
        args = self.arguments(e['args'], pre)
        body = self.expr(e['body'])
        if pre:
            # tuple parameters: (lambda x, y: body)(*p)
            names = []
            for p in pre:
                names.append(p)
            # nested function through immediately applied lambdas
            for p in reversed(pre):
                t = p.targets[0]
                if isinstance(t, A.Name):
                    inner = A.arguments([], [A.arg(t.id)], None, [], [],
                                        None, [])
                    body = A.Call(A.Lambda(inner, body), [p.value], [])
                else:
                    flat = flatten(t)
                    inner = A.arguments([], [A.arg(n) for n in flat], None,
                                        [], [], None, [])
                    # unpack with a comprehension target
                    gen = A.ListComp(
                        A.Call(A.Lambda(inner, body),
                               [A.Name(n, A.Load()) for n in flat], []),
                        [A.comprehension(t, A.List([p.value], A.Load()), [],
                                         0)])
                    body = A.Subscript(gen, A.Constant(0), A.Load())
        return A.Lambda(args, body)

    def e_IfExp(self, e):
        return A.IfExp(self.expr(e['test']), self.expr(e['body']),
                       self.expr(e['orelse']))

    def e_Yield(self, e):
        return A.Yield(self.expr(e['value']) if e['value'] else None)

    def e_Repr(self, e):
        return self.rt('repr_', self.expr(e['value']))


def flatten(t):
    if isinstance(t, A.Name):
        return [t.id]
    out = []
    for x in t.elts:
        out.extend(flatten(x))
    return out


def has_yield(x):
    if isinstance(x, list):
        return any(has_yield(y) for y in x)
    if isinstance(x, dict):
        k = x.get('_')
        if k == 'Yield':
            return True
        if k in ('FunctionDef', 'Lambda', 'ClassDef', 'GeneratorExp'):
            return False
        return any(has_yield(y) for n, y in x.items() if n != '_')
    return False


def translate(tree, modname, filename):
    t = Translator(modname)
    m = t.module(tree)
    return compile(m, filename, 'exec', dont_inherit=True)
