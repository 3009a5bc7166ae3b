from openquake.commonlib import logictree
import ltdoc

BOUNDS = ('trees of up to 3 levels, up to 2 branch sets per level and 2 '
          'branches per branch set (thorough: larger); each branch set '
          'below the root applies to everything or to up to 2 arbitrary '
          'branch ids, defined or not; arbitrary possibly equal branch ids; '
          'arbitrary exact decimal weights')
OUTSIDE = ('larger trees; the XML parser and the schema validation, which '
           'are replaced by the parsed document; several branch sets on the '
           'first level without validation')
ASSUMES = ['the document follows the schema']

SHAPES = [[[2]], [[2], [1]], [[2], [2], [1]], [[2], [1, 1]],
          [[2], [1, 1], [1]], [[1], [2], [1, 1]]]
DEEP = [[[3], [1, 1]], [[2], [1, 2], [1, 1]], [[3], [1, 1, 1]],
        [[2], [1], [1], [1]]]


def jobs(tier):
    out = []
    for shape in SHAPES + DEEP[:2] + ([] if tier == 'quick' else DEEP[2:]):
        below = shape[1:]
        n = sum([len(level) for level in below])
        # number of ids in applyToBranches, per branch set; 0 for no attribute
        kinds = [[]]
        for i in range(n):
            kinds = [k + [j] for k in kinds for j in
                     ((0, 1, 2) if n < 2 else (0, 1))]
        if n == 2:
            kinds.append([2, 1])
            kinds.append([1, 2])
        for k in kinds:
            out.append(('attach', dict(shape=shape, refs=k),
                        expected_labels(shape, k)))
    for shape in [[[3]], [[2], [2]], [[1], [1], [1]]]:
        out.append(('ids', dict(shape=shape), ['parsed', 'refused']))
    for n in range(4):
        out.append(('weights', dict(n=n), ['refused'] + (
            ['parsed'] if n else [])))
    return out


def expected_labels(shape, refs):
    parsed = True
    refused = any(refs)
    i = 0
    for prev, level in zip(shape, shape[1:]):
        rs = refs[i:i + len(level)]
        i += len(level)
        if len(level) > 1 and 0 in rs:
            parsed = False
            refused = True
        if sum(rs) > sum(prev):
            parsed = False
    return ['parsed'] * parsed + ['refused'] * refused


def document(h, shape, ids, weights, refs):
    """The document, and (refs, branches) for each branch set"""
    k = 0
    r = 0
    doc = []
    plan = []
    for depth, sizes in zip(range(len(shape)), shape):
        nodes = []
        bsets = []
        for size in sizes:
            attrs = {}
            apply_to = None
            if depth:
                apply_to = refs[r]
                r += 1
                if apply_to is not None:
                    attrs['applyToBranches'] = ' '.join(apply_to)
            brs = []
            for i in range(size):
                value = 'model%d.xml' % k if depth == 0 else '%d.5' % k
                brs.append((ids[k], weights[k], value if depth == 0
                            else float(value)))
                k += 1
            nodes.append(ltdoc.branchset(
                'bGRRelative' if depth else 'sourceModel', attrs,
                [ltdoc.branch(b, ' %s\n' % v, ' %s ' % h.numtext(w))
                 for b, w, v in brs]))
            bsets.append((apply_to, brs))
        doc.append(nodes)
        plan.append(bsets)
    ltdoc.register('<lt/>', ltdoc.tree(doc))
    return plan


def parse(h):
    return h.outcome(lambda: logictree.SourceModelLogicTree(
        '<lt/>', '/base', 'lt.xml', validate=False))


def agree(h, bset, brs, child, seen):
    """The branch set has these branches and the right children."""
    h.check(bset is not None, 'there is a branch set')
    h.check(len(bset.branches) == len(brs), 'branches of a branch set')
    for br, (bid, weight, value) in zip(bset.branches, brs):
        h.check(br.branch_id == bid, 'id of a branch')
        h.check(br.weight == weight, 'weight of a branch')
        h.check(br.value == value, 'value of a branch')
        sub = child.get(bid)
        if sub is None:
            h.check(br.child_branchset is None, 'no child')
        else:
            agree(h, br.child_branchset, sub, child, seen)


def attach(h, shape, refs):
    n = sum([size for sizes in shape for size in sizes])
    ids = ['b%d' % i for i in range(n)]
    weights = []
    for sizes in shape:
        for size in sizes:
            ws = [h.dec('w%d' % (len(weights) + i), 0, 1, den=100)
                  for i in range(size)]
            h.assume(h.total(ws) == 1)
            weights.extend(ws)
    apply_to = []
    for i, k in zip(range(len(refs)), refs):
        apply_to.append([h.tok('ref%d_%d' % (i, j)) for j in range(k)]
                        if k else None)
        if k == 2:
            h.assume(apply_to[-1][0] != apply_to[-1][1])
    plan = document(h, shape, ids, weights, apply_to)
    o = parse(h)
    # the expected result
    child = {}
    ok = True
    prev = []
    for bsets in plan:
        for refs, brs in bsets:
            if bsets is plan[0]:
                continue
            for b in (prev if refs is None else refs):
                if not (b in prev and b not in child):
                    ok = False
                else:
                    child[str(b)] = brs
        prev = [b for refs, brs in bsets for b, w, v in brs]
    if o[0] == 'exc':
        h.reach('refused')
        h.check(isinstance(o[1], logictree.ValidationError),
                'errors are validation errors')
        h.check(not ok, 'a good tree is not refused')
        return
    h.check(ok, 'a bad tree is refused')
    h.reach('parsed')
    agree(h, o[1].root_branchset, plan[0][0][1], child, [])


def ids(h, shape):
    n = sum([size for sizes in shape for size in sizes])
    names = [h.tok('id%d' % i) for i in range(n)]
    weights = []
    for sizes in shape:
        for size in sizes:
            # 1, 0, 0, ...
            weights.extend([h.dec('one', 1, 1, den=1)] +
                           [h.dec('zero', 0, 0, den=1)] * (size - 1))
    plan = document(h, shape, names, weights, [None] * n)
    o = parse(h)
    same = h.Or(*[names[i] == names[j] for i in range(n) for j in range(i)])
    if o[0] == 'exc':
        h.reach('refused')
        h.check(isinstance(o[1], logictree.ValidationError),
                'errors are validation errors')
        h.check(same, 'distinct ids are not refused')
        return
    h.reach('parsed')
    h.check(h.Not(same), 'a reused id is refused')
    lt = o[1]
    for i in range(n):
        h.check(h.And(*[lt.branches[names[i]].branch_id == names[i]]),
                'branches by id')


def weights(h, n):
    ws = [h.dec('w%d' % i, den=10 ** 8) for i in range(n)]
    plan = document(h, [[n]], ['b%d' % i for i in range(n)], ws, [])
    o = parse(h)
    good = h.total(ws) == 1
    if o[0] == 'exc':
        h.reach('refused')
        h.check(isinstance(o[1], logictree.ValidationError),
                'errors are validation errors')
        h.check(h.Not(good), 'weights summing to one are not refused')
        return
    h.reach('parsed')
    h.check(good, 'weights not summing to one are refused')
    agree(h, o[1].root_branchset, plan[0][0][1], {}, [])
