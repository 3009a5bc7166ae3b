from openquake.commonlib import records

import nodetree

BOUNDS = ('every column of the %d record types of the models; texts of up to '
          '2 arbitrary characters, the texts of all integers and of the '
          'multiples of 1/64, and special texts (words of the choices, '
          'nan, exponents, spaces)' % 19)
OUTSIDE = 'longer texts in the columns of free text'
ASSUMES = []

AREA = ('aggregated', 'per_asset')
COST = ('aggregated', 'per_asset', 'per_area')
CATEGORY = ('population', 'buildings')

# name -> converter, primary key, other keys, (target, foreign key), columns
SPEC = {
    'DiscreteVulnerabilitySet': ('Vulnerability', 'vulnerabilitySetID', (),
        None, 'vulnerabilitySetID:text assetCategory:category '
        'lossCategory:text IMT:imt'),
    'DiscreteVulnerability': ('Vulnerability',
        'vulnerabilitySetID vulnerabilityFunctionID', (),
        ('DiscreteVulnerabilitySet', 'vulnerabilitySetID'),
        'vulnerabilitySetID:text vulnerabilityFunctionID:text '
        'probabilisticDistribution:text'),
    'DiscreteVulnerabilityData': ('Vulnerability',
        'vulnerabilitySetID vulnerabilityFunctionID IML', (),
        ('DiscreteVulnerability',
         'vulnerabilitySetID vulnerabilityFunctionID'),
        'vulnerabilitySetID:text vulnerabilityFunctionID:text IML:float '
        'lossRatio:float coefficientsVariation:float'),
    'FragilityDiscrete': ('FragilityDiscrete', 'format', (), None,
        'format:discrete description:text limitStates:namelist'),
    'FFLimitStateDiscrete': ('FragilityDiscrete', 'limitState', (), None,
        'limitState:text'),
    'FFSetDiscrete': ('FragilityDiscrete', 'ordinal', (), None,
        'ordinal:int taxonomy:notempty noDamageLimit:?positive IMT:imt '
        'imlUnit:text'),
    'FFDataDiscrete': ('FragilityDiscrete', 'limitState ffs_ordinal iml', (),
        None, 'limitState:text ffs_ordinal:int iml:float poe:probability'),
    'FragilityContinuous': ('FragilityContinuous', 'format', (), None,
        'format:continuous description:text limitStates:namelist'),
    'FFLimitStateContinuous': ('FragilityContinuous', 'limitState', (), None,
        'limitState:text'),
    'FFSetContinuous': ('FragilityContinuous', 'ordinal', (), None,
        'ordinal:int taxonomy:notempty noDamageLimit:?positive type:text '
        'IMT:text imlUnit:text minIML:float maxIML:float'),
    'FFDataContinuous': ('FragilityContinuous',
        'limitState ffs_ordinal param', (), None,
        'limitState:text ffs_ordinal:int param:text value:float'),
    'Location': ('Exposure', 'id', ('lon lat',), None,
        'id:natural lon:longitude lat:latitude'),
    'Exposure': ('Exposure', 'id', (), None,
        'id:notempty category:category taxonomySource:text description:text '
        'area_type:?area area_unit:?text deductible_is_absolute:?bool '
        'insurance_limit_is_absolute:?bool'),
    'CostType': ('Exposure', 'name', (), None,
        'name:text type:cost unit:text retrofittedType:?cost '
        'retrofittedUnit:text'),
    'Asset': ('Exposure', 'asset_ref', (), None,
        'location_id:natural asset_ref:text taxonomy:notempty '
        'number:positive area:?positive'),
    'Occupancy': ('Exposure', 'asset_ref period', (), None,
        'asset_ref:text period:text occupants:positive'),
    'Cost': ('Exposure', 'asset_ref type', (), None,
        'asset_ref:text type:text value:positive retrofitted:?positive '
        'deductible:?positive insurance_limit:?positive'),
    'GmfCollection': ('GmfCollection', 'sourceModelTreePath gsimTreePath',
        (), None, 'sourceModelTreePath:text gsimTreePath:text'),
    'GmfSet': ('GmfCollection', 'stochasticEventSetId', (), None,
        'stochasticEventSetId:int investigationTime:float'),
    'Gmf': ('GmfCollection', 'stochasticEventSetId imtStr ruptureId', (),
        None, 'stochasticEventSetId:int imtStr:imt ruptureId:text'),
    'GmfData': ('GmfCollection',
        'stochasticEventSetId imtStr ruptureId lon lat', (), None,
        'stochasticEventSetId:int imtStr:text ruptureId:text lon:float '
        'lat:float gmv:float'),
}
CHOICES = {'category': CATEGORY, 'area': AREA, 'cost': COST,
           'discrete': ('discrete',), 'continuous': ('continuous',)}
WORDS = ['population', 'buildings', 'aggregated', 'per_asset', 'per_area',
         'discrete', 'continuous', 'Buildings', 'aggregated ', '0', '1', '2',
         'true', 'false', 'True', 'TRUE', 'none', 'PGA', 'PGV', 'PGD', 'IA',
         'RSD', 'MMI', 'SA', 'SA(0.1)', 'SA(1)', 'SA(x)', 'PGAx', 'pga',
         'a b', 'a_1  b', '1a', 'a 1', ' ', 'nan', '1e3', ' 7 ', '-0.0',
         '1.5', '-3']
RANGES = {'float': (None, None), 'positive': (0, None),
          'longitude': (-180, 180), 'latitude': (-90, 90),
          'probability': (0, 1), 'int': (None, None), 'natural': (0, None)}
BOOLS = {'0': False, '1': True, 'true': True, 'false': False}


def columns(name):
    return [c.split(':') for c in SPEC[name][4].split()]


def jobs(tier):
    out = []
    for name in sorted(SPEC):
        out.append(('structure', dict(name=name), ['done']))
        for col, kind in columns(name):
            labels = ['accepted']
            if kind not in ('text', '?text'):
                labels.append('rejected')
            out.append(('special', dict(name=name, col=col, kind=kind),
                        labels))
            k = kind.replace('?', '')
            if k in RANGES:
                lo, hi = RANGES[k]
                out.append(('number', dict(name=name, col=col, kind=kind),
                            ['accepted'] + ([] if lo is hi else
                                            ['rejected'])))
            elif k in ('text', 'notempty'):
                out.append(('text', dict(name=name, col=col, kind=kind),
                            ['accepted'] + (
                                ['rejected'] if kind == 'notempty' else [])))
    for n in range(2):
        for kind in ('float', 'int'):
            out.append(('wholenumber', dict(kind=kind, n=n), ['done']))
    out.append(('area', {}, ['valid', 'invalid']))
    out.append(('gmf', {}, ['done']))
    return out


def structure(h, name):
    conv, pkey, others, fkey, cols = SPEC[name]
    cls = getattr(records, name)
    h.check(list(cls.fieldnames) == [c for c, k in columns(name)],
            'the columns', cls.fieldnames)
    h.check(len(cls) == len(columns(name)), 'the number of columns')
    h.check(cls.convertername == conv, 'the converter')
    h.check(list(cls.pkey.names) == pkey.split(), 'the primary key')
    if others:
        h.check(list(cls.unique.names) == others[0].split(), 'unique')
    if fkey:
        h.check(cls.fkey.unique is getattr(records, fkey[0]).pkey,
                'the target of the foreign key')
        h.check(list(cls.fkey.names) == fkey[1].split(), 'the foreign key')
    values = [h.tok('v%d' % i) for i in range(len(columns(name)))]
    rec = cls(*values)
    h.check(h.same(list(rec), values), 'the values', list(rec))
    h.check(h.same(rec.pkey, tuple(
        [v for k in pkey.split() for (c, _), v in zip(columns(name), values)
         if k == c])), 'the values of the key')
    h.check(list(cls()) == [''] * len(values), 'empty by default')
    h.reach('done')


def column(h, name, col, text):
    """Outcome of casting the column of a record"""
    cls = getattr(records, name)
    rec = cls(**{col: text})
    i = [c for c, k in columns(name)].index(col)
    h.check(h.same(rec.row, [''] * i + [text] + [''] * (
        len(columns(name)) - i - 1)), 'the row')
    o = h.outcome(getattr, rec, col)
    h.check(rec.is_valid(col) == (o[0] == 'ok'), 'valid if accepted')
    if o[0] == 'exc':
        h.check(isinstance(o[1], ValueError), 'a ValueError', o[1])
    return o


def accepted(h, o, value, text):
    h.check(o[0] == 'ok', 'accepted', text, o[1])
    h.check(h.same(o[1], value), 'the value', text, o[1])
    h.check(type(o[1]) is type(value), 'the type of the value', text)
    h.reach('accepted')


def rejected(h, o, text):
    h.check(o[0] == 'exc', 'rejected', text, o[1])
    h.reach('rejected')


def is_name(word):
    letters = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
    return word[0] in letters and all(
        c in letters + '0123456789' for c in word)


def expected(kind, text):
    """(value,) or None, for concrete texts"""
    if kind.startswith('?'):
        return (None,) if text == '' else expected(kind[1:], text)
    if kind == 'text':
        return (text,)
    elif kind == 'notempty':
        return (text,) if text else None
    elif kind in CHOICES:
        return (text,) if text in CHOICES[kind] else None
    elif kind == 'bool':
        return (BOOLS[text],) if text in BOOLS else None
    elif kind == 'namelist':
        names = text.split()
        if names and all(map(is_name, names)):
            return (names,)
        return None
    elif kind == 'imt':
        if text in ('PGA', 'PGV', 'PGD', 'IA', 'RSD', 'MMI'):
            return ((text, None, None),)
        elif text in ('SA(0.1)', 'SA(1)'):
            return (('SA', float(text[3:-1]), 5.0),)
        return None
    if kind in ('int', 'natural'):
        values = {'0': 0, '1': 1, '2': 2, '-3': -3, ' 7 ': 7}
    else:
        values = {'0': 0., '1': 1., '2': 2., '-3': -3., ' 7 ': 7.,
                  '1e3': 1000., '-0.0': -0.0, '1.5': 1.5}
        if kind == 'float':
            values['nan'] = float('nan')
    lo, hi = RANGES[kind]
    if text not in values:
        return None
    x = values[text]
    if lo is not None and x < lo or hi is not None and x > hi:
        return None
    return (x,)


def special(h, name, col, kind):
    text = h.pick('text', [''] + WORDS)
    o = column(h, name, col, text)
    exp = expected(kind, text)
    if exp is None:
        return rejected(h, o, text)
    value = exp[0]
    h.check(o[0] == 'ok', 'accepted', text, o[1])
    if kind == 'imt':
        h.check(tuple(o[1]) == value and (
            o[1].imt, o[1].saPeriod, o[1].saDamping) == value,
            'the value', text, o[1])
    elif text == 'nan' and kind == 'float':
        h.check(o[1] != o[1], 'the value', text)
    else:
        h.check(o[1] == value, 'the value', text, o[1])
        h.check(type(o[1]) is type(value), 'the type', text, o[1])
    h.reach('accepted')


def number(h, name, col, kind):
    k = kind.replace('?', '')
    if k in ('int', 'natural'):
        x = h.int('x')
    else:
        x = h.real('x', den=64)
    text = h.numtext(x)
    o = column(h, name, col, text)
    lo, hi = RANGES[k]
    if lo is not None and x < lo or hi is not None and x > hi:
        return rejected(h, o, text)
    accepted(h, o, x, text)


def text(h, name, col, kind):
    t = h.text('text', 2)
    o = column(h, name, col, t)
    if t == '' and kind != 'text':
        if kind == 'notempty':
            return rejected(h, o, t)
        return accepted(h, o, None, t)
    accepted(h, o, t, t)


def wholenumber(h, kind, n):
    """Numbers with a fractional part are not integers"""
    cols = [(name, col) for name in sorted(SPEC) for col, k in columns(name)
            if k in (('int', 'natural') if kind == 'int' else
                     ('float', 'positive'))]
    name, col = cols[h.size('col', 0, len(cols) - 1)]
    t = ['0.5', '7.0'][n]
    o = column(h, name, col, t)
    if kind == 'int':
        h.check(o[0] == 'exc', 'not an integer')
    else:
        h.check(o[0] == 'ok' and o[1] == float(t), 'a number')
    h.reach('done')


def area(h):
    """The type of area and its unit are given together"""
    typ = h.pick('type', ['', 'aggregated', 'per_asset', 'per_area'])
    unit = h.text('unit', 1)
    cat = h.pick('category', ['buildings', 'population', 'x'])
    ded = h.pick('deductible', ['', '0', 'x'])
    rec = records.Exposure('id', cat, 'src', 'descr', typ, unit, ded, '')
    good = cat != 'x' and typ != 'per_area' and ded != 'x' and (
        (typ == '') == (unit == ''))
    h.check(rec.is_valid() == good, 'valid exactly if given together',
            typ, unit)
    h.reach('valid' if good else 'invalid')


def gmf(h):
    imt = h.pick('imt', ['PGA', 'PGV', 'SA(0.1)', 'SA(10)', 'IA', 'MMI'])
    rup = h.pick('rup', ['', 'x'])
    if rup:
        rup = h.tok('rupture')
    attr = {'IMT': imt.split('(')[0]}
    if '(' in imt:
        attr['saPeriod'] = imt[3:-1]
    if rup:
        attr['ruptureId'] = rup
    node = records.Gmf('1', imt, rup).to_node()
    if '(' in imt:
        h.check(float(node['saDamping']) == 5.0, 'the damping')
        attr['saDamping'] = node['saDamping']
    nodetree.compare(h, node, nodetree.elem('gmf', attr), 'gmf')
    h.reach('done')
