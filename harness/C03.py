from openquake.commonlib import converter, record, records

import nodetree

BOUNDS = ('exposures of buildings with 0 to 2 cost types and of any other '
          'category, with every combination of the optional settings (area, '
          'deductible, limit, taxonomy source, retrofitting); up to 2 '
          '(thorough 3) assets with arbitrary texts and coordinates (equal '
          'or different) and every combination of the optional parts of an '
          'asset: area, up to 2 costs with or without retrofitting, '
          'deductible and limit, up to 2 occupancies at arbitrary, equal or '
          'different, periods in any order; zeros and other spellings of '
          'numbers, and close coordinates, out of fixed lists')
OUTSIDE = ('larger exposures; costs of undeclared types; cost types for '
           'categories other than buildings; empty descriptions and '
           'attributes')
ASSUMES = ['the identifiers of the assets, the names of the cost types and '
           'the periods of an asset are distinct', 'texts are words without '
           'spaces; equal coordinates are written in the same way']


def jobs(tier):
    quick = tier == 'quick'
    out = []
    for area in (0, 1):
        for ntypes in (0, 1, 2):
            out.append(('settings', dict(area=area, ntypes=ntypes),
                        ['done']))
        out.append(('others', dict(area=area), ['done']))
    for n in (1, 2, 3):
        out.append(('locations', dict(n=n), ['done']))
    for ntypes in (1, 2):
        out.append(('costs', dict(n=1, ntypes=ntypes), ['done']))
    for n in ((1, 2) if quick else (1, 2, 3)):
        for cat in (0, 1):
            out.append(('occupancies', dict(n=n, cat=cat), ['done']))
    out.append(('costs2', dict(n=2), ['done']))
    if not quick:
        out.append(('costs2', dict(n=3), ['done']))
        out.append(('mixed', dict(n=2), ['done']))
    for ntypes in (0, 1, 2):
        out.append(('numbers', dict(ntypes=ntypes), ['done']))
    out.append(('close', {}, ['done']))
    out.append(('spelled', {}, ['done']))
    out.append(('kind', {}, ['done']))
    return out


def distinct(h, xs):
    for i in range(len(xs)):
        for j in range(i):
            h.assume(h.Not(h.Eq(xs[i], xs[j])))


AREA = ['aggregated', 'per_asset']


def area_of(h):
    return nodetree.elem('area', {'type': h.pick('area_type', AREA),
                                  'unit': h.tok('area_unit')})


def cost_types(h, n, options=False):
    names = [h.tok('ct%d' % i) for i in range(n)]
    distinct(h, names)
    out = []
    for i, name in enumerate(names):
        attrs = {'name': name, 'type': h.tok('cttype%d' % i),
                 'unit': h.tok('ctunit%d' % i)}
        for opt in ('retrofittedType', 'retrofittedUnit'):
            if options and h.flag('%s%d' % (opt, i)):
                attrs[opt] = h.tok('v%s%d' % (opt, i))
        out.append(nodetree.elem('costType', attrs))
    return out


def exposure(h, category, conversions, assets, source=True):
    attrs = {'id': h.tok('expid'), 'category': category}
    if source:
        attrs['taxonomySource'] = h.tok('source')
    nodes = [nodetree.elem('description', text='\n ' + h.tok('descr') + ' ')]
    if conversions is not None:
        nodes.append(nodetree.elem('conversions', {}, conversions))
    nodes.append(nodetree.elem('assets', {}, assets))
    return nodetree.elem('exposureModel', attrs, nodes)


def buildings(h, types, assets):
    return exposure(h, 'buildings', [
        nodetree.elem('costTypes', {}, types),
        nodetree.elem('deductible', {'isAbsolute': 'false'}),
        nodetree.elem('insuranceLimit', {'isAbsolute': 'true'})], assets)


def other(h):
    category = h.tok('category')
    h.assume(h.Not(h.Eq(category, 'buildings')))
    return category


def asset(h, i, nodes=(), area=False, coords=None):
    attrs = {'id': h.tok('ref%d' % i), 'taxonomy': h.tok('tax%d' % i),
             'number': h.tok('num%d' % i)}
    if area:
        attrs['area'] = h.tok('area%d' % i)
    lon, lat = coords or (h.tok('lon%d' % i), h.tok('lat%d' % i))
    return nodetree.elem('asset', attrs, [
        nodetree.elem('location', {'lon': lon, 'lat': lat})] + list(nodes))


def make_copy(node):
    text = node.text
    attrs = dict(node.attrib)
    if node.tag == 'description':
        text = text.strip()
    if node.tag == 'exposureModel':
        attrs.setdefault('taxonomySource', 'UNKNOWN')
    return nodetree.elem(node.tag, attrs, map(make_copy, node), text)


def verify(h, model):
    assets = list(model.assets)
    refs = [a.attrib['id'] for a in assets]
    distinct(h, refs)
    exp = make_copy(model)
    conv = converter.Converter.from_nrml(nodetree.publish('m.xml', model))
    h.check(isinstance(conv, converter.Exposure), 'the converter')
    unordered = {'costs': 'type', 'occupancies': 'period'}
    nodetree.compare(h, conv.to_node(), exp, '', (), unordered)
    nodetree.compare(h, make_copy(model), exp, 'original')
    # the records
    t = conv.tableset
    h.check(len(t.tableAsset) == len(assets), 'number of assets')
    for a, rec in zip(assets, t.tableAsset):
        h.check(h.same(rec['asset_ref'], a.attrib['id']), 'asset record')
        locs = [l for l in t.tableLocation
                if h.same(l['id'], rec['location_id'])]
        h.check(len(locs) == 1, 'the location of an asset is there')
        h.check(h.And(h.same(locs[0]['lon'], a.location['lon']),
                      h.same(locs[0]['lat'], a.location['lat'])),
                'the location of an asset')
        for b, brec in zip(assets, t.tableAsset):
            h.check(h.Iff(h.same(rec['location_id'], brec['location_id']),
                          h.And(h.same(a.location['lon'], b.location['lon']),
                                h.same(a.location['lat'],
                                       b.location['lat']))),
                    'a location is shared by the assets which are there')
    for l in t.tableLocation:
        h.check(h.Or(*[h.same(l['id'], rec['location_id'])
                       for rec in t.tableAsset]), 'no spurious location')
    h.check(len(t.tableOccupancy) == sum(
        len(list(o)) for a in assets for o in a.getnodes('occupancies')),
        'number of occupancies')
    h.check(len(t.tableCost) == sum(
        len(list(c)) for a in assets for c in a.getnodes('costs')),
        'number of costs')
    h.reach('done')


def settings(h, area, ntypes):
    conv = []
    if area:
        conv.append(area_of(h))
    conv.append(nodetree.elem('costTypes', {}, cost_types(h, ntypes, True)))
    for name in ('deductible', 'insuranceLimit'):
        if h.flag('has_' + name):
            conv.append(nodetree.elem(name, {'isAbsolute': h.tok(name)}))
    verify(h, exposure(h, 'buildings', conv, [
        asset(h, 0, area=h.flag('has_area'))], h.flag('has_source')))


def others(h, area):
    """Exposures of other categories, for instance of population"""
    conv = [area_of(h)] if area else None
    assets = [asset(h, i, area=h.flag('has_area%d' % i)) for i in range(2)]
    verify(h, exposure(h, other(h), conv, assets, h.flag('has_source')))


def locations(h, n):
    assets = [asset(h, i) for i in range(n)]
    verify(h, exposure(h, other(h), None, assets))


OPTIONS = ['retrofitted', 'deductible', 'insuranceLimit']


def cost(h, i, k, ctype, options):
    attrs = {'type': ctype, 'value': h.tok('value%d_%d' % (i, k))}
    for opt in options:
        if h.flag('%s%d_%d' % (opt, i, k)):
            attrs[opt] = h.tok('v%s%d_%d' % (opt, i, k))
    return nodetree.elem('cost', attrs)


def some_costs(h, i, types, options=()):
    order = list(range(len(types)))
    if len(types) > 1 and h.flag('reversed%d' % i):
        order.reverse()
    nodes = [cost(h, i, k, types[k].attrib['name'], options)
             for k in order if h.flag('cost%d_%d' % (i, k))]
    return [nodetree.elem('costs', {}, nodes)] if nodes else []


def costs(h, n, ntypes):
    types = cost_types(h, ntypes)
    assets = [asset(h, i, some_costs(h, i, types, OPTIONS))
              for i in range(n)]
    verify(h, buildings(h, types, assets))


def costs2(h, n):
    types = cost_types(h, 2)
    assets = [asset(h, i, some_costs(h, i, types)) for i in range(n)]
    verify(h, buildings(h, types, assets))


def some_occupancies(h, i, most):
    k = h.size('nocc%d' % i, 0, most)
    periods = [h.tok('period%d_%d' % (i, j)) for j in range(k)]
    distinct(h, periods)
    nodes = [nodetree.elem('occupancy', {
        'period': p, 'occupants': h.tok('occ%d_%d' % (i, j))})
        for j, p in enumerate(periods)]
    return [nodetree.elem('occupancies', {}, nodes)] if nodes else []


def occupancies(h, n, cat):
    assets = [asset(h, i, some_occupancies(h, i, 2 if n < 3 else 1))
              for i in range(n)]
    if cat:
        verify(h, exposure(h, other(h), None, assets))
    else:
        verify(h, buildings(h, cost_types(h, 1), assets))


NUMBERS = ['0', '0.0', '7', '0.10', '1E2']
COORDS = [('9.15000', '45.16667'), ('9.15001', '45.16667'),
          ('9.15000', '45.16668'), ('0', '0'), ('-9.15000', '45.16667'),
          ('+9.15000', '45.16667')]


def numbers(h, ntypes):
    """The numbers are kept as they are written, zero included."""
    types = cost_types(h, ntypes)
    nodes = []
    for k, t in enumerate(types):
        attrs = {'type': t.attrib['name'],
                 'value': h.pick('value%d' % k, NUMBERS[::2])}
        if k == 0:
            for opt in OPTIONS if ntypes == 1 else ():
                attrs[opt] = h.pick(opt, NUMBERS[:2])
        nodes.append(nodetree.elem('cost', attrs))
    nodes = [nodetree.elem('costs', {}, nodes)] if nodes else []
    if ntypes < 2:
        nodes.append(nodetree.elem('occupancies', {}, [nodetree.elem(
            'occupancy', {'period': h.tok('period'),
                          'occupants': h.pick('occupants', NUMBERS[:4])})]))
    assets = [asset(h, 0, nodes)]
    assets[0].attrib['number'] = h.pick('number', NUMBERS[:3])
    if h.flag('has_area'):
        assets[0].attrib['area'] = h.pick('area', NUMBERS[:2])
    verify(h, buildings(h, types, assets) if ntypes else
           exposure(h, other(h), None, assets))


def close(h):
    """Locations which differ little are different."""
    assets = [asset(h, 0, coords=h.pick('loc0', COORDS)),
              asset(h, 1, coords=h.pick('loc1', COORDS))]
    verify(h, exposure(h, other(h), None, assets))


SPELLED = ['', 'Day', 'day', 'x y', ' x', 'UNKNOWN']


def spelled(h):
    """Texts of any kind are kept as they are written."""
    where = h.pick('where', ['source', 'period', 'taxonomy', 'id', 'unit'])
    text = h.pick('text', SPELLED)
    nodes = [nodetree.elem('occupancies', {}, [
        nodetree.elem('occupancy', {
            'period': text if where == 'period' else 'x',
            'occupants': '1'}),
        nodetree.elem('occupancy', {
            'period': 'z', 'occupants': h.tok('occ')})])]
    assets = [asset(h, 0, nodes), asset(h, 1)]
    if where in ('taxonomy', 'id'):
        assets[0].attrib[where] = text
    conv = None
    if text or where != 'unit':
        conv = [area_of(h)]
        if where == 'unit':
            conv[0].attrib['unit'] = text
    if h.flag('buildings'):
        conv = (conv or []) + [nodetree.elem('costTypes', {},
                                             cost_types(h, 1))]
        model = exposure(h, 'buildings', conv, assets)
    else:
        model = exposure(h, 'population', conv, assets)
    if where == 'source':
        model.attrib['taxonomySource'] = text
    verify(h, model)


def mixed(h, n):
    types = cost_types(h, 1)
    assets = [asset(h, i, some_costs(h, i, types, OPTIONS[:1]) +
                    some_occupancies(h, i, 1), h.flag('has_area%d' % i))
              for i in range(n)]
    verify(h, buildings(h, types, assets))


def kind(h):
    """The record types of the model, in order."""
    h.check(converter.Exposure.recordtypes() == [
        records.Location, records.Exposure, records.CostType, records.Asset,
        records.Occupancy, records.Cost], 'record types')
    h.reach('done')
