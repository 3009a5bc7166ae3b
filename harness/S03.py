from openquake.commonlib.source import split_source
from openquake.hazardlib import geo, mfd, source
import math

BOUNDS = ('meshes of up to 12 points (thorough 40), up to 3 magnitude bins for '
          'areas and 6 (thorough 9) for faults, arbitrary coordinates, '
          'magnitudes, non-negative rates (also integers) and values of every other '
          'parameter, both magnitude distributions')
OUTSIDE = ('larger meshes and more bins; empty meshes; the hazard library, '
           'which is replaced by a stand-in returning any mesh and, for '
           'truncated Gutenberg-Richter distributions, any rates')
ASSUMES = ['exact real arithmetic, with log10(10**a/n) taken as the real '
           'number it denotes']


def jobs(tier):
    out = []
    top = 12 if tier == 'quick' else 40
    for n in range(1, top + 1):
        out.append(('area', dict(n=n, bins=0), ['area']))
        for bins in (1, 2, 3):
            out.append(('area', dict(n=n, bins=bins), ['area']))
    for n in (1, 2, 3, 7):
        out.append(('area', dict(n=n, bins=2, integer=1), ['area']))
    for kind in ('simple', 'complex'):
        for n in range((6 if tier == 'quick' else 9) + 1):
            for truncated in (0, 1):
                labels = ['none'] + (['split'] if n else [])
                out.append(('fault', dict(kind=kind, n=n,
                                          truncated=truncated), labels))
    for kind in ('point', 'char'):
        for truncated in (0, 1):
            out.append(('whole', dict(kind=kind, truncated=truncated),
                        ['whole']))
    return out


def truncated_gr(h):
    return mfd.TruncatedGRMFD(h.real('min'), h.real('max'), h.real('bin'),
                              h.real('a', -20, 20), h.real('b'))


def evenly(h, n):
    return mfd.EvenlyDiscretizedMFD(
        h.real('min'), h.real('bin'),
        [h.real('rate%d' % i, 0) for i in range(n)])


class Thing(object):
    """An opaque parameter"""


def make(h, kind, dist):
    p = dict(source_id=h.tok('id'), name=h.tok('name'),
             tectonic_region_type=h.tok('trt'), mfd=dist,
             temporal_occurrence_model=Thing())
    if kind in ('simple', 'complex', 'char'):
        p['rake'] = h.real('rake')
    if kind != 'char':
        p.update(rupture_mesh_spacing=h.real('spacing'),
                 magnitude_scaling_relationship=Thing(),
                 rupture_aspect_ratio=h.real('aspect'))
    if kind in ('simple', 'point', 'area'):
        p.update(upper_seismogenic_depth=h.real('upper'),
                 lower_seismogenic_depth=h.real('lower'))
    if kind in ('point', 'area'):
        p.update(nodal_plane_distribution=Thing(),
                 hypocenter_distribution=Thing())
    if kind == 'simple':
        return source.SimpleFaultSource(
            fault_trace=Thing(), dip=h.real('dip'), **p)
    elif kind == 'complex':
        return source.ComplexFaultSource(edges=[Thing(), Thing()], **p)
    elif kind == 'char':
        return source.CharacteristicFaultSource(surface=Thing(), **p)
    elif kind == 'point':
        return source.PointSource(location=Thing(), **p)
    return source.AreaSource(polygon=geo.Polygon([Thing()] * 3),
                             area_discretization=h.real('disc'), **p)


def same_attributes(h, got, expected, names, label):
    for k in names:
        a, b = getattr(got, k, None), expected[k]
        h.check(h.Or(a is b, h.Eq(a, b)), label)


def untouched(h, src, before, dist):
    after = vars(src)
    h.check(sorted(after) == sorted(before), 'same attributes')
    same_attributes(h, src, before, list(before), 'the original is unchanged')
    now = vars(src.mfd)
    for k in dist:
        a = list(now[k]) if isinstance(now[k], list) else now[k]
        h.check(h.Eq(a, dist[k]), 'its distribution is unchanged')


def copied(obj):
    return dict((k, list(v) if isinstance(v, list) else v)
                for k, v in vars(obj).items())


def area(h, n, bins, integer=0):
    dist = evenly(h, bins) if bins else truncated_gr(h)
    if integer:
        dist.occurrence_rates = [h.int('n%d' % i, 0) for i in range(bins)]
    src = make(h, 'area', dist)
    if h.flag('part'):    # an identifier like those of the parts
        src.source_id = src.source_id + '-1'
    lons = [h.real('lon%d' % i) for i in range(n)]
    lats = [h.real('lat%d' % i) for i in range(n)]
    src.polygon.mesh = geo.Mesh(list(lons), list(lats))
    before, olddist = dict(vars(src)), copied(dist)
    disc = h.real('step')
    parts = list(split_source(src, disc))
    h.reach('area')
    h.check(src.polygon.asked == disc, 'the discretization step')
    h.check(len(parts) == n, 'one point for each point of the mesh')
    same = [k for k in before if k not in (
        'source_id', 'name', 'mfd', 'polygon', 'area_discretization',
        'location')]
    for i, pt in zip(range(n), parts):
        h.check(type(pt) is source.PointSource, 'point sources')
        h.check(h.And(pt.location.longitude == lons[i],
                      pt.location.latitude == lats[i]),
                'at the point of the mesh')
        h.check(pt.source_id == '%s-%d' % (src.source_id, i), 'the new id')
        same_attributes(h, pt, before, same, 'the other parameters')
        m = pt.mfd
        h.check(m is not dist, 'another distribution')
        h.check(type(m) is type(dist), 'the same kind of distribution')
        h.check(h.And(m.min_mag == dist.min_mag,
                      m.bin_width == dist.bin_width), 'the same magnitudes')
        if bins:
            h.check(len(m.occurrence_rates) == bins, 'number of rates')
        else:
            h.check(h.And(m.max_mag == dist.max_mag, m.b_val == dist.b_val),
                    'the same magnitudes')
            h.check(h.close(m.a_val, dist.a_val - math.log10(n)),
                    'the a value of one of n points')
    for k in range(bins):
        h.check(h.total([p.mfd.occurrence_rates[k] for p in parts]) ==
                dist.occurrence_rates[k], 'the rates add up')
        for p in parts:
            h.check(p.mfd.occurrence_rates[k] * n ==
                    dist.occurrence_rates[k], 'each point has its share')
    untouched(h, src, before, olddist)


def fault(h, kind, n, truncated):
    if truncated:
        dist = truncated_gr(h)
        pairs = [(h.real('mag%d' % i), h.real('rate%d' % i, 0))
                 for i in range(n)]
        mfd.RATES[0] = lambda d: list(pairs)
    else:
        dist = evenly(h, n)
        pairs = [(dist.min_mag + i * dist.bin_width, dist.occurrence_rates[i])
                 for i in range(n)]
    src = make(h, kind, dist)
    before, olddist = dict(vars(src)), copied(dist)
    parts = list(split_source(src, h.real('step')))
    exp = [(m, r) for m, r in pairs if r != 0]
    h.check(len(parts) == len(exp), 'one part for each non-zero rate')
    h.reach('split' if parts else 'none')
    for i, part in zip(range(len(exp)), parts):
        h.check(type(part) is type(src), 'the same kind of source')
        h.check(part is not src, 'a new source')
        h.check(part.source_id == '%s-%d' % (before['source_id'], i),
                'the new id')
        same_attributes(h, part, before, [
            k for k in before if k not in ('source_id', 'mfd', 'name')],
            'the other parameters')
        h.check(type(part.mfd) is mfd.EvenlyDiscretizedMFD, 'the kind')
        got = part.mfd.get_annual_occurrence_rates()
        h.check(len(got) == 1, 'one magnitude')
        h.check(h.And(got[0][0] == exp[i][0], got[0][1] == exp[i][1]),
                'the magnitude and its rate')
        h.check(part.mfd.bin_width == dist.bin_width, 'the bin width')
    for i in range(len(parts)):
        for j in range(i):
            h.check(parts[i] is not parts[j], 'distinct parts')
            h.check(parts[i].mfd is not parts[j].mfd, 'distinct parts')
    untouched(h, src, before, olddist)


def whole(h, kind, truncated):
    dist = truncated_gr(h) if truncated else evenly(h, 2)
    src = make(h, kind, dist)
    before, olddist = dict(vars(src)), copied(dist)
    parts = list(split_source(src, h.real('step')))
    h.reach('whole')
    h.check(len(parts) == 1 and parts[0] is src, 'returned alone')
    untouched(h, src, before, olddist)
