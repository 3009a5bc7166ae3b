from openquake.commonlib.source import NrmlHazardlibConverter
from openquake.hazardlib import geo, mfd, pmf, scalerel, source, tom
from openquake.hazardlib.source.rupture import Rupture
from openquake.nrmllib import models as nrml
from shapely import wkt

BOUNDS = ('every kind of source and rupture, both magnitude distributions '
          'with up to 3 rates, up to 3 nodal planes and hypocentral depths, '
          'lines and polygons of up to 4 vertices, up to 3 intermediate '
          'edges and 3 planar surfaces, every value of every parameter')
OUTSIDE = ('longer sequences; objects which are not NRML sources or '
           'ruptures; errors which cannot be built from a text; the hazard '
           'library, the NRML library and shapely, which are replaced by '
           'stand-ins')
ASSUMES = []
KINDS = ['point', 'area', 'simple', 'complex', 'char-simple', 'char-complex',
         'char-planar', 'rup-simple', 'rup-complex']
MSR = ['WC1994', 'PeerMSR', 'PointMSR']


def jobs(tier):
    out = []
    for kind in KINDS:
        for size in (1, 2, 3):
            out.append(('converted', dict(kind=kind, size=size),
                        ['converted']))
    for kind in ('complex', 'char-complex', 'rup-complex'):
        out.append(('converted', dict(kind=kind, size=4), ['converted']))
    for kind in KINDS[:7]:
        for error in ('ValueError', 'KeyError', 'IOError', 'Custom'):
            out.append(('failing', dict(kind=kind, error=error),
                        ['reraised']))
        out.append(('nobin', dict(kind=kind), ['reraised', 'converted']))
        if not kind.startswith('char'):
            out.append(('nomsr', dict(kind=kind), ['reraised']))
    out.append(('notom', {}, ['none', 'poisson']))
    out.append(('several', {}, ['converted']))
    return out


def settings(h, width=None):
    it, spacing = h.real('time'), h.real('spacing')
    h.assume(it > 0)
    disc = h.real('disc')
    if width is None:
        width = h.real('width')
    return NrmlHazardlibConverter(it, spacing, width, disc), dict(
        time=it, spacing=spacing, width=width, disc=disc)


def distribution(h, size, truncated):
    if truncated:
        return nrml.TGRMFD(a_val=h.real('a'), b_val=h.real('b'),
                           min_mag=h.real('min'), max_mag=h.real('max'))
    return nrml.IncrementalMFD(
        min_mag=h.real('min'), bin_width=h.real('bin'),
        occur_rates=[h.real('rate%d' % i) for i in range(size)])


def points(h, name, n, depth):
    out = []
    for i in range(n):
        p = (h.real('%s_x%d' % (name, i)), h.real('%s_y%d' % (name, i)))
        if depth:
            p = p + (h.real('%s_z%d' % (name, i)),)
        out.append(p)
    wkt.GEOMETRIES['wkt ' + name] = out
    return 'wkt ' + name, out


def geometry(h, kind, size):
    """-> NRML geometry, coordinates"""
    if kind in ('point', 'area'):
        cls = nrml.AreaGeometry if kind == 'area' else nrml.PointGeometry
        text, pts = points(h, 'g', 1 if kind == 'point' else size + 2, False)
        if kind == 'area':
            wkt.GEOMETRIES[text] = pts + pts[:1]
        return cls(wkt=text, upper_seismo_depth=h.real('upper'),
                   lower_seismo_depth=h.real('lower')), pts
    elif kind == 'simple':
        text, pts = points(h, 'g', size + 1, False)
        return nrml.SimpleFaultGeometry(
            wkt=text, upper_seismo_depth=h.real('upper'),
            lower_seismo_depth=h.real('lower'), dip=h.real('dip')), pts
    edges = [points(h, 'e%d' % i, 2 + (i + size) % 2, True)
             for i in range(size + 1)]
    return nrml.ComplexFaultGeometry(
        top_edge_wkt=edges[0][0], int_edges=[e[0] for e in edges[1:-1]],
        bottom_edge_wkt=edges[-1][0]), [e[1] for e in edges]


def corner(h, name):
    return nrml.Point(longitude=h.real(name + '_lon'),
                      latitude=h.real(name + '_lat'),
                      depth=h.real(name + '_dep'))


CORNERS = ['top_left', 'top_right', 'bottom_left', 'bottom_right']


def make(h, kind, size, truncated):
    """-> NRML object, its coordinates"""
    if kind.startswith('rup-'):
        geom, pts = geometry(h, kind[4:], size)
        cls = (nrml.SimpleFaultRuptureModel if kind == 'rup-simple'
               else nrml.ComplexFaultRuptureModel)
        return cls(id=h.tok('id'), magnitude=h.real('mag'),
                   rake=h.real('rake'), geometry=geom,
                   hypocenter=[h.real('hx'), h.real('hy'), h.real('hz')]), pts
    p = dict(id=h.tok('id'), name=h.tok('name'), trt=h.tok('trt'),
             mfd=distribution(h, size, truncated))
    if kind.startswith('char-'):
        p['rake'] = h.real('rake')
        if kind == 'char-planar':
            pts = None
            surface = []
            for i in range(size):
                kw = dict((c, corner(h, '%s%d' % (c, i))) for c in CORNERS)
                surface.append(nrml.PlanarSurface(
                    strike=h.real('strike%d' % i), dip=h.real('dip%d' % i),
                    **kw))
        else:
            surface, pts = geometry(h, kind[5:], size)
        return nrml.CharacteristicSource(surface=surface, **p), pts
    geom, pts = geometry(h, kind, size)
    p.update(geometry=geom, mag_scale_rel=h.pick('msr', MSR),
             rupt_aspect_ratio=h.real('aspect'))
    if kind in ('point', 'area'):
        p['nodal_plane_dist'] = [nrml.NodalPlane(
            probability=h.real('np%d' % i), strike=h.real('ns%d' % i),
            dip=h.real('nd%d' % i), rake=h.real('nr%d' % i))
            for i in range(size)]
        p['hypo_depth_dist'] = [nrml.HypocentralDepth(
            probability=h.real('hp%d' % i), depth=h.real('hd%d' % i))
            for i in range(size)]
        return (nrml.AreaSource if kind == 'area' else nrml.PointSource)(
            **p), pts
    p['rake'] = h.real('rake')
    return (nrml.SimpleFaultSource if kind == 'simple'
            else nrml.ComplexFaultSource)(**p), pts


def frozen(obj):
    """A copy of an NRML object as nested lists"""
    if isinstance(obj, (list, tuple)):
        return [frozen(x) for x in obj]
    if isinstance(obj, nrml.Model):
        return [type(obj).__name__] + [
            [k, frozen(v)] for k, v in sorted(vars(obj).items())]
    return obj


def unfrozen(h, now, old):
    """Did something change?"""
    if isinstance(old, list):
        if not isinstance(now, list) or len(now) != len(old):
            return False
        return h.And(*[unfrozen(h, a, b) for a, b in zip(now, old)])
    return h.Eq(now, old)


def is_point(h, p, coords, label):
    h.check(isinstance(p, geo.Point), label)
    h.check(h.And(p.longitude == coords[0], p.latitude == coords[1]), label)
    h.check(p.depth == (coords[2] if len(coords) > 2 else 0), label)


def is_line(h, line, pts, label):
    got = list(line.points)
    h.check(len(got) == len(pts), label)
    for p, coords in zip(got, pts):
        is_point(h, p, coords, label)


def is_distribution(h, got, src, st):
    if isinstance(src, nrml.TGRMFD):
        h.check(type(got) is mfd.TruncatedGRMFD, 'kind of distribution')
        h.check(h.And(got.a_val == src.a_val, got.b_val == src.b_val,
                      got.min_mag == src.min_mag, got.max_mag == src.max_mag),
                'magnitude distribution')
        h.check(got.bin_width == st['width'], 'bin width of the settings')
        return
    h.check(type(got) is mfd.EvenlyDiscretizedMFD, 'kind of distribution')
    h.check(h.And(got.min_mag == src.min_mag, got.bin_width == src.bin_width),
            'magnitude distribution')
    h.check(h.Eq(list(got.occurrence_rates), list(src.occur_rates)),
            'occurrence rates')


def is_pmf(h, got, expected, label):
    h.check(isinstance(got, pmf.PMF), label)
    data = list(got.data)
    h.check(len(data) == len(expected), label)
    for (p, v), (q, w) in zip(data, expected):
        h.check(p == q, label + ': probability')
        if isinstance(w, tuple):
            h.check(h.And(v.strike == w[0], v.dip == w[1], v.rake == w[2]),
                    label + ': strike, dip and rake')
        else:
            h.check(v == w, label + ': value')


def is_surface(h, surface, src, kind, pts, st):
    if kind == 'planar':
        h.check(isinstance(surface, geo.MultiSurface), 'kind of surface')
        got = list(surface.surfaces)
        h.check(len(got) == len(src.surface), 'number of surfaces')
        for s, o in zip(got, src.surface):
            h.check(h.And(s.strike == o.strike, s.dip == o.dip),
                    'strike and dip of a planar surface')
            h.check(s.mesh_spacing == st['spacing'], 'mesh spacing')
            for c in CORNERS:
                p, q = getattr(s, c), getattr(o, c)
                h.check(h.And(p.longitude == q.longitude,
                              p.latitude == q.latitude, p.depth == q.depth),
                        'the corners of a planar surface')
        return
    geom = src.surface if hasattr(src, 'surface') else src.geometry
    h.check(surface.mesh_spacing == st['spacing'], 'mesh spacing')
    if kind == 'simple':
        h.check(isinstance(surface, geo.SimpleFaultSurface), 'kind')
        is_line(h, surface.fault_trace, pts, 'fault trace')
        h.check(surface.upper_seismogenic_depth == geom.upper_seismo_depth,
                'upper depth')
        h.check(surface.lower_seismogenic_depth == geom.lower_seismo_depth,
                'lower depth')
        h.check(surface.dip == geom.dip, 'dip')
        return
    h.check(isinstance(surface, geo.ComplexFaultSurface), 'kind')
    is_edges(h, surface.edges, pts)


def is_edges(h, got, pts):
    h.check(len(got) == len(pts), 'number of edges')
    for line, p in zip(got, pts):
        is_line(h, line, p, 'edges from the top to the bottom')


def is_rupture(h, got, src, kind, pts, st):
    h.check(isinstance(got, Rupture), 'a rupture')
    h.check(h.And(got.mag == src.magnitude, got.rake == src.rake),
            'magnitude and rake')
    h.check(got.tectonic_region_type is None, 'no region type')
    is_point(h, got.hypocenter, src.hypocenter, 'hypocenter')
    h.check(got.source_typology is (
        source.SimpleFaultSource if kind == 'simple'
        else source.ComplexFaultSource), 'typology')
    is_surface(h, got.surface, src, kind, pts, st)


CLASSES = {'point': source.PointSource, 'area': source.AreaSource,
           'simple': source.SimpleFaultSource,
           'complex': source.ComplexFaultSource,
           'char': source.CharacteristicFaultSource}


def agree(h, got, src, kind, pts, st):
    if kind.startswith('rup-'):
        return is_rupture(h, got, src, kind[4:], pts, st)
    h.check(type(got) is CLASSES[kind.split('-')[0]], 'class of the source')
    h.check(h.And(got.source_id == src.id, got.name == src.name,
                  got.tectonic_region_type == src.trt),
            'id, name and region type')
    is_distribution(h, got.mfd, src.mfd, st)
    t = got.temporal_occurrence_model
    h.check(isinstance(t, tom.PoissonTOM), 'temporal model')
    h.check(t.time_span == st['time'], 'investigation time')
    if kind.startswith('char-'):
        h.check(got.rake == src.rake, 'rake')
        return is_surface(h, got.surface, src, kind[5:], pts, st)
    h.check(got.rupture_mesh_spacing == st['spacing'], 'mesh spacing')
    h.check(type(got.magnitude_scaling_relationship) is getattr(
        scalerel, src.mag_scale_rel), 'scaling relationship')
    h.check(got.rupture_aspect_ratio == src.rupt_aspect_ratio, 'aspect ratio')
    if kind != 'complex':
        h.check(got.upper_seismogenic_depth ==
                src.geometry.upper_seismo_depth, 'upper depth')
        h.check(got.lower_seismogenic_depth ==
                src.geometry.lower_seismo_depth, 'lower depth')
    if kind in ('point', 'area'):
        is_pmf(h, got.nodal_plane_distribution, [
            (x.probability, (x.strike, x.dip, x.rake))
            for x in src.nodal_plane_dist], 'nodal planes')
        is_pmf(h, got.hypocenter_distribution, [
            (x.probability, x.depth) for x in src.hypo_depth_dist], 'depths')
        if kind == 'point':
            is_point(h, got.location, pts[0], 'location')
        else:
            is_line(h, got.polygon, pts, 'polygon')
            h.check(got.area_discretization == st['disc'], 'discretization')
        return
    h.check(got.rake == src.rake, 'rake')
    if kind == 'simple':
        is_line(h, got.fault_trace, pts, 'fault trace')
        h.check(got.dip == src.geometry.dip, 'dip')
    else:
        is_edges(h, got.edges, pts)


def converted(h, kind, size):
    conv, st = settings(h)
    src, pts = make(h, kind, size, h.flag('truncated'))
    before = frozen(src)
    got = conv(src)
    h.reach('converted')
    agree(h, got, src, kind, pts, st)
    h.check(unfrozen(h, frozen(src), before), 'the NRML object is unchanged')


class Custom(Exception):
    pass


def named(h, o, cls, src):
    h.reach('reraised')
    h.check(o[0] == 'exc' and type(o[1]) is cls, 'the class of the error')
    text = str(o[1])
    h.check(src.id in text, 'the error names the id')
    h.check(src.name in text, 'the error names the source')


def failing(h, kind, error):
    conv, st = settings(h)
    src, pts = make(h, kind, 1, True)
    before = frozen(src)
    cls = {'ValueError': ValueError, 'KeyError': KeyError,
           'IOError': IOError, 'Custom': Custom}[error]

    def check(obj):
        raise cls('something wrong')
    source.CHECK[0] = check
    o = h.outcome(lambda: conv(src))
    named(h, o, cls, src)
    h.check(unfrozen(h, frozen(src), before), 'the NRML object is unchanged')


def nobin(h, kind):
    conv = NrmlHazardlibConverter(50., 2., None, 10.)
    truncated = h.flag('truncated')
    src, pts = make(h, kind, 1, truncated)
    o = h.outcome(lambda: conv(src))
    if truncated:
        named(h, o, AssertionError, src)
    else:
        h.reach('converted')
        h.check(o[0] == 'ok', 'no width is needed')
        agree(h, o[1], src, kind, pts, dict(
            time=50., spacing=2., disc=10., width=None))


def nomsr(h, kind):
    conv, st = settings(h)
    src, pts = make(h, kind, 1, h.flag('truncated'))
    src.mag_scale_rel = 'WC1995'
    named(h, h.outcome(lambda: conv(src)), KeyError, src)


def notom(h):
    conv = NrmlHazardlibConverter(h.pick('time', [None, 0, 0., 50., 1]),
                                  2., 1., 10.)
    src, pts = make(h, 'point', 1, True)
    t = conv(src).temporal_occurrence_model
    if conv.investigation_time:
        h.reach('poisson')
        h.check(t.time_span == conv.investigation_time, 'investigation time')
    else:
        h.reach('none')
        h.check(t is None, 'no temporal model for scenarios')


def several(h):
    """A converter can be used many times, also for the same object"""
    one, st1 = settings(h)
    src, pts = make(h, h.pick('kind', KINDS), 1, True)
    agree(h, one(src), src, kind_of(src), pts, st1)
    two = NrmlHazardlibConverter(50., 7., .5, 10.)
    st2 = dict(time=50., spacing=7., width=.5, disc=10.)
    agree(h, two(src), src, kind_of(src), pts, st2)
    agree(h, one(src), src, kind_of(src), pts, st1)
    h.reach('converted')


def kind_of(src):
    k = type(src).__name__
    if k == 'CharacteristicSource':
        return {'SimpleFaultGeometry': 'char-simple',
                'ComplexFaultGeometry': 'char-complex',
                'list': 'char-planar'}[type(src.surface).__name__]
    return {'PointSource': 'point', 'AreaSource': 'area',
            'SimpleFaultSource': 'simple', 'ComplexFaultSource': 'complex',
            'SimpleFaultRuptureModel': 'rup-simple',
            'ComplexFaultRuptureModel': 'rup-complex'}[k]
