from openquake.commonlib import riskloaders
from openquake.risklib import scientific, workflows
from openquake.nrmllib.risk import parsers

BOUNDS = ('up to 3 taxonomies (thorough 4), 4 limit states and 3 levels '
          '(thorough 5), arbitrary taxonomies and values, both formats')
OUTSIDE = ('larger models; taxonomies defined twice; the risk library and '
           'the NRML parsers, which are replaced by stand-ins')
ASSUMES = ['the taxonomies of a model are distinct']


def jobs(tier):
    out = []
    top = 3 if tier == 'quick' else 5
    for n in range(4 if tier == 'quick' else 5):
        for states in (1, 2, 3, 4):
            for levels in range(1, top + 1):
                out.append(('discrete', dict(n=n, states=states,
                                             levels=levels), ['loaded']))
            out.append(('continuous', dict(n=n, states=states), ['loaded']))
    return out


def load(h, fmt, n, states, params):
    taxes = [h.tok('tax%d' % i) for i in range(n)]
    for i in range(n):
        for j in range(i):
            h.assume(taxes[i] != taxes[j])
    names = [h.tok('state%d' % i) for i in range(states)]
    recs = [(fmt, list(names))]
    for tax, (iml, par, limit) in zip(taxes, params):
        recs.append((tax, iml, par, limit))
    parsers.MODELS['content'] = recs
    res = riskloaders.get_damage_states_and_risk_models('content')
    h.reach('loaded')
    h.check(len(res) == 2, 'two results')
    ds, models = res
    h.check(h.Eq(list(ds), ['no_damage'] + names), 'the damage states')
    h.check(len(models) == n, 'a model for each taxonomy')
    out = []
    for tax, (iml, par, limit) in zip(taxes, params):
        h.check(tax in models, 'a model for each taxonomy')
        rm = models[tax]
        h.check(isinstance(rm, workflows.RiskModel), 'a risk model')
        h.check(rm.taxonomy == tax, 'its taxonomy')
        h.check(isinstance(rm.workflow, workflows.Damage), 'its workflow')
        dic = rm.workflow.fragility_functions
        h.check(sorted(dic) == ['damage'], 'damage functions')
        ffs = dic['damage']
        h.check(h.Eq(ffs.imt, iml['IMT']), 'the measure type')
        h.check(isinstance(ffs, list) and len(ffs) == states,
                'a function for each limit state')
        out.append(list(ffs))
    return out


def discrete(h, n, states, levels):
    params = []
    for i in range(n):
        imls = [h.real('iml%d_%d' % (i, k)) for k in range(levels)]
        poes = [[h.real('poe%d_%d_%d' % (i, s, k)) for k in range(levels)]
                for s in range(states)]
        limit = h.real('limit%d' % i) if h.flag('limited%d' % i) else None
        params.append((dict(IMT=h.tok('imt%d' % i), imls=imls,
                            imlUnit='g'), poes, limit))
    copies = [(list(iml['imls']), [list(p) for p in poes])
              for iml, poes, limit in params]
    res = load(h, 'discrete', n, states, params)
    for ffs, (iml, par, limit), (imls, poes) in zip(res, params, copies):
        for ff, p in zip(ffs, poes):
            h.check(isinstance(ff, scientific.FragilityFunctionDiscrete),
                    'a discrete function')
            if limit is None:
                h.check(h.Eq(list(ff.imls), imls), 'levels')
                h.check(h.Eq(list(ff.poes), p), 'probabilities')
                h.check(h.Eq(ff.no_damage_limit, imls[0]),
                        'the first level is the limit')
            else:
                h.check(h.Eq(list(ff.imls), [limit] + imls),
                        'the limit in front of the levels')
                h.check(h.Eq(list(ff.poes), [0] + p),
                        'a zero in front of the probabilities')
                h.check(h.Eq(ff.no_damage_limit, limit), 'the limit')


def continuous(h, n, states):
    params = []
    for i in range(n):
        pairs = [(h.real('mean%d_%d' % (i, s)), h.real('std%d_%d' % (i, s)))
                 for s in range(states)]
        limit = h.real('limit%d' % i) if h.flag('limited%d' % i) else None
        params.append((dict(IMT=h.tok('imt%d' % i), imls=None,
                            imlUnit='g'), pairs, limit))
    res = load(h, 'continuous', n, states, params)
    for ffs, (iml, pairs, limit) in zip(res, params):
        for ff, (mean, std) in zip(ffs, pairs):
            h.check(isinstance(ff, scientific.FragilityFunctionContinuous),
                    'a continuous function')
            h.check(h.And(ff.mean == mean, ff.stddev == std),
                    'mean and standard deviation')
