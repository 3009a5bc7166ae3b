from openquake.commonlib import riskloaders
from openquake.risklib import scientific, workflows
from openquake.nrmllib.risk import parsers

BOUNDS = ('up to 3 loss types (thorough 4) with up to 3 functions each and '
          'up to 4 functions in total (thorough 6), arbitrary and possibly '
          'equal taxonomies, presence and validity of each file and '
          'function, both values of every option; names of 9 and 10 '
          'arbitrary characters')
OUTSIDE = ('larger models; repeated loss types; the risk library and the '
           'NRML parsers, which are replaced by stand-ins')
ASSUMES = []


def jobs(tier):
    out = [('names', dict(n=n), ['special', 'other']) for n in (9, 10)]
    out.append(('names', dict(n=0), ['special', 'other']))
    cases = [(['structural'], [0]), (['structural'], [1]),
             (['fatalities'], [2]), (['occupants'], [3]),
             (['structural', 'fatalities'], [1, 1]),
             (['fatalities', 'contents'], [2, 1]),
             (['contents', 'nonstructural'], [2, 2]),
             (['business_interruption', 'fatalities', 'contents'],
              [1, 1, 1])]
    if tier != 'quick':
        cases += [(['structural', 'fatalities'], [3, 2]),
                  (['contents', 'fatalities', 'structural'], [2, 2, 1]),
                  (['contents', 'fatalities', 'structural',
                    'nonstructural'], [1, 1, 1, 1]),
                  (['structural', 'fatalities'], [3, 3])]
    for types, sizes in cases:
        labels = ['loaded']
        if max(sizes) > 0:
            labels.append('refused')
        for models in (0, 1):
            if models and sum(sizes) > 3:
                continue
            out.append(('loaded', dict(types=types, sizes=sizes,
                                       models=models), labels))
    return out


def names(h, n):
    x = h.chars('name', n) if n else h.pick('name', [
        'fatalities', 'occupants', 'structural', 'contents',
        'business_interruption'])
    a = riskloaders.loss_type_to_cost_type(x)
    b = riskloaders.cost_type_to_loss_type(x)
    h.reach('special' if a != x or b != x else 'other')
    h.check(h.Eq(a, 'occupants') if x == 'fatalities' else h.Eq(a, x),
            'cost type of a loss type')
    h.check(h.Eq(b, 'fatalities') if x == 'occupants' else h.Eq(b, x),
            'loss type of a cost type')


class Record(object):
    def __init__(self, h, name, size, serial):
        self.tax = h.tok('tax_' + name)
        self.bad = h.bool('bad_' + name)
        self.imt = h.tok('imt_' + name)
        self.imls = [h.real('iml_%s%d' % (name, i)) for i in range(size)]
        self.imls[0] = serial     # to recognize the function
        self.ratios = [h.real('lr_%s%d' % (name, i)) for i in range(size)]
        self.covs = [h.real('cov_%s%d' % (name, i)) for i in range(size)]
        self.distribution = h.tok('dist_' + name)

    def asdict(self):
        return {'ID': self.tax, 'IMT': self.imt, 'IML': self.imls,
                'lossRatio': self.ratios,
                'coefficientsVariation': self.covs,
                'probabilisticDistribution': self.distribution,
                'vulnerabilitySetID': 'set', 'assetCategory': 'buildings',
                'lossCategory': 'economic'}


def is_function(h, vf, rec):
    h.check(isinstance(vf, scientific.VulnerabilityFunction), 'a function')
    h.check(h.And(h.Eq(vf.imt, rec.imt), h.Eq(list(vf.imls), rec.imls)),
            'measure type and levels')
    h.check(h.Eq(list(vf.mean_loss_ratios), rec.ratios), 'loss ratios')
    h.check(h.Eq(list(vf.covs), rec.covs), 'coefficients')
    h.check(h.Eq(vf.distribution_name, rec.distribution), 'distribution')


def loaded(h, types, sizes, models):
    retro = h.flag('retrofitted')
    insured = h.flag('insured') if models else False
    other = h.flag('other')
    inputs, files = {'unrelated_vulnerability': '/m/unrelated.xml'}, []
    for t, size in zip(types, sizes):
        cost = 'occupants' if t == 'fatalities' else t
        recs = [Record(h, '%s%d' % (t, i), 1 + i % 2,
                       10. * len(inputs) + i) for i in range(size)]
        present = h.flag('present_' + t)
        # the file to be used exists only if it has to be there; the other
        # one is never readable
        plain, re = '%s_vulnerability' % cost, (
            '%s_vulnerability_retrofitted' % cost)
        right, wrong = (re, plain) if retro else (plain, re)
        if present:
            inputs[right] = '/m/%s.xml' % cost
            parsers.MODELS['/m/%s.xml' % cost] = [r.asdict() for r in recs]
            files.append((t, recs))
        if other:
            inputs[wrong] = '/m/%s_wrong.xml' % cost
    recs = []
    for t, rs in files:
        recs = recs + rs

    def refuse(vf):
        for r in recs:
            if vf.imls[0] == r.imls[0] and r.bad:
                return 'wrong values'
    scientific.REFUSE[0] = refuse
    bad = h.Or(*[r.bad for r in recs])
    dup = h.Or(*[rs[i].tax == rs[j].tax for t, rs in files
                 for i in range(len(rs)) for j in range(i)])
    if models:
        o = h.outcome(lambda: riskloaders.get_risk_models(
            inputs, types, insured, retro))
    elif retro:
        o = h.outcome(lambda: list(riskloaders.get_taxonomy_vfs(
            inputs, types, True)))
    else:
        o = h.outcome(lambda: list(riskloaders.get_taxonomy_vfs(
            inputs, types)))
    if o[0] == 'exc':
        h.reach('refused')
        h.check(is_value_error(o), 'a ValueError')
        h.check(h.Or(bad, dup), 'valid models are not refused')
        text = str(o[1])
        blamed = [r.tax for r in recs if r.bad]
        for t, rs in files:
            for i in range(len(rs)):
                for j in range(i):
                    if rs[i].tax == rs[j].tax:
                        blamed.append(rs[i].tax)
        named = False
        for tax in blamed:
            if not named and tax in text:
                named = True
        h.check(named, 'the error names the taxonomy')
        return
    h.reach('loaded')
    h.check(h.Not(h.Or(bad, dup)), 'invalid models are refused')
    if models:
        h.check(isinstance(o[1], dict), 'a dictionary')
        got = []
        for tax, rm in o[1].items():
            h.check(isinstance(rm, workflows.RiskModel), 'a risk model')
            h.check(rm.taxonomy == tax, 'the taxonomy of the model')
            w = rm.workflow
            h.check(isinstance(w, workflows.Scenario), 'a scenario workflow')
            h.check(w.insured_losses == insured, 'insured losses')
            got.append((tax, w.vulnerability_functions))
    else:
        got = o[1]
    for i in range(len(got)):
        for j in range(i):
            h.check(got[i][0] != got[j][0], 'each taxonomy once')
    for r in recs:
        h.check(h.Or(*[tax == r.tax for tax, vfs in got]),
                'every taxonomy is there')
    for tax, vfs in got:
        n = 0
        for t, rs in files:
            for r in rs:
                if r.tax == tax:
                    n += 1
                    h.check(t in vfs, 'the loss types of the taxonomy')
                    is_function(h, vfs[t], r)
        h.check(n == len(vfs), 'no other loss type')
        h.check(n > 0, 'no other taxonomy')
