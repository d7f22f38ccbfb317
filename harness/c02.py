"""C02: counts, spells, windows and indices of series."""
import copy
import datetime

from harness.c01 import make_field
from harness.lib import MISS, encarr, outcome, ratio, setup_ocgis

GROUPED = ('between', 'threshold', 'duration', 'freq_duration', 'freezethaw')
SHAPES = {1: [(1, 1, 1, 1)], 2: [(1, 1, 1, 2), (1, 1, 2, 1), (1, 2, 1, 1), (2, 1, 1, 1)], 3: [(1, 1, 1, 3), (1, 3, 1, 1), (1, 1, 3, 1)], 4: [(1, 1, 2, 2), (2, 2, 1, 1), (1, 2, 1, 2), (1, 1, 4, 1)]}
PLACES = ['realization', 'level', 'y', 'x']


def parms(c, rng):
    import numpy as np
    f = c['func']
    if f == 'between':
        return {'lower': c['thr'] / 2., 'upper': max(c['thr'], c['hi']) / 2.}
    if f == 'threshold':
        return {'threshold': c['thr'] / 2., 'operation': c['op']}
    if f == 'duration':
        return {'threshold': c['thr'] / 2., 'operation': c['op'], 'summary': c['summary']}
    if f == 'freq_duration':
        return {'threshold': c['thr'] / 2., 'operation': c['op']}
    if f == 'moving_window':
        return {'k': c['k'], 'mode': c['mode'], 'operation': c['stat']}
    if f == 'convolve_1d':
        return {'v': np.array(c['v'], dtype=rng.choice([int, float])), 'mode': c['mode']}
    if f == 'freezethaw':
        return {'threshold': float(c['k'])}
    if f == 'heat_index':
        return {'tas': 'tas', 'rhs': 'rhs'}
    if f == 'daily_perc':
        return {'percentile': float(c['p']), 'window_width': c['w'], 'only_leap_years': c['only']}


def lay(series, dims, sizes, n):
    """The array of the given dimensions whose places, in the order of PLACES, have the series."""
    import numpy as np
    a = np.array(series).reshape([sizes[d] for d in PLACES] + [n])
    have = PLACES + ['time']
    a = a.transpose([have.index(d) for d in dims] + [have.index(d) for d in have if d not in dims])
    return a.reshape([sizes.get(d, n) for d in dims])


def unlay(mv, dims, sizes):
    """Sequences of elements of a masked array, one for each place."""
    import numpy as np
    have = [d for d in PLACES if d in dims] + ['time']
    order = [list(dims).index(d) for d in have]
    a, m = mv.data.transpose(order), np.ma.getmaskarray(mv).transpose(order)
    n = a.shape[-1]
    return [[None if q else x for x, q in zip(r, s)] for r, s in zip(a.reshape(-1, n), m.reshape(-1, n))]


def one(case, rng, num):
    import numpy as np
    from ocgis import OcgOperations
    from ocgis.calc.library.index.duration import FrequencyDuration
    c = case['c']
    f, n, loc = c['func'], c['n'], c['loc']
    shape = rng.choice([s for s in SHAPES[loc] if f != 'daily_perc' or s[0] * s[1] == 1])
    sizes = dict(zip(PLACES, shape))
    dims = [d for d in PLACES if sizes[d] > 1 or rng.random() < .5] + ['time']
    if f != 'daily_perc':
        dims = [d for d in dims if d != 'time' or True]
    if rng.random() < .4:
        dims.insert(rng.randint(0, len(dims) - 1), dims.pop())
    else:
        rng.shuffle(dims)
    day0 = datetime.date(2001, 1, 1)
    if f == 'daily_perc':
        days = [(datetime.date(*d) - day0).days for d in case['dates']]
    elif f in GROUPED:
        days = [365 - c['cut'] + k for k in range(n)]
    else:
        days = [40 + k for k in range(n)]
    tens = 10 if f == 'heat_index' else 1
    names = ['tas', 'rhs'] if f == 'heat_index' else ['d']
    vs = []
    for nm, s in zip(names, (case['a'], case['b'])):
        a = lay(s, dims, sizes, n)
        a = np.where(a == MISS, MISS, a * tens)
        vs.append({'name': nm, 'dims': dims, 'shape': list(a.shape), 'val': a.flatten().tolist()})
    fc = {'fld': {'cal': 'standard', 'ref': [2001, 1, 1, 0], 'tb': False, 'time': [{'v': 24 * d, 'lo': 0, 'hi': 0} for d in days]}, 'vars': vs}
    rec = {'c': c, 'dates': case['dates'], 'a': case['a'], 'b': case['b'], 'refused': '', 'out': [], 'days': [], 'again': True, 'source': True}

    def go():
        fld, k = make_field(fc, rng, name='src', unit=86400)
        if f == 'heat_index':
            fld['tas'].units, fld['rhs'].units = 'fahrenheit', 'percent'
        if f == 'freezethaw':
            fld['d'].units = 'C'
        kw = parms(c, rng)

        def calc():
            if f == 'freq_duration':
                fn = FrequencyDuration(field=fld, parms=kw, alias='q', dtype=object, tgd=fld.time.get_grouping(['year']))
                return [fn.execute()['q']], None
            ops = OcgOperations(dataset=fld, calc=[{'func': f, 'name': 'q', 'kwds': kw}] + ([{'func': f, 'name': 'w', 'kwds': kw}] if c['k'] == 3 else []),
                                calc_grouping=['year'] if f in GROUPED else None)
            o = ops.execute().get_element()
            return [o[nm] for nm in ('q', 'w') if nm in o], o
        got, o = calc()
        rows = []
        for dv in got:
            mv = dv.get_masked_value()
            sq = 2 if 'std' in (c['stat'] if f == 'moving_window' else '', c['summary'] if f == 'duration' else '') else 1
            def enc(x):
                if x is None:
                    return []
                if f == 'freq_duration':
                    return [[int(p['duration']), int(p['count'])] for p in x]
                if f == 'heat_index':
                    return [int(round(float(x) * 1e5)), 1] if abs(float(x)) < 1e4 else [MISS, 1]
                return ratio(x.item() ** sq, tol=1e-4 if dv.dtype == np.float32 else 1e-9)
            dd = list(dv.dimension_names)
            dd = ['time' if d not in PLACES else d for d in dd]
            rows.append([[enc(x) for x in r] for r in unlay(mv, dd, sizes)])
            if dd != dims:
                rec['refused'] = 'dimensions {} of {}'.format(dd, dims)
        rec['out'] = rows[0]
        rec['again'] = all(r == rows[0] for r in rows)
        if f == 'daily_perc':
            rec['days'] = [[d.month, d.day] for d in o.time.value_datetime]
        rec['source'] = all(encarr(fld[v['name']].get_masked_value().flatten(), 1) == v['val'] for v in vs) and encarr(fld.time.get_masked_value(), 1) == days
    o = outcome(go)
    rec['case'] = '{} {} n={} {}'.format(f, dims, n, num) + ' ' + '/'.join(fc.get('types', []))
    if not o['ok']:
        rec['refused'] = '{}: {}'.format(o['err'], o['msg'])
    return rec


def run(ctx):
    setup_ocgis()
    ctx.model('SeriesMC', 'INIT SInit\nNEXT SNext\nINVARIANTS OnePass Opposites Windows Convolved Alternates\nCONSTANTS MaxN = {}\n Vals <- FewVals\n'.format(ctx.n(5, 7)), label='spells of series in one pass', timeout=850)
    c = 'CONSTANTS MaxN = {}\n Vals <- ManyVals\n'.format(ctx.n(9, 14))
    cases = ctx.generate('SeriesMC', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + c, num=ctx.n(900, 7000), depth=12, label='series and what is asked of them')
    recs = [one(cs, ctx.rng, k) for k, cs in enumerate(cases)]
    for r in recs:
        ctx.cover[r['c']['func']] = ctx.cover.get(r['c']['func'], 0) + 1
    j = 'INIT JInit\nNEXT JNext\n' + c
    ctx.judge('SeriesMC', recs, 'what is computed of series', j)
    good = [r for r in recs if not r['refused'] and r['c']['func'] not in ('heat_index', 'freq_duration') and r['out'] and r['out'][0] and r['out'][0][0]][:4]
    bad = copy.deepcopy(good)
    for b in bad:
        q = b['out'][0][0]
        q[0] += q[1]
    ctx.expect_reject('SeriesMC', bad, 'a result one too large', j)
    bad = copy.deepcopy(good)
    for b in bad:
        b['out'][0][0] = []
    ctx.expect_reject('SeriesMC', [b for b in bad if b['c']['func'] != 'moving_window'], 'a result masked', j)
