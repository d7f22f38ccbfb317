"""T02: time ranges and regions, level ranges, functions of the date, regions from seasons."""
from harness.lib import enc, encarr, outcome, setup_ocgis
from harness.t01 import CALS, NAMES, hms, units


def build(f, rng):
    import numpy as np
    from ocgis import Field
    from ocgis.variable.base import Variable
    from ocgis.variable.temporal import TemporalVariable
    unit = rng.choice([3600, 86400])
    u, k = units(unit, f['ref'], rng), unit / 3600
    dt = float
    kw, lkw = {}, {}
    if f['tb']:
        kw['bounds'] = TemporalVariable(name='time_bounds', value=np.array([[c['lo'] / k, c['hi'] / k] for c in f['time']], dtype=dt), dimensions=['time', 'bounds'], units=u, calendar=f['cal'])
    if f['lb']:
        lkw['bounds'] = Variable(name='level_bounds', value=np.array([[c['hi'], c['lo']] if f['flip'] else [c['lo'], c['hi']] for c in f['lev']], dtype=float) / 2,
                                 dimensions=['level', 'lbounds'])
    t = TemporalVariable(name='time', value=np.array([c['v'] / k for c in f['time']], dtype=dt), dimensions='time', units=u, calendar=f['cal'], **kw)
    lv = Variable(name='level', value=np.array([c['v'] for c in f['lev']], dtype=float) / 2, dimensions='level', **lkw)
    d = Variable(name='data', value=np.array([[100 * (a + 1) + b + 1 for b in range(len(f['lev']))] for a in range(len(f['time']))], dtype='i4'), dimensions=['time', 'level'])
    return Field(time=t, level=lv, variables=[d], is_data='data'), k


def observe(fld, k):
    t, lv = fld.time, fld.level
    return {'time': encarr(t.get_masked_value(), k, 1e-6), 'tb': encarr(t.bounds.get_masked_value(), k, 1e-6) if t.has_bounds else [],
            'lev': encarr(lv.get_masked_value(), 2), 'lb': encarr(lv.bounds.get_masked_value(), 2) if lv.has_bounds else [],
            'data': encarr(fld['data'].get_masked_value())}


def history(case, rng, n):
    from ocgis.variable.temporal import get_datetime_or_netcdftime
    f = case['fld']
    rec = {'kind': 'history', 'fld': f, 'ops': case['ops'], 'ok': True, 'err': '', 'obs': [],
           'case': '{} nt={} nl={} tb={} lb={} {}'.format(f['cal'], len(f['time']), len(f['lev']), f['tb'], f['lb'], n)}

    def day(d):
        return get_datetime_or_netcdftime(d[0], d[1], d[2], *hms(d[3]))

    def apply(fld, op):
        w = op['op']
        ri = rng.random() < .5
        idx = []
        if w == 'trange':
            got = fld.time.get_between(day(op['da']), day(op['db']), return_indices=ri)
        elif w == 'lrange':
            kw = {}
            if op['closed'] or rng.random() < .5:
                kw['closed'] = op['closed']
            if not op['useb'] or rng.random() < .5:
                kw['use_bounds'] = op['useb']
            got = fld.level.get_between(op['a'] / 2., op['b'] / 2., return_indices=ri, **kw)
        elif w == 'tregion':
            tr = {}
            if op['months'] or rng.random() < .3:
                tr['month'] = op['months'] or None
            if op['years'] or rng.random() < .3:
                tr['year'] = op['years'] or None
            got = fld.time.get_time_region(tr, return_indices=ri)
        else:
            days = set(op['days'])

            def func(value, bounds=None):
                src = value if bounds is None else bounds[:, 0]
                return [j for j, x in enumerate(src) if x.day in days]
            got = fld.time.get_subset_by_function(func, return_indices=ri)
        if ri:
            got, idx = got
            idx = [int(x) + 1 for x in idx]
        return got.parent, idx

    def go():
        fld, k = build(f, rng)
        for op in case['ops']:
            o = outcome(apply, fld, op)
            ob = {'refused': o['err'], 'idx': [], 'seen': {}, 'source': {}}
            if o['ok']:
                new, ob['idx'] = o['val']
                ob['seen'] = observe(new, k)
                ob['source'] = observe(fld, k)
                fld = new
            elif o['err'] != 'EmptySubsetError':
                ob['refused'] = '{}: {}'.format(o['err'], o['msg'])
            rec['obs'].append(ob)
    o = outcome(go)
    if not o['ok']:
        rec.update(ok=False, err='{}: {}'.format(o['err'], o['msg']))
    return rec


def seasons(ctx):
    import copy
    import datetime
    from ocgis.variable.temporal import get_sorted_seasons, get_time_regions
    import numpy as np
    recs = []
    rng = ctx.rng
    for n in range(ctx.n(500, 5000)):
        ss = []
        for _ in range(rng.randint(1, 4)):
            a, ln = rng.randint(1, 12), rng.choice([1, 2, 3, 3, 3, 4, 6, 11, 12])
            ms = [(a - 1 + j) % 12 + 1 for j in range(ln)]
            if rng.random() < .3:
                rng.shuffle(ms)
            ss.append(ms)
        if rng.random() < .3:
            ss = rng.choice([[[12, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]], [[11, 12, 1], [2, 3, 4], [5, 6, 7], [8, 9, 10]], [[6, 7, 8], [9, 10, 11], [12, 1, 2]]])
            ss = copy.deepcopy(ss)
        y0 = rng.randint(1900, 2010)
        ny = rng.choice([1, 1, 2, 2, 3, 4])
        yrs = sorted(rng.sample(range(y0, y0 + ny + (rng.random() < .4)), ny))
        p = rng.choice([.3, .7, 1., 1.])
        ym = [[y, m] for y in yrs for m in range(1, 13) if rng.random() < p] or [[y0, 6]]
        dates = [datetime.datetime(y, m, rng.randint(1, 28), rng.randint(0, 23)) for y, m in ym for _ in range(rng.choice([1, 1, 2]))]
        strict = rng.random() < .3
        method = rng.choice(['max', 'min'])
        rec = {'kind': 'seasons', 'case': '{} {} {}'.format(ss, strict, n), 'seasons': copy.deepcopy(ss), 'ym': ym, 'strict': strict, 'method': method,
               'refused': '', 'regions': [], 'sorted': [], 'after': []}
        given = copy.deepcopy(ss)
        d = np.array(dates)
        if strict:
            o = outcome(get_time_regions, given, d) if rng.random() < .5 else outcome(get_time_regions, given, d, raise_if_incomplete=True)
        else:
            o = outcome(get_time_regions, given, d, raise_if_incomplete=False)
        if o['ok']:
            rec['regions'] = [[{'year': [int(y) for y in t['year']], 'month': [int(m) for m in t['month']]} for t in r] for r in o['val']]
        else:
            rec['refused'] = o['err']
        o = outcome(get_sorted_seasons, given, method=method)
        rec['sorted'] = o['val'] if o['ok'] else [[0]]
        rec['after'] = given
        recs.append(rec)
    return recs


def consts(maxops, cals, refs, t, l, lens, gaps, ll):
    def s(v):
        return '{' + ', '.join('"%s"' % x if isinstance(x, str) else str(x) for x in v) + '}'
    return 'CONSTANTS MaxOps = {}\n Cals = {}\n Refs <- {}\n MaxT = {}\n MaxL = {}\n Lens = {}\n Gaps = {}\n LevLens = {}\n'.format(
        maxops, s(cals), refs, t, l, s(lens), s(gaps), s(ll))


def run(ctx):
    setup_ocgis()
    import copy
    ctx.model('SelectMC', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANTS InOrder Sound Shares\n' +
              consts(ctx.n(1, 2), ['standard', '360_day'], 'SmallRefs', ctx.n(2, 2), ctx.n(2, 2), [24, 1440], [0, 24], [4]), label='all short selections', timeout=850)
    c = consts(ctx.n(5, 7), CALS, 'FullRefs', 7, 4, [1, 6, 24, 48, 240, 720, 744, 2160, 6600], [0, 0, 1, 24, 720, 8760], [2, 4, 7])
    cases = ctx.generate('SelectMC', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + c, num=ctx.n(1200, 8000), depth=30, label='selection histories')
    recs = [history(cs, ctx.rng, k) for k, cs in enumerate(cases)]
    ctx.judge('SelectMC', recs, 'selections', c)
    bad = copy.deepcopy([r for r in recs if r['ok'] and not r['obs'][0]['refused']][:3])
    for b in bad:
        b['obs'][0]['seen']['data'][0][0] += 1
    ctx.expect_reject('SelectMC', bad, 'data of another step', c)
    bad = copy.deepcopy([r for r in recs if r['ok'] and not r['obs'][0]['refused']][:3])
    for b in bad:
        b['obs'][0]['refused'] = 'EmptySubsetError'
    ctx.expect_reject('SelectMC', bad, 'refused although steps match', c)
    ss = seasons(ctx)
    ctx.judge('SelectMC', ss, 'regions from seasons', c)
    bad = copy.deepcopy([r for r in ss if len(r['regions']) > 1][:3])
    for b in bad:
        b['regions'].pop()
    ctx.expect_reject('SelectMC', bad, 'a season lost', c)
