"""T03: temporal groups."""
from harness.lib import encarr, outcome, setup_ocgis
from harness.t01 import CALS, date, offset, units


def one(case, rng, n):
    import copy
    import numpy as np
    from ocgis.variable.temporal import TemporalVariable
    f, g = case['fld'], case['grp']
    rec = {'kind': 'groups', 'fld': f, 'grp': g, 'refused': '', 'groups': [], 'bounds': [], 'repr': [], 'num': [], 'bnum': [], 'parts': [], 'source': [], 'after': True,
           'case': '{} {} {} {} tb={} nt={} {}'.format(f['cal'], g['kind'], sorted(g['parts']), g['year'], f['tb'], len(f['time']), n)}
    if g['kind'] == 'all':
        arg = 'all'
    elif g['kind'] == 'parts':
        arg = list(g['parts'])
        rng.shuffle(arg)
    else:
        arg = copy.deepcopy(g['seasons'])
        if g['kind'] == 'unique':
            arg.insert(rng.choice([0, len(arg)]), 'unique')
        elif g['year']:
            arg.insert(rng.choice([0, len(arg)]), 'year')
    if arg != 'all' and rng.random() < .3:
        arg = tuple(arg)
    keep = copy.deepcopy(arg)
    unit = rng.choice([3600, 86400])

    def go():
        k = unit / 3600.
        u = units(unit, f['ref'], rng)
        kw = {}
        if f['tb']:
            kw['bounds'] = TemporalVariable(name='time_bounds', value=np.array([[c['lo'] / k, c['hi'] / k] for c in f['time']]), dimensions=['time', 'bounds'], units=u, calendar=f['cal'])
        t = TemporalVariable(name='time', value=np.array([c['v'] / k for c in f['time']]), dimensions='time', units=u, calendar=f['cal'], **kw)
        tgv = t.get_grouping(arg)
        nt = len(f['time'])
        rec['groups'] = [[int(x) + 1 for x in np.arange(nt)[d]] for d in tgv.dgroups]
        b = tgv.bounds
        rec['bounds'] = [[date(x) for x in row] for row in b.value_datetime]
        rec['repr'] = [date(x) for x in tgv.value_datetime]
        rec['num'] = [offset(x, unit) for x in tgv.value_numtime]
        rec['bnum'] = [[offset(x, unit) for x in row] for row in b.value_numtime]
        dp = tgv.date_parts
        if dp is not None:
            if g['kind'] == 'parts':
                rec['parts'] = [[int(row[p]) for p in ('year', 'month', 'day') if row[p] is not None] for row in dp]
            else:
                rec['parts'] = [sorted(int(m) for m in row['months']) + ([int(row['year'])] if g['year'] else []) for row in dp]
        rec['source'] = encarr(t.get_masked_value(), k)
    o = outcome(go)
    if not o['ok']:
        rec['refused'] = '{}: {}'.format(o['err'], o['msg'])
    rec['after'] = arg == keep
    return rec


def consts(cals, refs, n, pats):
    def s(v):
        return '{' + ', '.join('"%s"' % x for x in v) + '}'
    return 'CONSTANTS Cals = {}\n Refs <- {}\n MaxT = {}\n Patterns = {}\n'.format(s(cals), refs, n, s(pats))


def run(ctx):
    setup_ocgis()
    import copy
    pats = ['months', 'days', 'hours', 'tens', 'jumps']
    ctx.model('GroupsMC', 'INIT Init\nNEXT Next\nINVARIANTS Agrees Partition InTime UniqueWell\n' +
              consts(['standard', '360_day'][:ctx.n(1, 2)], 'SmallRefs', ctx.n(2, 3), pats), label='sharing out steps', timeout=850)
    c = consts(CALS, 'FullRefs', 14, pats)
    cases = ctx.generate('GroupsMC', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + c, num=ctx.n(1500, 10000), depth=6, label='groupings')
    recs = [one(cs, ctx.rng, k) for k, cs in enumerate(cases)]
    ctx.judge('GroupsMC', recs, 'groupings', c)
    good = [r for r in recs if not r['refused'] and len(r['groups']) > 1][:3]
    bad = copy.deepcopy(good)
    for b in bad:
        b['groups'][0].append(b['groups'][1].pop())
    ctx.expect_reject('GroupsMC', bad, 'a step in another group', c)
    bad = copy.deepcopy(good)
    for b in bad:
        b['bounds'][0] = b['bounds'][0][::-1] if b['bounds'][0][0] != b['bounds'][0][1] else [b['bounds'][0][0], []]
    ctx.expect_reject('GroupsMC', bad, 'bounds turned round', c)
