"""C01: statistics of temporal groups."""
import copy

from harness.lib import MISS, encarr, outcome, ratio, setup_ocgis
from harness.t01 import date, units
from harness.t03 import consts


def make_field(case, rng, dtype=None, name=None, grid=True, unit=None):
    """The field of a case: time, the coordinates its variables need, and the variables in the order given."""
    import numpy as np
    from ocgis import Field, Grid, Variable
    from ocgis.variable.temporal import TemporalVariable
    f = case['fld']
    unit = unit or rng.choice([3600, 86400])
    k = unit / 3600.
    u = units(unit, f['ref'], rng)
    kw = {}
    if f['tb']:
        kw['bounds'] = TemporalVariable(name='time_bounds', value=np.array([[c['lo'] / k, c['hi'] / k] for c in f['time']]), dimensions=['time', 'bounds'], units=u, calendar=f['cal'])
    t = TemporalVariable(name='time', value=np.array([c['v'] / k for c in f['time']]), dimensions='time', units=u, calendar=f['cal'], **kw)
    sizes = {}
    data = []
    for v in case['vars']:
        sizes.update(dict(zip(v['dims'], v['shape'])))
        arr = np.array(v['val'], dtype=float).reshape(v['shape'])
        m = arr == MISS
        arr[m] = rng.choice([0., 1e20, 77.])
        if not (arr > 1e10).any():
            arr = arr.astype(dtype or rng.choice(['f8', 'f8', 'f4', 'i4', 'i8']))
        case.setdefault('types', []).append(str(arr.dtype))
        arr = np.ma.array(arr, mask=m)
        if not m.any() and rng.random() < .5:
            arr = arr.data
        data.append(Variable(name=v['name'], value=arr, dimensions=v['dims'], units=v['name'] + 'u'))
    kw, lone = {}, []
    for d in ('level', 'realization'):
        if d in sizes:
            kw[d] = Variable(name=d, value=np.arange(sizes[d]) * 10., dimensions=d)
    if 'x' in sizes and 'y' in sizes and grid:
        x = Variable(name='x', value=np.arange(sizes['x']) + 1., dimensions='x')
        y = Variable(name='y', value=np.arange(sizes['y']) + 1., dimensions='y')
        if rng.random() < .3 and min(sizes['x'], sizes['y']) > 1:
            x.set_extrapolated_bounds('x_bounds', 'bounds')
            y.set_extrapolated_bounds('y_bounds', 'bounds')
        kw['grid'] = Grid(x, y)
    elif 'x' in sizes or 'y' in sizes:
        lone = [Variable(name=d, value=np.arange(sizes[d]) + 1., dimensions=d) for d in 'xy' if d in sizes]
    fld = Field(time=t, is_data=data, name=name, **kw)
    for v in lone:
        fld.add_variable(v)
        fld.dimension_map.set_variable(v.name, v)
    return fld, k


def grouping_arg(g, rng):
    if g['kind'] == 'all':
        return 'all'
    if g['kind'] == 'parts':
        arg = list(g['parts'])
        rng.shuffle(arg)
        return arg
    arg = copy.deepcopy(g['seasons'])
    if g['kind'] == 'unique':
        arg.append('unique')
    elif g['year']:
        arg.append('year')
    return arg


def one(case, rng, n):
    import numpy as np
    import ocgis
    from ocgis import OcgOperations
    g = case['grp']
    ss = rng.random() < .5
    rec = {'fld': case['fld'], 'grp': g, 'vars': case['vars'], 'calcs': case['calcs'], 'ss': ss, 'refused': '', 'names': [], 'out': [], 'bounds': [], 'coords': True, 'source': [], 'srctime': [],
           'case': '{} {} {} {} nt={} ss={} {}'.format(g['kind'], sorted(g['parts']), [v['dims'] for v in case['vars']], [c['func'] for c in case['calcs']], len(case['fld']['time']), ss, n)}

    def go():
        f, k = make_field(case, rng, name='src')
        before = {nm: encarr(f[nm].get_masked_value().flatten(), 1) for nm in f.keys() if nm in ('x', 'y', 'level', 'realization')}
        calc = [dict({'func': c['func'], 'name': c['name']}, **({'kwds': {'percentile': float(c['par'])}} if c['func'] == 'freq_perc' else {})) for c in case['calcs']]
        ops = OcgOperations(dataset=f, calc=calc, calc_grouping=grouping_arg(g, rng), calc_sample_size=ss)
        o = ops.execute().get_element()
        std = {c['name'] for c in case['calcs'] if c['func'] == 'std'}
        for dv in o.data_variables:
            rec['names'].append(dv.name)
            root = dv.name.split('_')[0]
            sq = 2 if root in std else 1
            mv = dv.get_masked_value()
            rec['out'].append({'dims': list(dv.dimension_names), 'shape': list(dv.shape), 'units': str(dv.units),
                               'val': [ratio(None if m else (x.item() ** sq), tol=1e-5 if dv.dtype == np.float32 else 1e-9) for x, m in zip(mv.data.flatten(), np.ma.getmaskarray(mv).flatten())]})
        b = o.time.bounds
        rec['bounds'] = [[date(x) for x in row] for row in b.value_datetime]
        rec['coords'] = all(nm in o and encarr(o[nm].get_masked_value().flatten(), 1) == v for nm, v in before.items()) and list(o.time.dimension_names) == ['time']
        rec['source'] = [encarr(f[v['name']].get_masked_value().flatten(), 1) for v in case['vars']]
        rec['srctime'] = encarr(f.time.get_masked_value(), k)
    o = outcome(go)
    rec['case'] += ' ' + '/'.join(case.get('types', []))
    if not o['ok']:
        rec['refused'] = '{}: {}'.format(o['err'], o['msg'])
    return rec


def run(ctx):
    setup_ocgis()
    pats = ['months', 'days', 'tens', 'jumps']
    x = ' Vals <- {}\n MaxSize = {}\n'
    ctx.model('StatsMC', 'INIT SInit\nNEXT SNext\nINVARIANTS OnePass Additive\n' + consts(['standard'], 'SmallRefs', ctx.n(3, 5), ['days']) + x.format('FewVals', 1),
              label='statistics of groups in one pass', timeout=850)
    c = consts(['standard', '360_day', 'noleap'], 'FullRefs', 8, pats) + x.format('ManyVals', 2)
    cases = ctx.generate('StatsMC', 'INIT SGenInit\nNEXT SGenNext\nINVARIANT SEmit\n' + c, num=ctx.n(500, 4000), depth=6, label='fields, groupings and statistics')
    recs = [one(cs, ctx.rng, k) for k, cs in enumerate(cases)]
    j = 'INIT SJInit\nNEXT SJNext\n' + c
    ctx.judge('StatsMC', recs, 'group statistics', j)
    good = [r for r in recs if not r['refused'] and any(q and q != [1, 0] for q in r['out'][0]['val'])][:3]
    bad = copy.deepcopy(good)
    for b in bad:
        q = [q for q in b['out'][0]['val'] if q][0]
        q[0] += q[1]
    ctx.expect_reject('StatsMC', bad, 'a statistic one too large', j)
    bad = copy.deepcopy(good)
    for b in bad:
        b['source'][0][0] += 1
    ctx.expect_reject('StatsMC', bad, 'source data changed', j)
