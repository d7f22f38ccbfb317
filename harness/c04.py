"""C04: deferred and tiled computation."""
import copy
import os
import shutil
import tempfile

from harness.lib import outcome, setup_ocgis

C = 'CONSTANTS MaxR = {} MaxC = {} MaxT = {}\n'
IGNORED = {'history', '_FillValue', 'missing_value'}
DOCS = ('freq_perc', {'percentile': 90}), ('threshold', {'threshold': 5, 'operation': 'gt'}), ('between', {'lower': 3, 'upper': 9}), ('duration', {'operation': 'gt', 'threshold': 4, 'summary': 'max'}), ('moving_window', {'k': 3, 'mode': 'same', 'operation': 'mean'})


def source(q, path, seed, var):
    import numpy as np
    from ocgis import Field, Grid, Variable
    from ocgis.variable.crs import Spherical
    from ocgis.variable.temporal import TemporalVariable
    rng = np.random.RandomState(seed)
    nr, nc, nt, nl = q['nr'], q['nc'], q['nt'], q['nl']
    x0 = 190. if q['wrap'] else 10.
    xs, ys = x0 + 2. * np.arange(nc), -10 + 2. * np.arange(nr)
    if q['curved']:
        xs, ys = np.meshgrid(xs, ys)
        xs = xs + .1 * np.arange(nr).reshape(-1, 1)
        x, y = Variable(name='x', value=xs, dimensions=['y', 'x'], attrs={'axis': 'X'}), Variable(name='y', value=ys, dimensions=['y', 'x'], attrs={'axis': 'Y'})
    else:
        x, y = Variable(name='x', value=xs, dimensions='x', attrs={'axis': 'X'}), Variable(name='y', value=ys, dimensions='y', attrs={'axis': 'Y'})
        if q['bounds']:
            for v in (x, y):
                a = v.get_value()
                v.set_bounds(Variable(name=v.name + '_bounds', value=np.stack([a - 1, a + 1], 1), dimensions=[v.name, 'bounds']))
    t = TemporalVariable(name='t', value=20. * np.arange(nt) + 5, dimensions='t', units='days since 2001-01-01', attrs={'axis': 'T'})
    vs = [t]
    sizes = {'t': nt, 'l': nl, 'y': nr, 'x': nc}
    if nl:
        vs.append(Variable(name='l', value=10. * np.arange(nl) + 10, dimensions='l', attrs={'axis': 'Z', 'positive': 'up'}))
    dims = [d for d in q['dims'] if d != 'l' or nl]
    val = rng.randint(1, 12, [sizes[d] for d in dims]).astype(q['type'])
    mask = None
    if q['mask'] == 'some':
        mask = rng.randint(0, 4, val.shape) == 0
    elif q['mask'] == 'cell':
        m = rng.randint(0, 3, (nr, nc)) == 0
        m = m if dims.index('y') < dims.index('x') else m.T
        mask = np.broadcast_to(m.reshape([sizes[d] if d in 'yx' else 1 for d in dims]), val.shape).copy()
    vs.append(Variable(name=var, value=val, dimensions=dims, mask=mask, units='K'))
    grid = Grid(x, y, crs=Spherical())
    f = Field(variables=vs, grid=grid, is_data=var, crs=Spherical())
    f.dimension_map.set_variable('time', 't', dimension='t')
    if nl:
        f.dimension_map.set_variable('level', 'l', dimension='l')
    if q['gmask'] and nr * nc > 1:
        m = rng.randint(0, 4, (nr, nc)) == 0
        m[0, 0] = False
        f.grid.set_mask(m)
    f.write(path)


def calcs(q):
    one = {'mean': 'mean', 'convolve': 'convolve_1d'}
    c = q['calc']
    grouping = q['grouping'] if q['grouping'] != ['all'] else 'all'
    if grouping == ['season']:
        grouping = [[12, 1, 2], [3, 4, 5], 'unique'] if False else [[12, 1, 2], [3, 4, 5, 6]]
    if c == 'none':
        return None, None
    if c in ('eval', 'eval2'):
        return ['e=v+2*v' if c == 'eval' else 'e=v-w'], None
    kw = dict(DOCS).get(c, {})
    if c == 'convolve':
        import numpy as np
        kw = {'v': np.array([1, 1, 1]), 'mode': 'same'}
    if c == 'daily_perc':
        kw = {'percentile': 90, 'window_width': 3}
    if c == 'divide':
        return [{'func': 'divide', 'name': 'd', 'kwds': {'arr1': 'v', 'arr2': 'w'}}], None
    ret = [{'func': one.get(c, c), 'name': 'c1', 'kwds': kw}]
    if c in ('moving_window', 'ln', 'convolve', 'daily_perc'):
        return ret, ['month', 'day'] if c == 'daily_perc' else None
    if q['second'] != 'none':
        ret.append({'func': q['second'], 'name': 'c2'})
    return ret, grouping


def digest(path):
    import netCDF4 as nc
    import numpy as np
    ret = {'vars': {}, 'dims': [], 'attrs': []}
    with nc.Dataset(path) as ds:
        ret['dims'] = sorted('{}={}{}'.format(k, len(d), '*' if d.isunlimited() else '') for k, d in ds.dimensions.items())
        ret['attrs'] = sorted('{}={}'.format(k, ds.getncattr(k)) for k in ds.ncattrs() if k not in IGNORED)
        for k, v in ds.variables.items():
            a = np.ma.asarray(v[...])
            m = np.ma.getmaskarray(a).reshape(-1)
            d = np.ma.getdata(a).reshape(-1)
            ret['vars'][k] = {'dims': list(v.dimensions), 'type': str(v.dtype), 'attrs': sorted('{}={}'.format(n, v.getncattr(n)) for n in v.ncattrs() if n not in IGNORED),
                              'vals': ['masked' if m[n] else ('{:.6g}'.format(d[n]) if d.dtype.kind in 'fiu' else str(d[n])) for n in range(d.size)]}
    return ret


def one(q, work):
    import numpy as np
    import ocgis
    from ocgis import OcgOperations, RequestDataset
    from ocgis.util.large_array import compute
    from shapely.geometry import box
    from shapely.ops import unary_union
    d = tempfile.mkdtemp(dir=work)
    try:
        calc, grouping = calcs(q)
        names = ['v', 'w'] if q['calc'] in ('divide', 'eval2') else ['v']
        for n in names:
            source(q, os.path.join(d, n + '.nc'), q['seed'] + len(n) + (n == 'w'), n)
            if n == 'v':
                pass
        x0, y0 = (190. if q['wrap'] else 10.) - 1, -11.
        g = {'none': None, 'box': box(x0 + 1.3, y0 + .7, x0 + 5.2, y0 + 8.1), 'ell': unary_union([box(x0 + .5, y0 + .5, x0 + 2.5, y0 + 7), box(x0 + .5, y0 + .5, x0 + 8.5, y0 + 2.5)]),
             'offset': box(x0 + 2.6, y0 + 2.6, x0 + 30, y0 + 30)}[q['geom']]

        def go(kind):
            kw = {'calc': copy.deepcopy(calc), 'calc_grouping': copy.deepcopy(grouping), 'output_format': 'nc', 'add_auxiliary_files': False, 'prefix': kind, 'dir_output': d, 'calc_sample_size': q['sample'] and calc is not None}
            if g is not None:
                kw.update(geom=g, spatial_operation=q['op'], agg_selection=q['agg'])
            if q['period'] == 'range':
                import datetime
                kw['time_range'] = [datetime.datetime(2001, 1, 20), datetime.datetime(2001, 4, 20)]
            elif q['period'] == 'region':
                kw['time_region'] = {'month': [1, 2, 3]}
            elif q['period'] == 'level' and q['nl']:
                kw['level_range'] = [10., 15.]
            ret = {'outcome': 'done', 'vars': {}, 'dims': [], 'attrs': []}
            try:
                ops = OcgOperations(dataset=[RequestDataset(os.path.join(d, n + '.nc'), variable=n) for n in names], file_only=kind == 'only', **kw)
                p = compute(ops, q['tile'], use_optimizations=q['opt']) if kind == 'tiled' else ops.execute()
                ret.update(digest(p))
            except Exception as e:
                if os.environ.get('C04_TRACE') and kind != 'direct':
                    import traceback
                    traceback.print_exc()
                ret['outcome'] = type(e).__name__
                ret['text'] = str(e)[:200]
            return ret
        rec = {'what': 'run', 'q': q, 'case': ' '.join('{}={}'.format(k, v) for k, v in sorted(q.items()))}
        rec['calculated'] = [c['name'] for c in calc] + ['n_' + c['name'] for c in calc] if calc and isinstance(calc[0], dict) else ['e']
        rec['hasonly'] = calc is not None
        before = ocgis.env.OPTIMIZE_FOR_CALC
        for k in ('direct', 'tiled', 'only') if calc is not None else ('direct', 'tiled'):
            rec[k] = go(k)
        rec['env'] = ocgis.env.OPTIMIZE_FOR_CALC == before
        return rec
    finally:
        shutil.rmtree(d)


def schemas(ctx):
    from ocgis.calc.tile import get_tile_schema
    recs = []
    n = ctx.n(9, 15)
    for r in range(1, n):
        for c in range(1, n, 2) if r > 3 else range(1, n):
            for t in range(1, n + 3):
                s = get_tile_schema(r, c, t)
                recs.append({'what': 'schema', 'nrow': r, 'ncol': c, 'tdim': t, 'case': 'schema {} {} {}'.format(r, c, t), 'tiles': [[[int(a) for a in v['row']], [int(a) for a in v['col']]] for v in s.values()]})
    return recs


def run(ctx):
    setup_ocgis()
    ctx.model('Tiling', 'INIT Init\nNEXT Next\nINVARIANT Laws\n' + C.format(2, ctx.n(3, 4), 5), label='tiles of small grids in every order', timeout=850)
    c = C.format(1, 1, 1)
    j = 'INIT JInit\nNEXT JNext\n' + c
    recs = schemas(ctx)
    ctx.judge('Tiling', recs, 'tile schemas', j)
    bad = copy.deepcopy(recs[-3:])
    for b in bad:
        b['tiles'][0][0][1] += 1
    ctx.expect_reject('Tiling', bad, 'a tile too large', j)
    recs = [one(q, ctx.work) for q in ctx.generate('Tiling', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + c, num=ctx.n(120, 900), depth=3, label='requests')]
    for r in recs:
        k = 'direct {} tiled {}'.format(r['direct']['outcome'], r['tiled']['outcome'])
        ctx.cover[k] = ctx.cover.get(k, 0) + 1
    ctx.judge('Tiling', recs, 'tiled and deferred outputs', j)
    good = [r for r in recs if r['direct']['outcome'] == 'done' == r['tiled']['outcome']][:3]
    bad = copy.deepcopy(good)
    for b in bad:
        b['tiled']['vars']['t']['vals'][0] = 'x'
    ctx.expect_reject('Tiling', bad, 'a value off', j)
    bad = copy.deepcopy(good)
    for b in bad:
        del b['tiled']['vars']['y']
    ctx.expect_reject('Tiling', bad, 'a variable lost', j)
