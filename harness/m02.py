"""M02: distributed runs against serial ones."""
import os
import json

from harness.lib import outcome, setup_ocgis, enc, MISS
from harness import mpi


def q(v):
    v = float(v)
    return int(round(v * 1e4)) if abs(v) < 1e12 else MISS


def flat(a, m=None, f=enc):
    import numpy as np
    return [f(x) for x in np.asarray(a).flatten()]


def see_var(v):
    import numpy as np
    val = v.get_value()
    m = v.get_mask()
    return {'name': v.name, 'vals': flat(val), 'mask': [0] * val.size if m is None else [int(x) for x in np.asarray(m).flatten()],
            'type': str(val.dtype), 'bounds': '' if v.bounds is None else v.bounds.name}


def layout(n, opt):
    """The collection of a slices case."""
    import random
    rng = random.Random(json.dumps(opt, sort_keys=True))
    t = 2
    out = []

    def add(name, dist, t, nb, typ, masked, bounds=''):
        size = (n if dist else 1) * t * nb
        out.append({'name': name, 'dist': dist, 't': t, 'nb': nb, 'type': typ, 'bounds': bounds,
                    'vals': [100 * (len(out) + 1) + k for k in range(size)],
                    'mask': [int(rng.random() < .4) for _ in range(size)] if masked else []})
    add('data', True, t, 1, 'float64', opt['mask'])
    add('flag', True, 1, 1, 'int32', False)
    if opt['bounds']:
        add('coord', True, 1, 1, 'float64', False, 'coord_bnds')
        add('coord_bnds', True, 1, 2, 'float64', False)
    else:
        add('coord', True, 1, 1, 'float64', False)
    add('plain', False, t, 1, 'float32', opt['mask'])
    return out


def build(lay, n):
    import numpy as np
    from ocgis import Variable, VariableCollection, Dimension
    y, t, nb = Dimension('y', n), Dimension('t', 2), Dimension('nb', 2)
    made = {}
    for v in lay:
        dims = ([t] if v['t'] > 1 else []) + ([y] if v['dist'] else []) + ([nb] if v['nb'] > 1 else [])
        shp = [len(d) for d in dims]
        kw = {'mask': np.array(v['mask'], dtype=bool).reshape(shp)} if v['mask'] else {}
        made[v['name']] = Variable(v['name'], value=np.array(v['vals'], dtype=v['type']).reshape(shp), dimensions=dims, **kw)
    vc = VariableCollection()
    for v in lay:
        if v['bounds']:
            made[v['name']].set_bounds(made[v['bounds']])
    for v in lay:
        if v['name'] not in vc and not v['name'].endswith('_bnds'):
            vc.add_variable(made[v['name']])
    return vc


def w_slices(c):
    import numpy as np
    from ocgis import vm
    from ocgis.vmachine.mpi import OcgDist, variable_scatter, variable_gather, variable_collection_scatter
    n = c['n']
    lay = c['lay']
    dist = OcgDist()
    dist.create_dimension('y', n, dist=True)
    if c['opt']['full']:
        dist.create_dimension('t', 2)
        dist.create_dimension('nb', 2)
    dist.update_dimension_bounds()
    src = build(lay, n) if vm.rank == 0 else None
    if c['opt']['how'] == 'variable':
        var = variable_scatter(src['data'] if vm.rank == 0 else None, dist)
    else:
        var = variable_collection_scatter(src, dist)['data']
    obs = []

    def see(var):
        live = not var.is_empty
        o = {'live': live, 'lower': -1, 'upper': -1, 'total': -1, 'vars': []}
        if live:
            d = var.dimensions_dict['y']
            o['lower'], o['upper'] = [int(x) for x in d.bounds_local]
            o['total'] = int(d.bounds_global[1])
            o['vars'] = [see_var(v) for v in var.parent.values()]
        return o
    obs.append(see(var))
    scopes = []
    k = 0
    whole = n
    out = True
    try:
        for op in c['ops']:
            s = vm.scoped_by_emptyable('op-{}'.format(k), var)
            s.__enter__()
            scopes.append(s)
            if vm.is_null:
                out = False
                break
            d = var.dimensions_dict['y']
            lo, hi = d.bounds_local
            if op['op'] == 'range':
                sl = slice(op['a'], op['b'])
            else:
                sl = np.array(op['m'][lo:hi], dtype=bool)
            tgt = var if c['opt']['on'] == 'data' else var.parent['flag']
            if tgt.ndim == 2:
                new = tgt.get_distributed_slice((slice(None), sl))
            else:
                new = tgt.get_distributed_slice(sl)
            var = new.parent['data'] if not new.is_empty else new
            obs.append(see(var))
            k += 1
        gathered = []
        if out:
            s = vm.scoped_by_emptyable('last', var)
            s.__enter__()
            scopes.append(s)
            if not vm.is_null:
                for nm in [v['name'] for v in lay if not v['name'].endswith('_bnds')]:
                    g = variable_gather(var.parent[nm].extract())
                    if g is not None:
                        gathered.append(see_var(g))
                        if g.bounds is not None:
                            gathered.append(see_var(g.bounds))
    finally:
        for s in reversed(scopes):
            s.__exit__(None, None, None)
    while len(obs) < len(c['ops']) + 1:
        obs.append({'live': False, 'lower': -1, 'upper': -1, 'total': -1, 'vars': []})
    return {'obs': obs, 'gathered': gathered}


def w_arrays(c):
    import numpy as np
    from ocgis import vm, Dimension
    from ocgis.util.helpers import arange_from_dimension, create_unique_global_array
    from ocgis.spatial.geomc import reduce_reindex_coordinate_index
    from ocgis.variable.dimension import create_distributed_dimension
    from ocgis.vmachine.mpi import hgather
    mine = np.array(c['data'][vm.rank], dtype=c['type'])
    u = create_unique_global_array(mine)
    ar = arange_from_dimension(create_distributed_dimension(len(mine), name='d'), start=c['start'], dtype=c['type'])
    parts = vm.gather(mine)
    joined = hgather(parts) if vm.rank == 0 else []
    new, u2 = reduce_reindex_coordinate_index(mine, start_index=c['start'])
    if not np.array_equal(np.asarray(u), np.asarray(u2)):
        raise AssertionError('unique differs')
    return {'unique': flat(u), 'arange': flat(ar), 'joined': flat(joined), 'reindex': flat(new)}


def field_of(c):
    """A small field in memory, the same on every process."""
    import numpy as np
    from ocgis import Field, Grid, Variable, Dimension, TemporalVariable
    from ocgis.variable.crs import Spherical
    ny, nx, nt = c['ny'], c['nx'], c['nt']
    y, x, t = Dimension('y', ny), Dimension('x', nx), Dimension('time', nt)
    vy = Variable('y', value=np.arange(ny) * 1. + 10, dimensions=y)
    vx = Variable('x', value=np.arange(nx) * 2. + 20, dimensions=x)
    if c['bounds']:
        vy.set_extrapolated_bounds('y_bounds', 'bounds')
        vx.set_extrapolated_bounds('x_bounds', 'bounds')
    tv = TemporalVariable(name='time', value=np.arange(nt) * 1. + 1, dimensions=t, units='days since 2001-01-01')
    val = (np.arange(nt * ny * nx) * 7 % 31 + 1.).reshape(nt, ny, nx)
    mask = None
    if c['masked']:
        mask = (np.arange(nt * ny * nx) * 5 % 7 == 0).reshape(nt, ny, nx)
    data = Variable('data', value=val, mask=mask, dimensions=[t, y, x], dtype=float)
    flat_ = Variable('relief', value=np.arange(ny * nx).reshape(ny, nx) * 1., dimensions=[y, x])
    return Field(grid=Grid(vx, vy, crs=Spherical()), time=tv, is_data=data, variables=flat_, crs=Spherical())


def scattered(c):
    from ocgis import vm
    from ocgis.vmachine.mpi import OcgDist, variable_collection_scatter
    if vm.size == 1 and not c.get('always'):
        return field_of(c)
    dist = OcgDist()
    dist.create_dimension(c['dim'], c['ny'] if c['dim'] == 'y' else c['nx'], dist=True)
    dist.update_dimension_bounds()
    return variable_collection_scatter(field_of(c) if vm.rank == 0 else None, dist)


def geom_of(c):
    from shapely import wkt
    return wkt.loads(c['geom'])


def piece(field, names):
    """The part of a field this process holds, with where it belongs."""
    out = {}
    for nm in names:
        v = field.get(nm)
        if v is None:
            continue
        m = v.get_mask()
        out[nm] = {'at': [[int(x) for x in d.bounds_local] for d in v.dimensions],
                   'vals': flat(v.get_value(), f=q), 'mask': [0] * v.size if m is None else [int(x) for x in m.flatten()]}
    return out


def w_subset(c):
    from ocgis import vm
    from ocgis.exc import EmptySubsetError
    f = scattered(c)
    with vm.scoped_by_emptyable('subset', f):
        if vm.is_null:
            return {'pieces': {}, 'end': ''}
        try:
            if c['op'] == 'intersects':
                r = f.grid.get_intersects(geom_of(c), optimized_bbox_subset=c['opt']).parent
            elif c['op'] == 'clip':
                r = f.grid.get_intersection(geom_of(c)).parent
            else:
                r = f.get_field_slice({c['dim']: slice(*c['range'])}, distributed=True) if False else f
        except EmptySubsetError:
            return {'pieces': {}, 'end': 'EmptySubsetError'}
        if r.is_empty:
            return {'pieces': {}, 'end': ''}
        ext = None
        p = piece(r, ['data', 'relief', 'x', 'y', 'x_bounds', 'y_bounds', 'time', 'ocgis_spatial_mask'])
        if c['op'] == 'clip':
            import numpy as np
            g = r.grid.get_abstraction_geometry()
            m = g.get_mask()
            p['geom'] = {'at': [[int(x) for x in d.bounds_local] for d in g.dimensions],
                         'vals': [0 if (m is not None and mm) else q(a.area) for a, mm in zip(g.get_value().flatten(), (m if m is not None else np.zeros(g.shape, bool)).flatten())],
                         'mask': [0] * g.size if m is None else [int(x) for x in m.flatten()]}
        return {'pieces': p, 'end': ''}


def w_extent(c):
    from ocgis import vm
    from ocgis.spatial.base import get_extent_global
    f = scattered(c)
    with vm.scoped_by_emptyable('extent', f):
        if vm.is_null:
            return None
        f.set_abstraction_geom(create_ugid=False)
        return [q(x) for x in get_extent_global(f.grid)] + [q(x) for x in f.grid.extent_global] + [int(x) for x in f.grid.shape_global] + \
            [int(f.grid.has_mask_global), len(str(f.geom.geom_type_global) or ''), int(f['data'].has_mask)][:2]


def w_union(c):
    from ocgis import vm
    f = scattered(c)
    with vm.scoped_by_emptyable('union', f):
        if vm.is_null:
            return None
        if c['geom']:
            from ocgis.exc import EmptySubsetError
            f = f.grid.get_intersection(geom_of(c)).parent
        with vm.scoped_by_emptyable('union2', f):
            if vm.is_null:
                return None
            f.set_abstraction_geom()
            r = f.geom.get_unioned(spatial_average=['data', 'relief'])
            if r is None:
                return None
            p = r.parent
            import numpy as np

            def mv(n):
                a = p[n].get_masked_value()
                return [MISS if mm else q(x) for x, mm in zip(a.data.flatten(), np.ma.getmaskarray(a).flatten())]
            return {'area': [q(x.area) for x in r.get_value().flatten()], 'data': mv('data'), 'relief': mv('relief')}


def w_ugid(c):
    from ocgis import vm
    f = scattered(c)
    with vm.scoped_by_emptyable('ugid', f):
        if vm.is_null:
            return None
        f.set_abstraction_geom(create_ugid=False)
        u = f.geom.create_ugid_global('UG', start=c['start'])
        return [int(x) for x in u.get_value().flatten()]


def w_write(c):
    from ocgis import vm
    f = scattered(c)
    path = c['path'] if vm.size > 1 or c.get('always') else c['serial']
    with vm.scoped_by_emptyable('write', f):
        if not vm.is_null:
            f.write(path)
    return None


def w_read(c):
    """Open a file, slice, look."""
    from ocgis import vm, RequestDataset
    rd = RequestDataset(c['source'])
    f = rd.get()
    with vm.scoped_by_emptyable('read', f):
        if vm.is_null:
            return {'pieces': {}, 'end': ''}
        r = f
        if c['range']:
            v = f['data'].get_distributed_slice((slice(None), slice(*c['range']), slice(None)))
            r = v.parent
        if r.is_empty:
            return {'pieces': {}, 'end': ''}
        return {'pieces': piece(r, ['data', 'relief', 'x', 'y', 'x_bounds', 'y_bounds', 'time']), 'end': ''}


def w_ops(c):
    import ocgis
    from ocgis import vm
    d = c['path'] if vm.size > 1 else c['serial']
    kw = dict(c['kw'])
    if 'geom' in kw:
        from shapely import wkt
        kw['geom'] = wkt.loads(kw['geom'])
    rd = ocgis.RequestDataset(c['source'], 'data')
    ops = ocgis.OcgOperations(dataset=rd, dir_output=d, prefix='out', add_auxiliary_files=False, **kw)
    from ocgis import env
    env.OVERWRITE = True
    try:
        ops.execute()
    finally:
        env.OVERWRITE = False
    return None


WORK = {k[2:]: v for k, v in list(globals().items()) if k.startswith('w_')}


def worker(c):
    from ocgis import vm
    try:
        return WORK[c['w']](c)
    finally:
        vm.finalize()


def merge(ranks):
    """Put the pieces of all processes where they say they belong."""
    import numpy as np
    names = sorted({n for r in ranks for n in (r or {}).get('pieces', {})})
    out = {}
    for n in names:
        ps = [r['pieces'][n] for r in ranks if r and n in r['pieces']]
        shape = [max(p['at'][k][1] for p in ps) for k in range(len(ps[0]['at']))]
        val = np.full(shape, -7777777, dtype=int)
        msk = np.full(shape, -1, dtype=int)
        for p in ps:
            sl = tuple(slice(*a) for a in p['at'])
            tgt = val[sl]
            if n != 'ocgis_spatial_mask' and (msk[sl] != -1).any() and (msk[sl] == -1).any():
                return {'end': 'pieces of {} overlap at {}'.format(n, p['at'])}
            if tgt.size != len(p['vals']):
                return {'end': 'piece of {} does not fit its place {}'.format(n, p['at'])}
            val[sl] = np.array(p['vals'], dtype=int).reshape(tgt.shape)
            msk[sl] = np.array(p['mask'], dtype=int).reshape(tgt.shape)
        if n != 'ocgis_spatial_mask':
            out[n] = [shape, val.flatten().tolist(), msk.flatten().tolist()]
        else:
            # a process nothing of whose part is hidden need not carry a mask
            out[n] = np.argwhere(msk == 1).tolist()
    out['end'] = ';'.join(sorted({r['end'] for r in ranks if r and r.get('end')}))
    return out


def dump_nc(path):
    import netCDF4
    import numpy as np
    out = {}
    with netCDF4.Dataset(path) as ds:
        out['dims'] = [[k, len(v)] for k, v in sorted(ds.dimensions.items())]
        for n, v in sorted(ds.variables.items()):
            a = np.ma.asanyarray(v[...])
            m = np.ma.getmaskarray(a)
            vals = [MISS if mm else (q(x) if a.dtype.kind in 'fiu' else str(x)) for x, mm in zip(a.data.flatten(), m.flatten())]
            out['var ' + n] = [list(v.dimensions), vals, str(v.dtype), sorted([k, str(v.getncattr(k))] for k in v.ncattrs())]
        out['names'] = sorted(ds.variables)
    return out


def number(x):
    try:
        return '{:.9g}'.format(float(x))
    except ValueError:
        return x


def dump_dir(d):
    """Every file below a folder.  GIDs only have to tell geometries apart: they are replaced by what they stand for."""
    import csv
    import fiona
    from shapely.geometry import shape
    out = {}
    paths = sorted(os.path.join(root, f) for root, _, files in os.walk(d) for f in files)
    gids = {}
    for p in paths:
        if p.endswith('_gid.shp'):
            with fiona.open(p) as s:
                for r in s:
                    gids[str(r['properties']['GID'])] = str([round(x, 4) for x in shape(r['geometry']).bounds])
    for p in paths:
        rel = os.path.relpath(p, d)
        if p.endswith('.nc'):
            out[rel] = dump_nc(p)
        elif p.endswith('.csv'):
            with open(p) as fh:
                rows = list(csv.reader(fh))
            head = rows[0] if rows else []
            k = head.index('GID') if 'GID' in head else None
            ids = [r[k] for r in rows[1:]] if k is not None else []
            out[rel] = [head, sorted([gids.get(x, '') if j == k else number(x) for j, x in enumerate(r)] for r in rows[1:])]
            out[rel + ' ids'] = [len(rows) - 1, len(set(ids)), len(set(gids.values()))]
        elif p.endswith('.shp'):
            with fiona.open(p) as s:
                recs = [(dict(r['properties']), [round(x, 4) for x in shape(r['geometry']).bounds]) for r in s]
            out[rel] = sorted([sorted((k, number(str(v))) for k, v in a.items() if k != 'GID'), b] for a, b in recs)
            out[rel + ' ids'] = [len(recs), len({str(a.get('GID')) for a, b in recs}), len({str((a.get('GID'), b)) for a, b in recs}), len({str(b) for a, b in recs})]
        else:
            out[rel] = 'present'
    return out


def same(rec, dist, serial):
    keys = sorted(set(dist) | set(serial))
    rec['fields'] = keys
    rec['dist'] = [json.dumps(dist.get(k, 'absent')) for k in keys]
    rec['serial'] = [json.dumps(serial.get(k, 'absent')) for k in keys]
    return rec


GEOMS = ['POLYGON((21 10.5, 27 10.5, 27 12.6, 21 12.6, 21 10.5))', 'POLYGON((19 9, 40 9, 40 30, 19 30, 19 9))',
         'POLYGON((22.1 11.2, 26 15.3, 30 11.1, 22.1 11.2))', 'POINT(24.2 12.3)',
         'MULTIPOLYGON(((19.5 9.6, 21 9.6, 21 10.6, 19.5 10.6, 19.5 9.6)), ((25 13.6, 29 13.6, 29 15, 25 15, 25 13.6)))']


def run(ctx):
    setup_ocgis()
    import copy
    rng = ctx.rng
    consts = 'CONSTANTS Procs = {{{}}} Sizes = {{{}}} MaxOps = {} MinEach = 2\n'
    ctx.model('Dist', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANTS Same Nothing\n' + consts.format('1, 2, 3, 4', '1, 2, 3, 4, 5, 6, 7', ctx.n(2, 3)),
              label='all distributed slice histories')
    none = consts.format('1', '1', 0)
    for p in ctx.n([2, 3, 4], [2, 3, 4, 5, 8]):
        todo = []
        mo = ctx.n(2, 4)
        cases = ctx.generate('Dist', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + consts.format(p, ', '.join(map(str, range(1, ctx.n(12, 24)))), mo),
                             num=ctx.n(60, 400), depth=mo + 1, label='distributed slice histories on {} processes'.format(p))
        for k, c in enumerate(cases):
            opt = {'mask': rng.random() < .5, 'bounds': rng.random() < .5, 'full': rng.random() < .5, 'how': rng.choice(['variable', 'collection']),
                   'on': rng.choice(['data', 'flag']), 'seed': k}
            todo.append(dict(c, w='slices', opt=opt, lay=layout(c['n'], opt)))
        for k in range(ctx.n(12, 80)):
            hi = rng.choice([3, 10, 60])
            todo.append({'w': 'arrays', 'start': rng.choice([0, 1]), 'type': rng.choice(['int32', 'int64']),
                         'data': [[rng.randint(0, hi) for _ in range(rng.randint(1, 9))] for _ in range(p)]})

        def base(always=False):
            return {'ny': rng.randint(2 if rng.random() < .3 else 3, 9), 'nx': rng.randint(2, 5), 'nt': rng.randint(1, 3), 'bounds': rng.random() < .7,
                    'masked': rng.random() < .5, 'dim': rng.choice(['y', 'y', 'x'])}
        for k in range(ctx.n(24, 150)):
            op = rng.choice(['intersects', 'intersects', 'clip'])
            b = base()
            b['bounds'] = b['bounds'] or op == 'clip'
            todo.append(dict(b, w='subset', op=op, geom=rng.choice(GEOMS[:3] + GEOMS[4:] if op == 'clip' else GEOMS), opt=rng.random() < .3))
        for k in range(ctx.n(4, 20)):
            todo.append(dict(base(), w='extent'))
            todo.append(dict(base(), w='ugid', start=rng.choice([0, 1, 5])))
        for k in range(ctx.n(10, 60)):
            b = base()
            todo.append(dict(b, w='union', bounds=True, masked=b['masked'], geom=rng.choice(['', GEOMS[1], GEOMS[2]])))
        srcs = []
        for k in range(ctx.n(5, 20)):
            b = base()
            path = os.path.join(ctx.work, 'w-{}-{}'.format(p, k))
            os.makedirs(path)
            todo.append(dict(b, w='write', path=os.path.join(path, 'd.nc'), serial=os.path.join(path, 's.nc')))
            src = os.path.join(path, 'src.nc')
            field_of(b).write(src)
            a = rng.randint(0, b['ny'] - 1)
            todo.append(dict(b, w='read', source=src, range=rng.choice([None, [a, rng.randint(a + 1, b['ny'])]])))
            srcs.append((src, b))
        for k in range(ctx.n(8, 40)):
            src, b = rng.choice(srcs)
            kw = {'output_format': rng.choice(['nc', 'csv', 'shp', 'csv-shp', 'nc'])}
            if rng.random() < .7 and b['ny'] > 2 and b['bounds']:
                kw['geom'] = rng.choice(GEOMS[:3])
                kw['spatial_operation'] = 'intersects' if kw['output_format'] == 'nc' else rng.choice(['intersects', 'clip'])
                kw['aggregate'] = rng.random() < .4 and kw['output_format'] != 'nc'
            if rng.random() < .4:
                kw['calc'] = [{'func': 'mean', 'name': 'mean'}]
                kw['calc_grouping'] = ['month']
            if kw.get('aggregate') is None:
                kw.pop('aggregate', None)
            path = os.path.join(ctx.work, 'o-{}-{}'.format(p, k))
            for d in ('d', 's'):
                os.makedirs(os.path.join(path, d))
            todo.append({'w': 'ops', 'kw': kw, 'source': src, 'field': b, 'path': os.path.join(path, 'd'), 'serial': os.path.join(path, 's')})
        only = os.environ.get('VERIF_ONLY')
        if only:
            todo = [t for t in todo if t['w'] in only.split(',')]
        res = mpi.run_cases(p, 'harness.m02:worker', todo, timeout=ctx.n(200, 100), restarts=int(os.environ.get('VERIF_RESTARTS', '6')))
        by = {'slices': [], 'arrays': [], 'same': []}
        for k, (c, r) in enumerate(zip(todo, res)):
            rec = {'kind': c['w'] if c['w'] in by else 'same', 'p': p, 'ok': r['ok'], 'err': r['err'],
                   'case': 'p={} {} {}'.format(p, c['w'], json.dumps({a: b for a, b in c.items() if a not in ('lay', 'path', 'serial', 'source')}, sort_keys=True))}
            rs = r['ranks']
            if c['w'] == 'slices':
                rec.update(n=c['n'], ops=c['ops'], vars=c['lay'], obs=[x['obs'] for x in rs],
                           gathered=[x['gathered'] for x in rs if x['gathered']][0] if any(x['gathered'] for x in rs) else [],
                           gatheredon=sum(1 for x in rs if x['gathered']))
            elif c['w'] == 'arrays':
                rec.update(data=c['data'], start=c['start'], unique=[x['unique'] for x in rs], arange=[x['arange'] for x in rs],
                           reindex=[x['reindex'] for x in rs], joined=rs[0]['joined'] if rs else [])
            elif r['ok']:
                s = outcome(worker, c)
                if c['w'] in ('subset', 'read'):
                    same(rec, merge(rs), merge([s['val']]) if s['ok'] else {'end': s['err'] + s['msg']})
                elif c['w'] == 'ugid':
                    # every element its own number, the numbers following on from the start
                    same(rec, {'ids': sorted(sum([x for x in rs if x], []))}, {'ids': sorted(s['val']) if s['ok'] else s['err']})
                elif c['w'] == 'extent':
                    live = [x for x in rs if x]
                    same(rec, {'rank{}'.format(j): x for j, x in enumerate(live)}, {'rank{}'.format(j): s['val'] for j in range(len(live))})
                elif c['w'] == 'union':
                    live = [x for x in rs if x]
                    same(rec, dict(live[0] if live else {}, roots=len(live)), dict(s['val'] or {'err': s['err']}, roots=1))
                elif c['w'] == 'write':
                    same(rec, dump_nc(c['path']), dump_nc(c['serial']))
                elif c['w'] == 'ops':
                    a, b = dump_dir(c['path']), dump_dir(c['serial'])
                    if not s['ok']:
                        b['err'] = s['err'] + s['msg']
                    same(rec, a, b)
            by[rec['kind']].append(rec)
        for kind, what in (('slices', 'scatter, slice, gather'), ('arrays', 'unique, counting, reindexing'), ('same', 'distributed as serial')):
            if by[kind]:
                ctx.judge('Dist', by[kind], what, none)
        if p == 2 and by['slices']:
            bad = copy.deepcopy([r for r in by['slices'] if r['ok'] and r['gathered']][:2])
            for b in bad:
                b['gathered'][0]['vals'][0] += 1
            if bad:
                ctx.expect_reject('Dist', bad, 'gathered value altered', none)
