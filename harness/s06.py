"""S06: chunked grids."""
import copy
import itertools
import os
import shutil
import tempfile

from harness.lib import setup_ocgis

C = 'CONSTANTS MaxN = {} MaxK = {} Edge = {}\n'


def build(q, which, mask, path, data=None, rng=None):
    """a field over the grid; x and y are unique numbers (so that cells are found again in files)"""
    import numpy as np
    from ocgis import Field, Grid, Variable
    from ocgis.variable.crs import Spherical
    from ocgis.variable.temporal import TemporalVariable
    unit = 10. if q['globe'] else 1.
    ex, ey = [unit * np.array(q[which + a], dtype=float) for a in 'xy']
    x, y = (ex[1:] + ex[:-1]) / 2, (ey[1:] + ey[:-1]) / 2
    bx, by = [np.stack([e[:-1], e[1:]], 1) for e in (ex, ey)]
    if q['curved']:
        X, Y = np.meshgrid(x, y)
        vx, vy = [Variable(name=n, value=v, dimensions=['y', 'x'], attrs={'axis': n.upper()}) for n, v in (('x', X), ('y', Y))]
        if q['bounds']:
            cx = np.stack([np.tile(bx[:, k], (len(y), 1)) for k in (0, 1, 1, 0)], 2)
            cy = np.stack([np.tile(by[:, k].reshape(-1, 1), (1, len(x))) for k in (0, 0, 1, 1)], 2)
            vx.set_bounds(Variable(name='xc', value=cx, dimensions=['y', 'x', 'corners']))
            vy.set_bounds(Variable(name='yc', value=cy, dimensions=['y', 'x', 'corners']))
    else:
        vx, vy = Variable(name='x', value=x, dimensions='x', attrs={'axis': 'X'}), Variable(name='y', value=y, dimensions='y', attrs={'axis': 'Y'})
        if q['bounds']:
            vx.set_bounds(Variable(name='xb', value=bx, dimensions=['x', 'bounds']))
            vy.set_bounds(Variable(name='yb', value=by, dimensions=['y', 'bounds']))
    crs = Spherical()
    vs, kw = [], {}
    if data:
        sizes = {'t': 2, 'y': len(y), 'x': len(x)}
        val = np.arange(1, np.prod([sizes[d] for d in data]) + 1, dtype=float).reshape([sizes[d] for d in data])
        m = None
        if q['holes']:
            m = rng.randint(0, 5, val.shape) == 0
        vs.append(Variable(name='v', value=val, dimensions=list(data), mask=m))
        kw['is_data'] = 'v'
        if 't' in data:
            vs.append(TemporalVariable(name='t', value=[1., 2.], dimensions='t', units='days since 2001-01-01', attrs={'axis': 'T'}))
    f = Field(variables=vs, grid=Grid(vx, vy, crs=crs), crs=crs, **kw)
    if data and 't' in data:
        f.dimension_map.set_variable('time', 't', dimension='t')
    masked = []
    if mask:
        m = rng.randint(0, 4, (len(y), len(x))) == 0
        m[0, :] = False
        m[:, -1] = False
        f.grid.set_mask(m)
        masked = (np.where(m.reshape(-1))[0] + 1).tolist()
    f.write(path)
    return x, y, masked


def find(path, x, y, q, data=True):
    """the numbers of the cells in the file, in order"""
    import netCDF4 as nc
    import numpy as np
    with nc.Dataset(path) as ds:
        a, b = ds.variables['x'][...], ds.variables['y'][...]
        if a.ndim == 1:
            a, b = np.meshgrid(a, b)
        ret = []
        for u, v in zip(np.asarray(a).reshape(-1), np.asarray(b).reshape(-1)):
            i, j = np.where(np.abs(x - u) < 1e-6)[0], np.where(np.abs(y - v) < 1e-6)[0]
            ret.append(int(j[0]) * len(x) + int(i[0]) + 1 if len(i) == 1 and len(j) == 1 else -1)
    return ret


def values(path, dims):
    import netCDF4 as nc
    import numpy as np
    with nc.Dataset(path) as ds:
        v = np.ma.asarray(ds.variables['v'][...])
        return ['masked' if m else '{:g}'.format(d) for d, m in zip(np.ma.getdata(v).reshape(-1), np.ma.getmaskarray(v).reshape(-1))]


def window(slc, names):
    return [int(v) for n in names for v in (slc[n].start, slc[n].stop)]


def one(q, work):
    import netCDF4 as nc
    import numpy as np
    import ocgis
    from ocgis import RequestDataset
    from ocgis.exc import EmptySubsetError
    from ocgis.spatial.grid_chunker import GridChunker
    d = tempfile.mkdtemp(dir=work)
    rng = np.random.RandomState(q['seed'])
    np.random.seed(q['seed'])
    rec = {'q': q, 'case': ' '.join('{}={}'.format(k, v) for k, v in sorted(q.items())), 'outcome': 'done', 'files': True, 'chunks': [], 'merged': [], 'hasmerged': False, 'smasked': [], 'index': True, 'same': True, 'single': True, 'master': {'outcome': 'none', 'open': [], 'got': [], 'want': []}}
    try:
        sp, dp = os.path.join(d, 'src.nc'), os.path.join(d, 'dst.nc')
        sx, sy, rec['smasked'] = build(q, 's', q['smask'], sp, rng=rng)
        dx, dy, dmasked = build(q, 'd', q['dmask'], dp, data=q['dims'], rng=rng)
        kw = {'nchunks_dst': (q['ky'], q['kx']), 'eager': q['eager'], 'paths': {'wd': d}, 'use_spatial_decomp': q['decomp'], 'optimized_bbox_subset': {'auto': 'auto', 'yes': True, 'no': False}[q['opt']]}
        if q['buf'] >= 0:
            kw['buffer_value'] = q['buf'] * (10. if q['globe'] else 1.)
        obj = [RequestDataset(p) for p in (sp, dp)]
        if not q['files']:
            obj = [o.get() for o in obj]
        try:
            gc = GridChunker(obj[0], obj[1], **kw)
        except NotImplementedError:
            rec['outcome'] = 'unsupported'
            return rec
        names = [x.name for x in gc.dst_grid.dimensions]
        before = [gc.src_grid.shape, gc.dst_grid.shape, gc.src_grid.get_mask() is None or gc.src_grid.get_mask().tolist()]
        rng_state = np.random.get_state()
        for sub, ss, dsub, ds in gc.iter_src_grid_subsets(yield_dst=True):
            rec['chunks'].append({'dst': window(ds, names), 'src': window(ss, names) if ss is not None else [], 'dfile': [], 'sfile': [], 'w': []})
        rec['same'] = before == [gc.src_grid.shape, gc.dst_grid.shape, gc.src_grid.get_mask() is None or gc.src_grid.get_mask().tolist()]
        # a single chunk asked for by its number is the one of the whole sequence
        k = int(rng.randint(len(rec['chunks'])))
        np.random.set_state(rng_state)
        alone = [window(s, names) for _, s in gc.iter_dst_grid_subsets(yield_slice=True, yield_idx=k)]
        rec['single'] = alone == [rec['chunks'][k]['dst']] or (q['decomp'] and len(rec['chunks']) < q['ky'] * q['kx'])
        if gc.is_one_chunk:
            rec['files'] = False
            return rec
        np.random.set_state(rng_state)
        gc.write_chunks()
        wgt = []
        with nc.Dataset(os.path.join(d, '01-split_index.nc')) as ds:
            ix = next(v for v in ds.variables.values() if any('bounds' in k for k in v.ncattrs()))
            att = {k: ix.getncattr(k) for k in ix.ncattrs()}
            bnd = {}
            for k in att:
                if 'bounds' in k:
                    bnd[k] = np.asarray(ds.variables[att[k]][...]).tolist()
            shapes = [np.asarray(att[k]).tolist() for k in sorted(att) if 'shape' in k]
            rec['bounds_names'] = sorted(bnd)
            for n, c in enumerate(rec['chunks']):
                for w, key in (('dst', 'dst'), ('src', 'src')):
                    if c[w]:
                        xb, yb = [bnd['{}_{}_bounds'.format(w, a)] for a in 'xy']
                        if yb[n] + xb[n] != c[w]:
                            rec['index'] = False
            if sorted(shapes) != sorted([[len(sy), len(sx)], [len(dy), len(dx)]]):
                rec['index'] = False
        for n, c in enumerate(rec['chunks'], start=1):
            c['dfile'] = find(os.path.join(d, 'split_dst_{}.nc'.format(n)), dx, dy, q)
            p = os.path.join(d, 'split_src_{}.nc'.format(n))
            if c['src']:
                c['sfile'] = find(p, sx, sy, q)
            if not c['src'] or (q['missing'] and rng.randint(3) == 0):
                continue
            nd, ns = len(c['dfile']), len(c['sfile'])
            m = int(rng.randint(0 if n > 1 else 1, 6))
            c['w'] = [[int(rng.randint(nd)) + 1, int(rng.randint(ns)) + 1, 10 * n + k] for k in range(m)]
            with nc.Dataset(os.path.join(d, 'esmf_weights_{}.nc'.format(n)), 'w', format='NETCDF3_64BIT_OFFSET') as ds:
                ds.createDimension('n_s', m) if m else ds.createDimension('n_s', None)
                for k, (v, t) in enumerate((('row', 'i4'), ('col', 'i4'), ('S', 'f8'))):
                    ds.createVariable(v, t, ('n_s',))
                    if m:
                        ds.variables[v][:] = [t_[k] for t_ in c['w']]
        if any(c['w'] for c in rec['chunks']):
            mp = os.path.join(d, 'merged.nc')
            gc.create_merged_weight_file(mp)
            with nc.Dataset(mp) as ds:
                rec['hasmerged'] = True
                rec['merged'] = [[int(r), int(c), int(s)] for r, c, s in zip(ds.variables['row'][:], ds.variables['col'][:], ds.variables['S'][:])]
        rec['master']['want'] = values(dp, q['dims'])
        cells = np.arange(1, len(dx) * len(dy) + 1).reshape(len(dy), len(dx))
        cells = cells.T if q['dims'].index('x') < q['dims'].index('y') else cells
        shape = [len({'t': (1, 2), 'y': dy, 'x': dx}[k]) for k in q['dims']]
        rec['master']['open'] = (np.where(np.isin(np.broadcast_to(cells.reshape([1 if k == 't' else n for k, n in zip(q['dims'], shape)]), shape).reshape(-1), dmasked))[0] + 1).tolist()
        master = os.path.join(d, 'master.nc')
        shutil.copy(dp, master)
        with nc.Dataset(master, 'a') as ds:
            ds.variables['v'][...] = 0
        try:
            GridChunker.insert_weighted(os.path.join(d, '01-split_index.nc'), d, master, data_variables=['v'])
            rec['master'].update(outcome='done', got=values(master, q['dims']))
        except Exception as e:
            rec['master']['outcome'] = '{}: {}'.format(type(e).__name__, e)[:200]
            if os.environ.get('S06_TRACE'):
                raise
        return rec
    except EmptySubsetError:
        rec['outcome'] = 'refused'
        return rec
    except RuntimeError as e:
        # All processes are stopped.
        rec['outcome'] = 'masked' if q['dmask'] else str(e)
        return rec
    except Exception as e:
        if os.environ.get('S06_TRACE'):
            import traceback
            traceback.print_exc()
        rec['outcome'] = '{}: {}'.format(type(e).__name__, e)[:200]
        return rec
    finally:
        shutil.rmtree(d)


def run(ctx):
    setup_ocgis()
    ctx.model('Chunks', 'INIT Init\nNEXT Next\nINVARIANT Laws\n' + C.format(3, 3, ctx.n(4, 5)), label='chunks of small grids in every order', timeout=850)
    c = C.format(1, 1, 1)
    j = 'INIT JInit\nNEXT JNext\n' + c
    recs = [one(q, ctx.work) for q in ctx.generate('Chunks', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + c, num=ctx.n(250, 2500), depth=3, label='grids and settings')]
    for r in recs:
        k = r['outcome'].split(':')[0]
        ctx.cover[k] = ctx.cover.get(k, 0) + 1
    ctx.judge('Chunks', recs, 'chunks, merged weights and files written back', j)
    good = [r for r in recs if r['outcome'] == 'done' and r['hasmerged'] and len(r['chunks']) > 1][:4]
    bad = copy.deepcopy(good)
    for b in bad:
        b['merged'][0][0] += 1
    ctx.expect_reject('Chunks', bad, 'a weight off', j)
    bad = copy.deepcopy(good)
    for b in bad:
        b['chunks'][0]['dst'][1] += 1
    ctx.expect_reject('Chunks', bad, 'a chunk too large', j)
