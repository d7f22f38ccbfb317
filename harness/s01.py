"""S01: spatial subsets."""
import copy

from harness.lib import MISS, encarr, outcome, setup_ocgis

NT = 2


def shapely_of(sel):
    from shapely.geometry import LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon
    from shapely.ops import linemerge, unary_union
    ps = sel['pieces']
    if sel['type'] == 'polys':
        return unary_union([Polygon(p) for p in ps])
    if sel['type'] == 'lines':
        return LineString(ps[0]) if len(ps) == 1 else linemerge([LineString(p) for p in ps])
    return Point(ps[0][0]) if len(ps) == 1 else MultiPoint([p[0] for p in ps])


def build(case, rng):
    """The field of a case."""
    import numpy as np
    from ocgis import Dimension, Field, GeometryVariable, Grid, Variable
    from shapely.geometry import Point, Polygon
    g = case['grid']
    R, C = g['rows'], g['cols']
    pt = np.array(g['pt'], dtype=float)
    cell = np.array(g['cell'], dtype=float)
    mask = np.array(g['mask'], dtype=bool)
    one = g['kind'] == 'geom1'
    dims = ['g'] if one else ['y', 'x']
    shape = (C,) if one else (R, C)
    e = np.ma.array((np.arange(R * C) + 100).reshape(shape), mask=False)
    d = np.ma.array((np.arange(NT * R * C, dtype=float) + 1).reshape((NT,) + shape), mask=False)
    pm = rng.choice([0, 0, .3])
    for arr in (d,):
        m = np.array([rng.random() < pm for _ in range(arr.size)]).reshape(arr.shape)
        if pm and rng.random() < .5:
            m = np.logical_or(m, mask.reshape(shape))
        arr.mask = m
    tvar = Variable(name='time', value=np.arange(NT) * 1., dimensions='time', units='days since 2000-01-01')
    if not d.mask.any() and rng.random() < .5:
        d = d.data
    data = [Variable(name='d', value=d, dimensions=['time'] + dims), Variable(name='e', value=e.data, dimensions=dims)]
    if g['kind'] in ('vector', 'curv'):
        if g['kind'] == 'vector':
            x, y = pt[0, :, 0], pt[:, 0, 1]
            xb = np.array([[cell[0, c, 0, 0], cell[0, c, 1, 0]] for c in range(C)])
            yb = np.array([[cell[r, 0, 0, 1], cell[r, 0, 2, 1]] for r in range(R)])
            if g['desc']:
                yb = yb[:, ::-1]
            x = Variable(name='x', value=x, dimensions='x')
            y = Variable(name='y', value=y, dimensions='y')
            bd = ['bounds']
        else:
            x = Variable(name='x', value=pt[:, :, 0], dimensions=['y', 'x'])
            y = Variable(name='y', value=pt[:, :, 1], dimensions=['y', 'x'])
            xb, yb = cell[:, :, :, 0], cell[:, :, :, 1]
            bd = ['corners']
        if g['abs'] == 'polygon' or rng.random() < .3:
            x.set_bounds(Variable(name='xb', value=xb, dimensions=list(x.dimension_names) + bd))
            y.set_bounds(Variable(name='yb', value=yb, dimensions=list(y.dimension_names) + bd))
        grid = Grid(x, y, abstraction=g['abs'] if x.has_bounds else 'auto')
        f = Field(time=tvar, grid=grid, is_data=data)
        if mask.any():
            f.grid.set_mask(mask)
    else:
        arr = np.empty(shape, dtype=object)
        for k, idx in enumerate(np.ndindex(shape)):
            r, c = (0, idx[0]) if one else idx
            arr[idx] = Polygon(cell[r, c]) if g['abs'] == 'polygon' else Point(*pt[r, c])
        gv = GeometryVariable(name='geom', value=np.ma.array(arr, mask=mask.reshape(shape)) if mask.any() else arr, dimensions=dims)
        f = Field(time=tvar, geom=gv, is_data=data)
    return f


def look(f, g, o, kind, gv=None):
    """What a field holds: mask, coordinates, bounds, data."""
    import numpy as np
    one = kind == 'geom1'

    def two(a):
        return [a] if one else a
    ret = {'cell': [], 'area': []}
    if kind in ('vector', 'curv'):
        grid = f.grid
        R, C = grid.shape
        x, y = np.ma.getdata(grid.x.get_value()), np.ma.getdata(grid.y.get_value())
        if kind == 'vector' and x.ndim == 1:
            x, y = np.meshgrid(x, y)
        m = grid.get_mask()
        if gv is not None:
            gm = gv.get_mask()
            m = gm if m is None else m
            if gm is not None and m is not None and (gm != m).any():
                raise ValueError('mask of geometries and grid differ')
        m = np.zeros((R, C), dtype=bool) if m is None else m
        ret['pt'] = [[[int(x[r, c]), int(y[r, c])] if x[r, c] == int(x[r, c]) else [0, 0] for c in range(C)] for r in range(R)]
        if grid.has_bounds:
            xb, yb = grid.x.bounds.get_value(), grid.y.bounds.get_value()
            if kind == 'vector' and xb.ndim == 2:
                ret['cell'] = [[[[int(px), int(py)] for px in xb[c] for py in yb[r]] for c in range(C)] for r in range(R)]
            else:
                ret['cell'] = [[[[int(px), int(py)] for px, py in zip(xb[r, c], yb[r, c])] for c in range(C)] for r in range(R)]
    else:
        gvv = f.geom
        m = gvv.get_mask()
        m = np.zeros(gvv.shape, dtype=bool) if m is None else m
        R, C = (1, gvv.shape[0]) if one else gvv.shape
        vals = gvv.get_value().reshape(R, C)
        m = m.reshape(R, C)
        gv = gvv
        if o['op'] != 'clip':
            if g['abs'] == 'polygon':
                ret['cell'] = [[[[int(a), int(b)] for a, b in vals[r, c].exterior.coords[:-1]] for c in range(C)] for r in range(R)]
                ret['pt'] = [[[int(2 * vals[r, c].centroid.x) // 2, int(2 * vals[r, c].centroid.y) // 2] for c in range(C)] for r in range(R)]
            else:
                ret['pt'] = [[[int(vals[r, c].x), int(vals[r, c].y)] for c in range(C)] for r in range(R)]
    if o['op'] == 'clip':
        vals = gv.get_value().reshape(R, C)
        gm = gv.get_mask()
        gm = np.zeros((R, C), dtype=bool) if gm is None else gm.reshape(R, C)
        ret['area'] = [[-1 if gm[r, c] or not hasattr(vals[r, c], 'area') or vals[r, c].is_empty else (int(round(vals[r, c].area)) if abs(vals[r, c].area - round(vals[r, c].area)) < 1e-9 else 7777777)
                        for c in range(C)] for r in range(R)]
    ret['mask'] = [[bool(m[r, c]) for c in range(C)] for r in range(R)]
    d, e = f['d'].get_masked_value(), f['e'].get_masked_value()
    ret['data'] = [two(encarr(d[t])) for t in range(NT)] + [two(encarr(e))]
    ret['shape'] = [R, C]
    return ret


def one(case, rng, n):
    import numpy as np
    from ocgis.exc import EmptySubsetError
    from ocgis.spatial.spatial_subset import SpatialSubsetOperation
    g, o = case['grid'], case['opt']
    rec = {'grid': g, 'sel': case['sel'], 'opt': o, 'refused': '', 'empty': False, 'shape': [], 'slice': [], 'mask': [], 'pt': [], 'cell': [], 'area': [], 'data': [], 'src': [], 'unchanged': True,
           'case': '{} {} {}x{} {} {} kt={} ub={} idx={} {} {}'.format(g['kind'], g['abs'], g['rows'], g['cols'], case['sel']['type'], o['op'], o['kt'], o['ub'], o['index'], o['level'], n)}

    def go():
        f = build(case, rng)
        nop = dict(o, op='')
        before = look(f, g, nop, g['kind'])
        rec['src'] = before['data']
        geom = shapely_of(case['sel'])
        kt = {'auto': 'auto', 'T': True, 'F': False}[o['kt']]
        spop = 'intersection' if o['op'] == 'clip' else 'intersects'
        slc = None
        gv = None
        try:
            if o['level'] == 'field':
                out, slc = SpatialSubsetOperation(f).get_spatial_subset('clip' if o['op'] == 'clip' else 'intersects', geom, use_spatial_index=o['index'], keep_touches=kt, return_slice=True,
                                                                         optimized_bbox_subset=o['op'] == 'bbox')
                gv = out.geom if o['op'] == 'clip' else None
            elif g['kind'] in ('vector', 'curv'):
                kw = {'keep_touches': kt, 'return_slice': True, 'use_bounds': 'auto' if o['ub'] == 'auto' else False}
                if o['op'] == 'bbox':
                    kw['optimized_bbox_subset'] = True
                ret, slc = f.grid.get_spatial_subset_operation(spop, geom, **kw)
                gv = ret if o['op'] == 'clip' else None
                out = ret.parent
            else:
                ret, slc = f.geom.get_spatial_subset_operation(spop, geom, keep_touches=False if kt == 'auto' else kt, return_slice=True, use_spatial_index=o['index'])
                out = ret.parent
        except EmptySubsetError:
            rec['empty'] = True
        else:
            rec.update(look(out, g, o, g['kind'], gv))
            if slc is not None:
                slc = [x for s in slc for x in (int(s.start), int(s.stop))]
                rec['slice'] = ([0, 1] if g['kind'] == 'geom1' else []) + slc
        rec['unchanged'] = look(f, g, nop, g['kind']) == before
    oc = outcome(go)
    if not oc['ok']:
        rec['refused'] = '{}: {}'.format(oc['err'], oc['msg'])
        rec['case'] += ' ' + oc['err']
    return rec


def consts(n, few):
    return 'CONSTANTS MaxN = {}\n'.format(n) + ''.join(' {} <- {}\n'.format(a, ('Few' if few else 'Many') + b) for a, b in (('Steps', 'Steps'), ('Lo', 'Lo'), ('Sz', 'Sz'), ('Uz', 'U'), ('Vz', 'V')))


def run(ctx):
    setup_ocgis()
    ctx.model('SpatialMC', 'INIT Init\nNEXT Next\nINVARIANTS IndexSound Exact\n' + consts(ctx.n(1, 2), True), label='cells against selections, with and without a search structure', timeout=850)
    c = consts(5, False)
    cases = ctx.generate('SpatialMC', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + c, num=ctx.n(1500, 10000), depth=6, label='grids and selections')
    recs = [one(cs, ctx.rng, k) for k, cs in enumerate(cases)]
    ctx.judge('SpatialMC', recs, 'spatial subset', c)
    good = [r for r in recs if not r['refused'] and not r['empty']][:3]
    bad = copy.deepcopy(good)
    for b in bad:
        b['mask'][0][0] = not b['mask'][0][0]
    ctx.expect_reject('SpatialMC', bad, 'a cell of the wrong side', c)
