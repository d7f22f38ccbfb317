"""S03: unioned geometries and spatial averages."""
import copy
import hashlib
import itertools
import os
import shutil
import tempfile

from harness.lib import MISS, outcome, ratio, setup_ocgis

SIZE = {'t': 2, 'l': 3}
C = 'CONSTANTS Width = {} MaxN = {} Vals = {}\n'


def shape(squares):
    from shapely.geometry import Polygon, box
    from shapely.ops import unary_union
    if not squares:
        return Polygon()
    return unary_union([box(x, y, x + 1, y + 1) for x, y in squares])


def points(ps):
    from shapely.geometry import MultiPoint, Point
    ps = [Point(x + .5, y + .5) for x, y in ps]
    return ps[0] if len(ps) == 1 else MultiPoint(ps)


def build(f, hidden):
    import numpy as np
    from ocgis import Field, GeometryVariable, Grid, Variable
    from ocgis.variable.crs import CoordinateReferenceSystem
    from ocgis.variable.temporal import TemporalVariable
    n = len(f['sq'])
    crs = CoordinateReferenceSystem(epsg=5070)
    gm = np.array([e + 1 in f['gm'] for e in range(n)])
    vs = [TemporalVariable(name='t', value=[10., 40.], dimensions='t', units='days since 2001-01-01', attrs={'axis': 'T'}),
          Variable(name='l', value=[5., 6., 7.], dimensions='l', attrs={'axis': 'Z'}), Variable(name='other', value=[[1, 2, 3], [4, 5, 6]], dimensions=['t', 'l'], mask=[[False, True, False]] * 2)]
    sp = ['y', 'x'] if f['kind'] == 'grid' else ['n']
    size = dict(SIZE, y=f['ny'], x=f['nx'], n=n)
    for k, d in enumerate(f['data']):
        other = [m for m in d['dims'] if m not in sp]
        canon = ['t'] * ('t' in other) + ['l'] * ('l' in other) + sp
        a = np.array(d['vals']).reshape([size[m] for m in canon])
        a = a.transpose([canon.index(m) for m in d['dims']])
        mask = a == MISS
        a = np.where(mask, hidden, a).astype(d['type'])
        vs.append(Variable(name='v{}'.format(k), value=a, dimensions=d['dims'], mask=mask if mask.any() or d['masked'] else None, units='m'))
    data = [v.name for v in vs if v.name.startswith('v')]
    if f['kind'] == 'grid':
        x, y = [Variable(name=m, value=[(a + b) / 2 for a, b in zip(e[:-1], e[1:])], dimensions=m, attrs={'axis': m.upper(), 'standard_name': 'projection_{}_coordinate'.format(m)}) for m, e in (('x', f['xs']), ('y', f['ys']))]
        for v, e in ((x, f['xs']), (y, f['ys'])):
            v.set_bounds(Variable(name=v.name + '_b', value=[[float(a), float(b)] for a, b in zip(e[:-1], e[1:])], dimensions=[v.name, 'b']))
        ret = Field(variables=vs, grid=Grid(x, y, crs=crs), is_data=data, crs=crs, name='f')
        if gm.any():
            ret.grid.set_mask(gm.reshape(f['ny'], f['nx']))
        ret.set_abstraction_geom()
    else:
        val = np.empty(n, dtype=object)
        for e in range(n):
            val[e] = points(f['sq'][e]) if f['kind'] == 'points' else shape(f['sq'][e])
        geom = GeometryVariable(name='g', value=val, dimensions='n', mask=gm if gm.any() else None, crs=crs)
        ret = Field(variables=vs, geom=geom, is_data=data, crs=crs, name='f')
    for k, v in enumerate(vs):
        if v.name in ('t', 'l'):
            ret.dimension_map.set_variable({'t': 'time', 'l': 'level'}[v.name], v.name, dimension=v.name)
    return ret


def digest(f):
    out = []
    for v in f.values():
        if v.name.startswith('v') or v.name in ('x', 'y', 'g'):
            val = v.get_value()
            m = v.get_mask()
            out.append((v.name, v.dimension_names, [str(a) for a in val.reshape(-1)], None if m is None or not m.any() else m.tolist()))
    return hashlib.md5(repr(out).encode()).hexdigest()


def squares(s):
    from shapely.geometry import Point
    return [[x, y] for x in range(-3, 14) for y in range(-3, 12) if s.contains(Point(x + .5, y + .5))]


def look(f, rec, ops):
    import numpy as np
    g = f.geom
    rec['size'] = int(g.size)
    s = g.get_value().reshape(-1)[0]
    parts = list(s.geoms) if hasattr(s, 'geoms') else ([] if s.is_empty else [s])
    if rec['f']['kind'] == 'points':
        rec['squares'] = [[int(p.x - .5), int(p.y - .5)] for p in parts]
        rec['area'] = 0
    else:
        rec['squares'] = squares(s)
        rec['area'] = int(round(s.area)) if abs(s.area - round(s.area)) < 1e-6 else -1
    rec['got'] = []
    for k, d in enumerate(rec['f']['data']):
        v = f['v{}'.format(k)]
        dims = ['u' if m == g.dimension_names[0] else m for m in v.dimension_names]
        a = v.get_masked_value()
        canon = [dims.index(m) for m in ('t', 'l', 'u') if m in dims]
        tol = 1e-5 if v.dtype == np.float32 else 1e-9
        vals = [ratio(q, 400, tol) for q in a.transpose(canon).reshape(-1)] if len(canon) == a.ndim else []
        rec['got'].append({'dims': dims, 'vals': vals})
    t, lev, o = f['t'], f['l'], f['other']
    rec['rest'] = t.get_value().tolist() == [10., 40.] and lev.get_value().tolist() == [5., 6., 7.] and o.get_masked_value().tolist() == [[1, None, 3], [4, None, 6]] and o.dimension_names == ('t', 'l')


def edges(f, c):
    if c['f']['kind'] == 'points':
        return False
    return any(hasattr(e, 'geom_type') and (e.geom_type == 'GeometryCollection' or ('Polygon' not in e.geom_type and not e.is_empty)) for e in f.geom.get_value().reshape(-1))


def one(c):
    import numpy as np
    from ocgis import OcgOperations
    from ocgis.exc import EmptySubsetError, ExtentError
    rec = dict(c)
    f = build(c['f'], {'fill': 1e6, 'zero': 0}[c['mask']])
    rec['case'] = '{} {} {}'.format(c['f']['kind'], c['way'], ' '.join(o['op'] for o in c['hist']))
    before = digest(f)
    src = f
    rec['source'] = True
    hist = list(c['hist'])
    if c['way'] == 'operations' and c['f']['kind'] == 'grid' and sum('shape' in o for o in hist) > 1:
        # Operations select from the cells of the grid.
        return None
    last = hist.pop() if c['way'] == 'operations' and hist and hist[-1]['op'] in ('clip', 'intersects') else None
    try:
        for o in hist:
            if o['op'] == 'mask':
                f = f.copy()
                els = np.array([e + 1 in o['els'] for e in range(f.geom.size)]).reshape(f.geom.shape)
                old = f.geom.get_mask()
                f.geom.set_mask(els if old is None else els | old)
                if c['f']['kind'] == 'grid' and c['way'] == 'operations':
                    # Operations select from the cells of the grid.
                    old = f.grid.get_mask()
                    f.grid.set_mask(els if old is None else els | old)
            elif o['op'] == 'blank':
                f = f.copy()
                els = np.array([e + 1 in o['els'] for e in range(f.geom.size)]).reshape(f.geom.shape)
                for v in f.data_variables:
                    sp = [m for m in v.dimension_names if m in ('y', 'x', 'n')]
                    m = els.T if sp == ['x', 'y'] else els
                    m = np.broadcast_to(m.reshape([v.shape[k] if v.dimension_names[k] in sp else 1 for k in range(v.ndim)]), v.shape)
                    old = v.get_mask()
                    v.set_mask(m.copy() if old is None else m | old)
            else:
                s = shape(o['shape'])
                kw = {}
                if o['op'] == 'cut':
                    kw['intersects_check'] = False
                if edges(f, c):
                    # Edges left over touch what comes next.
                    return None
                n = f.geom.size
                f = getattr(f.geom, 'get_intersects' if o['op'] == 'intersects' else 'get_intersection')(s, **kw).parent
                if f.geom.size != n and any(x['op'] in ('mask', 'blank') for x in hist[hist.index(o):]):
                    # Elements are dropped: numbers no longer name them.
                    return None
        if c['way'] == 'operations':
            if last is not None and edges(f, c):
                return None
            kw = {}
            if last is not None:
                kw = {'geom': shape(last['shape']), 'spatial_operation': last['op']}
                kw['geom'] = [{'geom': kw['geom'], 'crs': f.crs, 'properties': {'UGID': 1}}]
            f = OcgOperations(dataset=f, aggregate=True, output_format='ocgis', **kw).execute().get_element()
        else:
            if c['over'] != 'all' and c['f']['kind'] == 'grid':
                p = f.geom.get_unioned(dimensions=[c['over']])
                rec['parts'] = [squares(s) for s in p.get_value().reshape(-1)] if p.dimension_names[0] != c['over'] and p.ndim == 2 else []
            f = f.geom.get_unioned(spatial_average=[v.name for v in f.data_variables]).parent
        rec['outcome'] = 'done'
    except (EmptySubsetError, ExtentError):
        rec['outcome'] = 'refused'
    if rec['outcome'] == 'done':
        look(f, rec, c['way'])
    rec['source'] = digest(src) == before
    return rec


def run(ctx):
    setup_ocgis()
    ctx.model('Union', 'INIT Init\nNEXT Next\nINVARIANT Laws\n' + C.format(2, ctx.n(2, 2), ctx.n('{1, 4}', '{0, 1, 4}')), label='unions over a small plane', timeout=850)
    c = C.format(1, 1, '{1}')
    recs = []
    for cs in ctx.generate('Union', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + c, num=ctx.n(1500, 12000), depth=6, label='fields and operations'):
        try:
            r = one(cs)
        except Exception as e:
            if os.environ.get('S03_TRACE'):
                import traceback
                traceback.print_exc()
            r = dict(cs, outcome='{}: {}'.format(type(e).__name__, e), source=True, case='{} {} {}'.format(cs['f']['kind'], cs['way'], ' '.join(o['op'] for o in cs['hist'])))
        if r is not None:
            recs.append(r)
    for r in recs:
        o = r['outcome'].split(':')[0]
        ctx.cover[o] = ctx.cover.get(o, 0) + 1
    j = 'INIT JInit\nNEXT JNext\n' + c
    ctx.judge('Union', recs, 'unions', j)
    good = [r for r in recs if r['outcome'] == 'done' and any(v for d in r['got'] for v in d['vals'])][:4]
    for what in ('a mean off', 'a mask lost', 'a square lost'):
        bad = copy.deepcopy(good)
        for b in bad:
            if what == 'a square lost':
                b['squares'] = b['squares'][1:]
                continue
            v = next(d['vals'] for d in b['got'] if any(d['vals']))
            k = next(k for k in range(len(v)) if v[k])
            v[k] = [] if what == 'a mask lost' else [v[k][0] + 1, v[k][1]]
        ctx.expect_reject('Union', bad, what, j)
