"""S02: wrapping and unwrapping."""
import copy

from harness import mpi
from harness.lib import outcome, setup_ocgis

U = 7.5
CONST = 'CONSTANTS MaxSteps = {} MaxN = {} Starts <- {}\n'
MISS = -999999


def whole(x):
    k = round(float(x) / U)
    return k if abs(k * U - float(x)) < 1e-3 else 99999


def shape_of(o, k):
    from shapely.geometry import MultiPoint, Point, box
    from shapely.ops import unary_union
    if o['kind'] == 'point':
        p = [Point(x * U, y * U) for x, y in o['pts'][k]]
        return p[0] if len(p) == 1 else MultiPoint(p)
    return unary_union([box(x * U, y * U, (x + 1) * U, (y + 1) * U) for x, y in o['cells'][k]])


def shapes(o, c):
    import numpy as np
    from ocgis import Field, GeometryVariable
    from ocgis.variable.crs import Spherical
    n = len(o['masked'])
    val = np.empty(n, dtype=object)
    for k in range(n):
        val[k] = shape_of(o, k)
    gv = GeometryVariable(name='g', value=val, mask=o['masked'] if any(o['masked']) else None, dimensions='n', crs=Spherical())
    if c['host'] == 'field':
        return Field(geom=gv, crs=Spherical()), gv
    return gv, gv


def grid(o, c):
    import numpy as np
    from ocgis import Field, Grid, Variable
    from ocgis.variable.crs import Spherical
    nr, n = len(o['perm']), len(o['rows'][0])
    rows = np.array(o['rows'], dtype=float) * U
    t = c['type'] if not (c['type'] == 'i4' and (rows % 1).any()) else 'f8'
    y = np.arange(nr) * U + 1.5 * U
    if o['kind'] == 'vector':
        xv = Variable(name='x', value=rows[0].astype(t), dimensions='x')
        yv = Variable(name='y', value=y, dimensions='y')
        if o['bounds']:
            xv.set_bounds(Variable(name='xb', value=np.stack([rows[0] - U, rows[0] + U], axis=1), dimensions=['x', 'b']))
            yv.set_bounds(Variable(name='yb', value=np.stack([y - .5 * U, y + .5 * U], axis=1), dimensions=['y', 'b']))
    else:
        xv = Variable(name='x', value=rows.astype(t), dimensions=['y', 'x'])
        yv = Variable(name='y', value=np.repeat(y.reshape(-1, 1), n, axis=1), dimensions=['y', 'x'])
    f = Field(crs=Spherical(), variables=[xv, yv])
    g = Grid(xv, yv, parent=f, crs=Spherical(), abstraction='polygon' if o['bounds'] else 'point')
    f.set_grid(g)
    ids = np.array([[10 * (r + 1) + k + 1 for k in range(n)] for r in range(nr)])
    m = np.array(o['masked']).reshape(nr, n)
    for name, dims, v in (('yx', 'yx', ids), ('xy', 'xy', ids.T), ('tyx', 'tyx', np.stack([ids, ids + 100])), ('ytx', 'ytx', np.stack([ids, ids + 100], axis=1))):
        mk = {'tyx': lambda: np.stack([m, m]), 'ytx': lambda: np.stack([m, m], axis=1)}.get(name, lambda: m.T if name == 'xy' else m)()
        f.add_variable(Variable(name=name, value=v.astype(float), dimensions=list(dims), mask=mk if m.any() else None), is_data=True)
    if o['kind'] == 'vector':
        f.add_variable(Variable(name='only', value=np.arange(n) + 1, dimensions='x'))
        f.add_variable(Variable(name='tonly', value=np.stack([np.arange(n) + 1, np.arange(n) + 101]), dimensions=['t', 'x']))
    if m.any():
        g.set_mask(m)
    if o['alloc']:
        # Spatial operations leave the geometries of the cells with the grid.
        f.add_variable(g.get_polygon(), force=True)
    return f, g


def cells_of(geom):
    from shapely.geometry import Point
    from shapely.prepared import prep
    import math
    if not hasattr(geom, 'is_empty') or geom.is_empty:
        return [], 0
    x0, y0, x1, y1 = geom.bounds
    p = [prep(q) for q in (geom.geoms if hasattr(geom, 'geoms') else [geom])]
    ret = []
    for i in range(math.floor(x0 / U), math.ceil(x1 / U)):
        for j in range(math.floor(y0 / U), math.ceil(y1 / U)):
            if any(q.contains(Point((i + .5) * U, (j + .5) * U)) for q in p):
                ret.append([i, j])
    a = geom.area / U / U
    return ret, int(round(a)) if abs(a - round(a)) < 1e-3 else -1


def look_shapes(gv):
    from shapely.geometry.base import BaseMultipartGeometry
    m = gv.get_mask()
    m = [False] * gv.size if m is None else m.reshape(-1).tolist()
    rec = {'masked': m, 'cells': [], 'areas': [], 'pts': []}
    for g in gv.get_value().reshape(-1):
        if not hasattr(g, 'geom_type'):
            rec['cells'].append([])
            rec['areas'].append(0)
            rec['pts'].append([])
        elif 'Point' in g.geom_type:
            rec['pts'].append([[whole(p.x), whole(p.y)] for p in (g.geoms if isinstance(g, BaseMultipartGeometry) else [g])])
            rec['cells'].append([])
            rec['areas'].append(0)
        else:
            a, b = cells_of(g)
            rec['cells'].append(a)
            rec['areas'].append(b)
            rec['pts'].append([])
    return rec


def look_grid(f, g, o):
    import numpy as np
    n, nr = len(o['rows'][0]), len(o['perm'])
    x = g.x.get_value()
    rec = {'rows': [[whole(v) for v in row] for row in x.reshape(-1, n)], 'bounds': bool(g.x.has_bounds), 'cells': [], 'areas': [], 'pts': [], 'data': []}
    y = g.y.get_value().reshape(nr, -1)
    rec['lat'] = bool((abs(y - (np.arange(nr).reshape(-1, 1) + 1.5) * U) < 1e-6).all()) and (not o['bounds'] or not g.y.has_bounds or len(g.y.bounds.get_value()) == nr)
    gm = g.get_mask()
    rec['masked'] = [False] * (n * nr) if gm is None else gm.reshape(-1).tolist()
    if o['alloc']:
        for p in f[g._polygon_name].get_value().reshape(-1):
            a, b = cells_of(p)
            rec['cells'].append(a)
            rec['areas'].append(b)
    has = any(o['masked'])
    for name in ('yx', 'xy', 'tyx', 'ytx'):
        v = f[name].get_masked_value().filled(MISS)
        if name == 'xy':
            v = v.T
        parts = [v] if name in ('yx', 'xy') else [v[0], np.where(v[1] == MISS, MISS, v[1] - 100)] if name == 'tyx' else [v[:, 0], np.where(v[:, 1] == MISS, MISS, v[:, 1] - 100)]
        for p in parts:
            rec['data'].append({'rows': True, 'masked': has, 'vals': [[int(q) for q in r] for r in p]})
    if o['kind'] == 'vector':
        rec['data'].append({'rows': False, 'masked': False, 'vals': [[int(q) for q in f['only'].get_value()]]})
        t = f['tonly'].get_value()
        for p in (t[0], t[1] - 100):
            rec['data'].append({'rows': False, 'masked': False, 'vals': [[int(q) for q in p]]})
    return rec


def state(h):
    return {1: 'wrapped', 2: 'unwrapped', 3: 'unknown'}.get(h.wrapped_state, str(h.wrapped_state))


def one(c):
    o = c['obj']
    isgrid = o['kind'] in ('vector', 'matrix')
    host, part = (grid if isgrid else shapes)(o, c)
    target = host if c['host'] == 'field' else part
    rec = {'obj': o, 'steps': c['steps'], 'states': [state(target)], 'refused': [], 'apart': True, 'rows': [], 'lat': True, 'bounds': False, 'data': []}
    err = []
    for op in c['steps']:
        if op == 'reorder':
            z = outcome(part.reorder)
        elif op == 'apart':
            z = outcome(apart, target, c['host'] == 'field', rec, host, part, o, isgrid)
        else:
            z = outcome(getattr(target, op))
        rec['refused'].append(not z['ok'])
        if not z['ok'] and not (op == 'reorder' and z['err'] == 'ValueError'):
            err.append(op + ': ' + z['err'] + ': ' + z['msg'])
        rec['states'].append(state(target))
    z = outcome(lambda: look_grid(host, part, o) if isgrid else look_shapes(part))
    rec['error'] = '; '.join(err + ([] if z['ok'] else [z['err'] + z['msg']]))
    rec.update(z['val'] if z['ok'] else {'masked': [], 'cells': [], 'areas': [], 'pts': []})
    return rec


def apart(target, field, rec, host, part, o, isgrid):
    """Something wrapped out of place, or a copy in depth wrapped in place, leaves this object as it is."""
    before = look_grid(host, part, o) if isgrid else look_shapes(part)
    if field:
        if state(target) == 'unwrapped':
            other = target.copy()
            other.wrap(inplace=False)
            assert state(other) != 'unwrapped'
    else:
        other = (host if isgrid else target).deepcopy() if not isgrid else host.deepcopy()
        getattr(other, 'wrap')()
        getattr(other, 'unwrap')()
    after = look_grid(host, part, o) if isgrid else look_shapes(part)
    if after != before:
        rec['apart'] = False


def worker(objs):
    """Every process has its own piece; the state is of the whole."""
    from ocgis import vm
    o = objs[vm.rank]
    try:
        host, part = (grid if o['kind'] in ('vector', 'matrix') else shapes)(o, {'host': 'alone', 'type': 'f8'})
        return state(part)
    finally:
        vm.finalize()


def run(ctx):
    setup_ocgis()
    small = CONST.format(3, 3, 'StartsAll' if ctx.thorough else 'StartsSome')
    ctx.model('WrapMC', 'INIT Init\nNEXT Next\nINVARIANT Placed Ranged RangedU Again BackAgain SortedRow\n' + small, timeout=800, label='every short history of small objects')
    full = CONST.format(5, 6, 'StartsSome')
    cases = ctx.generate('WrapMC', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + full, num=ctx.n(1500, 20000), depth=3, label='grids and geometries')
    recs = [one(c) for c in cases]
    ctx.judge('WrapMC', recs, 'histories', 'INIT JInit\nNEXT JNext\n' + full)
    for n in ctx.n([3], [2, 3, 5]):
        whole_ = [c['obj'] for c in cases][:ctx.n(360, 3000)]
        # pieces of one kind, of several states
        groups = []
        for kinds in (('vector', 'matrix'), ('polygon',), ('point',)):
            objs = [o for o in whole_ if o['kind'] in kinds]
            groups += [objs[k:k + n] for k in range(0, len(objs) - n + 1, n)]
        res = mpi.run_cases(n, 'harness.s02:worker', groups, timeout=ctx.n(120, 500))
        ctx.judge('WrapMC', [{'objs': g, 'ranks': r['ranks'] if r['ok'] else [], 'failed': str(r['err'])[:300]} for g, r in zip(groups, res)],
                  'states of {} pieces'.format(n), 'INIT PInit\nNEXT PNext\n' + full)
    bad = copy.deepcopy([r for r in recs if r['rows']][:1] + [r for r in recs if any(r['areas'])][:1] + [r for r in recs if r['data']][:1])
    bad[0]['rows'][0][0] += 48
    bad[1]['areas'] = [a + 1 for a in bad[1]['areas']]
    bad[1]['states'][0] = 'other'
    bad[2]['data'][0]['vals'][0][0] += 1
    ctx.expect_reject('WrapMC', bad, 'a centre, an area or a value altered', 'INIT JInit\nNEXT JNext\n' + full)
