"""S04: changes of coordinate systems."""
import copy
import itertools
import math
import os

import numpy as np

from harness.lib import setup_ocgis

C = 'CONSTANTS MaxSteps = {}\n'
R = 6370997.0


def system(s):
    from ocgis.variable.crs import CoordinateReferenceSystem, Spherical
    if s['f'] == 1 and s['l'] == s['x'] == s['y'] == 0:
        return Spherical()
    t = R * math.pi / 180 / s['f']
    return CoordinateReferenceSystem(proj4='+proj=eqc +lat_ts=0 +lat_0=0 +lon_0={} +x_0={!r} +y_0={!r} +to_meter={!r} +a={} +b={} +no_defs'.format(
        s['l'], s['x'] * t, s['y'] * t, t, R, R))


def whole(v):
    k = int(round(float(v)))
    if abs(k - float(v)) > 1e-6:
        raise ValueError('not at a place: {!r}'.format(v))
    return k


class Driver(object):
    def __init__(self, q):
        self.q = q['field']
        self.sys = [system(s) for s in q['sys']]
        self.params = q['sys']

    def to(self, lon, lat, s):
        p = self.params[s - 1]
        return p['f'] * (lon - p['l']) + p['x'], p['f'] * lat + p['y']

    def build(self):
        from ocgis import Field, GeometryVariable, Grid, Variable
        from ocgis.variable.temporal import TemporalVariable
        from shapely.geometry import Point, box
        q, s = self.q, self.q['at']
        nx, ny, half = q['nx'], q['ny'], 2
        time = TemporalVariable(name='time', value=[0., 1.], dimensions='time', units='days since 2000-01-01')
        ids = np.arange(1., nx * ny + 1)
        mask = np.array([k + 1 in q['mask'] for k in range(nx * ny)])
        vmask = np.array([k + 1 in q['vmask'] for k in range(nx * ny)])
        f = Field(time=time, crs=self.sys[s - 1])
        if q['kind'] == 'geoms':
            shapes = []
            for j, i in itertools.product(range(ny), range(nx)):
                lon, lat = q['x0'] + q['dx'] * i, q['y0'] + q['dy'] * j
                shapes.append(box(*(self.to(lon - half, lat - half, s) + self.to(lon + half, lat + half, s))) if q['bounds'] else Point(*self.to(lon, lat, s)))
            f.set_geom(GeometryVariable(name='geom', value=shapes, dimensions='d', crs=self.sys[s - 1]))
            dims, value, vm = ['time', 'd'], np.array([ids, ids + 100]), np.array([vmask] * 2)
            perm = [0, 1] if q['order'] % 2 else [1, 0]
        else:
            xs = [q['x0'] + q['dx'] * i for i in range(nx)]
            ys = [q['y0'] + q['dy'] * j for j in range(ny)]
            if q['kind'] == 'curvi':
                lon = np.array([xs] * ny)
                lat = np.array([[y + 4 * i for i in range(nx)] for y in ys])
                x, y = self.to(lon, lat, s)
                kw = [{}, {}]
                if q['bounds']:
                    corners = [(-half, -half), (half, -half), (half, half), (-half, half)]
                    b = [self.to(lon + dx, lat + dy, s) for dx, dy in corners]
                    kw = [{'bounds': Variable(name=n, value=np.stack([c[k] for c in b], axis=-1).astype(float), dimensions=['y', 'x', 'c'])} for k, n in enumerate(['xb', 'yb'])]
                x = Variable(name='xc', value=x.astype(float), dimensions=['y', 'x'], **kw[0])
                y = Variable(name='yc', value=y.astype(float), dimensions=['y', 'x'], **kw[1])
            else:
                out = []
                for k, (n, vs) in enumerate((('x', xs), ('y', ys))):
                    vs = np.array(vs, dtype=float)
                    g = lambda d: self.to(vs + d, vs + d, s)[k]
                    kw = {'bounds': Variable(name=n + 'b', value=np.stack([g(-half), g(half)], axis=-1), dimensions=[n, 'b'])} if q['bounds'] else {}
                    out.append(Variable(name=n + 'c', value=g(0), dimensions=n, **kw))
                x, y = out
            grid = Grid(x, y, crs=self.sys[s - 1])
            f.set_grid(grid)
            dims, value, vm = ['time', 'y', 'x'], np.array([ids, ids + 100]).reshape(2, ny, nx), np.array([vmask] * 2).reshape(2, ny, nx)
            perm = list(itertools.permutations(range(3)))[q['order'] - 1]
        f.add_variable(Variable(name='data', value=value.transpose(perm), mask=vm.transpose(perm), dimensions=[dims[k] for k in perm]), is_data=True)
        if mask.any():
            (f.geom if q['kind'] == 'geoms' else f.grid).set_mask(mask if q['kind'] == 'geoms' else mask.reshape(ny, nx), cascade=True)
        if q['kind'] == 'both':
            f.set_abstraction_geom()
        return f

    def index(self, crs):
        for k, s in enumerate(self.sys, 1):
            if crs == s:
                return k
        return 0

    def view(self, f):
        v = {'systems': [], 'times': [], 'rows': []}
        if f is None:
            return v
        v['systems'].append(self.index(f.crs))
        v['times'] = [whole(t) for t in f.time.get_value()]
        d = f['data']
        geoms = self.q['kind'] == 'geoms'
        target = f.geom if geoms else f.grid
        sdims = [x.name for x in target.dimensions]
        order = [d.dimension_names.index(n) for n in ['time'] + sdims]
        val = d.get_masked_value().transpose(order)
        val = np.ma.filled(val, -1.).reshape(2, -1)
        mask = target.get_mask()
        mask = np.zeros(val.shape[1], dtype=bool) if mask is None else np.array(mask).flatten()
        shapes = None
        if f.geom is not None and self.q['kind'] in ('geoms', 'both'):
            v['systems'].append(self.index(f.geom.crs))
            shapes = f.geom.get_value().flatten()
            gm = f.geom.get_mask()
            if gm is not None and (np.array(gm).flatten() != mask).any():
                raise ValueError('masks differ')
        if not geoms:
            v['systems'].append(self.index(f.grid.crs))
            xy = f.grid.get_value_stacked().reshape(2, -1)
            bounds = None
            if f.grid.has_bounds:
                g = f.grid
                if g.is_vectorized:
                    xb, yb = g.x.bounds.get_value(), g.y.bounds.get_value()
                    bounds = [[(a, b) for a in xb[i] for b in yb[j]] for j in range(len(yb)) for i in range(len(xb))]
                else:
                    xb, yb = [a.bounds.get_value().reshape(-1, 4) for a in (g.x, g.y)]
                    bounds = [list(zip(a, b)) for a, b in zip(xb, yb)]
        for k in range(val.shape[1]):
            if mask[k]:
                if (val[:, k] != -1).any():
                    raise ValueError('data of a masked place')
                continue
            shape = []
            if shapes is not None:
                g = shapes[k]
                shape = [[whole(g.x), whole(g.y)]] if g.geom_type == 'Point' else sorted([whole(a), whole(b)] for a, b in set((round(x, 4), round(y, 4)) for x, y in g.exterior.coords))
            v['rows'].append([[int(a) for a in val[:, k]], [] if geoms else [whole(xy[1, k]), whole(xy[0, k])],
                              [] if geoms or bounds is None else sorted([whole(a), whole(b)] for a, b in bounds[k]), shape])
        return v

    def look(self, f):
        try:
            return self.view(f)
        except Exception as e:
            if os.environ.get('S04_TRACE'):
                import traceback
                traceback.print_exc()
            return {'systems': [], 'times': [], 'rows': [], 'error': '{}: {}'.format(type(e).__name__, e)[:120]}

    def step(self, f, st):
        """Returns the field to go on with, and what was seen."""
        from ocgis import GeometryVariable, OcgOperations
        from ocgis.exc import EmptySubsetError, ExtentError
        from ocgis.spatial.spatial_subset import SpatialSubsetOperation
        from shapely.geometry import box
        rec = {'outcome': 'done', 'copy': self.view(None), 'geom': [], 'geomsys': 0, 'before': []}
        to = self.sys[st['to'] - 1]
        new, gv = f, None
        try:
            if st['op'] == 'move':
                f.update_crs(to)
            elif st['op'] == 'grid':
                if self.q['kind'] == 'both':
                    f.update_crs(to)
                else:
                    (f.geom if self.q['kind'] == 'geoms' else f.grid).update_crs(to)
            elif st['op'] == 'aside':
                c = f.copy()
                c.update_crs(to)
                rec['copy'] = self.look(c)
            elif st['op'] == 'slice':
                if self.q['kind'] != 'geoms':
                    n = len(f.dimensions[st['dim']])
                    if st['lo'] < n:
                        new = f[{st['dim']: slice(st['lo'], st['lo'] + st['n'])}]
            else:
                (a, b), (c, d) = st['coords']
                out = None if st['out'] == 0 else self.sys[st['out'] - 1]
                gv = GeometryVariable(name='sel', value=[box(a, b, c, d)], dimensions='one', crs=to)
                if st['op'] == 'subset':
                    new = SpatialSubsetOperation(f, output_crs='input' if out is None else out).get_spatial_subset('intersects', gv)
                else:
                    gv.set_ugid(type(f['data'])(name='UGID', value=[1], dimensions='one'))
                    new = OcgOperations(dataset=f, geom=gv, output_crs=out).execute().get_element()
        except (EmptySubsetError, ExtentError):
            rec['outcome'] = 'empty'
        except Exception as e:
            rec['outcome'] = '{}: {}'.format(type(e).__name__, e)[:160]
            if os.environ.get('S04_TRACE'):
                import traceback
                traceback.print_exc()
        if gv is not None:
            g = gv.get_value()[0].bounds
            rec['geom'] = [[whole(g[0]), whole(g[1])], [whole(g[2]), whole(g[3])]]
            rec['geomsys'] = self.index(gv.crs)
        if new is not f:
            rec['before'] = [self.look(f)]
        rec['field'] = self.look(new)
        return new, rec


def one(q):
    d = Driver(q)
    short = ['{op}->{to}'.format(**s) if s['op'] in ('move', 'grid', 'aside') else '{op} {dim} {lo}+{n}'.format(**s) if s['op'] == 'slice' else '{op} {box} in {to} out {out}'.format(**s) for s in q['steps']]
    rec = {'q': q, 'case': ' '.join('{}={}'.format(k, v) for k, v in sorted(q['field'].items())) + ' | ' + ' ; '.join(short), 'seen': []}
    f = d.build()
    rec['first'] = d.look(f)
    for st in q['steps']:
        f, s = d.step(f, st)
        rec['seen'].append(s)
    return rec


def run(ctx):
    setup_ocgis()
    ctx.model('Crs', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANT PathFree Undone Ordered\n' + C.format(4), label='every history of changes of system', timeout=850)
    c = C.format(ctx.n(4, 7))
    gen = 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + c
    jud = 'INIT JInit\nNEXT JNext\n' + c
    recs = [one(q) for q in ctx.generate('Crs', gen, num=ctx.n(800, 6000), depth=12, label='fields, changes of system and selections')]
    for r in recs:
        ctx.cover[r['q']['field']['kind']] = ctx.cover.get(r['q']['field']['kind'], 0) + 1
        for st, s in zip(r['q']['steps'], r['seen']):
            k = '{} {}'.format(st['op'], s['outcome'].split(':')[0])
            ctx.cover[k] = ctx.cover.get(k, 0) + 1
    ctx.judge('Crs', recs, 'coordinates after changes of system', jud)
    good = [r for r in recs if r['seen'][-1]['outcome'] == 'done' and r['seen'][-1]['field']['rows'] and r['q']['field']['kind'] != 'geoms'][:4]
    bad = copy.deepcopy(good)
    for b in bad:
        b['seen'][-1]['field']['rows'][0][1][0] += 1
    ctx.expect_reject('Crs', bad, 'a coordinate elsewhere', jud)
    bad = copy.deepcopy(good)
    for b in bad:
        b['seen'][-1]['field']['systems'][0] = b['seen'][-1]['field']['systems'][0] % 5 + 1
    ctx.expect_reject('Crs', bad, 'another system', jud)
