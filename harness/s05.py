"""S05: geometries as coordinate arrays."""
import copy
import os
import shutil
import tempfile

from harness.lib import setup_ocgis

C = 'CONSTANTS MaxE = {} Small = {}\n'


def zof(x, y):
    return float((x + 2 * y) % 5)


def geometry(q, e):
    from shapely.geometry import MultiPolygon, Point, Polygon

    def pt(p):
        return (float(p[0]), float(p[1])) + ((zof(*p),) if q['z'] else ())
    if q['kind'] == 'point':
        return Point(*pt(q['pts'][e]))
    parts = [Polygon([pt(p) for p in g['ring']], [[pt(p) for p in h] for h in g['holes']]) for g in q['elems'][e]]
    return parts[0] if len(parts) == 1 and q['kind'] != 'multi' else MultiPolygon(parts)


def num(v):
    return int(round(100 * float(v)))


def ring(coords):
    return [[num(v) for v in c] for c in list(coords)]


def record(g):
    if g is None or not hasattr(g, 'geom_type'):
        return []
    if g.geom_type == 'Point':
        return [{'ring': ring(g.coords), 'holes': []}]
    parts = list(g.geoms) if hasattr(g, 'geoms') else [g]
    return [{'ring': ring(p.exterior.coords)[:-1], 'holes': [ring(h.coords)[:-1] for h in p.interiors]} for p in parts]


def records(gv):
    import numpy as np
    m = gv.get_mask()
    return [[] if m is not None and np.asarray(m).reshape(-1)[k] else record(g) for k, g in enumerate(gv.get_value().reshape(-1))]


def rows(gc):
    import numpy as np
    c = gc.cindex
    if c is None:
        return []
    v, m = c.get_value(), c.get_mask()
    if v.dtype == object:
        return [[int(k) for k in np.atleast_1d(r)] for r in v]
    return [[int(k) for j, k in enumerate(r) if m is None or not m[n, j]] for n, r in enumerate(v)]


def points(gc):
    import numpy as np
    cols = [gc.x.get_value(), gc.y.get_value()] + ([gc.z.get_value()] if gc.has_z else [])
    return [[num(v) for v in p] for p in np.stack([np.asarray(c).reshape(-1) for c in cols], 1)]


def one(q, work):
    import numpy as np
    import ocgis
    from ocgis import Field, GeometryVariable, RequestDataset, Variable
    from ocgis.variable.crs import Spherical
    d = tempfile.mkdtemp(dir=work)
    rec = {'q': q, 'case': ' '.join('{}={}'.format(k, v) for k, v in sorted(q.items())), 'outcome': 'done', 'conn': [], 'nodes': [], 'mbv': 0, 'start': q['start'],
           'back': [], 'again': [], 'mask': [], 'data': [], 'file': [], 'fdata': [], 'sub': [], 'subconn': [], 'subnodes': []}
    try:
        n = len(q['elems'])
        crs = Spherical()
        value = np.empty(n, dtype=object)
        for e in range(n):
            value[e] = geometry(q, e)
            if q['none'] and e + 1 in q['masked']:
                value[e] = None
        source = q['source'] and not q['masked'] and not q['z']
        if source:
            from shapely.geometry import mapping
            import fiona
            p = os.path.join(d, 'in.shp')
            with fiona.open(p, 'w', driver='ESRI Shapefile', crs={'proj': 'longlat', 'a': 6370997, 'b': 6370997}, schema={'geometry': value[0].geom_type.replace('Multi', ''), 'properties': {'num': 'int'}}) as c:
                for e in range(n):
                    c.write({'geometry': mapping(value[e]), 'properties': {'num': e + 1}})
            f = RequestDataset(p, variable='num', driver='vector').get()
            gv = f.geom
            num_name = 'num'
        else:
            mask = [e + 1 in q['masked'] for e in range(n)] if q['masked'] else None
            gv = GeometryVariable(name='g', value=value, dimensions='e', mask=mask, crs=crs)
            f = Field(geom=gv, crs=crs, variables=Variable(name='num', value=np.arange(1, n + 1), dimensions='e'), is_data='num')
            gv = f.geom
        kw = {'pack': q['pack'], 'repeat_last_node': q['rep'], 'start_index': q['start'], 'split_interiors': q['split']}
        if q['mbv']:
            kw['multi_break_value'] = q['mbv']
        if q['thr']:
            kw['node_threshold'] = q['thr']
        if q['kind'] != 'point' and q['max'] != 'none':
            try:
                longest = max(len(r) for r in rows(gv.convert_to(**kw)))
            except ValueError:
                rec['outcome'] = 'refused'
                return rec
            kw['max_element_coords'] = longest + {'exact': 0, 'larger': 2, 'smaller': -1}[q['max']]
        if source:
            kw['use_geometry_iterator'] = bool(q['lazy'])
        try:
            gc = gv.convert_to(**kw)
        except ValueError as e:
            if 'Interiors' in str(e) or 'maximum' in str(e):
                rec['outcome'] = 'refused'
                return rec
            raise
        rec['conn'], rec['nodes'] = rows(gc), points(gc)
        rec['start'] = int(gc.start_index)
        has = gc.cindex is not None and gc.has_multi
        rec['mbv'] = int(gc.multi_break_value) if has else -1
        back = gc.convert_to()
        rec['back'] = records(back)
        m = back.get_mask()
        rec['mask'] = [] if m is None else [int(k) + 1 for k in np.where(m)[0]]
        rec['data'] = [int(k) for k in gc.parent['num'].get_value()]
        ocgis.env.USE_MEMORY_OPTIMIZATIONS = bool(q['lazy'])
        rec['again'] = records(gc.convert_to())
        if any(k not in q['masked'] for k in q['sub']):
            # Select elements first: nodes of others are dropped.
            select = np.zeros(n, dtype=bool)
            select[[k - 1 for k in q['sub']]] = True
            sub = gc.get_distributed_slice(select)
            if gc.cindex is not None:
                sub = sub.reduce_global()
                rec['subconn'], rec['subnodes'] = rows(sub), points(sub)
                assert int(sub.start_index) == rec['start']
            rec['sub'] = records(sub.convert_to())
        if q['file'] != 'none':
            drv = q['file']
            # ESMF files carry no masks and fill their columns.
            if drv == 'esmf' and (q['masked'] or q['kind'] == 'point' or q['z'] or 'max_element_coords' in kw):
                drv = 'ugrid'
            p = os.path.join(d, 'out.nc')
            drv = {'ugrid': 'netcdf-ugrid', 'esmf': 'netcdf-esmf-unstruct'}[drv]
            gc.parent.write(p, driver=drv)
            g = RequestDataset(p, driver=drv).get()
            abstraction = 'point' if q['kind'] == 'point' else 'polygon'
            g.set_abstraction_geom() if False else None
            rec['file'] = records(g.grid.get_abstraction_geometry())
            rec['fdata'] = [int(k) for k in g['num'].get_value()]
        return rec
    except Exception as e:
        if os.environ.get('S05_TRACE'):
            import traceback
            traceback.print_exc()
        rec['outcome'] = '{}: {}'.format(type(e).__name__, e)[:200]
        return rec
    finally:
        ocgis.env.USE_MEMORY_OPTIMIZATIONS = False
        shutil.rmtree(d)


def run(ctx):
    setup_ocgis()
    ctx.model('Packing', 'INIT Init\nNEXT Next\nINVARIANT Laws\n' + C.format(2, ctx.n(3, 4)), label='packing small collections', timeout=850)
    c = C.format(1, 1)
    jud = 'INIT JInit\nNEXT JNext\n' + c
    recs = [one(q, ctx.work) for q in ctx.generate('Packing', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + c, num=ctx.n(500, 6000), depth=3, label='collections and options')]
    for r in recs:
        k = r['q']['kind'] + ' ' + r['outcome'].split(':')[0]
        ctx.cover[k] = ctx.cover.get(k, 0) + 1
    ctx.judge('Packing', recs, 'geometries as coordinate arrays', jud)
    good = [r for r in recs if r['outcome'] == 'done' and r['q']['kind'] != 'point' and not r['q']['masked']][:5]
    bad = copy.deepcopy(good)
    for b in bad:
        b['conn'][0][0], b['conn'][0][1] = b['conn'][0][1], b['conn'][0][0]
        if b['q']['rep']:
            b['conn'][0][-1] = 99999
    ctx.expect_reject('Packing', bad, 'two nodes of an element exchanged', jud)
    bad = copy.deepcopy(good)
    for b in bad:
        b['back'][0][0]['ring'][1][0] += 700
    ctx.expect_reject('Packing', bad, 'a moved node', jud)
