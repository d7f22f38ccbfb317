"""I02: tabular and vector outputs."""
import copy
import csv
import datetime
import os
import shutil
import tempfile

from harness.lib import setup_ocgis

C = 'CONSTANTS MaxN = {} MaxS = {}\n'
STEP = 40
STANDARD = ['UGID', 'DID', 'GID', 'TIME', 'LB_TIME', 'UB_TIME', 'YEAR', 'MONTH', 'DAY', 'LEVEL', 'LB_LEVEL', 'UB_LEVEL', 'VARIABLE', 'VALUE']
EXT = {'csv': 'csv', 'csv-shp': 'csv', 'shp': 'shp', 'geojson': 'json'}


def name(q, k, n=1):
    if n == 2 and not q['same']:
        k += len(q['vars'])
    # Columns of several data sets in one shapefile share the names of the first, which only differ when short.
    long = q['long'] and not (q['fmt'] == 'shp' and q['nds'] == 2 and not q['same'])
    return 'averylongname_{}'.format(k + 1) if long else 'v{}'.format(k + 1)


def build(q, n=1):
    import numpy as np
    from ocgis import Field, Grid, Variable
    from ocgis.variable.crs import Spherical
    from ocgis.variable.temporal import TemporalVariable
    nt, nl, ny, nx = q['n']
    x, y = 2. * np.arange(nx) + 1, 2. * np.arange(ny) + 1
    # Polygons always have bounds here: points otherwise.
    if q['curved']:
        X, Y = np.meshgrid(x, y)
        vx, vy = [Variable(name=n, value=v, dimensions=['y', 'x'], attrs={'axis': n.upper()}) for n, v in (('x', X), ('y', Y))]
        if q['bounds']:
            vx.set_bounds(Variable(name='xc', value=np.stack([X - 1, X + 1, X + 1, X - 1], 2), dimensions=['y', 'x', 'corners']))
            vy.set_bounds(Variable(name='yc', value=np.stack([Y - 1, Y - 1, Y + 1, Y + 1], 2), dimensions=['y', 'x', 'corners']))
    else:
        vx, vy = [Variable(name=n, value=v, dimensions=n, attrs={'axis': n.upper()}) for n, v in (('x', x), ('y', y))]
        if q['bounds']:
            for v in (vx, vy):
                v.set_bounds(Variable(name=v.name + 'b', value=np.stack([v.get_value() - 1, v.get_value() + 1], 1), dimensions=[v.name, 'bnds']))
    vs = []
    if 't' in q['dims']:
        tv = STEP * np.arange(nt) + 27.
        u = 'days since 2001-01-01'
        t = TemporalVariable(name='t', value=tv, dimensions='t', units=u, calendar=q['cal'], attrs={'axis': 'T'})
        if q['tbounds']:
            t.set_bounds(TemporalVariable(name='tb', value=np.stack([tv - .5, tv + 1], 1), dimensions=['t', 'bnds'], units=u, calendar=q['cal']))
        vs.append(t)
    if 'l' in q['dims']:
        lv = 10. * np.arange(nl) + 10
        lev = Variable(name='l', value=lv, dimensions='l', attrs={'axis': 'Z'})
        if q['lbounds']:
            lev.set_bounds(Variable(name='lb', value=np.stack([lv - 5, lv + 5], 1), dimensions=['l', 'bnds']))
        vs.append(lev)
    size = dict(zip('tlyx', q['n']))
    digit = {'t': 1000, 'l': 100, 'y': 10, 'x': 1}
    names = []
    for k, v in enumerate(q['vars']):
        dims = v['dims']
        a = np.full([size[d] for d in dims], (k + 1) * 10000, dtype=int)
        for axis, d in enumerate(dims):
            a = a + (digit[d] * (np.arange(size[d]) + 1)).reshape([-1 if j == axis else 1 for j in range(len(dims))])
        m = a % v['hole'] == 0 if v['hole'] else None
        a = a + (n - 1) * 50000
        names.append(name(q, k, n))
        vs.append(Variable(name=names[-1], value=a if v['int'] else a + .5, mask=m, dimensions=list(dims)))
    crs = Spherical()
    f = Field(variables=vs, grid=Grid(vx, vy, crs=crs), is_data=names, crs=crs)
    for n, role in (('t', 'time'), ('l', 'level')):
        if n in q['dims']:
            f.dimension_map.set_variable(role, n, dimension=n, bounds={'t': 'tb' if q['tbounds'] else None, 'l': 'lb' if q['lbounds'] else None}[n])
    return f


def selections(q):
    from shapely.geometry import box
    from shapely.ops import unary_union
    return [{'geom': unary_union([box(2 * (c - 1) + .5, 2 * (a - 1) + .5, 2 * d - .5, 2 * b - .5) for a, b, c, d in s]), 'crs': None, 'properties': {'UGID': uid(q, k)}} for k, s in enumerate(q['sels'])]


def uid(q, k):
    return 10 * q['order'][k] + k


def tables(q):
    """text of a time -> index, text of times of bounds -> index"""
    import cftime
    out = {}
    for w, off in (('TIME', 0), ('LB_TIME', -.5), ('UB_TIME', 1)):
        for k in range(q['n'][0]):
            d = cftime.num2date(STEP * k + 27 + off, 'days since 2001-01-01', calendar=q['cal'])
            out[(w, '{:04d}-{:02d}-{:02d} {:02d}:{:02d}:{:02d}'.format(d.year, d.month, d.day, d.hour, d.minute, d.second))] = k + 1
            if w == 'TIME':
                out[('YMD', (d.year, d.month, d.day))] = k + 1
    return out


def empty(v):
    return v is None or v == ''


def code(v, whole=None):
    if empty(v):
        return -1
    v = float(v)
    if whole is not None and v - int(v) != (0 if whole else .5):
        return -2
    return int(v)


def place(geom, q):
    """the number of the cell"""
    from shapely.geometry import shape, box
    g = shape(geom) if isinstance(geom, dict) else geom
    c = g.centroid
    x, y = (c.x + 1) / 2, (c.y + 1) / 2
    if abs(x - round(x)) > 1e-6 or abs(y - round(y)) > 1e-6 or not 1 <= round(x) <= q['n'][3] or not 1 <= round(y) <= q['n'][2]:
        return -1
    if q['bounds']:
        if not g.equals(box(2 * x - 2, 2 * y - 2, 2 * x, 2 * y)):
            return -1
    elif g.geom_type != 'Point':
        return -1
    return (int(round(y)) - 1) * q['n'][3] + int(round(x))


def ncols(q):
    return len(q['vars']) * (1 if q['same'] else q['nds'])


def rows_from(raw, q, gidplace=None):
    """raw: sequence of (properties, geometry or None)"""
    tab = tables(q)
    cols = {}
    if raw and not q['melted']:
        data = [k for k in raw[0][0] if k not in STANDARD and k != 'SRC_VAR']
        left = []
        for k in data:
            found = {(code(p[k]) // 10000 - 1) % 5 + 1 + (len(q['vars']) if code(p[k]) > 50000 and not q['same'] else 0) for p, _ in raw if code(p[k]) >= 0}
            if len(found) == 1:
                cols[found.pop() - 1] = k
            elif not found:
                left.append(k)
            else:
                raise ValueError('values of several variables in {}'.format(k))
        for k in range(ncols(q)):
            if k not in cols and left:
                cols[k] = left.pop(0)
        if len(cols) != ncols(q) or left:
            if not q['agg']:
                raise ValueError('columns {}'.format(data))
        if not q['long'] and not q['agg'] and any(name(q, k) != v for k, v in cols.items()):
            raise ValueError('columns {}'.format(data))
    out = []
    for p, g in raw:
        row = {'did': int(p['DID']) if q['nds'] > 1 else 1, 'u': 0, 't': 0, 'l': 0, 'place': 0, 'var': 0, 'vals': [], 'gid': int(p.get('GID') or 0)}
        if q['sels']:
            us = [k + 1 for k in range(len(q['sels'])) if uid(q, k) == int(p['UGID'])]
            row['u'] = us[0] if us else -1
        elif 'UGID' in p:
            row['u'] = -1
        if 't' in q['dims']:
            text = str(p['TIME']).replace('T', ' ')
            row['t'] = tab.get(('TIME', text), -1)
            if tab.get(('YMD', tuple(int(p[k]) for k in ('YEAR', 'MONTH', 'DAY')))) != row['t']:
                row['t'] = -2
            for b in ('LB_TIME', 'UB_TIME'):
                if (b in p) != q['tbounds'] or (q['tbounds'] and tab.get((b, str(p[b]).replace('T', ' '))) != row['t']):
                    row['t'] = -3
        elif any(k in p for k in ('TIME', 'YEAR')):
            row['t'] = -4
        if 'l' in q['dims']:
            row['l'] = int(round(float(p['LEVEL']) / 10.))
            for b, off in (('LB_LEVEL', -5), ('UB_LEVEL', 5)):
                if (b in p) != q['lbounds'] or (q['lbounds'] and float(p[b]) != float(p['LEVEL']) + off):
                    row['l'] = -3
        elif 'LEVEL' in p:
            row['l'] = -4
        if q['fmt'] != 'csv' and not q['agg']:
            row['place'] = place(g, q) if g is not None else gidplace.get((row['did'], row['u'], row['gid']), -1)
        if q['melted']:
            names = [name(q, k) for k in range(ncols(q))]
            row['var'] = names.index(p['VARIABLE']) + 1 if p['VARIABLE'] in names else -1
            row['vals'] = [code(p['VALUE'], q['vars'][(row['var'] - 1) % len(q['vars'])]['int'])]
        elif not q['agg']:
            row['vals'] = [code(p[cols[k]], q['vars'][k % len(q['vars'])]['int']) for k in range(ncols(q))]
        if q['agg']:
            row['vals'] = []
        out.append(row)
    return out


def fiona_rows(path):
    import fiona
    with fiona.open(path) as c:
        return [(dict(r['properties']), r['geometry']) for r in c]


def one(q, work):
    import ocgis
    from ocgis import OcgOperations, RequestDataset
    from ocgis.exc import ExtentError
    d = tempfile.mkdtemp(dir=work)
    ocgis.env.DIR_OUTPUT = d
    rec = {'q': q, 'case': ' '.join('{}={}'.format(k, v) for k, v in sorted(q.items())), 'outcome': 'done', 'rows': [], 'gids': [], 'ugids': [], 'again': []}
    try:
        ds = []
        for n in range(1, q['nds'] + 1):
            f = build(q, n)
            if q['memory'] and q['nds'] == 1:
                ds.append(f)
            else:
                p = os.path.join(d, 'in{}.nc'.format(n))
                f.write(p)
                ds.append(RequestDataset(p, variable=[name(q, k, n) for k in range(len(q['vars']))], field_name='f{}'.format(n)))
        ds = ds[0] if len(ds) == 1 else ds
        kw = {}
        if q['sels']:
            kw['geom'] = selections(q)
            for g in kw['geom']:
                g.pop('crs')
        out = OcgOperations(dataset=ds, output_format=q['fmt'], melted=q['melted'], prefix='o', dir_output=d, aggregate=q['agg'], add_auxiliary_files=q['aux'], **kw).execute()
        folder = os.path.dirname(out)
        assert os.path.basename(out) == 'o.' + EXT[q['fmt']], out
        gidplace = {}
        nest = os.path.join(folder, 'shp') if q['fmt'] == 'csv-shp' else folder
        if q['fmt'] == 'csv-shp' and not q['agg']:
            for p, g in fiona_rows(os.path.join(nest, 'o_gid.shp')):
                us = [k + 1 for k in range(len(q['sels'])) if uid(q, k) == p.get('UGID')]
                u = us[0] if us else (-1 if q['sels'] else 0)
                rec['gids'].append({'did': p['DID'] if q['nds'] > 1 else 1, 'u': u, 'place': place(g, q)})
                key = (p['DID'] if q['nds'] > 1 else 1, u, p['GID'])
                gidplace[key] = -1 if key in gidplace else place(g, q)
        if q['sels'] and q['fmt'] != 'csv':
            from shapely.geometry import shape
            want = selections(q)
            for p, g in fiona_rows(os.path.join(nest, 'o_ugid.shp')):
                k = [k for k in range(len(want)) if want[k]['properties']['UGID'] == p['UGID'] and want[k]['geom'].equals(shape(g))]
                rec['ugids'].append(k[0] + 1 if k else -1)
        if 'csv' in q['fmt']:
            with open(out) as c:
                raw = [(r, None) for r in csv.DictReader(c)]
            if any(None in r or None in r.values() for r, _ in raw):
                raise ValueError('ragged rows')
        else:
            raw = fiona_rows(out)
        rec['rows'] = rows_from(raw, q, gidplace)
        if q['fmt'] in ('csv', 'shp', 'csv-shp'):
            g = RequestDataset(out).get()
            vs = [v for v in g.values() if v.name != 'ocgis_geom' and getattr(v, 'dimensions', ()) and v.ndim == 1 and v.dimensions[0].size == len(raw)]
            again = []
            for j in range(len(raw)):
                p = {}
                for v in vs:
                    masked = v.get_mask() is not None and bool(v.get_mask()[j])
                    p[v.name] = None if masked else v.get_value()[j]
                if sorted(p) != sorted(raw[0][0]):
                    raise ValueError('read again: {}'.format(sorted(p)))
                again.append((p, g.geom.get_value()[j] if g.geom is not None else None))
            rec['again'] = rows_from(again, q, gidplace)
        return rec
    except ExtentError:
        rec['outcome'] = 'refused'
        return rec
    except Exception as e:
        if os.environ.get('I02_TRACE'):
            import traceback
            traceback.print_exc()
        rec['outcome'] = '{}: {}'.format(type(e).__name__, e)[:200]
        if 'does not match collection schema' in str(e):
            rec['outcome'] = 'refused'
        return rec
    finally:
        shutil.rmtree(d)


# --- features ---
def shape_of(kind, k):
    from shapely.geometry import LineString, MultiPolygon, Point, Polygon, box
    b = box(3 * k, 0, 3 * k + 1, 2)
    if kind == 'mixed':
        kind = 'multi' if k % 2 else 'polygon'
    if kind == 'point':
        return Point(3 * k + .25, k - 1.5)
    if kind == 'polygon':
        return Polygon([(3 * k, 0), (3 * k + 2, 0), (3 * k + 2, 2), (3 * k, 2)], [[(3 * k + .5, .5), (3 * k + 1.5, .5), (3 * k + 1, 1)]]) if k % 2 else b
    if kind == 'line':
        return LineString([(3 * k, 0), (3 * k + 1, 1), (3 * k + 2, 0)])
    return MultiPolygon([b, box(3 * k, 5, 3 * k + 1, 6 + k)])


def attr(t, k, a):
    return {'int': 7 * k + a - 3, 'float': .25 * k - a, 'text': 'r\xe9gion {} {}'.format(k, a), 'wide': 'w' * (30 + k) + str(a)}[t]


def token(v):
    if empty(v):
        return 'none'
    try:
        return '{:g}'.format(float(v))
    except ValueError:
        return str(v)


def feature(geom, values):
    from shapely.geometry import shape
    from shapely.geometry.base import BaseGeometry
    if geom is None:
        g = 'none'
    else:
        g = geom if isinstance(geom, BaseGeometry) else shape(geom)
        if g.geom_type.startswith('Multi') and len(list(g.geoms)) == 1:
            g = list(g.geoms)[0]
        g = '{} {} {:g} {:g}'.format(g.geom_type, ' '.join('{:g}'.format(b) for b in g.bounds), g.area, g.length)
    return {'geom': g, 'attrs': [token(v) for v in values]}


def vone(q, work):
    import fiona
    import numpy as np
    import ocgis
    from ocgis import Field, GeometryVariable, OcgOperations, RequestDataset, Variable
    from ocgis.variable.crs import WGS84
    d = tempfile.mkdtemp(dir=work)
    ocgis.env.DIR_OUTPUT = d
    rec = {'q': q, 'case': ' '.join('{}={}'.format(k, v) for k, v in sorted(q.items())), 'outcome': 'done', 'names': [], 'want': [], 'got': [], 'again': [], 'keep': [k + 1 for k in range(q['m']) if k + 1 not in q['masked'] and [k + 1, 1] not in q['none']]}
    if q['fmt'].startswith('ops') and q['kind'] == 'line':
        q['kind'] = 'point'
    try:
        names = ['averylongname_{}'.format(a) if q['long'] else 'a{}'.format(a) for a in range(len(q['types']))]
        holes = {tuple(h) for h in q['none']}
        vals = [[None if (k + 1, a + 1) in holes else attr(t, k, a) for a, t in enumerate(q['types'])] for k in range(q['m'])]
        geoms = [shape_of(q['kind'], k) for k in range(q['m'])]
        csv_ = q['fmt'].endswith('csv')
        rec['want'] = [feature(None if csv_ else g, v) for g, v in zip(geoms, vals)]
        f = Field(crs=WGS84())
        gv = GeometryVariable(name='geom', value=geoms, dimensions='n', crs=WGS84(), mask=[k + 1 in q['masked'] for k in range(q['m'])] if q['masked'] else None)
        f.set_geom(gv)
        for a, t in enumerate(q['types']):
            m = [(k + 1, a + 1) in holes for k in range(q['m'])]
            value = [attr(t, k, a) for k in range(q['m'])]
            arr = np.array(value, dtype={'int': int, 'float': float}.get(t, object))
            f.add_variable(Variable(name=names[a], value=arr, mask=m if any(m) else None, dimensions='n'), is_data=True)
        driver = {'csv': 'csv', 'shp': 'vector', 'geojson': 'vector'}
        fmt = q['fmt'].split('-')[-1]
        if not q['memory'] and not q['masked'] and rec['keep'] and q['fmt'] != 'ops-geojson':
            # Start with a file.
            p = os.path.join(d, 'in.shp')
            f.write(p, driver='vector')
            f = RequestDataset(p).get()
            assert len(list(f.data_variables)) == len(names), [v.name for v in f.data_variables]
            if not q['long']:
                assert [v.name for v in f.data_variables] == names
        if q['fmt'].startswith('ops'):
            out = OcgOperations(dataset=f, output_format=fmt, prefix='o', dir_output=d, add_auxiliary_files=False).execute()
        else:
            out = os.path.join(d, 'o.' + EXT[fmt])
            kw = {'fiona_driver': 'GeoJSON'} if fmt == 'geojson' else {}
            f.write(out, driver=driver[fmt], **kw)
        extra = ('GID', 'DID', 'UGID')
        if fmt == 'csv':
            with open(out) as c:
                raw = [(r, None) for r in csv.DictReader(c)]
        else:
            raw = fiona_rows(out)
        cols = [k for k in raw[0][0] if k not in extra] if raw else list(names)
        rec['names'] = cols
        if not q['long'] and sorted(cols) != sorted(names):
            raise ValueError('names {}'.format(cols))
        cols = sorted(cols) if not q['long'] else cols
        rec['got'] = [feature(g, [p[k] for k in cols]) for p, g in raw]
        rec['again'] = rec['got']
        if fmt != 'geojson' and raw:
            g = RequestDataset(out).get()
            rec['again'] = []
            for j in range(len(raw)):
                vs = [g[k] for k in cols]
                rec['again'].append(feature(None if fmt == 'csv' else g.geom.get_value()[j], [None if v.get_mask() is not None and v.get_mask()[j] else v.get_value()[j] for v in vs]))
        return rec
    except Exception as e:
        if os.environ.get('I02_TRACE'):
            import traceback
            traceback.print_exc()
        rec['outcome'] = '{}: {}'.format(type(e).__name__, e)[:200]
        return rec
    finally:
        shutil.rmtree(d)


def run(ctx):
    setup_ocgis()
    ctx.model('Rows', 'INIT Init\nNEXT Next\nINVARIANT Laws\n' + C.format(2, ctx.n(1, 2)), label='the writer over every small layout and selection', timeout=850)
    c = C.format(1, 1)
    gen = 'INIT GenInit\nNEXT {}\nINVARIANT Emit\n' + c
    jud = 'INIT JInit\nNEXT {}\n' + c
    recs = [one(q, ctx.work) for q in ctx.generate('Rows', gen.format('GenNext'), num=ctx.n(220, 3000), depth=3, label='layouts, selections and formats')]
    for r in recs:
        k = r['q']['fmt'] + ('' if r['outcome'] == 'done' else ' ' + r['outcome'].split(':')[0])
        ctx.cover[k] = ctx.cover.get(k, 0) + 1
    ctx.judge('Rows', recs, 'rows of tabular and vector outputs', jud.format('JNext'))
    vrecs = [vone(q, ctx.work) for q in ctx.generate('Rows', gen.format('VGenNext'), num=ctx.n(200, 3000), depth=3, label='features with attributes')]
    ctx.judge('Rows', vrecs, 'features written and read again', jud.format('VJNext'))
    good = [r for r in recs if r['outcome'] == 'done' and len(r['rows']) > 2 and not r['q']['agg']][:4]
    bad = copy.deepcopy(good)
    for b in bad:
        b['rows'][1]['vals'][0] += 1
    ctx.expect_reject('Rows', bad, 'a wrong value', jud.format('JNext'))
    bad = copy.deepcopy(good)
    for b in bad:
        b['rows'].append(b['rows'][0])
    ctx.expect_reject('Rows', bad, 'a row twice', jud.format('JNext'))
