"""O01: operations against the selection, averaging and calculation they stand for."""
import copy
import datetime
import hashlib
import os
import shutil
import tempfile

from harness.lib import encarr, ratio, setup_ocgis  # noqa: F401

GROUPS = {'all': 'all', 'month': ['month'], 'year': ['year'], 'month-year': ['month', 'year']}


def date(d):
    m = d // 10
    return datetime.datetime(2001 + (m - 1) // 12, (m - 1) % 12 + 1, d % 10)


def code(dt):
    return (12 * (dt.year - 2001) + dt.month) * 10 + dt.day


def field(s, k):
    import numpy as np
    from ocgis import Field, Grid, Variable
    from ocgis.variable.crs import Spherical
    from ocgis.variable.temporal import TemporalVariable
    x = Variable(name='x', value=[s['x0'] + j + .5 for j in range(s['nx'])], dimensions='x', attrs={'units': 'degrees_east', 'standard_name': 'longitude', 'axis': 'X'})
    y = Variable(name='y', value=[s['y0'] + j + .5 for j in range(s['ny'])], dimensions='y', attrs={'units': 'degrees_north', 'standard_name': 'latitude', 'axis': 'Y'})
    for v, o, n in ((x, s['x0'], s['nx']), (y, s['y0'], s['ny'])):
        v.set_bounds(Variable(name=v.name + 'b', value=[[o + j, o + j + 1.] for j in range(n)], dimensions=[v.name, 'bnds']))
    t = TemporalVariable(name='time', value=[float((date(d) - datetime.datetime(2001, 1, 1)).days) for d in s['days']], dimensions='time',
                         units='days since 2001-01-01', calendar='standard', attrs={'axis': 'T'})
    a = np.array(s['vals'], dtype=float)
    m = a == -1
    a[m] = 77.
    dims = ['time', 'lev', 'y', 'x']
    kw = {}
    if s['haslevel']:
        kw['level'] = Variable(name='lev', value=[10. * (j + 1) for j in range(s['nl'])], dimensions='lev', attrs={'axis': 'Z'})
        if s['perm']:
            dims = ['lev', 'time', 'y', 'x']
            a, m = a.transpose(1, 0, 2, 3), m.transpose(1, 0, 2, 3)
    else:
        a, m = a[:, 0], m[:, 0]
        dims.remove('lev')
    d = Variable(name='v', value=a.copy(), mask=m, dimensions=dims, units='m')
    return Field(time=t, grid=Grid(x, y, crs=Spherical()), is_data=d, crs=Spherical(), name='ds{}'.format(k), **kw)


def digest(f):
    """What a field holds."""
    h = []
    for v in f.values():
        try:
            val = v.get_value()
        except AttributeError:
            val = None
        m = v.get_mask() if hasattr(v, 'get_mask') else None
        h.append((v.name, type(v).__name__, None if val is None else (str(val.dtype), val.shape, val.tobytes() if val.dtype != object else [getattr(x, 'wkb', x) for x in val.flatten()]),
                  None if m is None else m.tobytes(), v.dimension_names if hasattr(v, 'dimension_names') else None, sorted((k, str(x)) for k, x in v.attrs.items()), None))
    h.append(repr(type(f.crs)) + str(f.crs.value if f.crs is not None else None))
    h.append([(k, v.size) for k, v in f.dimensions.items()])
    h.append(repr(f.dimension_map.as_dict()))
    h.append(f.name)
    h.append(sorted((k, list(v)) for k, v in f._tags.items()))
    return repr(h)


def result(f, req, d, ug, tag):
    import numpy as np
    o = {'set': d, 'id': ug, 'tag': tag, 'empty': False, 'days': [], 'levels': [], 'places': [], 'areas': [], 'vals': [], 'gid': 0}
    if f.is_empty:
        o['empty'] = True
        return o
    name = 'v' if req['calc'] == 'none' else 'c'
    v = f[name]
    tdim = f.time.dimensions[0].name
    o['days'] = [code(x) for x in f.time.value_datetime.flatten()] if req['calc'] in ('none', 'plus') else []
    a, m = np.ma.getdata(v.get_masked_value()), np.ma.getmaskarray(v.get_masked_value())
    names = list(v.dimension_names)
    lev = f.level
    front = [tdim] + ([lev.dimensions[0].name] if lev is not None else [])
    rest = [n for n in names if n not in front]
    if req['agg']:
        g = f.geom
        o['areas'] = [int(round(x.area * 16 * 1e6)) / 1e6 for x in g.get_value().flatten()]
        o['areas'] = [int(x) if x == int(x) else -5 for x in o['areas']]
        if g.ugid is not None and ug:
            o['gid'] = int(g.ugid.get_value().flatten()[0])
        sel = [()] if not rest else None
        smask = np.zeros([a.shape[names.index(n)] for n in rest], bool)
        sel = list(np.ndindex(*smask.shape))
    else:
        rest = [f.grid.dimensions[0].name, f.grid.dimensions[1].name]
        g = f.geom
        smask = f.grid.get_mask() if g is None or g.get_mask() is None else g.get_mask()
        shape = tuple(dm.size for dm in f.grid.dimensions)
        smask = np.zeros(shape, bool) if smask is None else smask
        sel = [ix for ix in np.ndindex(*shape) if not smask[ix]]
        yy, xx = f.grid.get_value_stacked()
        o['places'] = [[int(round(xx[ix] - .5)), int(round(yy[ix] - .5))] for ix in sel]
        if g is None:
            o['areas'] = [16] * len(sel)
        else:
            gv = g.get_value()
            o['areas'] = [int(round(gv[ix].area * 16)) if abs(gv[ix].area * 16 - round(gv[ix].area * 16)) < 1e-9 else -5 for ix in sel]
    order = [names.index(n) for n in front + rest]
    a, m = a.transpose(order), m.transpose(order)
    if lev is None:
        a, m = a[:, None], m[:, None]
    else:
        o['levels'] = [int(x) for x in lev.get_value().flatten()]
    o['vals'] = [[[[] if m[(t, l) + ix] else ratio(a[(t, l) + ix], 20000, 1e-11) for ix in sel] for l in range(a.shape[1])] for t in range(a.shape[0])]
    return o


def request(case, req):
    """The arguments of the operation."""
    kw = {'spatial_operation': req['op'], 'aggregate': req['agg'], 'allow_empty': req['allow'], 'snippet': req['snippet'], 'output_format': 'ocgis'}
    if req['geoms']:
        from ocgis import Field, GeometryVariable, Variable
        from ocgis.variable.crs import Spherical
        from shapely.geometry import box
        gs = [box(g['x1'] / 4., g['y1'] / 4., g['x2'] / 4., g['y2'] / 4.) for g in req['geoms']]
        ug = Variable(name='UGID', value=[g['id'] for g in req['geoms']], dimensions='g')
        tag = Variable(name='TAG', value=[g['tag'] for g in req['geoms']], dimensions='g')
        gv = GeometryVariable(name='geom', value=gs, dimensions='g', crs=Spherical())
        gv.set_ugid(ug)
        kw['geom'] = Field(geom=gv, crs=Spherical(), variables=[ug, tag], is_data=tag)
    if req['calc'] != 'none':
        kw['calc'] = 'c=v+1' if req['calc'] == 'plus' else [{'func': req['calc'], 'name': 'c'}]
        kw['calc_raw'] = req['raw']
        if req['calc'] != 'plus':
            kw['calc_grouping'] = GROUPS[req['group']]
    if req['range']:
        kw['time_range'] = [date(d) for d in req['range']]
    if req['region']:
        kw['time_region'] = {'month': sorted(req['region'])}
    if req['levels']:
        kw['level_range'] = list(req['levels'])
    if req['slice']:
        s = req['slice']
        kw['slice'] = [None, s[0:2], None, s[2:4], s[4:6]]
    if req['conform']:
        kw['conform_units_to'] = 'cm'
    return kw


def one(case, k, work):
    from ocgis import OcgOperations, RequestDataset
    from ocgis.exc import EmptySubsetError, ExtentError
    req = case['rest']
    rec = {'sets': [dict(s) for s in case['sets']], 'rest': req, 'outcome': '', 'results': [], 'order': [], 'source': True,
           'case': '{} {}'.format(k, ' '.join('{}={}'.format(a, req[a]) for a in ('op', 'agg', 'calc', 'raw', 'group', 'range', 'region', 'levels', 'slice', 'snippet', 'conform', 'allow')))}
    d = tempfile.mkdtemp(dir=work)
    try:
        ds, before = [], []
        for n, s in enumerate(case['sets'], 1):
            f = field(s, n)
            if s['kind'] == 'file':
                p = os.path.join(d, '{}.nc'.format(n))
                f.write(p)
                ds.append(RequestDataset(p, variable='v', field_name='ds{}'.format(n)))
            else:
                ds.append(f)

        def look():
            return [digest(x) if s['kind'] == 'field' else hashlib.md5(open(x.uri, 'rb').read()).hexdigest() for x, s in zip(ds, case['sets'])]
        before = look()
        try:
            ret = OcgOperations(dataset=ds if len(ds) > 1 else ds[0], **request(case, req)).execute()
            rec['outcome'] = 'done'
        except (EmptySubsetError, ExtentError):
            rec['outcome'] = 'empty'
        if rec['outcome'] == 'done':
            for ug, cont in ret.children.items():
                rec['order'].append(0 if ug is None else int(ug))
                tag = 0 if ug is None else int(cont['TAG'].get_value()[0])
                for nm, f in cont.children.items():
                    rec['results'].append(result(f, req, int(nm[2:]), 0 if ug is None else int(ug), tag))
        rec['source'] = look() == before
    finally:
        shutil.rmtree(d)
    return rec


def relfield(q, k):
    import numpy as np
    from ocgis import Field, Grid, Variable
    from ocgis.variable.crs import WGS84, Spherical
    from ocgis.variable.temporal import TemporalVariable
    rng = np.random.RandomState(q['seed'] + k)
    crs = WGS84() if q['crs'] == 'wgs84' else Spherical()
    xs = np.arange(20., 360., 40.) if q['wide'] else np.arange(-170., 180., 40.)
    ys = np.arange(-40., 41., 20.) + k
    at = ({'axis': 'X', 'standard_name': 'longitude', 'units': 'degrees_east'}, {'axis': 'Y', 'standard_name': 'latitude', 'units': 'degrees_north'})
    nm = ('lon', 'lat')
    x = Variable(name=nm[0], value=xs, dimensions=nm[0], attrs=at[0])
    y = Variable(name=nm[1], value=ys, dimensions=nm[1], attrs=at[1])
    if q['bounds']:
        for v in (x, y):
            a = v.get_value()
            h = (a[1] - a[0]) / 2
            v.set_bounds(Variable(name=v.name + '_b', value=np.stack([a - h, a + h], 1), dimensions=[v.name, 'bnds']))
    t = TemporalVariable(name='time', value=[10., 40.], dimensions='time', units='days since 2001-01-01', attrs={'axis': 'T'})
    d = Variable(name='v', value=rng.randint(0, 50, (2, ys.size, xs.size)).astype(float), dimensions=['time', nm[1], nm[0]], units='m')
    return Field(time=t, grid=Grid(x, y, crs=crs), is_data=d, crs=crs, name='ds{}'.format(k))


def relgeoms(q, which):
    """Selection geometries: points or boxes, some beyond 180 degrees."""
    import numpy as np
    from ocgis.variable.crs import Spherical
    from shapely.geometry import Point, box
    rng = np.random.RandomState(q['seed'])
    out = []
    for n in range(q['ng']):
        cx, cy, w = rng.uniform(-120, 120), rng.uniform(-25, 25), 37.
        g = Point(cx, cy) if q['points'] else box(cx - w, cy - w * .7, cx + w, cy + w * .7)
        out.append({'geom': g, 'properties': {'UGID': 10 * (3 - n) + 1, 'TAG': n}, 'crs': Spherical()})
    return [out[n] for n in which]


def rel(q, work):
    from ocgis import OcgOperations, RequestDataset
    from ocgis.variable.crs import WGS84, CoordinateReferenceSystem
    d = tempfile.mkdtemp(dir=work)
    rec = {'case': ' '.join('{}={}'.format(k, v) for k, v in sorted(q.items()))}
    try:
        n = range(1, q['nds'] + 1)
        fs = {k: relfield(q, k) for k in n}
        if q['kind'] == 'file':
            for k in n:
                fs[k].write(os.path.join(d, '{}.nc'.format(k)))
            fs = {k: RequestDataset(os.path.join(d, '{}.nc'.format(k)), variable='v', field_name='ds{}'.format(k)) for k in n}

        def go(sets, which, allow=False):
            kw = {'spatial_operation': q['op'], 'aggregate': q['agg'], 'spatial_reorder': q['reorder'], 'interpolate_spatial_bounds': q['interp'], 'vector_wrap': q['vector'],
                  'select_nearest': q['nearest'] and q['points'], 'allow_empty': allow, 'output_format': 'ocgis'}
            if q['wrap'] != 'none':
                kw['spatial_wrapping'] = q['wrap']
            if q['outcrs'] != 'none':
                kw['output_crs'] = WGS84() if q['outcrs'] == 'wgs84' else CoordinateReferenceSystem(epsg=5070)
            if q['points'] and q['radius']:
                kw['search_radius_mult'] = 2.1
            if q['ng']:
                kw['geom'] = relgeoms(q, which)
            out = []
            try:
                ret = OcgOperations(dataset=[fs[k] for k in sets], **kw).execute()
            except Exception as e:
                if os.environ.get('O01_TRACE'):
                    import traceback
                    traceback.print_exc()
                return [{'key': [k, w], 'text': type(e).__name__} for k in sets for w in (which if q['ng'] else [-1])], True
            ids = {None: -1}
            ids.update({10 * (3 - w) + 1: w for w in which})
            for ug, cont in ret.children.items():
                g = '' if cont.geom is None else cont.geom.get_value()[0].wkt
                for nm, f in cont.children.items():
                    out.append({'key': [int(nm[2:]), ids[ug if ug is None else int(ug)]], 'text': 'empty' if f.is_empty else hashlib.md5((digest(f) + g).encode()).hexdigest()})
            return out, False
        before = [digest(f) for f in fs.values()] if q['kind'] == 'field' else 0
        w = list(range(q['ng']))
        rec['whole'], failed = go(list(n), w)
        rec['alone'] = [x for k in n for m in (w or [-1]) for x in go([k], [m])[0]]
        rec['reverse'] = go(list(n)[::-1], w[::-1])[0]
        rec['again'] = go(list(n), w)[0]
        rec['allow'] = go(list(n), w, True)[0]
        if failed:
            # One part's failure ends the request: the others are not compared.
            names = {x['text'] for x in rec['alone']} | {x['text'] for x in rec['reverse']}
            rec['failed'] = sorted(names)
            for k in ('alone', 'reverse', 'allow'):
                rec[k] = rec['whole'] if rec['whole'][0]['text'] in {x['text'] for x in rec[k]} or k == 'allow' else rec[k]
        rec['source'] = q['kind'] != 'field' or [digest(f) for f in fs.values()] == before
    finally:
        shutil.rmtree(d)
    return rec


def run(ctx):
    setup_ocgis()
    c = 'CONSTANTS MaxSets = {}\n MaxGeoms = {}\n Vals = {}\n'
    ctx.model('Pipeline', 'INIT Init\nNEXT Next\nINVARIANT Laws\n' + c.format(2, 2, ctx.n('{1, 3, 9}', '{0, 1, 3, 9}')), label='requests over two tiny datasets', timeout=850)
    cases = ctx.generate('Pipeline', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + c.format(3, 3, '{1}'), num=ctx.n(300, 1500), depth=12, label='datasets and requests')
    recs = []
    for k, cs in enumerate(cases):
        try:
            recs.append(one(cs, k, ctx.work))
        except Exception as e:
            if os.environ.get('O01_TRACE'):
                import traceback
                traceback.print_exc()
            recs.append({'sets': cs['sets'], 'rest': cs['rest'], 'outcome': '{}: {}'.format(type(e).__name__, e), 'results': [], 'order': [], 'source': True, 'case': '{} {}'.format(k, cs['rest'])})
    for r in recs:
        o = r['outcome'].split(':')[0]
        ctx.cover[o] = ctx.cover.get(o, 0) + 1
    j = 'INIT JInit\nNEXT JNext\n' + c.format(3, 3, '{1}')
    ctx.judge('Pipeline', recs, 'requests', j)
    good = [r for r in recs if r['outcome'] == 'done' and r['results'] and not r['results'][0]['empty']][:3]
    bad = copy.deepcopy(good)
    for b in bad:
        b['results'][0]['areas'] = b['results'][0]['areas'][:-1]
    ctx.expect_reject('Pipeline', bad, 'a place lost', j)
    bad = copy.deepcopy(good)
    for b in bad:
        b['results'] = b['results'][:-1]
    ctx.expect_reject('Pipeline', bad, 'a result lost', j)
    rels = [rel(q, ctx.work) for q in ctx.generate('Pipeline', 'INIT RelInit\nNEXT RelNext\nINVARIANT RelEmit\n' + c.format(3, 3, '{1}'), num=ctx.n(120, 400), depth=4, label='requests of other kinds')]
    for r in rels:
        k = 'relation ' + ','.join(r.get('failed', ['done']))
        ctx.cover[k] = ctx.cover.get(k, 0) + 1
    kj = 'INIT KJInit\nNEXT KJNext\n' + c.format(3, 3, '{1}')
    ctx.judge('Pipeline', rels, 'whole and parts', kj)
    bad = copy.deepcopy([r for r in rels if 'failed' not in r][:3])
    for b in bad:
        b['reverse'][0]['text'] = 'other'
    ctx.expect_reject('Pipeline', bad, 'order matters', kj)
