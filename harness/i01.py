"""I01: netCDF round trip."""
import copy
import os
import shutil
import tempfile

from harness.lib import outcome, ratio, setup_ocgis

CONST = 'CONSTANTS Formats = {{{}}} MaxVars = {} MaxSize = {} MaxDims = {} MaxKids = 2 Types = {{"i1", "i2", "i4", "i8", "f4", "f8", "S"}} Scales <- TheScales Offsets <- TheOffsets ' \
        'Extras = {{"both", "both", "scale", "offset"}} AttrNames = {{"a", "b", "c", "d", "e", "f", "_g", "h"}}\n'
FORMATS = ['NETCDF4', 'NETCDF4_CLASSIC', 'NETCDF3_CLASSIC', 'NETCDF3_64BIT_OFFSET']


def pool(name):
    import numpy as np
    return {'a': 'plain text', 'b': 3, 'c': 1.5, 'd': [1, 2, 3], 'e': '', 'f': np.float32(.25), '_g': 'hidden', 'h': None}[name]


def attr(v):
    import numpy as np
    if isinstance(v, (str, bytes)):
        return 's:' + (v.decode() if isinstance(v, bytes) else v)
    a = np.atleast_1d(np.asarray(v))
    if a.dtype.kind in 'iuf':
        return 'n:' + ','.join(repr(float(x)) for x in a)
    return 's:' + ','.join(str(x) for x in a)


def attrs(d, leave=()):
    return [{'n': str(k), 'v': '' if v is None else attr(v), 'hid': k.startswith('_') or v is None} for k, v in d.items() if k not in leave]


def cell(v):
    import numpy as np
    if v is np.ma.masked or v is None:
        return []
    if isinstance(v, (str, bytes)):
        return [v.decode() if isinstance(v, bytes) else str(v)]
    return ratio(float(v), maxden=64) if abs(float(v)) < 1e6 else [1, 0]


def cells(arr, slen):
    """The elements; characters along a last dimension are a text."""
    import numpy as np
    arr = np.ma.asanyarray(arr)
    if arr.dtype.kind in 'SU' and slen:
        m = np.ma.getmaskarray(arr)
        ret = []
        for idx in np.ndindex(arr.shape[:-1]):
            ret.append([''.join('' if m[idx + (k,)] else (lambda x: x.decode() if isinstance(x, bytes) else str(x))(arr.data[idx + (k,)]) for k in range(arr.shape[-1]))])
        return ret
    return [cell(x) for x in np.ma.asanyarray(arr).flatten()] if arr.ndim else [cell(np.ma.masked if np.ma.getmaskarray(arr) else arr.data[()])]


def tcode(dt):
    import numpy as np
    if dt is str or dt == object or np.dtype(dt).kind in 'SUO':
        return 'S'
    d = np.dtype(dt)
    return d.kind + str(d.itemsize)


def var_rec(name, dims, dt, value, at, crs=False, leave=()):
    tp = '' if crs else tcode(dt)
    slen = bool(dims) and dims[-1].endswith('_ocgis_slen')
    if slen:
        dims = dims[:-1]
    return {'name': name, 'dims': list(dims), 'type': tp, 'cells': [] if crs else cells(value, slen), 'attrs': [] if crs else attrs(at, leave)}


def raw(path):
    """What a file holds, by the netCDF library alone."""
    import netCDF4

    def group(g, name):
        ret = [{'name': name, 'dims': [{'name': d.name, 'size': len(d), 'unl': d.isunlimited()} for d in g.dimensions.values()],
                'vars': [var_rec(v.name, list(v.dimensions), v.dtype, v[...], {k: v.getncattr(k) for k in v.ncattrs()}, 'grid_mapping_name' in v.ncattrs() or getattr(v, 'ocgis_role', '') == 'coordinate_system') for v in g.variables.values()],
                'attrs': attrs({k: g.getncattr(k) for k in g.ncattrs()})}]
        for k, c in g.groups.items():
            ret += group(c, k)
        return ret
    with netCDF4.Dataset(path) as ds:
        return group(ds, '')


def memory(f, name='', texts=False, leave_units=()):
    """What a collection holds."""
    from ocgis import CRS, TemporalVariable
    from ocgis.variable.crs import AbstractCRS
    from ocgis.variable.geom import GeometryVariable
    vs = []
    for v in list(f.values()):
        if isinstance(v, GeometryVariable):
            continue
        at = dict(v.attrs)
        if not isinstance(v, AbstractCRS) and v.units is not None:
            at['units'] = str(v.units)
        if isinstance(v, AbstractCRS):
            vs.append(var_rec(v.name, [], int, None, at, True))
        else:
            val = v.value_numtime if isinstance(v, TemporalVariable) else v.get_masked_value()
            vs.append(var_rec(v.name, list(v.dimension_names), val.dtype if isinstance(v, TemporalVariable) else v.dtype, val, at, leave=('units',) if v.name in leave_units else ()))
    ret = [{'name': name, 'dims': [{'name': d.name, 'size': len(d), 'unl': d.is_unlimited} for d in f.dimensions.values()], 'vars': vs, 'attrs': attrs(f.attrs)}]
    for k, c in f.children.items():
        ret += memory(c, k, texts, leave_units)
    return ret


def roles(f):
    """Which variable holds which role, and what the roles say."""
    from ocgis.constants import DimensionMapKey as K
    dm = f.dimension_map
    ret = []
    for r in (K.REALIZATION, K.TIME, K.LEVEL, K.Y, K.X):
        v = dm.get_variable(r)
        if v is not None:
            ret.append([r, v, dm.get_bounds(r) or '', '' if r in (K.LEVEL, K.REALIZATION) else ','.join(dm.get_dimension(r) or [])])
    ret.append(['crs', repr(sorted((k, v if isinstance(v, (str, bool)) else round(float(v), 6)) for k, v in f.crs.value.items())) if f.crs is not None else 'none'])
    ret.append(['time', ' '.join(str(x) for x in f.time.value_datetime) if f.time is not None else 'none'])
    ret.append(['mask', repr(f.grid.get_mask().tolist()) if f.grid is not None and f.grid.get_mask() is not None and f.grid.get_mask().any() else 'none'])
    ret.append(['data', ' '.join(sorted(v.name for v in f.data_variables if len(v.dimensions) > 0 and {'time', 'x', 'y'} <= set(v.dimension_names)))])
    return ret


def make_coll(c, unl_ok=True):
    import numpy as np
    from ocgis import Dimension, Variable
    from ocgis.variable.base import VariableCollection
    dims = {d['name']: Dimension(d['name'], size=None if d['unl'] else d['size'], size_current=d['size'] if d['unl'] else None) for d in c['dims']}
    vs = []
    for v in c['vars']:
        shape = [len(dims[d]) for d in v['dims']]
        vals = [('zz' if v['type'] == 'S' else 7) if x == [] else (x[0] if v['type'] == 'S' else x[0] / x[1]) for x in v['cells']]
        mask = [x == [] for x in v['cells']]
        arr = np.array(vals, dtype=object if v['type'] == 'S' else v['type']).reshape(shape)
        kw = {'dtype': str} if v['type'] == 'S' else {}
        vs.append(Variable(v['name'], value=arr, mask=np.array(mask).reshape(shape) if any(mask) else None, dimensions=[dims[d] for d in v['dims']], attrs={a['n']: pool(a['n']) for a in v['attrs']}, **kw))
    ret = VariableCollection(name=c['name'] or None, variables=vs, attrs={a['n']: pool(a['n']) for a in c['attrs']})
    return ret


def fill_attrs(c):
    for o in [c] + c['vars']:
        o['attrs'] = attrs({a['n']: pool(a['n']) for a in o['attrs']})


def make_field(fc, rng):
    import datetime
    import numpy as np
    from ocgis import CRS, Dimension, Field, Grid, TemporalVariable, Variable
    from ocgis.variable.crs import CFLambertConformal, CFSpherical, Spherical, WGS84
    n = {'t': fc['nt'], 'z': max(1, fc['nz']), 'y': fc['ny'], 'x': fc['nx']}
    names = {'t': 'time', 'z': 'lev', 'y': 'y', 'x': 'x'}
    td = Dimension('time', size=None if fc['unl'] else n['t'], size_current=n['t'] if fc['unl'] else None)
    dims = {'t': td, 'z': Dimension('lev', n['z']), 'y': Dimension('y', n['y']), 'x': Dimension('x', n['x'])}
    start, step = rng.choice([(0., 1.), (10.5, .25), (400., 30.)])
    tv = start + step * np.arange(n['t'])
    tb = None
    units = 'days since 2001-01-01'
    if fc['tb']:
        tb = Variable('time_bnds', value=np.array([[v - step / 2, v + step / 2] for v in tv]), dimensions=[td, 'bnds'])
        tb = TemporalVariable(name='time_bnds', value=tb.get_value(), dimensions=[td, 'bnds'], units=units, calendar=fc['cal'])
    if fc['tin'] == 'dates':
        t0 = TemporalVariable(name='q', value=tv, dimensions='q', units=units, calendar=fc['cal'])
        tv = t0.value_datetime
    t = TemporalVariable(name='time', value=tv, dimensions=td, units=units, calendar=fc['cal'], bounds=tb, attrs={'axis': 'T'})
    lev = None
    if fc['nz']:
        lev = Variable('lev', value=np.arange(n['z']) * 10 + 5., dimensions=dims['z'], attrs={'axis': 'Z', 'positive': 'up'}, units='m')
        if rng.random() < .5:
            lev.set_bounds(Variable('lev_bnds', value=np.array([[k * 10., k * 10 + 10.] for k in range(n['z'])]), dimensions=[dims['z'], 'bnds']))
    xv, yv = np.arange(n['x']) * 2. + 1, np.arange(n['y']) * 3. - 1
    if fc['grid'] == 'vector':
        x = Variable('x', value=xv, dimensions=dims['x'], attrs={'axis': 'X'})
        y = Variable('y', value=yv, dimensions=dims['y'], attrs={'axis': 'Y'})
        if fc['gb']:
            x.set_bounds(Variable('x_bnds', value=np.array([[v - 1, v + 1] for v in xv]), dimensions=[dims['x'], 'bnds']))
            y.set_bounds(Variable('y_bnds', value=np.array([[v - 1.5, v + 1.5] for v in yv]), dimensions=[dims['y'], 'bnds']))
    else:
        xx, yy = np.meshgrid(xv, yv)
        xx, yy = xx + .25 * yy, yy
        x = Variable('x', value=xx, dimensions=[dims['y'], dims['x']], attrs={'axis': 'X'})
        y = Variable('y', value=yy, dimensions=[dims['y'], dims['x']], attrs={'axis': 'Y'})
        if fc['gb']:
            x.set_bounds(Variable('x_bnds', value=np.stack([xx - 1, xx + 1, xx + 1, xx - 1], -1), dimensions=[dims['y'], dims['x'], 'corners']))
            y.set_bounds(Variable('y_bnds', value=np.stack([yy - 1, yy - 1, yy + 1, yy + 1], -1), dimensions=[dims['y'], dims['x'], 'corners']))
    crs = {'none': None, 'spherical': Spherical(), 'latlon': CFSpherical(), 'wgs84': WGS84(),
           'lambert': CFLambertConformal(standard_parallel=[20, 30], longitude_of_central_meridian=-100., latitude_of_projection_origin=25., false_easting=0, false_northing=0, units='m')}[fc['crs']]
    if fc['crs'] == 'lambert':
        for v, a in ((x, 'x'), (y, 'y')):
            v.attrs['standard_name'] = 'projection_{}_coordinate'.format(a)
            v.units = 'm'
    data = []
    for k, v in enumerate(fc['vars']):
        ds = [d for d in v['dims'] if d != 'z' or fc['nz']]
        shape = [n[d] for d in ds]
        a = np.ma.array((np.arange(int(np.prod(shape))) * 3 % 50 + k).reshape(shape).astype(v['type']), mask=False)
        if v['m'] and shape:
            a.mask = np.array([rng.random() < .3 for _ in range(a.size)]).reshape(shape)
        data.append(Variable('v{}'.format(k), value=a if a.mask.any() else a.data, dimensions=[dims[d] for d in ds], attrs={'long_name': 'data {}'.format(k)}, units=rng.choice([None, 'K', 'm s-1'])))
    f = Field(time=t, level=lev, grid=Grid(x, y), crs=crs, is_data=data, attrs={'source': 'none', 'n': 4})
    if fc['gmask'] != 'none':
        m = np.zeros((n['y'], n['x']), dtype=bool)
        if fc['gmask'] == 'some':
            m = np.array([[rng.random() < .4 for _ in range(n['x'])] for _ in range(n['y'])])
        f.grid.set_mask(m)
    return f


def pack(p, path, fmt):
    import netCDF4
    import numpy as np
    with netCDF4.Dataset(path, 'w', format=fmt) as ds:
        ds.createDimension('d', len(p['vals']))
        v = ds.createVariable('v', p['type'], ('d',), fill_value=p['fill'])
        v.set_auto_maskandscale(False)
        if p['form'] in ('both', 'scale'):
            v.scale_factor = p['scale'][0] / p['scale'][1]
        if p['form'] in ('both', 'offset'):
            v.add_offset = p['offset'][0] / p['offset'][1]
        if p['miss']:
            v.missing_value = np.array(p['miss'], dtype=p['type'])[()]
        if p['valid']:
            v.valid_range = np.array(p['valid'], dtype=p['type'])
        v[:] = np.array(p['vals'], dtype=p['type'])


def one(case, rng, k, work):
    from ocgis import RequestDataset
    from ocgis.driver.nc import DriverNetcdf
    o = case['opt']
    rec = {'opt': {'fixed': o['fixed'], 'loose': False, 'drop': [], 'add': []}, 'refused': '', 'before': [], 'file': [], 'back': [], 'roles': ['', ''], 'packed': [], 'unchanged': True,
           'case': '{} {} {}'.format(o['kind'], o['fmt'], k)}
    path = os.path.join(work, 'a{}.nc'.format(k))
    vk = {}
    if o['zlib']:
        vk['zlib'] = True
    if o['fixed']:
        vk['unlimited_to_fixedsize'] = True
    kw = {'dataset_kwargs': {'format': o['fmt']}, 'variable_kwargs': vk}

    def go():
        if o['kind'] == 'coll':
            c = copy.deepcopy([case['coll']] + case['kids'])
            vc = make_coll(c[0])
            for kid in c[1:]:
                vc.add_child(make_coll(kid))
            for x in c:
                fill_attrs(x)
            rec['before'] = c
            first = memory(vc)
            vc.write(path, **copy.deepcopy(kw))
            rec['unchanged'] = memory(vc) == first
            rec['file'] = raw(path)
            rec['back'] = memory(RequestDataset(path, driver=DriverNetcdf).get())
        elif o['kind'] == 'packed':
            p = dict(case['packed'])
            if p['form'] == 'scale':
                p['offset'] = [0, 1]
            if p['form'] == 'offset':
                p['scale'] = [1, 1]
            src = os.path.join(work, 's{}.nc'.format(k))
            pack(p, src, o['fmt'])
            f = RequestDataset(src, driver=DriverNetcdf).get()
            rec['packed'] = [p]
            rec['opt']['loose'] = True
            gone = ['scale_factor', 'add_offset', 'missing_value', 'valid_range']
            for v in f.values():
                v.load()
            f.write(path, **copy.deepcopy(kw))
            b = RequestDataset(path, driver=DriverNetcdf).get()
            rec['before'], rec['file'], rec['back'] = memory(f), raw(path), memory(b)
            for s in ('before', 'file', 'back'):
                for v in rec[s][0]['vars']:
                    v['attrs'] = [a for a in v['attrs'] if a['n'] not in gone]
        else:
            f = make_field(case['field'], rng)
            if f.crs is not None:
                f.crs.format_spatial_object(f)
            bnds = ['x_bnds', 'y_bnds']
            rec['before'] = memory(f, leave_units=bnds)
            before = roles(f)
            f.write(path, **copy.deepcopy(kw))
            again = memory(f, leave_units=bnds)
            rec['unchanged'] = again == rec['before'] and roles(f) == before
            rec['file'] = raw(path)
            b = RequestDataset(path).get()
            after = roles(b)
            if f.crs is None:
                rec['opt']['add'] = ['latitude_longitude']  # the default coordinate system
                before, after = ([x for x in y if x[0] != 'crs'] for y in (before, after))
            rec['roles'] = [before, after]
            rec['back'] = memory(b, leave_units=bnds)
    try:
        z = outcome(go)
        if not z['ok']:
            rec['refused'] = z['err'] + ': ' + z['msg']
    finally:
        if os.path.exists(path):
            os.remove(path)
    return rec


def run(ctx):
    setup_ocgis()
    ctx.model('NetCdfMC', 'INIT Init\nNEXT Next\nINVARIANTS Complete NoPhantom\n' + CONST.format('"NETCDF4", "NETCDF3_CLASSIC"', 2, 2, 2), label='collections written region by region')
    full = CONST.format(', '.join('"{}"'.format(f) for f in FORMATS), 4, 4, 3)
    cases = ctx.generate('NetCdfMC', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + full, num=ctx.n(500, 6000), depth=4, label='collections, fields and packed files')
    work = tempfile.mkdtemp(prefix='i01-')
    try:
        recs = [one(c, ctx.rng, k, work) for k, c in enumerate(cases)]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ctx.judge('NetCdfMC', recs, 'round trips', 'INIT JInit\nNEXT JNext\n' + full)
    good = [r for r in recs if r['refused'] == '' and any(v['cells'] for v in r['back'][0]['vars'])]
    bad = copy.deepcopy(good[:3])
    for b in bad:
        v = [v for v in b['back'][0]['vars'] if v['cells']][0]
        v['cells'][0] = [987, 1]
    ctx.expect_reject('NetCdfMC', bad, 'a value changed', 'INIT JInit\nNEXT JNext\n' + full)
    ctx.assumptions.append('unmasked data does not equal the fill value; no packing attributes on variables made in memory; private attributes (leading underscore) stay behind')
