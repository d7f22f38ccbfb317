"""D02: deferred reads."""
import copy
import csv
import json
import os
import shutil
import tempfile

from harness.lib import MISS, BAD, outcome, setup_ocgis

CONST = 'CONSTANTS MaxOps = {} MaxHandles = {} Kinds = {{{}}} Sizes <- {} OpNames = {{"slice", "copy", "extract", "read", "edit", "hide", "rewrite"}}\n'
LAYOUT = {'nc': [('time', ('time',), 1, 0, False, 'f8'), ('time_bnds', ('time', 'bnds'), 2, 0, False, 'f8'), ('y', ('y',), 3, 0, False, 'f8'), ('x', ('x',), 4, 0, False, 'f4'),
                 ('y_bnds', ('y', 'bnds'), 5, 0, False, 'f8'), ('x_bnds', ('x', 'bnds'), 6, 0, False, 'f4'),
                 ('a', ('time', 'y', 'x'), 7, 5, True, 'f4'), ('b', ('y', 'x'), 8, 0, True, 'i4'), ('s', (), 9, 0, True, 'f8')],
          'csv': [('p', ('n',), 1, 0, False, 'O'), ('q', ('n',), 2, 0, False, 'O'), ('r', ('n',), 3, 0, False, 'O')],
          'vector': [('p', ('n',), 1, 3, False, 'i8'), ('q', ('n',), 2, 0, False, 'f8'), ('ocgis_geom', ('n',), 3, 0, False, 'O')]}
DIMS = {'nc': ('time', 'y', 'x', 'bnds'), 'csv': ('n',), 'vector': ('n',)}
REAL = {'csv': 'n_records', 'vector': 'ocgis_ngeom'}
SIZES = [4, 3, 4]


def size(kind, d):
    return 2 if d == 'bnds' else SIZES[DIMS[kind].index(d)]


def content(kind, name, version):
    import numpy as np
    n, dims, code, holes, moves, dt = [v for v in LAYOUT[kind] if v[0] == name][0]
    shape = tuple(size(kind, d) for d in dims)
    flat = np.array([code * 100 + j + 1 + (10000 * version if moves else 0) for j in range(int(np.prod(shape)) if shape else 1)], dtype=float)
    mask = np.array([holes > 0 and (j + 1) % holes == 0 for j in range(len(flat))])
    return np.ma.array(flat, mask=mask).reshape(shape)


def write_nc(path, version, first):
    import netCDF4
    ds = netCDF4.Dataset(path, 'w' if first else 'r+', **({'format': 'NETCDF4'} if first else {}))
    try:
        if first:
            for d in DIMS['nc']:
                ds.createDimension(d, size('nc', d))
        for name, dims, code, holes, moves, dt in LAYOUT['nc']:
            if first:
                v = ds.createVariable(name, dt, dims, fill_value=-77 if name in ('a', 'b') else None)
                if name in ('time', 'y', 'x'):
                    v.bounds = name + '_bnds'
                    v.axis = {'time': 'T', 'y': 'Y', 'x': 'X'}[name]
                    v.standard_name = {'time': 'time', 'y': 'projection_y_coordinate', 'x': 'projection_x_coordinate'}[name]
                    v.units = 'days since 2000-01-01' if name == 'time' else 'm'
                if name == 'time':
                    v.calendar = 'noleap'
            v = ds.variables[name]
            if first or moves:
                v[...] = content('nc', name, version)
    finally:
        ds.close()


def write_csv(path, k):
    cols = [v[0] for v in LAYOUT['csv']]
    with open(path, 'w', newline='') as f:
        w = csv.writer(f)
        w.writerow(cols + ['note'])
        for j in range(SIZES[0]):
            w.writerow([str(int(content('csv', c, 0)[j])) for c in cols] + ['two\nlines' if k % 3 and j % 2 else 'one'])
            if k % 5 == 0 and j == 1:
                f.write('\r\n')


def write_vector(path, driver):
    import fiona
    from shapely.geometry import Point, mapping
    with fiona.open(path, 'w', driver=driver, schema={'geometry': 'Point', 'properties': {'p': 'int', 'q': 'float'}}, crs={'init': 'epsg:4326'}) as f:
        for j in range(SIZES[0]):
            f.write({'geometry': mapping(Point(float(content('vector', 'ocgis_geom', 0)[j]), 0.)), 'properties': {'p': None if content('vector', 'p', 0).mask[j] else int(content('vector', 'p', 0)[j]), 'q': float(content('vector', 'q', 0)[j])}})


def enc(v, hidden=False):
    import numpy as np
    if hidden or v is np.ma.masked or v is None:
        return MISS
    if hasattr(v, 'geom_type'):
        v = v.x
    try:
        f = float(v)
    except (TypeError, ValueError):
        return BAD
    return int(f) if f == int(f) else BAD


def data(v, how=0):
    """The elements of a variable, row by row, asked for in one of three ways."""
    import numpy as np
    if how == 1:
        val = v.get_value()
        m = v.get_mask()
        m = np.zeros(val.shape, dtype=bool) if m is None else m
        val = np.array(val, dtype=object)
        return [enc(x, h) for x, h in zip(val.reshape(-1), np.array(m).reshape(-1))]
    if how == 2:
        v.load()
    mv = v.get_masked_value()
    d = np.array(mv.data, dtype=object).reshape(-1)
    m = np.ma.getmaskarray(mv).reshape(-1)
    return [enc(x, h) for x, h in zip(d, m)]


def tcode(v):
    import numpy as np
    dt = v.dtype
    return 'O' if dt == object or dt is str else np.dtype(dt).kind + str(np.dtype(dt).itemsize)


def fcode(v):
    f = v.fill_value
    return 'none' if f is None else repr(float(f)) if tcode(v) != 'O' else str(f)


def open_(kind, path):
    import ocgis
    return ocgis.RequestDataset(uri=path, driver=kind if kind != 'nc' else 'netcdf-cf').get()


def touch(h):
    """Bounds are attached when a coordinate is asked for by its role."""
    from ocgis import Field
    if isinstance(h, Field):
        h.time, h.x, h.y
    return h


def sel(o, n):
    import numpy as np
    if o['form'] == 'slice':
        return slice(o['start'], o['stop'])
    if o['form'] == 'int':
        return o['pos'][0]
    if o['form'] == 'list':
        return list(o['pos'])
    m = np.zeros(n, dtype=bool)
    m[o['pos']] = True
    return m


def step(kind, hs, o, st):
    import numpy as np
    h = hs[o['h'] - 1]
    op = o['op']
    if op == 'slice':
        d = REAL.get(kind, o['dim'])
        hs.append(h[{d: sel(o, len(h.dimensions[d]))}])
    elif op == 'copy':
        hs.append(h.copy())
    elif op == 'extract':
        hs.append(touch(h)[o['var']].extract().parent)
    elif op == 'read':
        return data(h[o['var']], o['e'])
    elif op == 'edit':
        v = h[o['var']]
        new = np.array([50000 + 100 * o['e'] + j + 1 for j in range(int(np.prod(v.shape)) if v.shape else 1)]).reshape(v.shape)
        t = tcode(v)
        if kind == 'csv':
            a = np.zeros(v.shape, dtype=object)
            a[:] = [str(x) for x in new]
            new = a
        elif t != 'O':
            new = new.astype(v.dtype)
        v.set_value(new)
        v.set_mask(None)
    elif op == 'hide':
        v = h[o['var']]
        m = np.array([(j + 1 + o['e']) % 3 == 0 for j in range(int(np.prod(v.shape)))]).reshape(v.shape)
        v.set_mask(m, update=True)
    elif op == 'rewrite':
        st['version'] += 1
        write_nc(st['path'], st['version'], False)
    return []


def one(case, work, k):
    kind, ops = case['kind'], case['ops']
    names = [v[0] for v in LAYOUT[kind]]
    path = os.path.join(work, 'd%d' % k)
    os.mkdir(path)
    rec = {'kind': kind, 'ops': ops, 'shows': [], 'final': [], 'types': {}, 'fills': {}, 'refused': ''}

    def go():
        st = {'version': 0}
        if kind == 'nc':
            st['path'] = os.path.join(path, 'x.nc')
            write_nc(st['path'], 0, True)
        elif kind == 'csv':
            st['path'] = os.path.join(path, 'x.csv')
            write_csv(st['path'], k)
        else:
            ext, drv = [('shp', 'ESRI Shapefile'), ('geojson', 'GeoJSON')][k % 2]
            st['path'] = os.path.join(path, 'x.' + ext)
            write_vector(st['path'], drv)
        first = open_(kind, st['path'])
        for v in LAYOUT[kind]:
            first[v[0]].get_masked_value()
            rec['types'][v[0]] = [v[5]]
            rec['fills'][v[0]] = [fcode(first[v[0]])] if v[0] not in ('a', 'b') or kind != 'nc' else ['-77.0']
        hs = [open_(kind, st['path'])]
        for o in ops:
            rec['shows'].append(step(kind, hs, o, st))
        for h in hs:
            touch(h)
            rec['final'].append([{'name': n, 'data': data(h[n]), 'shape': list(h[n].shape), 'type': tcode(h[n]), 'fill': fcode(h[n]),
                                  'bounds': h[n].bounds.name if getattr(h[n], 'has_bounds', False) else ''} for n in names if n in h])
    try:
        z = outcome(go)
        if not z['ok']:
            rec['refused'] = z['err'] + ': ' + z['msg']
    finally:
        shutil.rmtree(path, ignore_errors=True)
    return rec


def run(ctx):
    setup_ocgis()
    small = CONST.format(ctx.n(3, 4), 3, '"nc"', 'Small')
    ctx.model('DeferredMC', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANT Commute\nPROPERTY Kept\n' + small, label='histories of a netCDF file')
    ctx.model('DeferredMC', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANT Commute\nPROPERTY Kept\n' + CONST.format(ctx.n(4, 5), 3, '"csv", "vector"', 'Small'), label='histories of tables')
    full = CONST.format(ctx.n(9, 12), 6, '"nc", "csv", "vector"', 'Full')
    cases = ctx.generate('DeferredMC', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + CONST.format(ctx.n(7, 12), 6, '"nc"', 'Full'), num=ctx.n(600, 4000), depth=16, label='histories of netCDF files')
    cases += ctx.generate('DeferredMC', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + CONST.format(ctx.n(8, 12), 6, '"csv", "vector"', 'Full'), num=ctx.n(300, 2500), depth=16, label='histories of tables')
    work = tempfile.mkdtemp(prefix='d02-')
    try:
        recs = [one(c, work, k) for k, c in enumerate(cases)]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ctx.judge('DeferredMC', recs, 'histories', 'INIT JInit\nNEXT JNext\n' + full)
    good = [r for r in recs if r['refused'] == '']
    bad = copy.deepcopy(good[:3])
    for b in bad:
        b['final'][0][0]['data'][0] = 5
    ctx.expect_reject('DeferredMC', bad, 'a value changed', 'INIT JInit\nNEXT JNext\n' + full)
