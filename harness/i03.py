"""I03: coordinate roles and role maps."""
import copy
import os
import tempfile

from harness.lib import outcome, setup_ocgis

CONST = 'CONSTANTS MaxSteps = {} MaxMaps = {} RoleNames = {{"time", "x"}} VarNames = {{{}}}\n'
NEST = ['inner', 'deep']
ROLES = ['realization', 'time', 'level', 'y', 'x']
SIZE = {'dr': 2, 'dt': 3, 'dz': 4, 'dy': 5, 'dx': 6, 'two': 2, 'corner': 4, 'extra': 7}


def file(c, fn):
    import netCDF4
    import numpy as np
    with netCDF4.Dataset(fn, 'w') as root:
        ds = root
        for g in NEST[:max(c['group'], 0)]:
            ds = ds.createGroup(g)
        for v in c['vars']:
            for d in v['dims']:
                if d not in ds.dimensions:
                    ds.createDimension(d, SIZE[d])
        for v in c['vars']:
            shape = tuple(SIZE[d] for d in v['dims'])
            var = ds.createVariable(v['name'], 'i4' if v['gm'] else 'f8', tuple(v['dims']))
            var[:] = np.arange(int(np.prod(shape, dtype=int)), dtype=float).reshape(shape) if shape else 1
            isbounds = any(v['name'] in (w['bounds'], w['clim']) for w in c['vars'])
            if v['axis'] == 'T' or (v['name'] == 'time' and not isbounds) or any(s['role'] == 'time' and s['var'] == v['name'] for s in c['stated']):
                var.units = 'days since 2000-01-01'
                var.calendar = 'standard'
            for a, k in (('axis', 'axis'), ('bounds', 'bounds'), ('climatology', 'clim'), ('grid_mapping_name', 'gm')):
                if v[k]:
                    var.setncattr(a, v[k])
            if v['mask']:
                var.ocgis_role = 'spatial_mask'
    return fn


def rolemap(c):
    from ocgis.driver.dimension_map import DimensionMap
    d = {}
    for s in c['stated']:
        d[s['role']] = {'variable': s['var']}
        if s['bounds']:
            d[s['role']]['bounds'] = s['bounds']
        if s['dims']:
            d[s['role']]['dimension'] = list(s['dims'])
    if c['smask']:
        d['spatial_mask'] = {'variable': c['smask'], 'attrs': {}}
    return d if c['form'] == 'dict' else DimensionMap.from_dict(d)


def opened(c, d):
    from ocgis import RequestDataset
    fn = file(c, tempfile.mktemp(dir=d) + '.nc')
    rec = {'what': c, 'err': '', 'roles': [], 'smask': '', 'crs': '', 'data': [], 'field': [], 'fdata': [], 'kept': True}
    kw = {}
    if c['given']:
        kw['dimension_map'] = rolemap(c)
        before = facts(kw['dimension_map'])
    state = {}

    def work():
        from ocgis.exc import NoDataVariablesFound
        rd = RequestDataset(fn, **kw)
        dm = rd.dimension_map
        if c['group'] > 0:
            meta = rd.metadata
            for g in NEST[:c['group']]:
                meta = meta['groups'][g]
            dm = dm.get_group([None] + NEST[:c['group']])
            dm.update_dimensions_from_metadata(meta)
            names = rd.driver.get_data_variable_names(meta, dm)
        else:
            try:
                names = rd.variable
            except NoDataVariablesFound:
                names = ()
            names = [names] if isinstance(names, str) else list(names or [])
        rec['roles'] = [{'role': r, 'var': dm.get_variable(r) or '', 'bounds': dm.get_bounds(r) or '', 'dims': list(dm.get_dimension(r) or [])} for r in ROLES]
        rec['crs'] = dm.get_crs() or ''
        rec['smask'] = dm.get_spatial_mask() or ''
        rec['data'] = sorted(names)
        if c['group'] > 0:
            rec['field'], rec['fdata'] = [], sorted(names)
            return
        f = RequestDataset(fn, format_time=False, **kw).create_field()
        for r in ROLES:
            v = getattr(f, r)
            rec['field'].append({'role': r, 'var': v.name if v is not None else '', 'bounds': v.bounds.name if v is not None and v.has_bounds else ''})
        rec['fdata'] = sorted(v.name for v in f.data_variables)
    o = outcome(work)
    if not o['ok']:
        rec['err'] = o['err'] + ': ' + o['msg'][:200]
    if c['given']:
        rec['kept'] = facts(kw['dimension_map']) == before
    os.remove(fn)
    return rec


def facts(m):
    """A role map, or its plain form, as a sorted list of facts."""
    d = m if isinstance(m, dict) else m.as_dict()
    ret = []

    def walk(d, scope):
        for k, v in d.items():
            if k == 'groups':
                for g, x in v.items():
                    walk(x, g)
            elif k == 'topology':
                for g, x in v.items():
                    walk(x, {'polygon': '2d', 'line': '1d'}.get(g, g))
            elif not isinstance(v, dict):
                ret.append([scope, k, 'value', {True: 'yes', False: 'no'}.get(v, v)])
            else:
                for e, x in v.items():
                    if e == 'attrs':
                        ret.extend([scope, k, 'attr:' + a, b] for a, b in (x or {}).items() if a in ('axis', 'note'))
                    elif e == 'dimension':
                        ret.extend([scope, k, 'dimension', n] for n in x or [])
                    elif x is not None:
                        ret.append([scope, k, e, x])
    walk(d, '')
    return sorted(ret)


def at(m, scope):
    from ocgis.constants import Topology
    from ocgis.driver.dimension_map import DimensionMap
    from ocgis.exc import DimensionMapError
    if scope == '':
        return m
    if scope in ('2d', '1d'):
        return m.get_topology({'2d': Topology.POLYGON, '1d': Topology.LINE}[scope], create=True)
    try:
        return m.get_group(scope)
    except DimensionMapError:
        m.set_group(scope, DimensionMap())
        return m.get_group(scope)


def histories(case):
    from ocgis.driver.dimension_map import DimensionMap
    maps = [DimensionMap(), DimensionMap()]
    rec = {'steps': case['steps'], 'maps': [], 'refused': []}
    for st in case['steps']:
        top = maps[st['m'] - 1]
        op = st['op']

        def work():
            m = at(top, st['scope']) if op in ('set', 'bounds', 'clear', 'crs', 'mask', 'property', 'ask') else top
            if op == 'set':
                kw = {'dimension': [st['dim']]} if st['dim'] else {}
                if st['bounds']:
                    kw['bounds'] = st['bounds']
                if st['attr']:
                    kw['attrs'] = {'note': st['attr']}
                m.set_variable(st['entry'], st['var'], **kw)
            elif op == 'bounds':
                m.set_bounds(st['entry'], st['bounds'])
            elif op == 'clear':
                m.set_variable(st['entry'], None)
            elif op == 'crs':
                m.set_crs(st['var'])
            elif op == 'mask':
                m.set_spatial_mask(st['var'], attrs={'note': st['attr']} if st['attr'] else None)
            elif op == 'property':
                val = {'yes': True, 'no': False}.get(st['var'], st['var'])
                if st['entry'] == 'driver':
                    m.set_driver(val)
                else:
                    m.set_property(st['entry'], val)
            elif op == 'ask':
                for ask in (m.get_variable, m.get_bounds, m.get_dimension, m.get_attrs):
                    ask(st['entry'])
                m.get_crs(), m.get_spatial_mask(), m.get_topology('polygon'), m.get_driver(), m.get_grid_abstraction()
            elif op == 'copy':
                maps.append(copy.deepcopy(top))
            elif op == 'plain':
                plain = top.as_dict()
                before = facts(plain)
                maps.append(DimensionMap.from_dict(plain))
                assert facts(plain) == before, 'from_dict changed its input'
            elif op == 'update':
                top.update(maps[st['other'] - 1])
        o = outcome(work)
        if not o['ok'] and o['err'] != 'DimensionMapError':
            rec['error'] = o['err'] + ': ' + o['msg']
        rec['refused'].append(not o['ok'])
    rec['maps'] = [facts(m) for m in maps]
    return rec


def run(ctx):
    setup_ocgis()
    small = CONST.format(ctx.n(3, 4), 2, '"a", "b"' if not ctx.thorough else '"a", "b"')
    ctx.model('Roles', 'INIT Init\nNEXT Next\nINVARIANT Single Beside\nPROPERTY Apart\n' + small, timeout=800, label='every history of small role maps')
    full = CONST.format(ctx.n(7, 12), 4, '"a"')
    cases = ctx.generate('Roles', 'INIT GenInit\nNEXT GenMaps\nINVARIANT Emit\n' + full, num=ctx.n(3000, 40000), depth=3, label='histories of role maps')
    ctx.judge('Roles', [histories(c) for c in cases], 'role maps', 'INIT JInit\nNEXT JMaps\n' + full)
    cases = ctx.generate('Roles', 'INIT GenInit\nNEXT GenData\nINVARIANT Emit\n' + full, num=ctx.n(900, 8000), depth=3, label='datasets')
    d = tempfile.mkdtemp(dir=ctx.work)
    recs = [opened(c, d) for c in cases]
    ctx.judge('Roles', recs, 'datasets', 'INIT JInit\nNEXT JData\n' + full)
    good = [r for r in recs if not r['err'] and any(x['var'] for x in r['roles'])]
    bad = copy.deepcopy(good[0])
    k = [j for j, x in enumerate(bad['roles']) if x['var']][0]
    bad['roles'][k]['var'] = 'nowhere'
    ctx.expect_reject('Roles', [bad], 'a role given to a variable that does not exist', 'INIT JInit\nNEXT JData\n' + full)
