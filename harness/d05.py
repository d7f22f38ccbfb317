"""D05: iterating variables, collections and fields."""
from harness.lib import MISS, BAD, encarr, outcome, setup_ocgis


def build(cs, rng):
    import datetime
    import numpy as np
    from shapely.geometry import Point
    from ocgis import Field
    from ocgis.variable.base import Variable, VariableCollection
    from ocgis.variable.geom import GeometryVariable
    from ocgis.variable.temporal import TemporalVariable
    field = cs['mode'] != 'collection'
    dn = {1: 'time', 2: 'level', 3: 'gd'} if field else {1: 'p', 2: 'q', 3: 'r', 4: 's'}
    out, kw = [], {}
    for n, v in enumerate(cs['vars'], 1):
        dims = [dn[d] for d in v['dims']]
        shp = tuple(cs['sizes'][d - 1] for d in v['dims'])
        size = int(np.prod(shp)) if shp else 1
        val = np.array([1000 * n + k for k in range(size)], dtype='f8' if rng.random() < .5 else 'i8').reshape(shp)
        mask = np.array(v['mask'], dtype=bool).reshape(shp) if any(v['mask']) or rng.random() < .3 else None
        a = {}
        if v['data'] and cs['reps'] and field and (cs['melt'] or n == 1):
            a['repeat_record'] = [tuple(r) for r in cs['reps']]
        is_time, is_geom = v['name'] in ('TIME', 'time'), v['name'] == 'GEOM'
        name = {'TIME': 'time', 'LEVEL': 'level'}.get(v['name'], v['name'])
        if is_geom:
            g = np.empty(shp, dtype=object)
            for k in range(size):
                g[k] = Point(1000 * n + k, 0)
            x = GeometryVariable(name='GEOM', value=g, mask=mask, dimensions=dims)
            kw['geom'] = x
        else:
            if v['bnd']:
                flip = rng.random() < .3
                b = np.stack([val - 300, val + 300][::-1 if flip else 1], axis=1)
                bm = np.stack([np.array(v['bmask'], dtype=bool)] * 2, axis=1)
                if mask is not None:
                    bm = np.logical_or(bm, mask[:, None]) if False else bm
                bc = TemporalVariable if is_time else Variable
                a['bounds'] = bc(name=name + '_bounds', value=b, mask=bm if any(v['bmask']) else None, dimensions=[dims[0], 'bnds'],
                                 **({'units': 'days since 2000-01-01', 'calendar': 'standard'} if is_time else {}))
            if is_time:
                x = TemporalVariable(name=name, value=val, mask=mask, dimensions=dims, units='days since 2000-01-01', calendar='standard', **a)
                kw['time'] = x
            else:
                x = Variable(name=name, value=val, mask=mask, dimensions=dims, **a)
                if name == 'level':
                    kw['level'] = x
        if v['data']:
            out.append(x)
    if field:
        f = Field(variables=out, is_data=[v.name for v in out], **kw)
    else:
        f = VariableCollection(variables=out)
    return f


def value(x):
    import datetime
    import numpy as np
    if x is None or x is np.ma.masked:
        return MISS
    if hasattr(x, 'year'):
        d = datetime.datetime(x.year, x.month, x.day, x.hour, x.minute, x.second) - datetime.datetime(2000, 1, 1)
        return d.days if d.seconds == 0 else BAD
    if hasattr(x, 'x') and hasattr(x, 'wkt'):
        return int(x.x)
    return int(x) if float(x) == int(x) else BAD


def snapshot(f):
    import numpy as np
    out = {}
    for v in f.values():
        if v.name == 'GEOM':
            out[v.name] = [g.wkt for g in v.get_value().flat]
        else:
            out[v.name] = [str(x) for x in np.ma.asanyarray(v.get_value()).flatten()]
        m = v.get_mask()
        out[v.name + '!m'] = [] if m is None else np.asarray(m).flatten().tolist()
        out[v.name + '!r'] = [] if v.repeat_record is None else [list(r) for r in v.repeat_record]
    return out


def one(cs, rng, n):
    import copy
    rec = {'kind': cs['mode'], 'cs': cs, 'refused': '', 'first': [], 'second': [], 'kept': True, 'source': True,
           'case': '{} sizes={} dims={} allow={} primary={} melt={} {}'.format(cs['mode'], cs['sizes'], [v['dims'] for v in cs['vars']], cs['allow'], cs['primary'], cs['melt'], n)}

    def go():
        f = build(cs, rng)
        names = [v['name'] for v in cs['vars']]

        def mask_off(v):
            m = v.get_mask()
            return m is not None and not m.any()
        before = snapshot(f)
        if cs['mode'] == 'collection':
            fol = [x if rng.random() < .5 else f[x] for x in names[1:]]
            kw = {'allow_masked': cs['allow'], 'primary_mask': names[cs['primary'] - 1] if rng.random() < .5 else f[names[cs['primary'] - 1]]}
            if fol or rng.random() < .5:
                kw['followers'] = fol if fol else None
            if rng.random() < .7 or len(names) == 1:
                kw['variable'] = names[0] if rng.random() < .5 else f[names[0]]
            else:
                kw.pop('followers', None)
            if cs['melt']:
                kw['melted'] = [f[x] for x in names]
            if cs['reps']:
                kw['repeaters'] = [tuple(r) for r in cs['reps']]
            direct = len(names) == 1 and not cs['melt'] and rng.random() < .5
        else:
            data = [v['name'] for v in cs['vars'] if v['data']]
            kw = {'allow_masked': cs['allow']}
            if not cs['allow'] and rng.random() < .3:
                kw.pop('allow_masked')
            kw['standardize'] = cs['mode'] == 'field'
            if cs['mode'] == 'field' and rng.random() < .5:
                kw.pop('standardize')
            if cs['melt']:
                kw['melted'] = True
            elif rng.random() < .3:
                kw['variable'] = data[0]
                kw['followers'] = data[1:]
            direct = False
        saved = {k: list(v) if isinstance(v, list) else v for k, v in kw.items()}

        def records():
            if direct:
                k2 = {k: v for k, v in kw.items() if k in ('allow_masked', 'primary_mask', 'repeaters')}
                it = f[names[0]].get_iter(**k2)
                if rng.random() < .5:
                    for _ in it:
                        break
                return [[[k, value(x)] for k, x in y.items()] for y in it]
            out = []
            for g, y in f.iter(**dict(kw)):
                row = []
                for k, x in y.items():
                    if k == 'VARIABLE':
                        row.append([k, names.index(x) + 1])
                    else:
                        row.append([k, value(x)])
                if 'GEOM' in names:
                    row.append(['GEOM', value(g)])
                out.append(row)
            return out
        rec['first'] = records()
        rec['second'] = records()
        rec['kept'] = set(saved) == set(kw) and all(isinstance(kw[k], list) == isinstance(saved[k], list) and
                                                    (not isinstance(saved[k], list) or (len(saved[k]) == len(kw[k]) and all(a is b for a, b in zip(saved[k], kw[k]))))
                                                    for k in saved)
        rec['source'] = snapshot(f) == before
    o = outcome(go)
    if not o['ok']:
        rec['refused'] = '{}: {}'.format(o['err'], o['msg'])
    return rec


def run(ctx):
    setup_ocgis()
    import copy

    def consts(size, nv, nd, modes):
        return 'CONSTANTS MaxSize = {}\n MaxVars = {}\n MaxDims = {}\n Modes = {{{}}}\n'.format(size, nv, nd, ', '.join('"%s"' % m for m in modes))
    ctx.model('Records', 'INIT Init\nNEXT Next\nINVARIANTS AllOnce InOrder Complete\n' + consts(2, 2, ctx.n(2, 3), ['collection']), label='going through all small collections', timeout=850)
    c = consts(3, 4, 3, ['collection', 'field', 'field'])
    cases = ctx.generate('Records', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + c, num=ctx.n(1500, 10000), depth=6, label='collections and fields to iterate')
    recs = [one(cs, ctx.rng, k) for k, cs in enumerate(cases)]
    ctx.judge('Records', recs, 'records', c)
    good = [r for r in recs if not r['refused'] and len(r['first']) > 2][:3]
    bad = copy.deepcopy(good)
    for b in bad:
        b['first'][0], b['first'][1] = b['first'][1], b['first'][0]
    ctx.expect_reject('Records', bad, 'records swapped', c)
