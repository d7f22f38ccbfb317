"""D04: masks and their propagation."""
from harness.lib import outcome, setup_ocgis, enc, Machinery


def consts(lay, maxops):
    return 'CONSTANTS MaxOps = {}\n Layout <- {}Layout\n BaseLen <- {}Len\n'.format(maxops, lay, lay)


def build(case, kind, rng):
    import numpy as np
    from ocgis import Dimension, Variable, VariableCollection, Field, Grid
    lens = case['len']
    dims = {d: Dimension(d, n) for d, n in lens.items()}
    made = {}
    vals = {}
    base = 0
    fill = {}
    for v in case['layout']:
        shp = [lens[d] for d in v['dims']]
        n = int(np.prod(shp)) if shp else 1
        arr = (np.arange(n) + base).reshape(shp)
        if v['name'] in ('x', 'y'):
            arr = arr - base
        if v['name'] in ('x_bnds', 'y_bnds'):
            arr = np.stack([np.arange(shp[0]) - .5, np.arange(shp[0]) + .5], axis=1)
        base += n
        made[v['name']] = Variable(name=v['name'], value=arr.astype(rng.choice([float, np.float32, float])),
                                   dimensions=[dims[d] for d in v['dims']], fill_value=rng.choice([None, -77., 1e20]))
    for v in case['layout']:
        if v['bounds']:
            made[v['name']].set_bounds(made[v['bounds']])
    grid = any(v['gmask'] for v in case['layout'])
    if grid:
        g = Grid(made['x'], made['y'])
        col = Field(grid=g)
        col.grid.set_mask(np.zeros(col.grid.shape, dtype=bool))
    else:
        col = {'vc': VariableCollection, 'field': Field}[kind]()
    for v in case['layout']:
        if v['name'].endswith('_bnds') or v['grid']:
            continue
        col.add_variable(made[v['name']])
    return col


def project(col, ref):
    import numpy as np
    out = []
    for v in col.values():
        val = np.asarray(v.get_value())
        m = v.get_mask()
        if m is None:
            at, ok = [], True
        else:
            m = np.asarray(m)
            ok = m.shape == val.shape and m.dtype == bool
            at = [[int(x) for x in p] for p in np.argwhere(m)] if m.ndim else []
        mv = v.get_masked_value()
        shown = [[int(x) for x in p] for p in np.argwhere(np.ma.getmaskarray(mv))] if val.ndim else []
        ok = ok and tuple(val.shape) == tuple(v.shape)
        want = ref.get(v.name)
        if want is not None:
            ok = ok and want[0].shape == val.shape and want[0].dtype == val.dtype and bool(np.all(want[0] == val)) and want[1] == v.fill_value
        out.append({'name': v.name, 'at': at, 'shown': shown, 'ok': bool(ok)})
    return out


def values_of(col):
    import numpy as np
    return {v.name: (np.array(v.get_value(), copy=True), v.fill_value) for v in col.values() if v.name != 'ocgis_spatial_mask'}


def run_history(case, rng, n):
    import numpy as np
    kind = rng.choice(['vc', 'field'])
    rec = {'kind': 'history', 'ops': case['ops'], 'ok': True, 'err': '', 'states': [], 'case': ''}
    hows = []

    def go():
        heap = [build(case, kind, rng)]
        refs = [values_of(heap[0])]
        states = []
        for op in case['ops']:
            col = heap[op['obj'] - 1]
            k = op['op']

            def arr(var):
                m = np.zeros(col[var].shape, dtype=bool)
                for p in op['m']:
                    m[tuple(p)] = True
                return m
            kw = {}
            if op['cascade']:
                kw['cascade'] = True
            if op['update']:
                kw['update'] = True
            if k == 'set':
                m = arr(op['var'])
                src = m.copy()
                how = rng.choice(['array', 'list', 'int'])
                hows.append(how)
                col[op['var']].set_mask({'array': src, 'list': src.tolist(), 'int': src.astype(int)}[how], **kw)
                src[...] = True      # the caller's array is the caller's
            elif k == 'clear':
                col[op['var']].set_mask(None, **kw)
            elif k == 'spread':
                ex = op['exclude']
                if ex and rng.random() < .5:
                    ex = [col[e] for e in ex]
                a = {'exclude': ex} if ex else {}
                if op['update']:
                    a['update'] = True
                col.set_mask(col[op['var']], **a)
            elif k == 'create':
                col[op['var']].get_mask(create=True)
            elif k == 'grid':
                m = arr(op['var'])
                col.grid.set_mask(m, cascade=op['cascade'])
            elif k == 'copy':
                how = rng.choice(['col', 'var', 'extract'])
                heap.append(col.copy() if how == 'col' else col[case['layout'][0]['name']].copy().parent if how == 'var' else col.copy())
                refs.append(refs[op['obj'] - 1])
            elif k == 'deepcopy':
                import copy
                heap.append(copy.deepcopy(col) if kind == 'vc' and not any(v['gmask'] for v in case['layout']) else col.deepcopy() if hasattr(col, 'deepcopy') else col.copy())
                refs.append(refs[op['obj'] - 1])
            elif k == 'cut':
                s = slice(op['a'], op['b'])
                heap.append(col[{op['dim']: s}])
                r = refs[op['obj'] - 1]
                refs.append({nm: (r[nm][0][tuple(s if d == op['dim'] else slice(None) for d in col[nm].dimension_names)], r[nm][1]) for nm in r})
            states.append([project(c, f) for c, f in zip(heap, refs)])
        return states
    o = outcome(go)
    rec['case'] = 'kind={} {}'.format(kind, n)
    if o['ok']:
        rec['states'] = o['val']
    else:
        rec['ok'] = False
        rec['err'] = o['err'] + ':' + o['msg']
    return rec


def extra(ctx):
    import numpy as np
    from ocgis import Variable
    recs = []
    for k in range(ctx.n(60, 400)):
        n = ctx.rng.randint(1, 6)
        fill = ctx.rng.choice([2, 3])
        vals = [ctx.rng.randint(0, 4) for _ in range(n)]
        r = {'kind': 'fill', 'case': 'fill {}'.format(k), 'vals': vals, 'fill': fill, 'ok': True, 'err': '', 'at': [], 'after': [], 'n': 0}
        o = outcome(lambda: (lambda v: (v.get_mask(create=True, check_value=True), v))(
            Variable('v', value=np.array(vals, dtype=float), dimensions='d', fill_value=float(fill))))
        if o['ok']:
            m, v = o['val']
            r.update(at=[int(x) + 1 for x in np.where(m)[0]], after=[enc(x) for x in v.get_value()], n=len(m))
        else:
            r.update(ok=False, err=o['err'])
        recs.append(r)
        # assignment into a window
        a = ctx.rng.randint(0, n - 1)
        b = ctx.rng.randint(a + 1, n)
        mask = [ctx.rng.randint(0, 1) for _ in range(n)] if ctx.rng.random() < .7 else None
        hasput = ctx.rng.random() < .7
        put = [100 + j for j in range(b - a)]
        pm = [ctx.rng.randint(0, 1) for _ in range(b - a)] if hasput else None
        wb = ctx.rng.random() < .3

        def go():
            kw = {} if mask is None else {'mask': np.array(mask, dtype=bool)}
            v = Variable('v', value=np.array(vals, dtype=float), dimensions='d', **kw)
            kw = {} if pm is None else {'mask': np.array(pm, dtype=bool)}
            p = Variable('p', value=np.array(put, dtype=float), dimensions='d', **kw)
            if wb:
                v.set_bounds(Variable('vb', value=np.zeros((n, 2)), dimensions=['d', 'b']))
                p.set_bounds(Variable('pb', value=np.ones((b - a, 2)), dimensions=['d', 'b']))
            if ctx.rng.random() < .5:
                v[a:b] = p
            else:
                v[{'d': slice(a, b)}] = p
            if wb:
                bv = v.bounds.get_value()[:, 0]
                assert all(bv[j] == (1 if a <= j < b else 0) for j in range(n)), 'bounds not assigned'
            p.set_mask(np.ones(b - a, dtype=bool)) if False else None
            m = v.get_mask()
            q = p.get_mask()
            return ([enc(x) for x in v.get_value()], [0] * n if m is None else [int(x) for x in m], [enc(x) for x in p.get_value()],
                    [] if q is None else [int(x) for x in q])
        r = {'kind': 'assign', 'case': 'assign {} bounds={}'.format(k, wb), 'vals': vals, 'mask': mask or [0] * n, 'put': put, 'putmask': pm or [],
             'hasput': hasput, 'a': a, 'b': b, 'ok': True, 'err': '', 'after': [], 'maskafter': [], 'putafter': [], 'putmaskafter': []}
        o = outcome(go)
        if o['ok']:
            r['after'], r['maskafter'], r['putafter'], r['putmaskafter'] = o['val']
        else:
            r.update(ok=False, err=o['err'] + o['msg'])
        recs.append(r)
    return recs


def run(ctx):
    setup_ocgis()
    import copy
    ctx.model('MaskingMC', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANT InRange\nPROPERTIES Isolated NeverReveals RevealsOnlyTwins Exactly\n' +
              consts('Tiny', ctx.n(2, 3)), label='all mask histories on a small collection', timeout=800)
    for lay, num in (('Full', ctx.n(200, 2000)), ('Grid', ctx.n(120, 1200))):
        mo = ctx.n(5, 8)
        cases = ctx.generate('MaskingMC', 'INIT Init\nNEXT GenNext\nINVARIANT Emit\n' + consts(lay, mo), num=num, depth=mo + 1,
                             label='mask histories ({})'.format(lay))
        recs = [run_history(c, ctx.rng, '{} {}'.format(lay, k)) for k, c in enumerate(cases)]
        ctx.judge('MaskingMC', recs, 'mask histories ' + lay, consts(lay, 0))
        if lay == 'Full':
            bad = copy.deepcopy([r for r in recs if r['ok']][:3])
            for b in bad:
                g = [x for x in b['states'][-1][0] if x['name'] == 'data'][0]
                g['at'] = g['at'][1:] if g['at'] else [[0, 0, 0]]
            if bad:
                ctx.expect_reject('MaskingMC', bad, 'mask altered', consts(lay, 0))
    ctx.judge('MaskingMC', extra(ctx), 'fill checks and window assignment', consts('Tiny', 0))
