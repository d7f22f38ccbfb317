"""D01: slicing of variables, collections and fields."""
from harness.lib import outcome, setup_ocgis, MISS, enc, Machinery

DIMS = ['t', 'y', 'x', 'z']
CONST = 'CONSTANTS DimNames = {} Lens = {} MaxOps = 0 MaxPick = 0\n'.replace('{} Lens', '{"t"} Lens')


def cfg(kind, lens, maxops, maxpick, dims):
    body = 'CONSTANTS DimNames = {{{}}} MaxOps = {} MaxPick = {}\n Lens <- LensDef\n'.format(
        ', '.join('"%s"' % d for d in dims), maxops, maxpick)
    return body


def py_sel(s, n=None):
    import numpy as np
    k = s['kind']
    if k == 'int':
        return s['a']
    if k == 'range':
        return slice(s['a'], s['b'])
    if k == 'head':
        return slice(None, s['b'])
    if k == 'tail':
        return slice(s['a'], None)
    if k == 'all':
        return slice(None)
    if k == 'step':
        return slice(s['a'], s['b'], s['lst'][0])
    if k == 'list':
        return list(s['lst'])
    if k == 'array':
        return np.array(s['lst'])
    if k == 'mask':
        return np.array(s['lst'], dtype=bool)
    raise Machinery(k)


def layout(lens, rng):
    """Variables over the dimensions, with values that tell every element apart."""
    vs = []
    base = [0]

    def add(name, dims, masked=None, bounds=''):
        n = 1
        for d in dims:
            n *= lens[d]
        vals = [base[0] + k for k in range(n)]
        base[0] += n
        m = [] if not masked else [int(rng.random() < masked) for _ in range(n)]
        vs.append({'name': name, 'dims': dims, 'vals': vals, 'mask': m, 'bounds': bounds})
    add('t', ['t'], None, 't_bnds')
    add('t_bnds', ['t', 'nb'])
    add('y', ['y'], 0.3 if rng.random() < .3 else None, 'y_bnds')
    vs[-1]['ymask'] = bool(vs[-1]['mask'])
    add('y_bnds', ['y', 'nb'])
    if vs[-2]['mask']:
        vs[-1]['mask'] = [m for m in vs[-2]['mask'] for _ in range(lens['nb'])]
    add('x', ['x'], None, 'x_bnds')
    add('x_bnds', ['x', 'nb'])
    add('data', ['t', 'y', 'x'], rng.choice([None, 0.3]))
    add('swapped', ['x', 't'], rng.choice([None, 0.3]))
    add('full', ['t', 'z', 'y', 'x'], rng.choice([None, 0.2]))
    add('static', ['y', 'x'], rng.choice([None, 0.5]))
    add('lev', ['z'])
    add('words', ['y'])
    add('scalar', [])
    for v in vs:
        v.pop('ymask', None)
    return vs


def build(lay, lens, kind, unlimited, types):
    import numpy as np
    from ocgis import Dimension, Variable, VariableCollection, Field
    dims = {}
    for d, n in lens.items():
        dims[d] = Dimension(d, size_current=n) if d == unlimited else Dimension(d, n, src_idx='auto' if types == 'src' else None)
    made = {}
    for v in lay:
        shp = [lens[d] for d in v['dims']]
        if v['name'] == 'words':
            val = np.array(['w{}'.format(k) for k in v['vals']], dtype=object)
        else:
            val = np.array(v['vals'], dtype={'f': float, 'i': int, 'src': np.float32}[types]).reshape(shp)
        kw = {}
        if v['mask']:
            kw['mask'] = np.array(v['mask'], dtype=bool).reshape(shp)
        made[v['name']] = Variable(name=v['name'], value=val, dimensions=[dims[d] for d in v['dims']], **kw)
    for v in lay:
        if v['bounds']:
            b = made[v['bounds']]
            made[v['name']].set_bounds(b)
    if kind == 'gfield':
        from ocgis import TemporalVariable, Grid
        t = TemporalVariable(name='t', value=made['t'].get_value(), dimensions=dims['t'], units='days since 2000-01-01')
        t.set_bounds(TemporalVariable(name='t_bnds', value=made['t_bnds'].get_value(), dimensions=[dims['t'], dims['nb']]))
        made['t'] = t
        grid = Grid(made['x'], made['y'])
        col = Field(grid=grid, time=t, level=made['lev'])
    else:
        col = {'vc': VariableCollection, 'field': Field}[kind]()
    for v in lay:
        if v['name'].endswith('_bnds'):
            continue
        if kind == 'gfield' and v['name'] in ('t', 'x', 'y', 'lev'):
            continue
        col.add_variable(made[v['name']], force=kind == 'gfield')
    return col


def project(col, dimnames, partial=False):
    import numpy as np
    out = []
    for v in col.values():
        val = v.get_value()
        m = v.get_mask()
        flat = [] if val is None else np.asarray(val).flatten().tolist()
        vals = [int(str(x)[1:]) if isinstance(x, str) else enc(x) for x in flat]
        mk = [0] * len(vals) if m is None else [int(x) for x in np.asarray(m).flatten()]
        b = v.bounds
        out.append({'name': v.name, 'dims': list(v.dimension_names), 'shape': [int(x) for x in v.shape], 'vals': vals, 'mask': mk,
                    'bounds': '' if b is None else b.name})
        if tuple(np.shape(val)) != tuple(v.shape):
            out[-1]['shape'] = [-1] + [int(x) for x in np.shape(val)]
    return {'vars': out, 'dims': {k: len(d) for k, d in col.dimensions.items()}, 'partial': partial}


def run_history(case, rng, n):
    lens = dict(case['len'])
    lens['nb'] = 2
    lay = layout(lens, rng)
    kind = rng.choice(['vc', 'field', 'gfield'])
    unlimited = rng.choice([None, 't', None])
    types = rng.choice(['f', 'i', 'src'])
    entries = []
    rec = {'kind': 'history', 'len': lens, 'ops': case['ops'], 'layout': lay, 'ok': True, 'err': '', 'obs': [], 'final': []}

    def go():
        heap = [build(lay, lens, kind, unlimited, types)]
        obs = []
        for op in case['ops']:
            src = heap[op['obj'] - 1]
            sel = {s['dim']: py_sel(s) for s in op['sels']}
            # a variable holding all of the dimensions can be sliced instead of its collection
            cands = [v['name'] for v in lay if set(sel) <= set(v['dims'])]
            how = rng.choice(['col', 'var-dict', 'var-tuple', 'dist']) if cands else 'col'
            if kind == 'gfield' and rng.random() < 0.5:
                how = 'field-slice'
                if set(sel) <= {'x', 'y'} and rng.random() < 0.5:
                    how = 'grid'
            if how == 'col':
                new = src[sel]
            elif how == 'field-slice':
                new = src.get_field_slice({{'t': 'time', 'z': 'level'}.get(d, d): v for d, v in sel.items()})
            elif how == 'grid':
                new = src.grid[sel.get('y', slice(None)), sel.get('x', slice(None))].parent
            else:
                var = src[rng.choice(cands)]
                if how == 'var-dict':
                    new = var[sel]
                elif how == 'var-tuple' or any(s['kind'] not in ('range', 'all') for s in op['sels']):
                    t = tuple(sel.get(d, slice(None)) for d in var.dimension_names)
                    new = var[t if len(t) > 1 else t[0]]
                else:
                    new = var[sel]
                new = new.parent
            entries.append(how)
            heap.append(new)
            obs.append(project(new, lens))
        return obs, [project(h, lens) for h in heap]
    o = outcome(go)
    rec['case'] = 'kind={} unlimited={} types={} entries={} {}'.format(kind, unlimited, types, entries, n)
    if o['ok']:
        rec['obs'], rec['final'] = o['val']
    else:
        rec['ok'] = False
        rec['err'] = o['err'] + ':' + o['msg']
    return rec


def dim_records(ctx):
    import numpy as np
    from ocgis import Dimension
    recs = []
    for n in range(1, ctx.n(5, 6)):
        sels = [dict(kind='int', a=a, b=0, lst=[]) for a in range(-n, n)]
        sels += [dict(kind='range', a=a, b=b, lst=[]) for a in range(0, n) for b in range(a + 1, n + 3)]
        sels += [dict(kind='range', a=-a, b=-b, lst=[]) for a in range(1, n + 1) for b in range(1, a)]
        sels += [dict(kind='range', a=a, b=-b, lst=[]) for a in range(n) for b in range(1, n - a)]
        sels += [dict(kind='head', a=0, b=b, lst=[]) for b in list(range(1, n + 2)) + list(range(1 - n, 0))]
        sels += [dict(kind='tail', a=a, b=0, lst=[]) for a in range(-n, n)]
        sels += [dict(kind='all', a=0, b=0, lst=[])]
        import itertools
        for m in (1, 2, 3):
            for l in itertools.product(range(n), repeat=m):
                sels.append(dict(kind='array', a=0, b=0, lst=list(l)))
        for l in itertools.product((0, 1), repeat=n):
            if any(l):
                sels.append(dict(kind='mask', a=0, b=0, lst=list(l)))
        for s in sels:
            for mode in ('auto', 'fancy', 'none', 'unlimited'):
                base = list(range(n))
                if mode == 'fancy':
                    base = [10 + 3 * k for k in range(n)]
                s = dict(s, dim='d')

                def go():
                    if mode == 'unlimited':
                        d = Dimension('d', size_current=n)
                    elif mode == 'none':
                        d = Dimension('d', n)
                    elif mode == 'fancy':
                        d = Dimension('d', n, src_idx=np.array(base))
                    else:
                        d = Dimension('d', n, src_idx='auto')
                    e = d[py_sel(s)]
                    si = e._src_idx if mode in ('fancy', 'auto') else None
                    if isinstance(si, tuple):
                        si = list(range(si[0], si[1]))
                    return len(e), e.is_unlimited, [] if si is None else [int(x) for x in si], len(d), d.is_unlimited
                o = outcome(go)
                r = {'kind': 'dim', 'case': '{} {} {}'.format(mode, n, {k: v for k, v in s.items() if k != 'dim'}), 'n': n, 'sel': s, 'ok': o['ok'], 'base': base,
                     'length': -1, 'unlimited': False, 'wasunlimited': False, 'src': [], 'after': n}
                if o['ok']:
                    r['length'], r['unlimited'], r['src'], r['after'], r['wasunlimited'] = o['val']
                else:
                    r['err'] = o['err'] + o['msg']
                recs.append(r)
    return recs


def run(ctx):
    setup_ocgis()
    import copy
    ctx.model('SlicingMC', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANTS Positive OnlyOriginals\nPROPERTY SourcesUntouched\n' +
              cfg('', None, ctx.n(2, 2), ctx.n(1, 2), ['x', 'y']), label='all slice histories over two dimensions', timeout=800)
    cases = ctx.generate('SlicingMC', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + cfg('', None, ctx.n(4, 6), 3, DIMS),
                         num=ctx.n(260, 3000), depth=ctx.n(6, 8), label='slice histories')
    consts = cfg('', None, 0, 0, DIMS)
    recs = [run_history(c, ctx.rng, k) for k, c in enumerate(cases)]
    ctx.judge('SlicingMC', recs, 'slice histories', consts)
    ctx.judge('SlicingMC', dim_records(ctx), 'dimension slices', consts)
    good = [r for r in recs if r['ok']][:3]
    bad = copy.deepcopy(good)
    for b in bad:
        v = [x for x in b['final'][0]['vars'] if x['name'] == 'data'][0]
        v['vals'][0] += 1
    if bad:
        ctx.expect_reject('SlicingMC', bad, 'source value altered', consts)
