"""M01: decomposition of dimensions over processes."""
from harness.lib import outcome, setup_ocgis

CONST = 'CONSTANTS NMax = 0 SizeMax = 0\n'


def rng_(b):
    return [-1, -1] if b is None else [int(b[0]), int(b[1])]


def slc(s, n):
    if isinstance(s, slice):
        a, b, st = s.indices(n)
        return [a, b] if st == 1 else [-7, -7]
    import numpy as np
    v = [int(x) for x in np.array(s).flatten()]
    if v == list(range(v[0], v[-1] + 1)) if v else False:
        return [v[0], v[-1] + 1]
    return [0, 0] if not v else [-7, -7]


def run(ctx):
    setup_ocgis()
    from ocgis.vmachine import mpi
    rng = ctx.rng
    ctx.model('Decomp', 'INIT Init\nNEXT Next\nCONSTANTS NMax = {} SizeMax = {}\n'
              'INVARIANTS LawsHold NothingTwice SelectionsCompose\n'.format(*ctx.n((14, 8), (24, 12))),
              label='decomposition laws, all sizes in bounds')
    recs = []
    nmax, smax = ctx.n((40, 18), (80, 36))
    pairs = [(n, s) for n in range(nmax + 1) for s in range(1, smax + 1)]
    pairs += [(rng.randint(41, 200000), rng.choice([1, 2, 3, 7, 16, 64, 100])) for _ in range(ctx.n(0, 0))]

    def bounds(n, s, split=None):
        return [rng_(mpi.get_rank_bounds(n, s, r, esplit=split)) for r in range(s)]

    decs = {}
    for n, s in pairs:
        o = outcome(bounds, n, s)
        b = outcome(lambda: [rng_(mpi.get_rank_bounds(n, s, r)) for r in (s, s + 3)])
        decs[(n, s)] = o['val']
        recs.append({'kind': 'bounds', 'case': 'n={} size={}'.format(n, s), 'n': n, 'size': s, 'ok': o['ok'] and b['ok'],
                     'd': o['val'] or [], 'beyond': b['val'] or []})
        if n and rng.random() < 0.5:
            sp = rng.randint(1, n + 2)
            o = outcome(bounds, n, s, sp)
            recs.append({'kind': 'split', 'case': 'n={} size={} split={}'.format(n, s, sp), 'n': n, 'size': s, 'split': sp,
                         'ok': o['ok'], 'd': o['val'] or []})
    ctx.judge('Decomp', recs, 'rank bounds', CONST)

    recs = []
    for n in range(1, ctx.n(13, 22)):
        for s in range(1, ctx.n(7, 10)):
            d = decs[(n, s)]
            if not d:
                continue
            for start in range(0, n + 1):
                for stop in range(start, n + 2):
                    if not ctx.thorough and rng.random() < 0.4:
                        continue
                    o = outcome(lambda: [rng_(None if b == [-1, -1] else mpi.get_global_to_local_slice((start, stop), b)) for b in d])
                    recs.append({'kind': 'g2l', 'case': '{}:{} of {} on {}'.format(start, stop, n, s), 'n': n, 'start': start,
                                 'stop': stop, 'd': d, 'loc': o['val'] or [[-1, -1]] * s, 'ok': o['ok']})
    ctx.judge('Decomp', recs, 'global to local slices', CONST)

    recs = []
    for _ in range(ctx.n(250, 1500)):
        shape = [rng.randint(1, 9) for _ in range(rng.choice([1, 2]))]
        splits = [rng.randint(1, x) for x in shape]
        o = outcome(mpi.create_nd_slices, splits, shape)
        recs.append({'kind': 'nd', 'case': 'shape={} splits={}'.format(shape, splits), 'shape': shape, 'splits': splits, 'ok': o['ok'],
                     'slices': [[slc(s, n) for s, n in zip(x, shape)] for x in o['val']] if o['ok'] else []})
        size = rng.randint(1, 40)
        o = outcome(mpi.get_optimal_splits, size, tuple(shape))
        recs.append({'kind': 'opt', 'case': 'shape={} size={}'.format(shape, size), 'shape': shape, 'size': size, 'ok': o['ok'],
                     'splits': list(o['val']) if o['ok'] else []})
    ctx.judge('Decomp', recs, 'array splits', CONST)

    recs = [dist_record(mpi, rng, 'exh', [(n, True)], s, mn) for n in range(1, 16) for s in range(1, 9) for mn in (1, 2, 3)]
    for _ in range(ctx.n(400, 3000)):
        k = rng.randint(1, 4)
        same = rng.random() < 0.3
        base = rng.randint(1, 20)
        dims = [(base if same else rng.randint(1, 20), rng.random() < 0.6) for _ in range(k)]
        recs.append(dist_record(mpi, rng, 'rnd', dims, rng.randint(1, 9), rng.choice([1, 2, 2, 3]), src=rng.random() < 0.5,
                                group=rng.choice([None, None, 'grp', ['a', 'b']])))
    ctx.judge('Decomp', recs, 'distributions of several dimensions', CONST)

    bad = [dict(recs[0])]
    good = [r for r in recs if r['ok'] and r['size'] > 1 and any(not x[0]['empty'] for x in r['rs'])]
    b = __import__('copy').deepcopy(good[len(good) // 2])
    b['rs'][0][0]['hi'] += 1
    bad = [b]
    ctx.expect_reject('Decomp', bad, 'distribution with one element too many', CONST)


def dist_record(mpi, rng, tag, dims, size, mn, src=False, group=None):
    import numpy as np
    from ocgis import Dimension
    rec = {'kind': 'dist', 'case': '{} dims={} size={} min={} group={}'.format(tag, dims, size, mn, group), 'size': size, 'min': mn,
           'dims': [], 'ok': True, 'rs': [], 'emptyranks': []}
    srcs = []
    for k, (n, dist) in enumerate(dims):
        s = sorted(rng.sample(range(3 * n + 5), n)) if src else []
        srcs.append(s)
        rec['dims'].append({'n': n, 'dist': dist, 'src': s})

    def go():
        import copy
        d = mpi.OcgDist(size=size)
        for k, (n, dist) in enumerate(dims):
            kw = {'src_idx': np.array(srcs[k])} if srcs[k] else {}
            d.create_dimension('d{}'.format(k), n, dist=dist, group=copy.copy(group), **kw)
        d.update_dimension_bounds(min_elements=mn)
        rs = []
        for r in range(size):
            row = []
            for k in range(len(dims)):
                dim = d.get_dimension('d{}'.format(k), group=copy.copy(group), rank=r)
                bl = dim.bounds_local
                e = bool(dim.is_empty)
                si = dim._src_idx
                if isinstance(si, tuple):
                    si = list(range(si[0], si[1]))
                row.append({'lo': -1 if e or bl is None else bl[0], 'hi': -1 if e or bl is None else bl[1], 'empty': e,
                            'len': len(dim), 'dist': bool(dim.dist), 'src': [] if si is None or e or not srcs[k] else [int(x) for x in si]})
            rs.append(row)
        return rs, [int(x) for x in d.get_empty_ranks(group=copy.copy(group))]

    o = outcome(go)
    rec['ok'] = o['ok']
    if o['ok']:
        rec['rs'], rec['emptyranks'] = o['val']
    else:
        rec['err'] = o['err'] + o['msg']
    return rec
