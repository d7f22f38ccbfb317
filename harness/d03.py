"""D03: names, parents, dimensions and links of collections."""
from harness.lib import outcome, setup_ocgis


def consts(small, maxops, role, maxheap=4):
    p = 'Small' if small else 'Full'
    return ('CONSTANTS MaxOps = {}\n HasRole = {}\n MaxHeap = {}\n Names <- {}Names\n BNames <- {}B\n DNames <- {}D\n Tags <- T2\n KNames <- K2\n'
            .format(maxops, 'TRUE' if role else 'FALSE', maxheap, p, p, p))


BASELEN = {'x': 2, 'y': 3, 'z': 4, 'nb': 2}


def blen(d):
    return BASELEN.get(d, 5)


def mk(name, dims, off='', bname='', lens=None):
    import numpy as np
    from ocgis import Dimension, Variable
    ds = [Dimension(d, (lens or {}).get(d, blen(d)) + (1 if d == off else 0)) for d in dims]
    shp = [len(d) for d in ds]
    v = Variable(name=name, value=np.arange(int(np.prod(shp)) if shp else 1, dtype=float).reshape(shp), dimensions=ds)
    if bname:
        nb = Dimension('nb', blen('nb') + (1 if off == 'nb' else 0))
        v.set_bounds(Variable(name=bname, value=np.zeros(shp + [len(nb)]), dimensions=ds + [nb]))
    return v


def base(role):
    from ocgis import Field, VariableCollection
    col = Field() if role else VariableCollection()
    col.add_variable(mk('a', ['x'], bname='p'))
    col.add_variable(mk('b', ['x', 'y']))
    col.add_variable(mk('s', []))
    col.append_to_tags('data', 'b')
    return col


def project(col, role, rk='level'):
    vs = []
    for k, v in col.items():
        bnd, battr = '', ''
        if v._bounds_name is not None or v.has_bounds:
            bnd = v.bounds.name if v.bounds is not None else '?'
        battr = v.attrs.get('bounds', '')
        vs.append({'key': k, 'name': v.name, 'parent': v.parent is col, 'dims': list(v.dimension_names),
                   'lens': [len(d) for d in v.dimensions], 'shape': list(v.get_value().shape), 'bnd': bnd, 'battr': battr})
    out = {'vars': vs, 'dims': [{'key': k, 'name': d.name, 'len': len(d)} for k, d in col.dimensions.items()],
           'tags': [{'tag': t, 'names': list(col.get_by_tag(t, names_only=True))} for t in col._tags],
           'role': '', 'rolebnd': '', 'roledims': [], 'kids': list(col.children.keys()),
           'kidsok': all(c.name == k and c.parent is col for k, c in col.children.items())}
    if role:
        nm = col.dimension_map.get_variable(rk)
        b = col.dimension_map.get_bounds(rk)
        lev = getattr(col, rk)
        out['role'] = nm or ''
        out['roledims'] = list(col.dimension_map.get_dimension(rk))
        out['rolebnd'] = b or ''
        if (lev is None) != (nm is None) or (lev is not None and (lev.name != nm or lev.parent is not col)):
            out['role'] = '?'
        if lev is not None and b is not None and (lev.bounds is None or lev.bounds.name != b):
            out['rolebnd'] = '?'
    return out


def extra_methods(col):
    pass


class Refused(Exception):
    pass


def apply(col, heap, op, rng, rk='level'):
    """Perform one operation; gives (new object or None, the incoming variable or None)."""
    from ocgis import Field, VariableCollection
    k = op['op']
    n = op['name']
    if k == 'add':
        v = mk(n, op['dims'], op['off'], op['bname'])
        return v, lambda: col.add_variable(v, **({'force': True} if op['force'] else {}))
    if k == 'level':
        v = mk(n, op['dims'], op['off'], op['bname'])
        return v, lambda: getattr(col, 'set_' + rk)(v)
    if k == 'remove':
        how = rng.choice(['name', 'var'])
        return None, lambda: col.remove_variable(n if how == 'name' or n not in col else col[n], **({} if op['flag'] else {'remove_bounds': False})).parent
    if k == 'extract':
        return None, lambda: col[n].extract(keep_bounds=op['flag'], clean_break=op['force']).parent
    if k == 'copy':
        return None, lambda: col.copy()
    if k == 'varcopy':
        f = rng.choice(['copy', 'copy', 'deepcopy'])
        w = rng.choice(sorted(col.keys()))
        return None, lambda: getattr(col[w], f)().parent
    if k == 'rename':
        return None, lambda: col[n].set_name(op['to'])
    if k == 'setbounds':
        if n in col:
            b = mk(op['bname'], list(col[n].dimension_names) + ['nb'], op['off'], lens={d.name: len(d) for d in col[n].dimensions})
            return b, lambda: col[n].set_bounds(b, force=op['force'])
        return None, lambda: col[n]
    if k == 'dropbounds':
        return None, lambda: col[n].set_bounds(None)
    if k == 'tag':
        return None, lambda: col.append_to_tags(op['to'], n if rng.random() < .5 else col[n])
    if k == 'newtag':
        return None, lambda: col.create_tag(op['to'])
    if k == 'rendim':
        return None, lambda: col.rename_dimension(n, op['to'])
    if k == 'child':
        c = VariableCollection(name=op['to'])
        return None, lambda: col.add_child(c, **({'force': True} if op['force'] else {}))
    if k == 'renchild':
        return None, lambda: col.children[n].set_name(op['to'])
    if k == 'role':
        return None, lambda: getattr(col, 'set_' + rk)(col[n], should_add=False)
    if k == 'move':
        src = heap[op['other'] - 1]
        v = ([x for x in src.values() if x.has_bounds] + list(src.values()))[0]
        return v, lambda: col.add_variable(v, **({'force': True} if op['force'] else {}))
    raise ValueError(k)


def run_history(case, rng, n):
    role = case['role']
    rec = {'kind': 'history', 'ops': case['ops'], 'ok': True, 'err': '', 'states': [], 'case': '{} {}'.format('field' if role else 'collection', n)}
    heap = [base(role)]
    rk = rng.choice(['level', 'realization'])
    rec['case'] += ' ' + rk
    dead = set()

    def snap(v):
        return outcome(lambda: None if v is None else (id(v.parent), sorted(v.parent.keys()), v.dimension_names, v.shape, v.has_bounds and v.bounds.name))
    for j, op in enumerate(case['ops']):
        col = heap[op['obj'] - 1]
        inc, f = apply(col, heap, op, rng, rk)
        before = snap(inc)
        o = outcome(f)
        if not o['ok'] and o['err'] not in ('VariableInCollectionError', 'DimensionMismatchError', 'ValueError', 'KeyError'):
            rec['ok'] = False
            rec['err'] = '{} at step {}: {}: {}'.format(op['op'], j + 1, o['err'], o['msg'])
            return rec
        if o['ok'] and op['op'] in ('remove', 'extract', 'copy', 'varcopy') and not op['refused']:
            heap.append(o['val'])
        if not o['ok'] and not op['refused'] and op['op'] in ('remove', 'extract', 'copy', 'varcopy'):
            rec['ok'] = False
            rec['err'] = '{} at step {}: {}: {}'.format(op['op'], j + 1, o['err'], o['msg'])
            return rec
        if o['ok'] and op['op'] == 'move':
            dead.add(op['other'] - 1)
        p = outcome(lambda: [project(c, role, rk) if q not in dead else 0 for q, c in enumerate(heap)])
        if not p['ok']:
            rec['ok'] = False
            rec['err'] = 'looking after {} at step {}: {}: {}'.format(op['op'], j + 1, p['err'], p['msg'])
            return rec
        rec['states'].append({'refused': not o['ok'], 'incoming': o['ok'] or snap(inc) == before, 'heap': p['val']})
    return rec


def run(ctx):
    setup_ocgis()
    import copy
    ctx.model('StructureMC', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANT Consistent\nPROPERTIES RefusedKeeps OthersKept\n' +
              consts(True, ctx.n(3, 4), True, 3), label='all short histories on a small collection', timeout=800)
    for role, num in ((True, ctx.n(600, 4000)), (False, ctx.n(200, 1500))):
        mo = ctx.n(10, 14)
        cases = ctx.generate('StructureMC', 'INIT Init\nNEXT GenNext\nINVARIANT Emit\n' + consts(False, mo, role), num=num, depth=2 * mo,
                             label='structure histories')
        recs = [run_history(c, ctx.rng, k) for k, c in enumerate(cases)]
        ctx.judge('StructureMC', recs, 'structure histories', consts(False, mo, role))
        if role:
            good = [r for r in recs if r['ok'] and r['states']][:3]
            bad = copy.deepcopy(good)
            for b in bad:
                b['states'][-1]['heap'][0]['vars'].append({'key': 'zz', 'name': 'zz', 'parent': True, 'dims': [], 'lens': [], 'shape': [], 'bnd': '', 'battr': ''})
            if bad:
                ctx.expect_reject('StructureMC', bad, 'a variable too many', consts(False, mo, role))
