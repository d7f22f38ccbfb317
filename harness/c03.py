"""C03: expression strings."""
import copy
import random

from harness.lib import outcome, ratio, setup_ocgis

NAMES = ['tas', 'tas1', 'ta', 'as', 'log_tas', 'tas_log', 'exp', 'log', 'abs', 'power', 'power_2', 'explicit', 'x2', 'e', 'np', 'tasmax', 'expr', 'self', 'res', 'T', 'a_b', '_p', 'fill', 'tas_exp_']
CONST = 'CONSTANTS Names = {{{}}} Consts = {{{}}} MaxDepth = {} MaxVars = {} MaxSize = {} DimNames = {{"time", "y", "x", "member"}} MaxExprs = {}\n'


def quoted(names):
    return ', '.join('"{}"'.format(n) for n in names)


def kinds(t):
    ret = {t['k']}
    for x in t['a']:
        ret |= kinds(x)
    return ret


def text(toks, out, space, rng):
    parts = [out, '=']
    for t in toks:
        if t['t'] == 'num':
            n, d = t['n']
            parts.append(str(n) if d == 1 and rng.random() < .6 else '{}'.format(rng.choice(['{:.1f}', '{:.2e}', '{:g}']).format(n / float(d))))
        else:
            parts.append(t['n'] if t['t'] in ('name', 'func', 'op') else t['t'])
    if space == 0:
        return ''.join(parts)
    if space == 1:
        return ' '.join(parts)
    ret = ''
    for p in parts:
        ret += p + ' ' * rng.choice([0, 0, 1, 2])
    return ret


def cells(v):
    import numpy as np
    a = v.get_masked_value()
    d, m = a.data.reshape(-1), np.ma.getmaskarray(a).reshape(-1)
    return [[] if m[k] else ratio(d[k], maxden=50, tol=1e-4) for k in range(len(d))]


def make(case, rng, exact):
    import numpy as np
    from ocgis import Field, Variable
    from ocgis.variable.temporal import TemporalVariable
    sizes = case['sizes']
    dims = sorted({d for v in case['vars'] for d in v['dims']})
    data = []
    for v in case['vars']:
        r = random.Random(v['seed'])
        shape = [sizes[d] for d in v['dims']]
        n = int(np.prod(shape))
        t = v['type'] if exact or v['type'] != 'f4' else 'f8'
        vals = np.array([r.choice([-3, -2, -1, 0, 1, 2, 3, 4, 5]) + (r.choice([0, 0, .5]) if t.startswith('f') else 0) for _ in range(n)], dtype=t).reshape(shape)
        if v['masked']:
            vals = np.ma.array(vals, mask=np.array([r.random() < .3 for _ in range(n)]).reshape(shape))
        data.append(Variable(name=v['name'], value=vals, dimensions=v['dims'], units='K', attrs={'note': v['name']}))
    kw = {}
    if 'time' in dims:
        kw['time'] = TemporalVariable(name='time', value=np.arange(sizes['time']) * 1., dimensions='time', units='days since 2000-01-01')
    f = Field(is_data=data, **kw)
    for d in dims:
        if d in ('x', 'y') and rng.random() < .8:
            c = Variable(name='coord_' + d, value=np.arange(sizes[d]) * 1., dimensions=d)
            f.add_variable(c)
            f.dimension_map.set_variable(d, c)
    return f


def one(case, rng):
    import ocgis
    exact = not any(kinds(e['tree']) & {'/', 'logexp', 'explog', 'log', 'exp'} for e in case['exprs'])
    f = make(case, rng, exact)
    strings = [text(e['toks'], e['out'], e['space'], rng) for e in case['exprs']]
    rec = {'sizes': case['sizes'], 'vars': [{'name': v['name'], 'dims': v['dims'], 'cells': cells(f[v['name']])} for v in case['vars']],
           'exprs': [{'out': e['out'], 'tree': e['tree']} for e in case['exprs']], 'out': [], 'after': [], 'refused': '', 'strings': strings}

    def go():
        if case['how'] == 'function':
            from ocgis.calc.eval_function import EvalFunction
            out = ocgis.VariableCollection()
            for s in strings:
                out = EvalFunction(expr=s, field=f, vc=out).execute()
            got = list(out.values())
        else:
            calc = [s if e['form'] == 'string' else {'func': s, 'meta_attrs': None} if rng.random() < .5 else {'func': s} for s, e in zip(strings, case['exprs'])]
            if all(isinstance(c, str) for c in calc) and rng.random() < .4:
                calc = '|'.join(calc)
            got = ocgis.OcgOperations(dataset=f, calc=calc).execute().get_element().data_variables
        rec['out'] = [{'name': v.name, 'dims': list(v.dimension_names), 'cells': cells(v)} for v in got]
    z = outcome(go)
    if not z['ok']:
        rec['refused'] = z['err'] + ': ' + z['msg']
    rec['after'] = [cells(f[v['name']]) for v in case['vars']]
    return rec


def run(ctx):
    setup_ocgis()
    ctx.model('Expr', 'INIT Init\nNEXT Next\nINVARIANT Same\n' + CONST.format(quoted(['x', 'y'][:ctx.n(1, 2)]), '2', 2, 2, 2, 2), timeout=1200, label='expressions read token by token')
    full = CONST.format(quoted(NAMES), '1, 2, 3', ctx.n(3, 4), 3, 3, 3)
    cases = ctx.generate('Expr', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + full, num=ctx.n(1200, 20000), depth=4, label='expressions on fields')
    recs = [one(c, ctx.rng) for c in cases]
    ctx.judge('Expr', recs, 'expressions', 'INIT JInit\nNEXT JNext\n' + full)
    good = [r for r in recs if r['refused'] == '' and r['out'] and r['out'][0]['cells']]
    bad = copy.deepcopy(good[:3])
    for b in bad:
        b['out'][0]['name'] = 'other'
    ctx.expect_reject('Expr', bad, 'a result misnamed', 'INIT JInit\nNEXT JNext\n' + full)
    ctx.cover['accepted'] = len(good)
    ctx.cover['refused'] = sum(1 for r in recs if r['refused'])
