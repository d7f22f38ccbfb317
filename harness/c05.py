"""C05: unit conversion."""
import copy
import json
import os
import shutil
import tempfile

from harness.lib import outcome, setup_ocgis

CONST = 'CONSTANTS Nums = {{{}}} MaxObj = {} MaxSteps = {} MaxSize = {} UnitNames = {{{}}}\n'


def thousandths(v):
    import numpy as np
    a = v.get_masked_value()
    d, m = np.ma.getdata(a).reshape(-1), np.ma.getmaskarray(a).reshape(-1)
    return [-999999 if m[k] else int(round(float(d[k]) * 1000)) if abs(float(d[k])) < 1e6 else 2147480000 for k in range(len(d))]


def look(v):
    b = v.bounds if v.has_bounds else None
    cells = thousandths(v)
    return {'cells': cells, 'unit': v.units or '', 'bcells': thousandths(b) if b is not None else [], 'bunit': (b.units or '') if b is not None else ''}


def first(c, d, declared=False):
    """The first object of the case: a variable of its own, on a field, or one found in a file."""
    import numpy as np
    from ocgis import Field, RequestDataset, Variable
    from ocgis.variable.temporal import TemporalVariable
    shape = () if c['scalar'] else (c['n'],)
    vals = np.array(c['vals'][:1] if c['scalar'] else c['vals'], dtype=c['type']).reshape(shape)
    if any(c['mask']):
        vals = np.ma.array(vals, mask=np.array(c['mask']).reshape(shape))
    attrs = {'note': 'a'}
    if c['attrs']:
        attrs.update(valid_min=-30., missing_value=np.array(-1000, dtype=c['type'])[()])
    kw = dict(name='t', value=vals, dimensions=[] if c['scalar'] else 'x', units=c['unit'] or None, attrs=attrs)
    if declared:
        kw['dtype'] = c['type']
    v = Variable(**kw)
    if c['bounds'] and not (c['src'] == 'memory' and c['scalar']):
        mid = np.array(c['vals'], dtype=float)
        b = Variable(name='t_bounds', value=np.stack([mid - .5, mid + .5], axis=1), dimensions=['x', 'b'])
        v.set_bounds(b)
    if c['src'] == 'memory':
        return v
    req = {k: x for k, x in (('units', c['over']), ('conform_units_to', c['conf'])) if x}
    fn = tempfile.mktemp(dir=d)
    if c['src'] == 'field':
        f = Field(is_data=[v])
        return v
    if c['src'] == 'file':
        Field(is_data=[v]).write(fn + '.nc')
        return RequestDataset(fn + '.nc', variable='t', **req).get()['t']
    if c['src'] == 'level':
        lev = Variable(name='t', value=vals, dimensions='x', units=c['unit'], attrs={'axis': 'Z', 'bounds': 't_bounds'}, dtype=c['type'])
        lev.set_bounds(v.bounds.extract())
        f = Field(is_data=[Variable(name='q', value=np.arange(c['n']) * 1., dimensions='x', units='1')], level=lev)
        f.write(fn + '.nc')
        return RequestDataset(fn + '.nc', variable='q').get().level
    import fiona
    with fiona.open(fn + '.shp', 'w', driver='ESRI Shapefile', schema={'geometry': 'Point', 'properties': {'UGID': 'int', 't': 'float' if c['type'][0] == 'f' else 'int'}}) as sink:
        for k, x in enumerate(c['vals']):
            sink.write({'geometry': {'type': 'Point', 'coordinates': (k, k)}, 'properties': {'UGID': k + 1, 't': x}})
    return RequestDataset(fn + '.shp', variable='t', **req).get()['t']


def rest(v, c, d):
    """The object written to a file and found there again."""
    from ocgis import Field, RequestDataset
    fn = tempfile.mktemp(dir=d) + '.nc'
    if c['src'] == 'level':
        import numpy as np
        from ocgis import Variable
        lev = v.copy()
        n = lev.shape[0]
        f = Field(is_data=[Variable(name='q', value=np.arange(n) * 1., dimensions=lev.dimensions[0].name, units='1')], level=lev)
        f.write(fn)
        return RequestDataset(fn, variable='q').get().level
    w = v.copy()
    f = Field(is_data=[w])
    f.write(fn)
    return RequestDataset(fn, variable='t').get()['t']


def one(case, d, declared=False):
    import ocgis
    from ocgis import Field
    c = case['c']
    rec = {'what': c, 'steps': case['steps'], 'opened': 'ok', 'refused': [], 'objs': [], 'same': [], 'errors': []}
    o = outcome(first, c, d, declared)
    if not o['ok']:
        rec['opened'] = 'refused' if o['err'] == 'RequestValidationError' else 'failed'
        rec['errors'].append(o['err'] + ': ' + o['msg'])
        return rec
    objs = [o['val']]
    for st in case['steps']:
        v = objs[st['obj'] - 1]
        refused = False
        if st['op'] == 'conform':
            same = st['frm'] == '' and st['to'] == v.units and v.has_allocated_value
            before = (v.dtype, v.fill_value, v.get_value().tobytes(), v.get_mask() is None or v.get_mask().tobytes(), dict(v.attrs)) if same else None
            z = outcome(v.cfunits_conform, st['to'], **({'from_units': st['frm']} if st['frm'] else {}))
            refused = not z['ok']
            if refused:
                rec['errors'].append(z['err'] + ': ' + z['msg'])
            elif same:
                after = (v.dtype, v.fill_value, v.get_value().tobytes(), v.get_mask() is None or v.get_mask().tobytes(), dict(v.attrs))
                rec['same'].append(all(str(a) == str(b) for a, b in zip(before[2:], after[2:])) and str(__import__('numpy').dtype(before[0])) == str(__import__('numpy').dtype(after[0])) and before[1] == after[1])
        elif st['op'] == 'operate':
            f = v.parent if isinstance(v.parent, Field) and len(v.parent.data_variables) == 1 else Field(is_data=[v.copy()])
            z = outcome(lambda: ocgis.OcgOperations(dataset=f, conform_units_to=st['to']).execute().get_element()['t'])
            refused = not z['ok']
            if refused:
                rec['errors'].append(z['err'] + ': ' + z['msg'])
            else:
                objs.append(z['val'])
        elif st['op'] == 'slice':
            objs.append(v[st['lo']:st['hi']])
        elif st['op'] == 'copy':
            objs.append(v.copy())
        elif st['op'] == 'deepcopy':
            objs.append(v.deepcopy())
        elif st['op'] == 'read':
            v.get_value()
        elif st['op'] == 'write':
            objs.append(rest(v, c, d))
        rec['refused'].append(refused)
    rec['objs'] = [look(v) for v in objs]
    return rec


def run(ctx):
    setup_ocgis()
    small = CONST.format('0, 3, 7' if ctx.thorough else '3, 7', ctx.n(2, 3), ctx.n(3, 4), 2, '"K", "celsius", "degF"' if not ctx.thorough else '"K", "celsius", "degF", "m"')
    ctx.model('Units', 'INIT Init\nNEXT Next\nINVARIANT Conserved\nPROPERTY Together\n' + small, timeout=800, label='every history of conversions')
    full = CONST.format('0', 4, ctx.n(5, 8), 4, '"K"')
    cases = ctx.generate('Units', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + full, num=ctx.n(1200, 16000), depth=3, label='histories on variables and files')
    d = tempfile.mkdtemp(dir=ctx.work)
    recs = []
    for c in cases:
        sub = tempfile.mkdtemp(dir=d)
        recs.append(one(c, sub))
        shutil.rmtree(sub)
    ctx.judge('Units', recs, 'unit histories', 'INIT JInit\nNEXT JNext\n' + full)
    cases = ctx.generate('Units', 'INIT GenInit\nNEXT WholeNext\nINVARIANT Emit\n' + full, num=ctx.n(150, 2000), depth=3, label='integers')
    whole = []
    for c in cases:
        sub = tempfile.mkdtemp(dir=d)
        r = one(c, sub, True)
        r['case'] = 'integers of a declared type'
        whole.append(r)
        shutil.rmtree(sub)
    ctx.judge('Units', whole, 'integer data', 'INIT JInit\nNEXT JNext\n' + full)
    bad = copy.deepcopy([r for r in recs if r['objs'] and r['objs'][0]['unit']][:3])
    bad[0]['objs'][0]['unit'] = 'other'
    bad[1]['objs'][0]['cells'].append(0)
    bad[2]['refused'].append(True)
    ctx.expect_reject('Units', bad, 'a label, number or refusal changed', 'INIT JInit\nNEXT JNext\n' + full)
    ctx.cover['conversions'] = sum(1 for r in recs for s, x in zip(r['steps'], r['refused']) if s['op'] in ('conform', 'operate') and not x)
    ctx.cover['refused'] = sum(1 for r in recs for x in r['refused'] if x)
    ctx.cover['sources'] = json.dumps({k: sum(1 for r in recs if r['what']['src'] == k) for k in ('memory', 'field', 'file', 'level', 'vector')})
