"""O03: the arguments of operations."""
import copy
import datetime
import os

from harness.lib import setup_ocgis

C = 'CONSTANTS MaxSteps = {} MaxFirst = {}\n'


class World(object):
    """What arguments refer to: data sets, shapes and folders."""

    def __init__(self, work):
        import fiona
        import numpy as np
        import ocgis
        from ocgis import Field, Grid, Variable
        from ocgis.variable.temporal import TemporalVariable
        from shapely.geometry import box, mapping
        self.work = work
        self.uris = {}
        os.makedirs(os.path.join(work, 'shapes'))
        for d in ('Aa', 'b'):
            os.makedirs(os.path.join(work, d))
        for n in ('tas', 'pr'):
            vs = [Variable(name=a, value=np.arange(4.), dimensions=a, attrs={'axis': a.upper()}) for a in 'xy']
            t = TemporalVariable(name='time', value=np.arange(3.), dimensions='time', units='days since 2000-01-01', attrs={'axis': 'T'})
            f = Field(grid=Grid(*vs), time=t, variables=Variable(name=n, value=np.arange(48.).reshape(3, 4, 4), dimensions=['time', 'y', 'x'], attrs={'units': 'K'}), is_data=n)
            self.uris[n] = os.path.join(work, n + '.nc')
            f.write(self.uris[n])
        self.dest = Field(name='dest', grid=Grid(*[Variable(name=a, value=np.arange(3.), dimensions=a) for a in 'xy']))
        self.shapes = os.path.join(work, 'shapes', 'shapes.shp')
        schema = {'geometry': 'Polygon', 'properties': [('UGID', 'int'), ('ID', 'int'), ('NAME', 'str')]}
        with fiona.open(self.shapes, 'w', driver='ESRI Shapefile', schema=schema, crs={'init': 'epsg:4326'}) as c:
            for k, (u, name) in enumerate(zip((2, 3, 1), 'abc'), 1):
                c.write({'geometry': mapping(box(20 * k, 0, 20 * k + k, k)), 'properties': {'UGID': k, 'ID': u, 'NAME': name}})
        ocgis.env.DIR_GEOMCABINET = os.path.join(work, 'shapes')
        self.cwd = ocgis.env.DIR_OUTPUT

    def path(self, name):
        return self.shapes if name == 'shapes' else os.path.join(self.work, name)

    def rd(self, n):
        from ocgis import RequestDataset
        return RequestDataset(self.uris[n], variable=n, field_name=n)

    def dataset(self, form, names):
        rds = [self.rd(n) for n in names]
        return rds[0] if form == 'rd' else tuple(rds) if form == 'tuple' else rds

    def value(self, raw):
        from ocgis.util.units import get_units_object
        from ocgis.variable.crs import CoordinateReferenceSystem
        from shapely.geometry import Point, box
        k = raw[0]
        if k == 'none':
            return None
        if k in ('str', 'bool', 'int'):
            return raw[1]
        if k == 'frac':
            return float(raw[1]) / raw[2]
        if k in ('list', 'tuple'):
            return (list if k == 'list' else tuple)(self.value(r) for r in raw[1])
        if k == 'dict':
            return {a: self.value(r) for a, r in raw[1]}
        if k == 'date':
            return datetime.datetime.strptime(raw[1] + raw[2], '%Y%m%d%H%M%S')
        if k == 'crs':
            return CoordinateReferenceSystem(epsg=raw[1])
        if k == 'units':
            return get_units_object(raw[1])
        if k == 'box':
            return box(-20, -10, 30, 40)
        if k == 'pt':
            return Point(2.5, -7)
        if k == 'slice':
            return slice(raw[1], raw[2])
        if k == 'path':
            return self.path(raw[1])
        if k == 'field':
            return self.dest
        if k == 'ds':
            return self.dataset(raw[1], raw[2])
        raise ValueError(raw)

    def text(self, arg, v):
        if arg in ('dir_output', 'geom') and v in ('Aa', 'b', 'shapes'):
            return self.path(v)
        return v

    def show(self, ops, arg):
        from ocgis.calc.eval_function import EvalFunction
        from ocgis.collection.field import Field
        from ocgis.variable.crs import CoordinateReferenceSystem
        v = getattr(ops, arg)
        if arg == 'dataset':
            return '|'.join(d.variable for d in v)
        if v is None:
            return 'none'
        if isinstance(v, bool):
            return str(v).lower()
        if arg == 'time_range':
            return '|'.join(d.strftime('%Y%m%d-%H%M%S') for d in v)
        if arg == 'level_range':
            return '|'.join('{:g}'.format(x) for x in v)
        if arg == 'time_region':
            return ','.join('{}~{}'.format(k, '|'.join(str(int(m)) for m in v[k])) for k in sorted(v) if v[k] is not None)
        if arg == 'calc_grouping':
            if v == 'all' or all(g in ('day', 'month', 'year') for g in v):
                return v if v == 'all' else '|'.join(sorted(v))
            return {'[12, 1, 2] [6, 7, 8]': '@djf', '[12, 1, 2] unique': '@djfu'}.get(' '.join(str(g) for g in v), str(v))
        if arg == 'geom_select_uid':
            return '|'.join(str(x) for x in v)
        if arg == 'search_radius_mult':
            return '{:g}'.format(v) if isinstance(v, float) else repr(v)
        if arg == 'output_crs':
            for e in (4326, 3857):
                if v == CoordinateReferenceSystem(epsg=e):
                    return str(e)
            return str(v)
        if arg == 'dir_output':
            if v == self.cwd:
                return '@cwd'
            return os.path.basename(v) if os.path.dirname(v) == self.work else v
        if arg == 'geom':
            if type(v) is tuple:
                if len(v) != 1:
                    return '{} geometries'.format(len(v))
                g = v[0].geom.get_value().flatten()[0]
                b = ['{:g}'.format(x) for x in g.bounds]
                names = {n for n in v[0].keys() if v[0][n].ndim == 1 and v[0][n].name.lower() == 'ugid'}
                if len(names) > 1 or (names and names != {'UGID'}):
                    return 'identifiers {}'.format(sorted(names))
                if g.geom_type == 'Point':
                    return '|'.join(b[:2])
                return '|'.join(b) if g.area == (g.bounds[2] - g.bounds[0]) * (g.bounds[3] - g.bounds[1]) else g.wkt
            return 'shapes' if v.path == self.shapes or v.key == 'shapes' else str(v.path)
        if arg == 'slice':
            s = {}
            for k, x in v.items():
                if isinstance(x, int):
                    x = slice(x, x + 1 if x >= 0 else None)
                if x != slice(None):
                    s[k] = x
            for name, want in (('@first', {'time': slice(0, 1)}), ('@last', {'time': slice(-1, None)}), ('@mid', {'y': slice(1, 3), 'x': slice(0, 2)})):
                if s == want:
                    return name
            return str(s)
        if arg == 'calc':
            out = []
            for c in v:
                if issubclass(c['ref'], EvalFunction):
                    out.append(c['func'])
                else:
                    kw = ['{}~{}'.format(k, '{:g}'.format(x) if isinstance(x, (int, float)) else x) for k, x in sorted(c['kwds'].items())]
                    out.append('!'.join(['{}~{}'.format(c['func'], c['name'])] + kw))
                if c['ref'].__name__ not in ('Mean', 'FrequencyPercentile', 'EvalFunction', 'MultivariateEvalFunction', 'NaturalLogarithm', 'Divide', 'MovingWindow'):
                    out.append(c['ref'].__name__)
            return '|'.join(out)
        if arg == 'regrid_destination':
            return '@dest' if v.name == 'dest' else v.name if isinstance(v, Field) else str(v)
        if arg == 'regrid_options':
            if not set(v) <= {'regrid_method', 'split', 'value_mask'} or v['value_mask'] is not None:
                return str(v)
            return 'auto' if v['regrid_method'] == 'auto' else '@' + str(v['regrid_method'])
        if arg == 'output_format_options':
            return '@classic' if v == {'data_model': 'NETCDF3_CLASSIC'} else str(v)
        return str(v) if arg == 'conform_units_to' or isinstance(v, str) else repr(v)

    def effect(self, ops):
        g = ops.geom
        if g is None:
            return 'none'
        fs = list(g)
        names = {f.geom.ugid.name for f in fs}
        shapes = [x for f in fs for x in f.geom.get_value().flatten()]
        out = '{} {}'.format('/'.join(sorted(names)), len(shapes))
        if type(g) is not tuple:
            out += ' {:g}'.format(sum(x.area for x in shapes))
        return out


def attempt(f):
    from ocgis.exc import DefinitionValidationError
    try:
        return f(), 'done'
    except DefinitionValidationError:
        return None, 'refused'
    except Exception as e:
        if os.environ.get('O03_TRACE'):
            import traceback
            traceback.print_exc()
        return None, '{}: {}'.format(type(e).__name__, e)[:160]


def seen(w, ops, outcome, args):
    rec = {'outcome': outcome, 'settings': [], 'effect': ''}
    if ops is not None:
        for a in args:
            try:
                s = w.show(ops, a)
            except Exception as e:
                s = '{}: {}'.format(type(e).__name__, e)[:80]
            rec['settings'].append([a, s])
        try:
            rec['effect'] = w.effect(ops)
        except Exception as e:
            rec['effect'] = '{}: {}'.format(type(e).__name__, e)[:80]
    return rec


def one(q, w, args):
    from six.moves.urllib_parse import urlencode
    from ocgis import OcgOperations
    from ocgis.ops.query import QueryInterface
    short = lambda st: '{}={}'.format(st['arg'], st['val'] if st['ok'] else 'bad') + '<-' + str(st['raw'])
    rec = {'q': q, 'case': ' ; '.join(short(s) for s in q['first']) + ' || ' + ' ; '.join(short(s) for s in q['steps'])}
    kw = {s['arg']: w.value(s['raw']) for s in q['first']}
    ops, out = attempt(lambda: OcgOperations(dataset=w.rd('tas'), **kw))
    rec['first'] = seen(w, ops, out, args)
    rec['steps'] = []
    rec['text'] = {'outcome': 'none', 'settings': [], 'effect': ''}
    if ops is None:
        return rec
    for s in q['steps']:
        v = w.value(s['raw'])
        _, out = attempt(lambda: setattr(ops, s['arg'], v))
        rec['steps'].append(seen(w, ops, out, args))
    text = {a: w.text(a, v) for a, v in q['text']}
    names = text.pop('dataset', 'tas').split('|')
    text['uri'] = '|'.join(w.uris[n] for n in names)
    text['variable'] = text['field_name'] = '|'.join(names)
    ops, out = attempt(lambda: QueryInterface(urlencode(sorted(text.items()))).get_operations())
    rec['text'] = seen(w, ops, out, args)
    return rec


def run(ctx):
    setup_ocgis()
    from ocgis import OcgOperations
    ctx.model('Args', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANT Always OneOnly Refused Taken Back Twice\n' + C.format(1, 1), label='every history of changes to settings which contradict one another', timeout=850)
    w = World(ctx.work)
    args = [a for a in OcgOperations.__init__.__code__.co_varnames[1:OcgOperations.__init__.__code__.co_argcount]
            if a not in ('select_ugid', 'optimizations', 'callback', 'time_subset_func')]
    c = C.format(ctx.n(8, 12), 4)
    gen = 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + c
    jud = 'INIT JInit\nNEXT JNext\n' + c
    recs = [one(q, w, args) for q in ctx.generate('Args', gen, num=ctx.n(1200, 4000), depth=24, label='arguments, forms and changes')]
    for r in recs:
        for s in [r['first'], r['text']] + r['steps']:
            k = s['outcome'].split(':')[0]
            ctx.cover[k] = ctx.cover.get(k, 0) + 1
        for s in r['q']['first'] + r['q']['steps']:
            ctx.cover[s['arg']] = ctx.cover.get(s['arg'], 0) + 1
    ctx.judge('Args', recs, 'settings of operations', jud)
    good = [r for r in recs if r['first']['outcome'] == 'done' and r['steps'] and all(s['outcome'] in ('done', 'refused') for s in r['steps'])][:4]
    bad = copy.deepcopy(good)
    for b in bad:
        b['steps'][-1]['settings'][3][1] += 'x'
    ctx.expect_reject('Args', bad, 'a setting which was not made', jud)
    bad = copy.deepcopy(good)
    for b in bad:
        s = b['steps'][-1]
        s['outcome'] = 'refused' if s['outcome'] == 'done' else 'done'
    ctx.expect_reject('Args', bad, 'a change refused instead of taken', jud)
