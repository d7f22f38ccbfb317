"""I04: selecting features of a geometry source."""
import copy
import hashlib
import os
import shutil

from harness.lib import outcome, setup_ocgis

NULL = -999
CONST = 'CONSTANTS MaxN = {} MaxSel = {}\n'
EXT = {'shp': ('ESRI Shapefile', '.shp'), 'geojson': ('GeoJSON', '.geojson'), 'gpkg': ('GPKG', '.gpkg')}


def shape_at(k):
    """The geometry of the feature at place k: far from the others, of its own size."""
    from shapely.geometry import box
    return box(10 * k, 0, 10 * k + 1 + k / 4, 2)


def places(geom):
    from shapely.geometry.base import BaseMultipartGeometry
    ret = []
    for g in (geom.geoms if isinstance(geom, BaseMultipartGeometry) else [geom]):
        k = int(g.bounds[0] // 10)
        ret.append(k if g.symmetric_difference(shape_at(k)).area < 1e-6 else -k)
    return sorted(ret)


def write(c, path, driver):
    import fiona
    from collections import OrderedDict
    from shapely.geometry import mapping
    f = c['file']
    props = OrderedDict([('name', 'str:8'), ('num', 'int')])
    if f['key'] != 'none':
        props[f['key']] = 'int'
    with fiona.open(path, 'w', driver=EXT[driver][0], crs={'init': 'epsg:4326'}, schema={'geometry': 'Polygon', 'properties': props}) as sink:
        for k, x in enumerate(f['feats'], start=1):
            p = OrderedDict([('name', None if x['name'] == 'NULL' else x['name']), ('num', None if x['num'] == NULL else x['num'])])
            if f['key'] != 'none':
                p[f['key']] = x['id']
            sink.write({'geometry': mapping(shape_at(k)), 'properties': p})


def content(folder):
    ret = {}
    for d, _, names in os.walk(folder):
        for n in names:
            with open(os.path.join(d, n), 'rb') as f:
                ret[os.path.relpath(os.path.join(d, n), folder)] = hashlib.sha1(f.read()).hexdigest()
    return ret


def clause(w):
    def term(t):
        if t['op'] == 'null':
            return '{} IS NULL'.format(t['attr'])
        if t['op'] == 'in':
            return '{} IN ({})'.format(t['attr'], ', '.join("'{}'".format(x) for x in t['txts']))
        return '{} {} {}'.format(t['attr'], t['op'], "'{}'".format(t['txt']) if t['attr'] == 'name' else t['val'])
    return ' {} '.format(w['join'].upper()).join(map(term, w['terms']))


def the_slice(s):
    import numpy as np
    n = lambda x: None if x == NULL else x
    if s['kind'] == 'none':
        return None
    if s['kind'] == 'int':
        return s['at']
    if s['kind'] == 'list':
        return s['list'] if s['at'] % 2 else np.array(s['list'])
    return slice(n(s['a']), n(s['b']), None if s['step'] == 1 else s['step'])


def of_record(r, uidname, key):
    p = r['properties']
    v = lambda n, none: none if p.get(n) is None else p[n]
    return {'uidname': uidname if uidname in p else '?', 'id': int(p.get(uidname, -1)), 'name': v('name', 'NULL') or 'NULL', 'num': int(v('num', NULL)), 'key': int(v(key, NULL)),
            'attrs': len(p), 'place': places(r['geom'])[0] if 'geom' in r else 0, 'union': places(r['geom']) if 'geom' in r else []}


def of_field(f, key):
    def v(n, none):
        if n not in f:
            return none
        x = f[n].get_masked_value().reshape(-1)
        assert x.size == 1
        import numpy as np
        return none if np.ma.getmaskarray(x)[0] else x[0]
    g = f.geom.get_value().reshape(-1)
    assert len(g) == 1
    name = v('name', 'NULL')
    return {'uidname': f.geom.ugid.name, 'id': int(f.geom.ugid.get_value().reshape(-1)[0]), 'name': str(name) or 'NULL', 'num': int(v('num', NULL)), 'key': int(v(key, NULL)),
            'attrs': len(f.data_variables), 'place': places(g[0])[0], 'union': places(g[0])}


def ask(c, path, cab):
    from ocgis import GeomCabinetIterator
    from ocgis.ops.parms.definition import Geom
    q, via = c['q'], c['via']
    kw = {'uid': q['uid'] or None, 'select_uid': q['sel']['ids'] if q['sel']['has'] else None, 'select_sql_where': clause(q['where']) if q['where']['has'] else None, 'slc': the_slice(q['slc'])}
    uidname = q['uid'] or 'UGID'
    key = c['file']['key']
    if via == 'geom' and q['slc']['kind'] == 'none':
        p = Geom(path, select_ugid=kw['select_uid'], geom_select_sql_where=kw['select_sql_where'], geom_uid=kw['uid'])
        it = p.value
        see = of_field
    elif via in ('given', 'geom'):
        it = Geom(GeomCabinetIterator(path=path, **kw)).value
        see = of_field
    elif via == 'fields':
        if c['driver'] == 'shp':
            from ocgis import env
            env.DIR_GEOMCABINET = cab
            it = GeomCabinetIterator('src', as_field=True, **kw)
        else:
            it = GeomCabinetIterator(path=path, as_field=True, **kw)
        see = of_field
    else:
        it = GeomCabinetIterator(path=path, as_field=via == 'field', union=via == 'union', load_geoms=via != 'bare', **kw)
        see = of_field if via in ('field', 'union') else lambda r, k: of_record(r, uidname, k)
    return it, lambda r: see(r, key)


def one(c, work):
    cab = os.path.join(work, 'cab')
    src = os.path.join(cab, 'nested', 'deeper')
    os.makedirs(src)
    rec = dict(c, rows=[], refused=False, length=-1, again=True, same=True, error='')
    q, feats = c['q'], c['file']['feats']
    try:
        path = os.path.join(src, 'src' + EXT[c['driver']][1])
        write(c, path, c['driver'])
        before = content(cab)
        if c['via'] == 'records':
            from ocgis.ops.parms.definition import Geom
            rs = []
            for k, x in enumerate(feats, start=1):
                p = {'name': x['name'], 'num': x['num']}
                if c['file']['key'] != 'none':
                    p[c['file']['key']] = x['id']
                rs.append({'geom': shape_at(k), 'properties': p})
            z = outcome(lambda: [of_field(f, c['file']['key']) for f in Geom(rs).value])
        elif c['via'] == 'process':
            import fiona
            from ocgis.util.shp_process import ShpProcess
            from shapely.geometry import shape
            out = os.path.join(work, 'out')
            os.makedirs(out)

            def process():
                new = ShpProcess(path, out).process(key='made', ugid=q['uid'] or None)
                with fiona.open(new) as s:
                    return [of_record({'properties': r['properties'], 'geom': shape(r['geometry'])}, 'UGID', 'none') for r in s]
            z = outcome(process)
        else:
            it, see = ask(c, path, cab)
            z = outcome(lambda: [see(r) for r in it])
            n = outcome(lambda: len(it))
            rec['length'] = n['val'] if n['ok'] else -1
            if z['ok']:
                y = outcome(lambda: [see(r) for r in it])
                rec['again'] = y['ok'] and y['val'] == z['val']
        rec['refused'] = not z['ok']
        rec['rows'] = z['val'] if z['ok'] else []
        rec['error'] = '' if z['ok'] else z['err'] + ': ' + z['msg'][:200]
        rec['same'] = content(cab) == before
    finally:
        shutil.rmtree(cab, ignore_errors=True)
        shutil.rmtree(os.path.join(work, 'out'), ignore_errors=True)
    return rec


def run(ctx):
    setup_ocgis()
    import warnings
    warnings.simplefilter('ignore')
    ctx.model('Cabinet', 'INIT Init\nNEXT Next\nINVARIANT SameByFilter SliceInside Unique\n' + CONST.format(ctx.n(3, 5), 3), label='every small source and question')
    full = CONST.format(6, 4)
    cases = ctx.generate('Cabinet', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + full, num=ctx.n(1500, 12000), depth=3, label='sources and questions')
    recs = []
    for c in cases:
        if c['via'] == 'process' and c['driver'] != 'shp':
            c['driver'] = 'shp'
        if c['driver'] == 'geojson' and all(x['num'] == NULL for x in c['file']['feats']):
            c['driver'] = 'shp'     # a column of nulls has no type in GeoJSON
        recs.append(one(c, ctx.work))
    for r in recs:
        ctx.cover['via ' + r['via']] = ctx.cover.get('via ' + r['via'], 0) + 1
    ctx.judge('Cabinet', recs, 'answers', 'INIT JInit\nNEXT JNext\n' + full)
    good = [r for r in recs if r['rows'] and r['via'] not in ('union', 'process', 'records')]
    bad = copy.deepcopy(good[:2] + [r for r in recs if r['refused']][:1])
    bad[0]['rows'][0]['name'] = 'z'
    bad[1]['length'] += 1
    bad[2]['refused'] = False
    ctx.expect_reject('Cabinet', bad, 'a name, the length or a refusal altered', 'INIT JInit\nNEXT JNext\n' + full)
