"""O02: runs writing into an output folder."""
import copy
import csv
import hashlib
import logging
import os
import re
import shutil
import sys
import tempfile

from harness.lib import setup_ocgis

NAMES = ('alpha', 'beta')
SIDE = ('.dbf', '.shx', '.cpg', '.prj')


OLD = {}  # contents of a shapefile that was there before


def oldshapes():
    import fiona
    d = tempfile.mkdtemp(prefix='o02')
    try:
        with fiona.open(os.path.join(d, 'old.shp'), 'w', driver='ESRI Shapefile', schema={'geometry': 'Point', 'properties': {'OLD': 'int'}}) as f:
            f.write({'geometry': {'type': 'Point', 'coordinates': (1., 2.)}, 'properties': {'OLD': 5}})
        for e in ('.shp', '.dbf', '.shx'):
            with open(os.path.join(d, 'old' + e), 'rb') as f:
                OLD[e] = f.read()
    finally:
        shutil.rmtree(d)


class Injected(Exception):
    pass


class Interrupt(KeyboardInterrupt):
    pass


def classify(rel):
    """The thing a path in the output folder belongs to."""
    parts = rel.split(os.sep)
    if parts[0] in NAMES:
        return ('dir', parts[0], '')
    base = parts[-1]
    root, ext = os.path.splitext(base)
    for nm in NAMES:
        if len(parts) <= 2 and (len(parts) == 1 or parts[0] == 'shp') and (root == nm or root.startswith(nm + '_')):
            tail = root[len(nm):]
            pre = 'shp/' if len(parts) == 2 else ''
            if tail == '' and not pre:
                return ('file', nm, 'shp' if ext in SIDE else ext[1:])
            if tail in ('_ugid', '_gid'):
                return ('file', nm, pre + tail[1:])
    return ('other', '', rel)


def listing(top):
    """What is there: for every thing an identification of contents and times."""
    out = {}
    for d, ds, fs in os.walk(top):
        ds.sort()
        for x in sorted(fs) + (['.'] if not fs and not ds else []):
            p = os.path.normpath(os.path.join(d, x))
            rel = os.path.relpath(p, top)
            if rel == '.' or rel == 'shp':
                continue
            if os.path.isdir(p):
                c = b'dir'
            else:
                with open(p, 'rb') as f:
                    c = f.read()
            out.setdefault(classify(rel), hashlib.md5()).update(repr((rel, c, os.stat(p).st_mtime_ns if c != b'dir' else 0)).encode())
    return [{'key': list(k), 'id': int(v.hexdigest()[:7], 16)} for k, v in sorted(out.items())]


def put(top, key):
    kind, nm, part = key
    if kind == 'dir':
        os.makedirs(os.path.join(top, nm, 'sub'))
        names = [os.path.join(nm, 'old.txt'), os.path.join(nm, 'sub', 'old.txt')]
    elif kind == 'other':
        names = [part]
    elif part.startswith('shp/'):
        os.makedirs(os.path.join(top, 'shp'), exist_ok=True)
        names = [os.path.join('shp', nm + '_' + part[4:] + e) for e in ('.shp', '.dbf', '.shx')]
    elif part == 'ugid':
        names = [nm + '_ugid' + e for e in ('.shp', '.dbf', '.shx')]
    elif part == 'shp':
        names = [nm + e for e in ('.shp', '.dbf', '.shx')]
    else:
        names = [nm + '.' + part]
    for n in names:
        with open(os.path.join(top, n), 'wb') as f:
            f.write(OLD.get(os.path.splitext(n)[1], b'old ' + n.encode()))


def pylogging():
    """The logging in force, the parts a run may touch."""
    import warnings
    lg = logging.getLogger('ocgis')
    root = logging.getLogger()
    return {'ocgis-handlers': [id(h) for h in lg.handlers], 'ocgis-level': lg.level, 'ocgis-parent': id(lg.parent), 'root-handlers': [id(h) for h in root.handlers], 'root-level': root.level,
            'capture': logging._warnings_showwarning is not None, 'showwarning': id(warnings.showwarning), 'fiona': logging.getLogger('Fiona').level}


def own_logging():
    from ocgis.util.logging_ocgis import ocgis_lh
    return {'lh-' + k: (v if isinstance(v, (int, str, bool, type(None))) else id(v)) for k, v in ocgis_lh.__dict__.items() if k in ('level', 'null', 'parent', 'callback', 'callback_level')}


def settings():
    from ocgis import env
    # Some values are made anew each time: their addresses are not part of them.
    return {p.name: re.sub(' at 0x[0-9a-f]+', '', repr(getattr(env, p.name))) for p in env.__dict__.values() if hasattr(p, 'name') and hasattr(p, 'env_name')}


def request(ops):
    return {k: repr(getattr(ops, k)) for k in ('prefix', 'dir_output', 'vector_wrap', 'output_format', 'add_auxiliary_files', 'aggregate', 'spatial_operation', 'select_nearest', 'calc', 'calc_grouping', 'allow_empty', 'melted')}


def field():
    import numpy as np
    from ocgis import Field, Grid, Variable
    from ocgis.variable.crs import WGS84
    from ocgis.variable.temporal import TemporalVariable
    x = Variable(name='x', value=[10., 11., 12.], dimensions='x')
    y = Variable(name='y', value=[40., 41.], dimensions='y')
    t = TemporalVariable(name='time', value=[1., 2.], dimensions='time', units='days since 2001-01-01', calendar='standard')
    d = Variable(name='d', value=np.arange(12.).reshape(2, 2, 3), dimensions=['time', 'y', 'x'])
    return Field(time=t, grid=Grid(x, y, crs=WGS84()), is_data=d, crs=WGS84())


def one(case, rng, n):
    import ocgis
    from ocgis import Field, OcgOperations, env
    from ocgis.ops import interpreter
    from ocgis.util.logging_ocgis import ocgis_lh
    from shapely.geometry import box
    scratch = tempfile.mkdtemp(prefix='o02')
    top = os.path.join(scratch, 'deep', 'out')
    os.makedirs(top)
    rec = {'runs': case['runs'], 'steps': [], 'case': '{} {}'.format('; '.join('{prefix} {fmt} aux={aux} over={over} fail={fail}{how} bad={bad}'.format(**r) for r in case['runs']), n)}
    real_rmtree = interpreter.shutil.rmtree
    keep = {k: getattr(env, k) for k in ('OVERWRITE', 'ENABLE_FILE_LOGGING', 'VERBOSE', 'DEBUG')}
    lg = logging.getLogger('ocgis')
    lstate = (lg.parent, list(lg.handlers), lg.level, logging._warnings_showwarning is not None)
    app = logging.getLogger('appO02')

    def guarded(path, *a, **k):
        # Removal is confined to what lies strictly inside the output folder.
        p = os.path.realpath(path)
        if not p.startswith(os.path.realpath(top) + os.sep):
            raise RuntimeError('removal outside of the output folder')
        return real_rmtree(path, *a, **k)

    hs = []
    write = Field.write
    try:
        interpreter.shutil = type('S', (), {'rmtree': staticmethod(guarded)})
        for key in case['there'] + [['other', '', 'keep.txt']]:
            put(top, key)
        ah = logging.FileHandler(os.path.join(scratch, 'app.log'), 'w')
        hs.append(ah)
        app.addHandler(ah)
        app.propagate = False
        user = case['user']
        logging.captureWarnings(bool(user['capture']))
        if user['user'] == 'file':
            ocgis_lh.configure(to_file=os.path.join(scratch, 'user.log'))
            logging.captureWarnings(bool(user['capture']))
        elif user['user'] == 'handler':
            h = logging.FileHandler(os.path.join(scratch, 'user.log'), 'w')
            hs.append(h)
            lg.addHandler(h)
        rec['first'] = listing(top)
        for k, op in enumerate(case['runs']):
            st = {'outcome': '', 'injected': False, 'settings': [], 'logging': [], 'request': True, 'inside': [], 'foreign': [], 'rows': -1, 'wantrows': 0, 'returned': ''}
            cnt = {'n': 0, 'hit': False}
            err = Interrupt if op['how'] == 'interrupt' else Injected

            def tick(*a):
                cnt['n'] += 1
                if op['fail'] and cnt['n'] == op['fail']:
                    cnt['hit'] = True
                    raise err('injected')

            def callback(*a):
                if op['how'] in ('callback', 'interrupt'):
                    tick()

            def wr(self, *a, **kw):
                if op['how'] == 'write':
                    tick()
                ret = write(self, *a, **kw)
                if op['how'] == 'written':
                    tick()
                return ret
            env.OVERWRITE, env.ENABLE_FILE_LOGGING, env.VERBOSE, env.DEBUG = op['over'], op['filelog'], op['verbose'] and op['fmt'] == 'csv', op['debug']
            b_env, b_log = settings(), dict(pylogging(), **own_logging())
            ops = None
            Field.write = wr
            stderr, sink = sys.stderr, open(os.devnull, 'w')
            try:
                sys.stderr = sink
                kw = {'geom': box(9.4, 39.4, 11.4, 41.6)} if op['geom'] else {}
                prefix = op['prefix'] if op['bad'] == 'no' else op['bad']
                before = None
                # An empty prefix given at construction stands for the default one.
                new = OcgOperations(dataset=field(), prefix=prefix or 'gamma', dir_output=top, output_format=op['fmt'], add_auxiliary_files=op['aux'], callback=callback, **kw)
                if not prefix:
                    new.prefix = prefix
                ops = new
                cnt['n'] = 0
                before = request(ops)
                if op['bad'] != 'no':
                    st['outcome'] = 'refused at run'
                ret = ops.execute()
                st['outcome'] = 'done'
                if isinstance(ret, str) and op['fmt'] not in ('ocgis', 'meta-ocgis'):
                    rel = os.path.relpath(ret, top)
                    d = os.path.join(op['prefix'], '')
                    st['returned'] = ('dir/' + rel[len(d):] if rel.startswith(d) else rel).replace(op['prefix'], '', 1)
            except Injected:
                st['outcome'] = 'injected'
            except Interrupt:
                st['outcome'] = 'injected'
            except Exception as e:
                refused = isinstance(e, (IOError, ocgis.exc.DefinitionValidationError)) and (ops is not None or op['bad'] != 'no')
                st['outcome'] = 'refused' if refused else '{}: {}'.format(type(e).__name__, e)
            finally:
                Field.write = write
                sys.stderr = stderr
            st['injected'] = cnt['hit']
            a_env, a_log = settings(), dict(pylogging(), **own_logging())
            st['settings'] = sorted(x for x in b_env if b_env[x] != a_env[x])
            st['logging'] = sorted(x for x in b_log if b_log[x] != a_log[x])
            if ops is not None and before is not None:
                st['request'] = request(ops) == before
            app.warning('run %d', k)
            with open(os.path.join(scratch, 'app.log')) as f:
                if 'run {}'.format(k) not in f.read():
                    st['logging'].append('application')
            if user['user'] != 'none':
                if user['user'] == 'file':
                    ocgis_lh('told {}'.format(k))
                else:
                    lg.warning('told %d', k)
                with open(os.path.join(scratch, 'user.log')) as f:
                    if 'told {}'.format(k) not in f.read():
                        st['logging'].append('user')
            folder = os.path.join(top, op['prefix'])
            if op['aux'] and op['fmt'] not in ('ocgis', 'meta-ocgis') and st['outcome'] == 'done' and os.path.isdir(folder):
                for d, _, fs in os.walk(folder):
                    for x in fs:
                        rel = os.path.relpath(os.path.join(d, x), folder)
                        sub, base = os.path.split(rel)
                        if base.startswith(op['prefix']) and sub in ('', 'shp', 'logs'):
                            st['inside'].append(os.path.join(sub, base[len(op['prefix']):]))
                        else:
                            st['foreign'].append(rel)
            if st['outcome'] == 'done' and op['fmt'] in ('csv', 'csv-shp'):
                p = os.path.join(folder if op['aux'] else top, op['prefix'] + '.csv')
                if os.path.exists(p):
                    with open(p) as f:
                        st['rows'] = len(list(csv.DictReader(f)))
                st['wantrows'] = 2 * (4 if op['geom'] else 6)
            st['seen'] = listing(top)
            rec['steps'].append(st)
            if k + 1 < len(case['runs']):
                os.utime(top)
    finally:
        interpreter.shutil = shutil
        Field.write = write
        for k, v in keep.items():
            setattr(env, k, v)
        ocgis_lh.shutdown()
        app.removeHandler(ah)
        lg.parent, lg.handlers = lstate[0], lstate[1]
        lg.setLevel(lstate[2])
        logging.captureWarnings(lstate[3])
        for h in hs:
            h.close()
        shutil.rmtree(scratch)
    return rec


def run(ctx):
    setup_ocgis()
    c = 'CONSTANTS MaxRuns = {}\n MaxFail = {}\n'
    ctx.model('Runs', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANTS Untouched NothingElse Safe Folder Complete\n' + c.format(ctx.n(2, 3), 2), label='short histories of runs', timeout=850)
    cases = ctx.generate('Runs', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + c.format(3, 14), num=ctx.n(160, 1200), depth=8, label='folders and runs')
    oldshapes()
    recs = [one(cs, ctx.rng, k) for k, cs in enumerate(cases)]
    for r in recs:
        for s in r['steps']:
            o = s['outcome'].split(':')[0]
            ctx.cover[o] = ctx.cover.get(o, 0) + 1
    j = 'INIT JInit\nNEXT JNext\n' + c.format(3, 14)
    ctx.judge('Runs', recs, 'runs', j)
    good = [r for r in recs if r['steps'][0]['outcome'] == 'done' and r['runs'][0]['fmt'] not in ('ocgis', 'meta-ocgis')][:3]
    bad = copy.deepcopy(good)
    for b in bad:
        b['steps'][0]['seen'] = [x for x in b['steps'][0]['seen'] if x['key'][0] != 'other']
    ctx.expect_reject('Runs', bad, 'something lost', j)
    bad = copy.deepcopy(good)
    for b in bad:
        b['steps'][0]['outcome'] = 'refused'
    ctx.expect_reject('Runs', bad, 'a run refused', j)
