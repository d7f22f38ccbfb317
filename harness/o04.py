"""O04: global settings."""
import json
import os
import subprocess
import sys

from harness.lib import outcome, setup_ocgis, Machinery

FULL = 'CONSTANTS MaxOps = {}\n Settings <- FullSettings\n Texts <- TextsDef\n Overrides <- OverridesDef\n'
TINY = 'CONSTANTS MaxOps = {}\n Settings <- TinySettings\n Texts <- TinyTexts\n Overrides <- TinyOver\n'
NAMES = ('OVERWRITE DIR_OUTPUT DIR_GEOMCABINET DIR_SHPCABINET DIR_DATA DIR_TEST_DATA MELTED MODE PREFIX FILL_VALUE VERBOSE OPTIMIZE_FOR_CALC '
         'ENABLE_FILE_LOGGING DEBUG DIR_BIN USE_SPATIAL_INDEX USE_CFUNITS USE_ESMF USE_ICCLIM USE_MPI4PY USE_MEMORY_OPTIMIZATIONS USE_NETCDF4_MPI '
         'CONF_PATH SUPPRESS_WARNINGS DEFAULT_GEOM_UID NETCDF_FILE_FORMAT NP_INT NP_FLOAT ADD_OPS_MPI_BARRIER PREFER_NETCDFTIME '
         'CLOBBER_UNITS_ON_BOUNDS SET_GRID_AXIS_ATTRS STRING_MAX_LENGTH COORDSYS_ACTUAL DEFAULT_COORDSYS').split()


def text(name, v):
    """The textual form of a setting's value: right type and right value, or something no specification value equals."""
    import numpy as np
    if name in ('NP_INT', 'NP_FLOAT'):
        return np.dtype(v).name
    if v is None or isinstance(v, str):
        return str(v)
    if isinstance(v, bool):
        return str(v)
    if name == 'FILL_VALUE' and isinstance(v, float):
        return repr(v)
    if name == 'STRING_MAX_LENGTH' and isinstance(v, int):
        return repr(v)
    if name in ('DEFAULT_COORDSYS', 'COORDSYS_ACTUAL'):
        return type(v).__name__
    return 'type {}: {!r}'.format(type(v).__name__, v)


BOOLS = None


def typed(name, t):
    import ocgis
    if name in ('DEFAULT_COORDSYS', 'COORDSYS_ACTUAL'):
        return getattr(ocgis.crs, t)()
    if name == 'FILL_VALUE':
        return float(t)
    if name == 'STRING_MAX_LENGTH':
        return int(t)
    if name in ('NP_INT', 'NP_FLOAT'):
        import numpy as np
        return getattr(np, t)
    if name in BOOLS:
        return {'True': True, 'False': False}[t]
    return t


STR = ('DIR_OUTPUT DIR_GEOMCABINET DIR_SHPCABINET DIR_DATA DIR_TEST_DATA MODE PREFIX DIR_BIN CONF_PATH DEFAULT_GEOM_UID NETCDF_FILE_FORMAT '
       'NP_INT NP_FLOAT FILL_VALUE STRING_MAX_LENGTH COORDSYS_ACTUAL DEFAULT_COORDSYS').split()
BOOLS = [n for n in NAMES if n not in STR]


def values(env):
    out = []
    for n in NAMES:
        v = getattr(env, n)
        t = text(n, v)
        if n in BOOLS and not (v is None or isinstance(v, bool)):
            t = 'not a boolean: {!r}'.format(v)
        out.append(t)
    return out


def step(env, op):
    refused = False
    k = op['op']
    if k == 'set':
        setattr(env, op['name'], typed(op['name'], op['val']))
    elif k == 'auto':
        setattr(env, op['name'], 'use_env')
    elif k == 'setenv':
        os.environ['OCGIS_' + op['name']] = op['val']
    elif k == 'unsetenv':
        os.environ.pop('OCGIS_' + op['name'], None)
    elif k == 'reset':
        env.reset()
    elif k == 'cabinet':
        env.set_geomcabinet_path(op['val'])
        if env.get_geomcabinet_path() != op['val']:
            raise ValueError('cabinet path')
    elif k == 'unknown':
        try:
            setattr(env, op['name'], op['val'])
        except AttributeError:
            refused = True
    return {'values': values(env), 'refused': refused, 'created': any(hasattr(env, n) for n in ('NOT_A_SETTING', 'overwrite', 'DIR_OUTPUTS')),
            'listed': all('{}='.format(n) in str(env) for n in NAMES if n != 'DEFAULT_COORDSYS')}


def clear():
    for n in NAMES:
        os.environ.pop('OCGIS_' + n, None)


def have(*names):
    import importlib
    for n in names:
        try:
            importlib.import_module(n)
            return 'True'
        except ImportError:
            pass
    return 'False'


def run(ctx):
    clear()
    setup_ocgis()
    import copy
    import numpy as np
    from ocgis import env
    import netCDF4
    ctx.model('SettingsMC', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANT OverrideWins\nPROPERTIES Only ResetIsFresh\n' + TINY.format(ctx.n(5, 8)),
              label='all settings histories over three settings')
    from ocgis import netcdftime as nt
    os.environ.update(CWD=os.getcwd(), HAVE_RTREE=have('rtree'), HAVE_CF=have('cf_units', 'cfunits'), HAVE_ESMF=have('ESMF'),
                      HAVE_ICCLIM=have('icclim'), HAVE_MPI=have('mpi4py'), CONF=os.path.expanduser('~/.config/ocgis.conf'),
                      HAVE_NCPAR=str(getattr(netCDF4, '__has_nc_par__', 0) == 1), NPINT=np.dtype('int32' if sys.platform == 'win32' else 'int64').name,
                      NCTIME=str(hasattr(nt.datetime, '__add__')))
    mo = ctx.n(12, 30)
    cases = ctx.generate('SettingsMC', 'INIT Init\nNEXT GenNext\nINVARIANT Emit\n' + FULL.format(mo), num=ctx.n(150, 2500), depth=mo + 1,
                         label='settings histories')
    recs = []
    for k, ops in enumerate(cases):
        clear()
        env.reset()
        r = {'kind': 'history', 'case': str(k), 'ops': ops, 'ok': True, 'err': '', 'obs': []}
        o = outcome(lambda: [step(env, op) for op in ops])
        if o['ok']:
            r['obs'] = o['val']
        else:
            r.update(ok=False, err=o['err'] + ':' + o['msg'])
        recs.append(r)
    clear()
    env.reset()
    ctx.judge('SettingsMC', recs, 'settings histories', FULL.format(0))
    bad = copy.deepcopy(recs[:2])
    for b in bad:
        if b['obs']:
            b['obs'][-1]['values'][7] = 'other'
    ctx.expect_reject('SettingsMC', bad, 'setting altered', FULL.format(0))
    # a fresh process
    recs = []
    for k, ops in enumerate(cases[:ctx.n(4, 16)]):
        e = {}
        for op in ops:
            if op['op'] == 'setenv':
                e[op['name']] = op['val']
        pe = dict(os.environ)
        pe.update({'OCGIS_' + n: v for n, v in e.items()})
        p = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import harness.o04 as h, json; from ocgis import env; print(json.dumps(h.values(env)))'],
                           env=pe, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        r = {'kind': 'fresh', 'case': 'fresh {}'.format(e), 'env': e, 'ok': p.returncode == 0, 'err': p.stderr.decode()[-300:], 'values': []}
        if p.returncode == 0:
            r['values'] = json.loads(p.stdout.decode().strip().splitlines()[-1])
        recs.append(r)
    ctx.judge('SettingsMC', recs, 'fresh process', FULL.format(0))
