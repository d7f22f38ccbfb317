"""T01: numbers and dates of time variables."""
from harness.lib import outcome, setup_ocgis, BAD

NAMES = {1: 'seconds', 60: 'minutes', 3600: 'hours', 86400: 'days'}
ALIAS = {'365_day': 'noleap', '366_day': 'all_leap', 'gregorian': 'standard'}
CALS = ['standard', 'proleptic_gregorian', 'julian', 'noleap', 'all_leap', '360_day']


def hms(s):
    return s // 3600, s % 3600 // 60, s % 60


def units(unit, ref, rng=None):
    y, m, d, s = ref
    form = '{} since {:04d}-{:02d}-{:02d}'.format(NAMES[unit], y, m, d)
    if s or (rng is not None and rng.random() < .5):
        form += ' {:02d}:{:02d}:{:02d}'.format(*hms(s))
    return form


def number(off, unit):
    """The number of units, as close as a float gets, for an exact number of days and seconds."""
    tot = off[0] * 86400 + off[1]
    return tot // unit if tot % unit == 0 else tot / float(unit)


def offset(x, unit):
    """Whole days and seconds for a number of units; not a number of seconds -> BAD."""
    import numpy as np
    if x is np.ma.masked or x is None:
        return []
    if isinstance(x, (int, np.integer)):
        tot = int(x) * unit
    else:
        tot = float(x) * unit
        if abs(tot - round(tot)) > 2e-3:
            return [BAD, BAD]
        tot = int(round(tot))
    return [tot // 86400, tot % 86400]


def date(dt):
    import numpy as np
    if dt is np.ma.masked or dt is None:
        return []
    if not all(hasattr(dt, a) for a in ('year', 'month', 'day', 'hour', 'minute', 'second')):
        return [BAD, BAD, BAD, BAD]
    return [dt.year, dt.month, dt.day, dt.hour * 3600 + dt.minute * 60 + dt.second]


def pydate(d, cal, rng):
    import cftime
    from ocgis.variable.temporal import get_datetime_or_netcdftime
    args = (d[0], d[1], d[2]) + hms(d[3])
    if rng.random() < .5:
        return get_datetime_or_netcdftime(*args)
    cls = {'standard': cftime.DatetimeGregorian, 'proleptic_gregorian': cftime.DatetimeProlepticGregorian,
           'julian': cftime.DatetimeJulian, 'noleap': cftime.DatetimeNoLeap, 'all_leap': cftime.DatetimeAllLeap,
           '360_day': cftime.Datetime360Day}[cal]
    return cls(*args)


def parse_units(u):
    name, rest = str(u).split(' since ')
    parts = rest.split()
    y, m, d = [int(x) for x in parts[0].split('-')]
    s = 0
    if len(parts) > 1:
        h = parts[1].split(':')
        s = int(h[0]) * 3600 + int(h[1]) * 60 + int(float(h[2]))
    unit = [k for k in NAMES if NAMES[k] == name or NAMES[k][:-1] == name]
    return (unit or [BAD])[0], [y, m, d, s]


def observe(t):
    import numpy as np
    unit, ref = parse_units(t.units)
    num = np.ma.asanyarray(t.value_numtime)
    dt = np.ma.asanyarray(t.value_datetime)
    r = {'n': int(t.shape[0]), 'cal': ALIAS.get(t.calendar, t.calendar), 'unit': unit, 'ref': ref,
         'num': [offset(x, unit) for x in num], 'dates': [date(x) for x in dt], 'bnum': [], 'bdates': []}
    if t.has_bounds:
        b = t.bounds
        r['bnum'] = [[offset(x, unit) for x in row] for row in np.ma.asanyarray(b.value_numtime)]
        r['bdates'] = [[date(x) for x in row] for row in np.ma.asanyarray(b.value_datetime)]
        if ALIAS.get(b.calendar, b.calendar) != r['cal'] or parse_units(b.units) != (unit, ref):
            r['cal'] = 'bounds-label-differs:{} {}'.format(b.calendar, b.units)
    return r


def make(init, rng):
    import numpy as np
    from ocgis.variable.temporal import TemporalVariable
    u = units(init['unit'], init['ref'], rng)
    cal = init['cal']

    def val(offs, dates, ndim):
        if init['store'] == 'num':
            return np.array([[number(o, init['unit']) for o in r] for r in offs] if ndim == 2 else [number(o, init['unit']) for o in offs], dtype=float)
        out = np.empty((len(dates), 2) if ndim == 2 else len(dates), dtype=object)
        for k, d in enumerate(dates):
            if ndim == 2:
                out[k, 0], out[k, 1] = pydate(d[0], cal, rng), pydate(d[1], cal, rng)
            else:
                out[k] = pydate(d, cal, rng)
        return out
    kw = {}
    how = rng.choice(['ctor', 'set'])
    if init['boffs']:
        b = TemporalVariable(name='time_bounds', value=val(init['boffs'], init['bdates'], 2), dimensions=['time', 'bounds'], units=u, calendar=cal)
        if how == 'ctor':
            kw['bounds'] = b
    t = TemporalVariable(name='time', value=val(init['offs'], init['dates'], 1), dimensions='time', units=u, calendar=cal, **kw)
    if init['boffs'] and how == 'set':
        t.set_bounds(b)
    return t


def run_history(case, rng, n):
    import numpy as np
    from ocgis.variable.temporal import TemporalVariable
    from ocgis.util.units import get_units_object
    rec = {'kind': 'history', 'obj': case['obj'], 'ops': case['ops'], 'ok': True, 'err': '', 'states': [],
           'case': '{} {} {} bounds={} {}'.format(case['init']['cal'], case['init']['unit'], case['init']['store'], bool(case['init']['boffs']), n)}
    always = rng.random() < .6
    st = {'k': 0, 'op': 'make'}

    def go():
        heap = [make(case['init'], rng)]

        def look(force=False):
            looked = always or force
            rec['states'].append({'looked': looked, 'heap': [observe(t) for t in heap] if looked else []})
        look(not case['ops'])
        for k, op in enumerate(case['ops']):
            st.update(k=k + 1, op=op['op'])
            t = heap[op['obj'] - 1]
            unit, ref = parse_units(t.units)
            w = op['op']
            if w == 'pick':
                a, b = op['idx'][0] - 1, op['idx'][-1]
                sel = rng.choice([slice(a, b), {'time': slice(a, b)}, [slice(a, b)], {'time': list(range(a, b))}])
                new = t[sel]
                heap.append(new)
            elif w == 'copy':
                heap.append(t.copy())
            elif w == 'mask':
                t.set_mask(np.array(op['mask'], dtype=bool))
            elif w == 'setnum':
                t.set_value(np.array([number(o, unit) for o in op['offs']], dtype=float))
            elif w == 'setdates':
                v = np.empty(len(op['dates']), dtype=object)
                for j, d in enumerate(op['dates']):
                    v[j] = pydate(d, ALIAS.get(t.calendar, t.calendar), rng)
                t.set_value(v)
            elif w == 'assign':
                x = np.array([number(o, unit) for o in op['offs']], dtype=float)
                kw = {}
                if t.has_bounds:
                    kw['bounds'] = TemporalVariable(name='time_bounds', value=np.stack([x, x], axis=1), dimensions=['time', 'bounds'], units=t.units, calendar=t.calendar)
                src = TemporalVariable(name='time', value=x, dimensions='time', units=t.units, calendar=t.calendar, **kw)
                t[{'time': slice(op['a'] - 1, op['a'] - 1 + len(x))}] = src
            elif w == 'convert':
                to = units(op['unit'], op['ref'], rng)
                t.cfunits_conform(to if rng.random() < .6 else get_units_object(to, calendar=t.calendar))
            elif w == 'relabel':
                t.units = units(unit, op['ref'], rng)
            elif w == 'recal':
                t.calendar = op['cal']
            elif w == 'look':
                look(True) if False else [observe(x) for x in heap]
            look(w == 'look' or k == len(case['ops']) - 1)
    o = outcome(go)
    if not o['ok']:
        rec.update(ok=False, err='{} at step {}: {}: {}'.format(st['op'], st['k'], o['err'], o['msg']))
    return rec


def conversions(ctx):
    """Arrays of numbers in every calendar and unit, straight through both conversions."""
    import numpy as np
    from ocgis.variable.temporal import TemporalVariable
    recs = []
    rng = ctx.rng
    refs = [[1, 1, 1, 0], [1582, 10, 1, 0], [1582, 10, 15, 0], [1850, 1, 1, 0], [1900, 2, 28, 3600], [1970, 1, 1, 0], [2000, 2, 28, 43200],
            [1999, 12, 30, 0], [2001, 1, 1, 86399], [1500, 2, 28, 0], [1899, 12, 30, 60]]
    for n in range(ctx.n(700, 6000)):
        cal = CALS[n % len(CALS)]
        unit = rng.choice(list(NAMES))
        ref = rng.choice(refs)
        lo = 0 if ref[0] == 1 else -700
        offs = []
        for _ in range(rng.randint(1, 6)):
            d = rng.choice([rng.randint(lo, 800), rng.randint(max(lo, 0), 150000), rng.randint(max(0, lo), 40000), 36524 + rng.randint(0, 2), 1460 + rng.randint(-1, 1)])
            s = rng.choice([0, 0, 43200, 3600 * rng.randint(0, 23), 900 * rng.randint(0, 95), rng.randint(0, 86399)])
            offs.append([d, s])
        if ref[0] == 1:
            offs = [[d + 1 if s else d, s] for d, s in offs]
        exact = all((o[0] * 86400 + o[1]) % unit == 0 for o in offs)
        dt = rng.choice(['f8', 'i8'] + (['i4'] if unit >= 3600 else [])) if exact else 'f8'
        alias = rng.choice([a for a in ALIAS if ALIAS[a] == cal] + [cal])
        two = len(offs) % 2 == 0 and rng.random() < .4
        rec = {'kind': 'convert', 'case': '{} {} {} {} {}'.format(cal, unit, dt, ref, n), 'cal': cal, 'ref': ref, 'offs': offs, 'ok': True, 'err': '',
               'dates': [], 'back': [], 'again': [], 'less': []}

        def go():
            x = np.array([number(o, unit) for o in offs], dtype=dt)
            shp = (len(offs) // 2, 2) if two else (len(offs),)
            dims = ['time', 'bounds'] if two else ['time']
            u = units(unit, ref, rng)
            t = TemporalVariable(name='time', value=x.reshape(shp), dimensions=dims, units=u, calendar=alias)
            d = t.value_datetime
            b = TemporalVariable(name='time', value=np.array(d), dimensions=dims, units=u, calendar=alias)
            v = b.value_numtime
            again = TemporalVariable(name='time', value=np.array(v), dimensions=dims, units=u, calendar=alias).value_datetime
            v = np.asarray(v).flatten()
            less = [[bool(p < q) for q in v] for p in v]
            return [date(e) for e in d.flatten()], [offset(e, unit) for e in v], [date(e) for e in again.flatten()], less
        o = outcome(go)
        if o['ok']:
            rec['dates'], rec['back'], rec['again'], rec['less'] = o['val']
        else:
            rec.update(ok=False, err=o['err'] + ': ' + o['msg'])
        recs.append(rec)
    return recs


def hidden(ctx):
    """Masked times holding fill values: the others convert as ever."""
    import numpy as np
    from ocgis.variable.temporal import TemporalVariable
    recs = []
    rng = ctx.rng
    refs = [[1850, 1, 1, 0], [1900, 2, 28, 3600], [2000, 2, 28, 43200], [1999, 12, 30, 0]]
    for n in range(ctx.n(120, 1000)):
        cal = CALS[n % len(CALS)]
        unit, to = rng.choice(list(NAMES)), rng.choice(list(NAMES))
        ref, toref = rng.choice(refs), rng.choice(refs)
        k = rng.randint(1, 5)
        offs = [[rng.randint(0, 800), rng.choice([0, 43200, 3600])] for _ in range(k)]
        mask = [int(rng.random() < .5) for _ in range(k)]
        rec = {'kind': 'hidden', 'case': '{} {} {} {}'.format(cal, unit, to, n), 'cal': cal, 'ref': ref, 'toref': toref, 'offs': offs, 'mask': mask, 'ok': True, 'err': '',
               'dates': [], 'conv': [], 'convdates': []}

        def go():
            x = np.array([number(o, unit) for o in offs], dtype=float)
            fill = rng.choice([1e20, -9.96921e36])
            x[np.array(mask, dtype=bool)] = fill
            t = TemporalVariable(name='time', value=np.ma.array(x, mask=mask, fill_value=fill), dimensions=['time'], units=units(unit, ref, rng), calendar=cal)
            d = [date(e) for e in t.value_datetime]
            t.cfunits_conform(units(to, toref, rng))
            return d, [offset(e, to) for e in t.get_masked_value()], [date(e) for e in t.value_datetime]
        o = outcome(go)
        if o['ok']:
            rec['dates'], rec['conv'], rec['convdates'] = o['val']
        else:
            rec.update(ok=False, err=o['err'] + ': ' + o['msg'])
        recs.append(rec)
    return recs


def months(ctx):
    import numpy as np
    from ocgis import constants
    from ocgis.variable.temporal import TemporalVariable
    recs = []
    rng = ctx.rng
    for n in range(ctx.n(150, 1500)):
        y, m, d = rng.randint(1600, 2100), rng.randint(1, 12), rng.randint(1, 28)
        u = 'months since {:04d}-{:02d}'.format(y, m) + rng.choice(['', '-{:02d}'.format(d), '-{:02d} 06'.format(d), '-{:02d} 00:00:00'.format(d)])
        k = rng.randint(1, 6)
        offs = rng.choice([lambda: list(range(k)), lambda: [rng.randint(-40, 60) for _ in range(k)], lambda: [rng.choice([0, 11, 12, 13, 24, -1, -12, 1200]) for _ in range(k)],
                           lambda: sorted(rng.randint(0, 500) for _ in range(k))])()
        two = k % 2 == 0 and rng.random() < .4
        cal = rng.choice(CALS)
        rec = {'kind': 'months', 'case': '{} {} {} {}'.format(u, cal, two, n), 'ref': [y, m, d], 'day': constants.CALC_MONTH_CENTROID, 'offs': offs, 'ok': True, 'err': '',
               'dates': [], 'back': []}

        def go():
            shp = (k // 2, 2) if two else (k,)
            dims = ['time', 'bounds'] if two else ['time']
            t = TemporalVariable(name='time', value=np.array(offs, dtype=rng.choice([int, float])).reshape(shp), dimensions=dims, units=u, calendar=cal)
            dt = t.value_datetime
            b = TemporalVariable(name='time', value=np.array(dt), dimensions=dims, units=u, calendar=cal)
            return [date(e) for e in dt.flatten()], [int(e) for e in b.value_numtime.flatten()]
        o = outcome(go)
        if o['ok']:
            rec['dates'], rec['back'] = o['val']
        else:
            rec.update(ok=False, err=o['err'] + ': ' + o['msg'])
        recs.append(rec)
    return recs


def consts(maxops, heap, cals, units_, refs, n, days, secs):
    def s(v):
        return '{' + ', '.join('"%s"' % x if isinstance(x, str) else str(x) for x in v) + '}'
    return 'CONSTANTS MaxOps = {}\n MaxHeap = {}\n Cals = {}\n Units = {}\n Refs <- {}\n MaxLen = {}\n OffDays {}\n OffSecs = {}\n'.format(
        maxops, heap, s(cals), s(units_), refs, n, days if isinstance(days, str) else '= ' + s(days), s(secs))


def run(ctx):
    setup_ocgis()
    import copy
    ctx.model('CalendarMC', 'INIT Init\nNEXT Next\nCONSTANTS FirstYears = {{1, 1500, 1580, 1600, 1897, 1996}}\n Span = {}\n'
              'INVARIANTS Agree Inverse Valid Ordered MonthStep\n'.format(ctx.n(1600, 20000)), label='a day clock in every calendar', timeout=800)
    ctx.model('TimeVarMC', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANT Denotes\nPROPERTIES ConvertKeeps OthersKept\n' +
              consts(ctx.n(2, 3), 2, ['standard', '360_day', 'noleap'][:ctx.n(2, 2)], [86400, 3600][:ctx.n(2, 2)], 'SmallRefs', ctx.n(2, 2), [1, 366], [0] if not ctx.thorough else [0]),
              label='short histories of time variables', timeout=800)
    c = consts(ctx.n(8, 12), 4, CALS, list(NAMES), 'LateRefs', 5, '<- NearDays', [0, 43200, 21600, 86399, 60])
    cases = ctx.generate('TimeVarMC', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emit\n' + c, num=ctx.n(700, 5000), depth=40, label='time variable histories')
    recs = [run_history(cs, ctx.rng, k) for k, cs in enumerate(cases)]
    ctx.judge('TimeVarMC', recs, 'time variable histories', c)
    good = [r for r in recs if r['ok'] and r['states'] and r['states'][-1]['heap'][0]['num'][0]][:3]
    bad = copy.deepcopy(good)
    for b in bad:
        b['states'][-1]['heap'][0]['num'][0][0] += 1
    ctx.expect_reject('TimeVarMC', bad, 'a number one day off', c)
    conv = conversions(ctx)
    ctx.judge('TimeVarMC', conv, 'numbers to dates and back', c)
    bad = copy.deepcopy([r for r in conv if r['ok']][:3])
    for b in bad:
        b['dates'][0][3] += 1
    ctx.expect_reject('TimeVarMC', bad, 'a date one second off', c)
    ctx.judge('TimeVarMC', hidden(ctx), 'masked times', c)
    ctx.judge('TimeVarMC', months(ctx), 'months units', c)
