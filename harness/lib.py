"""Shared machinery of the checks: running TLC, judging recorded executions against a specification, reporting.

A check is a module ``harness/<id>.py`` (lower case property id) with a function ``run(ctx)``.  It
 * model checks a specification module (``ctx.model``),
 * asks TLC for behaviours of it (``ctx.generate``) which it steps through the real code,
 * hands what the real code did back to TLC (``ctx.judge``), which decides record by record against the same operators.
"""
import fnmatch
import hashlib
import json
import math
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
MISS = -999999  # a masked or missing value in a record
BAD = 2147480000  # a value that has no exact representation in the record (never equal to an expected value)
JAR_CP = '/opt/veriftools/tla/tla2tools.jar'


class Machinery(Exception):
    """Something in the check itself went wrong (not in the code under check)."""


def tlc_classpath():
    cands = [JAR_CP]
    d = os.path.dirname(JAR_CP)
    for fn in sorted(os.listdir(d)):
        if fn.endswith('.jar') and fn != os.path.basename(JAR_CP):
            cands.append(os.path.join(d, fn))
    return ':'.join(cands)


def enc(v, scale=1, tol=1e-6):
    """Encode one number as a TLC integer: scaled and rounded when it is that close to an integer, else BAD."""
    import numpy as np
    if v is None or v is np.ma.masked:
        return MISS
    try:
        f = float(v) * scale
    except (TypeError, ValueError):
        return BAD
    if math.isnan(f) or math.isinf(f):
        return BAD
    r = int(round(f))
    if abs(f - r) > tol * max(1.0, abs(f)) or abs(r) >= BAD:
        return BAD
    return r


def ratio(v, maxden=2000, tol=1e-9):
    """A number as the fraction it stands for: <<numerator, denominator>>, <<>> when masked, a fraction equal to nothing when it is none."""
    import numpy as np
    from fractions import Fraction
    if v is None or v is np.ma.masked:
        return []
    f = float(v)
    if math.isnan(f) or math.isinf(f) or abs(f) > 1e6:
        return [1, 0]
    q = Fraction(f).limit_denominator(maxden)
    if abs(float(q) - f) > tol * max(1.0, abs(f)) or abs(q.numerator) > 2000000:
        return [1, 0]
    return [q.numerator, q.denominator]


def encarr(arr, scale=1, tol=1e-6):
    """Encode an array (any shape) as nested lists of TLC integers; masked elements become MISS."""
    import numpy as np
    arr = np.ma.asanyarray(arr)
    if arr.ndim == 0:
        if np.ma.getmaskarray(arr):
            return MISS
        return enc(arr.data[()] if hasattr(arr, 'data') else arr, scale, tol)
    return [encarr(arr[ii], scale, tol) if arr.ndim > 1 else
            (MISS if np.ma.getmaskarray(arr)[ii] else enc(arr.data[ii], scale, tol)) for ii in range(arr.shape[0])]


def tla_value(v):
    """Render a python value as a TLA+ expression."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v) if v >= 0 else '-{}'.format(-v)
    if isinstance(v, str):
        return '"{}"'.format(v)
    if isinstance(v, (list, tuple)):
        return '<<{}>>'.format(', '.join(tla_value(x) for x in v))
    if isinstance(v, (set, frozenset)):
        return '{{{}}}'.format(', '.join(tla_value(x) for x in sorted(v)))
    if isinstance(v, dict):
        return '[{}]'.format(', '.join('{} |-> {}'.format(k, tla_value(x)) for k, x in v.items()))
    raise Machinery('no TLA value for {!r}'.format(v))


class Ctx(object):
    def __init__(self, prop, tier, seed, level='model_checking'):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.level = level
        self.rng = random.Random('{}-{}'.format(prop, seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-{}-'.format(prop))
        self.states = 0
        self.transitions = 0
        self.judged = 0
        self.samples = []
        self.cover = {}
        self.models = []
        self.assumptions = []
        self.violations = []
        self.known_hits = {}
        self.known = load_known(prop)
        self.seen_viol = set()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg_text, args=(), env=None, timeout=600, workers='auto', label=None):
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        cfg = os.path.join(d, 'run.cfg')
        with open(cfg, 'w') as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e.pop('PYTHONPATH', None)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xss32m', '-Xmx6g', '-DTLA-Library=' + SPEC, '-cp', tlc_classpath(),
               'tlc2.TLC', '-config', cfg, '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
               '-deadlock', '-workers', str(workers)]
        cmd += list(args)
        cmd += [os.path.join(SPEC, module + '.tla')]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as exc:
            raise Machinery('TLC timed out after {}s on {} ({})'.format(timeout, module, label))
        out = p.stdout.decode('utf-8', 'replace')
        shutil.rmtree(d, ignore_errors=True)
        gen, dist = 0, 0
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            gen, dist = int(m[-1][0]), int(m[-1][1])
        return p.returncode, out, gen, dist

    def model(self, module, cfg_text, timeout=600, label=None, args=(), min_states=1, env=None):
        """Exhaustive model checking.  The specification has to satisfy its own invariants: a failure here is an error
        of the specification, not of the code."""
        rc, out, gen, dist = self.tlc(module, cfg_text, args=args, timeout=timeout, label=label, env=env)
        if rc != 0:
            raise Machinery('TLC rejects the specification {} ({}):\n{}'.format(module, label, tail(out)))
        if dist < min_states:
            raise Machinery('TLC found only {} states in {} ({})'.format(dist, module, label))
        self.states += dist
        self.transitions += gen
        self.models.append({'module': module, 'what': label or module, 'states': dist, 'transitions': gen})
        return out

    def generate(self, module, cfg_text, num=None, depth=None, timeout=600, label=None, tag='CASE', exhaustive=False):
        """Behaviours of the specification as JSON: every line ``<<"CASE", "json">>`` TLC prints."""
        args = []
        workers = '1'
        if not exhaustive:
            args = ['-simulate', 'num={}'.format(num), '-depth', str(depth), '-seed', str(self.seed * 7919 + 17)]
        rc, out, gen, dist = self.tlc(module, cfg_text, args=args, timeout=timeout, label=label, workers=workers)
        if rc != 0:
            raise Machinery('TLC failed while generating from {} ({}):\n{}'.format(module, label, tail(out)))
        cases = []
        seen = set()
        for m in re.finditer(r'^<<\s*"%s",\s*"(.*)"\s*>>$' % tag, out, re.M):
            txt = m.group(1).replace('\\"', '"').replace('\\\\', '\\')
            if txt in seen:
                continue
            seen.add(txt)
            cases.append(json.loads(txt))
        if not cases:
            raise Machinery('TLC generated no behaviours from {} ({}):\n{}'.format(module, label, tail(out)))
        if num and num > 100 and len(cases) < num // 20:
            raise Machinery('TLC generated {} different behaviours only from {} ({})'.format(len(cases), module, label))
        if exhaustive:
            self.states += dist
            self.transitions += gen
        self.models.append({'module': module, 'what': (label or module) + ' (behaviours replayed)', 'behaviours': len(cases),
                            'states': dist, 'transitions': gen})
        return cases

    def judge(self, module, records, what, cfg_extra='', timeout=800, key=None, workers='auto'):
        """Have TLC decide every record with the operators of the specification; report the rejected ones."""
        if not records:
            raise Machinery('no records to judge for {}'.format(what))
        fn = os.path.join(self.work, 'trace-{}.ndjson'.format(len(os.listdir(self.work))))
        with open(fn, 'w') as f:
            for r in records:
                f.write(json.dumps(clean(r)) + '\n')
        cfg = ('' if 'INIT ' in cfg_extra else 'INIT JInit\nNEXT JNext\n') + cfg_extra
        rejects = {}
        rc, out, gen, dist = self.tlc(module, cfg, env={'TRACE': fn}, timeout=timeout, label=what, workers=workers)
        for m in re.finditer(r'^<<\s*"REJECT",\s*(\d+),\s*(.*?)\s*>>$', out, re.M | re.S):
            rejects.setdefault(int(m.group(1)), []).append(re.sub(r'\s+', ' ', m.group(2))[:600])
        if rc != 0:
            # the evaluation stopped on a record whose shape the specification does not know: find it and go on without.
            m = re.findall(r'/\\ i = (\d+)', out)
            if not m:
                raise Machinery('TLC failed while judging {} with {}:\n{}'.format(what, module, tail(out)))
            bad = int(m[-1])
            err = re.search(r"Error: (.*?)(?:Error: The behavior|\Z)", out, re.S)
            rejects.setdefault(bad, []).append('malformed-record: ' + re.sub(r'\s+', ' ', err.group(1) if err else '')[:300])
            for n in sorted(rejects):
                self.violation(what, records[n - 1], rejects[n], module, key)
            rest = [r for j, r in enumerate(records, 1) if j not in rejects]
            self.judged += len(rejects)
            if rest and len(self.violations) < 40:
                self.judge(module, rest, what, cfg_extra, timeout, key, workers)
            return
        if dist < len(records) + 1 and dist != 2 * len(records):
            raise Machinery('TLC judged {} states for {} records of {}:\n{}'.format(dist, len(records), what, tail(out)))
        self.states += dist
        self.transitions += gen
        self.judged += len(records)
        self.cover[what] = self.cover.get(what, 0) + len(records)
        if len(self.samples) < 12:
            s = json.dumps(clean(records[len(records) // 2]))
            self.samples.append({'what': what, 'record': s if len(s) < 1500 else s[:1500] + '...'})
        for n in sorted(rejects):
            self.violation(what, records[n - 1], rejects[n], module, key)

    # ------------------------------------------------------------ reporting
    def violation(self, what, record, clauses, module='', key=None):
        rec = clean(record)
        case = str(rec.get('case', '')) if isinstance(rec, dict) else ''
        text = '{} | {} | {}'.format(what, case, '; '.join(str(c) for c in clauses))
        for kf in self.known:
            if fnmatch.fnmatchcase(what, kf.get('what', '*')) and fnmatch.fnmatchcase(case, kf.get('case', '*')) and \
                    all(any(fnmatch.fnmatchcase(c, p) for p in kf.get('clauses', ['*'])) for c in clauses):
                self.known_hits.setdefault(kf['id'], (kf, 0))
                self.known_hits[kf['id']] = (kf, self.known_hits[kf['id']][1] + 1)
                return
        h = hashlib.sha1(json.dumps([what, rec, clauses], sort_keys=True, default=str).encode()).hexdigest()[:12]
        if h in self.seen_viol:
            return
        self.seen_viol.add(h)
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '{}-{}.json'.format(self.prop, h))
        if len(self.violations) < int(os.environ.get("VERIF_REPLAYS", "25")):
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier, 'what': what, 'module': module,
                           'clauses': clauses, 'record': rec}, f, indent=1, default=str)
        self.violations.append((path, text))

    def expect_reject(self, module, records, what, cfg_extra=''):
        """The binding is real: a record corrupted on purpose must be rejected by the specification."""
        fn = os.path.join(self.work, 'corrupt-{}.ndjson'.format(len(os.listdir(self.work))))
        with open(fn, 'w') as f:
            for r in records:
                f.write(json.dumps(clean(r)) + '\n')
        rc, out, gen, dist = self.tlc(module, ('' if 'INIT ' in cfg_extra else 'INIT JInit\nNEXT JNext\n') + cfg_extra, env={'TRACE': fn}, label=what)
        got = set(int(x) for x in re.findall(r'^<<\s*"REJECT",\s*(\d+),', out, re.M))
        if rc == 0 and len(got) != len(records):
            raise Machinery('corrupted records accepted by {} ({}): {} of {} rejected'.format(module, what, len(got), len(records)))
        self.cover['corrupted records rejected: ' + what] = len(records)

    def finish(self):
        wall = time.time() - self.t0
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.judged, 'samples': self.samples,
                           'specification_runs': self.models, 'records_by_kind': self.cover},
              'assumptions': self.assumptions, 'wall_s': round(wall, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', '{}.json'.format(self.prop)), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        for kid in sorted(self.known_hits):
            kf, cnt = self.known_hits[kid]
            print('KNOWN-FINDING: property={} {} ({} records)'.format(self.prop, kf['summary'], cnt))
        for path, text in self.violations[:25]:
            print('VIOLATION property={} replay={} {}'.format(self.prop, path, text[:700]))
        if len(self.violations) > 25:
            print('... and {} more violations'.format(len(self.violations) - 25))
        print('{} {} states={} transitions={} judged={} violations={} wall={:.1f}s'.format(
            self.prop, self.tier, self.states, self.transitions, self.judged, len(self.violations), wall))
        sys.stdout.flush()
        return 1 if self.violations else 0


def tail(out):
    a = out.find('Error:')
    return out[a:a + 2500] if a >= 0 else out[-1500:]


def load_known(prop):
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == prop]


def clean(x):
    """JSON with nothing TLC cannot read: no nulls, floats or big integers."""
    import numpy as np
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return x if abs(x) <= 2147483000 else BAD
    if isinstance(x, (float, np.floating)):
        return enc(x)
    if x is None:
        return MISS
    if isinstance(x, str):
        return x
    return str(x)


def text(e):
    try:
        return str(e)
    except Exception as x:
        return 'unprintable error: {}'.format(type(x).__name__)


def outcome(func, *args, **kwargs):
    """Call the code under check; a raised exception is an outcome like any other."""
    try:
        return {'ok': True, 'err': '', 'val': func(*args, **kwargs)}
    except Machinery:
        raise
    except Exception as e:
        return {'ok': False, 'err': type(e).__name__, 'msg': text(e)[:300], 'val': None}


def setup_ocgis():
    """Import ocgis from the working tree of /repo."""
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import ocgis
    root = os.path.realpath(os.path.dirname(ocgis.__file__))
    if not root.startswith(os.path.realpath('/repo/src')):
        raise Machinery('ocgis imported from {} and not from /repo/src'.format(root))
    return ocgis


def main(argv):
    prop = argv[1].upper()
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import importlib
    ctx = Ctx(prop, tier, seed)
    cwd = os.getcwd()
    home = tempfile.mkdtemp(prefix='cwd-', dir=ctx.work)
    os.chdir(home)
    try:
        mod = importlib.import_module('harness.{}'.format(prop.lower()))
        mod.run(ctx)
    except Machinery as e:
        print('MACHINERY ERROR {}: {}'.format(prop, e))
        if ctx.violations:
            os.chdir(cwd)
            return ctx.finish()
        shutil.rmtree(ctx.work, ignore_errors=True)
        return 3
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        traceback.print_exc()
        if any('/repo/src/ocgis' in os.path.realpath(fr.filename) for fr in tb) or isinstance(e, (ImportError, AttributeError)):
            # the code under check failed where the specification says it works.
            ctx.violation('unexpected failure', {'case': 'driver', 'error': type(e).__name__, 'message': str(e)[:500],
                                                 'where': ['{}:{}'.format(fr.filename, fr.lineno) for fr in tb[-4:]]},
                          ['no-failure'])
        else:
            if not ctx.violations:
                shutil.rmtree(ctx.work, ignore_errors=True)
                return 3
    os.chdir(cwd)
    return ctx.finish()

