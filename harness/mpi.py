"""Run cases on several MPI processes.  Every rank appends one JSON line per case to its own log."""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from harness.lib import Machinery


def command(n):
    return ['mpirun', '--oversubscribe', '--bind-to', 'none', '--mca', 'btl', 'self,tcp', '--mca', 'btl_tcp_if_include', 'lo',
            '--mca', 'oob_tcp_if_include', 'lo', '--mca', 'mpi_yield_when_idle', '1', '-n', str(n)]


STALL = 60  # seconds without any process finishing a case after which the run is taken to hang
HANGS = [4]  # hanging runs put up with before giving up on further cases


def launch(n, target, fn, out, timeout):
    env = dict(os.environ)
    env.pop('OMPI_MCA_btl', None)
    env['OMPI_ALLOW_RUN_AS_ROOT'] = env['OMPI_ALLOW_RUN_AS_ROOT_CONFIRM'] = '1'
    said = os.path.join(out, 'said.txt')

    def text():
        with open(said, errors='replace') as f:
            return f.read()
    with open(said, 'w') as f:
        p = subprocess.Popen(command(n) + [sys.executable, '-W', 'ignore', '-m', 'harness.mpi', target, fn, out], env=env,
                             stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
    start = moved = time.time()
    seen = None
    while True:
        try:
            p.wait(timeout=.3)
            return p.returncode, text()
        except subprocess.TimeoutExpired:
            pass
        now = [os.path.getsize(os.path.join(out, x)) for x in sorted(os.listdir(out)) if x.startswith('rank-')]
        if now != seen:
            seen, moved = now, time.time()
        if time.time() - start > timeout or time.time() - moved > STALL:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            HANGS[0] -= 1
            return -9, text() + ' timeout'


def run_cases(n, target, cases, timeout=120, restarts=6):
    """The per-rank results of every case: a list with, per case, either ``{'ok': True, 'ranks': [...]}`` or a failure."""
    results = []
    todo = list(cases)
    start = 0
    while start < len(todo) and HANGS[0] > 0:
        work = tempfile.mkdtemp(prefix='mpi-')
        fn = os.path.join(work, 'cases.json')
        with open(fn, 'w') as f:
            json.dump(todo[start:], f)
        rc, txt = launch(n, target, fn, work, timeout)
        logs = []
        for r in range(n):
            path = os.path.join(work, 'rank-{}.log'.format(r))
            lines = []
            if os.path.exists(path):
                with open(path) as f:
                    for l in f:
                        try:
                            lines.append(json.loads(l))
                        except ValueError:
                            break
            logs.append(lines)
        shutil.rmtree(work, ignore_errors=True)
        if not any(logs) and rc != 0 and 'HARNESS-STARTED' not in txt:
            raise Machinery('mpirun failed before any case ran: {}'.format(txt[-800:]))
        good = 0
        while good < len(todo) - start and all(len(l) > good and l[good].get('ok') for l in logs):
            results.append({'ok': True, 'err': '', 'ranks': [l[good]['val'] for l in logs]})
            good += 1
        start += good
        if start < len(todo):
            errs = ['{}:{}'.format(r, l[good]['err']) for r, l in enumerate(logs) if len(l) > good and not l[good].get('ok')]
            if not errs:
                errs = ['no answer from ranks {} (rc={}) {}'.format([r for r, l in enumerate(logs) if len(l) <= good], rc, txt[-200:])]
            results.append({'ok': False, 'err': '; '.join(errs)[:400], 'ranks': []})
            start += 1
            restarts -= 1
            if restarts <= 0 or HANGS[0] <= 0:
                break
    return results


def main():
    target, fn, out = sys.argv[1:4]
    from harness.lib import setup_ocgis
    setup_ocgis()
    from ocgis import vm
    from mpi4py import MPI
    mod, func = target.split(':')
    func = getattr(importlib.import_module(mod), func)
    with open(fn) as f:
        cases = json.load(f)
    print('HARNESS-STARTED')
    sys.stdout.flush()
    import random
    with open(os.path.join(out, 'rank-{}.log'.format(MPI.COMM_WORLD.Get_rank())), 'w') as log:
        for k, c in enumerate(cases):
            random.seed(k)
            try:
                r = {'ok': True, 'val': func(c)}
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(sys.exc_info()[2])
                r = {'ok': False, 'err': '{}:{} at {}'.format(type(e).__name__, str(e)[:200],
                                                             ['{}:{}'.format(os.path.basename(x.filename), x.lineno) for x in tb[-3:]])}
            log.write(json.dumps(r) + '\n')
            log.flush()
            if not r['ok']:
                time.sleep(1.0)     # let the other ranks write what they have
                MPI.COMM_WORLD.Abort(7)
            MPI.COMM_WORLD.Barrier()


if __name__ == '__main__':
    main()
