"""M03: sub-communicator scopes."""
from harness.lib import outcome, setup_ocgis
from harness import mpi


class Boom(Exception):
    pass


SAT = {'active': False, 'err': '', 'name': '', 'null': False, 'rank': -1, 'size': -1, 'members': [], 'roots': -1, 'root': -1}


def worker(ops):
    """Run a history; returns what this process saw after every operation."""
    from ocgis import vm
    log = [dict(SAT) for _ in ops]

    def see(k, err=''):
        o = log[k]
        o.update(active=True, err=err, name=vm.current_comm_name or '', null=bool(vm.is_null))
        if not vm.is_null:
            o['rank'], o['size'] = int(vm.rank), int(vm.size)
            if list(vm.ranks) != list(range(vm.size)):
                o['size'] = -2
            o['members'] = [int(x) for x in vm.comm.allgather(vm.rank_global)]
            roots = vm.gather(1 if vm.rank == 0 else 0)
            o['roots'] = int(vm.bcast(sum(roots) if vm.rank == 0 else None))
            o['root'] = int(vm.bcast(vm.rank_global if vm.rank == 0 else None))
            vm.barrier()
        elif vm.rank is not None or vm.size is not None:
            o['null'] = False
        return o

    def block(k):
        """Operations from k to the end of the enclosing scope; returns the position after it and how it ended."""
        while k < len(ops):
            op = ops[k]
            kind = op['op']
            if kind in ('exit', 'fail'):
                return k, kind
            if kind in ('enter', 'named'):
                end = [None, None]
                try:
                    with (vm.scoped(op['name'], op['ranks']) if kind == 'enter' else vm.scoped_by_name(op['name'])):
                        see(k)
                        if vm.is_null:
                            end[0], end[1] = skip(k + 1)
                        else:
                            end[0], end[1] = block(k + 1)
                        if end[1] == 'fail':
                            raise Boom
                except Boom:
                    see(end[0], 'Boom')
                except Exception as e:
                    if end[0] is not None:
                        raise
                    see(k, type(e).__name__)
                    k += 1
                    continue
                else:
                    see(end[0])
                k = end[0] + 1
                continue
            try:
                if kind == 'create':
                    vm.create_subcomm(op['name'], op['ranks'], **({'clobber': True} if op['clobber'] else {}))
                else:
                    vm.free_subcomm(name=op['name'])
            except Exception as e:
                see(k, type(e).__name__)
            else:
                see(k)
            k += 1
        return k, ''

    # An enter with a name in use opens no scope; a process sitting out has to know which do.
    opens = []
    names, st = set(), []
    for op in ops:
        opened = False
        if op['op'] == 'enter':
            if op['name'] not in names:
                names.add(op['name'])
                st.append(op['name'])
                opened = True
        elif op['op'] == 'named':
            st.append(None)
            opened = True
        elif op['op'] in ('exit', 'fail'):
            t = st.pop()
            if t is not None:
                names.discard(t)
        elif op['op'] == 'create':
            names.add(op['name'])
        elif op['op'] == 'free':
            names.discard(op['name'])
        opens.append(opened)

    def skip(k):
        depth = 0
        while True:
            if opens[k]:
                depth += 1
            elif ops[k]['op'] in ('exit', 'fail'):
                if depth == 0:
                    return k, ops[k]['op']
                depth -= 1
            k += 1
    try:
        block(0)
    finally:
        vm.finalize()
    if vm.current_comm_name is not None or vm.size != vm.size_global:
        raise AssertionError('finalize leaves a scope')
    return log


def serial(ops):
    """The same histories on one process."""
    from ocgis import vm
    obs, names, expected = [], [], []
    raised = threw = 0
    stack = []
    base = vm.current_comm_name
    import contextlib
    for op in ops:
        if op['op'] == 'enter' and op['ranks']:
            cm = vm.scoped('{}{}'.format(op['name'], len(stack)), [0])
            before = vm.current_comm_name
            cm.__enter__()
            stack.append((cm, before))
            names.append(vm.current_comm_name)
            expected.append('{}{}'.format(op['name'], len(stack) - 1))
        elif op['op'] in ('exit', 'fail') and stack:
            cm, before = stack.pop()
            if op['op'] == 'fail':
                threw += 1
                try:
                    try:
                        raise Boom
                    except Boom:
                        import sys
                        if not cm.__exit__(*sys.exc_info()):
                            raise
                except Boom:
                    raised += 1
            else:
                cm.__exit__(None, None, None)
            names.append(vm.current_comm_name or '')
            expected.append(before or '')
        obs.append({'rank': vm.rank, 'size': vm.size, 'null': bool(vm.is_null)})
    while stack:
        stack.pop()[0].__exit__(None, None, None)
    names.append(vm.current_comm_name or '')
    expected.append(base or '')
    vm.finalize()
    return obs, names, expected, raised, threw


def run(ctx):
    setup_ocgis()
    import copy

    def cfg(n, ops, names='"a", "b", "c"'):
        return 'CONSTANTS N = {} ScopeNames = {{{}}} MaxOps = {}\n'.format(n, names, ops)
    ctx.model('Scopes', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANTS Nested Distinct LiveWhileIn\nPROPERTY Restored\n' +
              cfg(3, ctx.n(4, 5), '"a", "b"'), label='all scope histories on three processes')
    for n in ctx.n([2, 4], [2, 3, 4, 6]):
        ops = ctx.n(8, 14)
        cases = ctx.generate('Scopes', 'INIT Init\nNEXT GenNext\nINVARIANT Emit\n' + cfg(n, ops), num=ctx.n(250, 1500), depth=ops + 1,
                             label='scope histories on {} processes'.format(n))
        res = mpi.run_cases(n, 'harness.m03:worker', cases, timeout=ctx.n(150, 500))
        recs = [{'kind': 'history', 'case': 'n={} {}'.format(n, k), 'n': n, 'ops': c, 'ok': r['ok'], 'err': r['err'], 'obs': r['ranks']}
                for k, (c, r) in enumerate(zip(cases, res))]
        if recs:
            ctx.judge('Scopes', recs, 'scope histories on {} processes'.format(n), cfg(n, 0))
        if n == 2:
            bad = copy.deepcopy([r for r in recs if r['ok']][:2])
            for b in bad:
                b['obs'][0][0]['name'] = 'zz'
            if bad:
                ctx.expect_reject('Scopes', bad, 'scope name altered', cfg(n, 0))
            recs = []
            for k, c in enumerate(cases[:60]):
                o = outcome(serial, c)
                r = {'kind': 'serial', 'case': 'serial {}'.format(k), 'ok': o['ok'], 'err': o['err'], 'obs': [], 'names': [], 'expected': [],
                     'raised': 0, 'threw': 0}
                if o['ok']:
                    r['obs'], r['names'], r['expected'], r['raised'], r['threw'] = o['val']
                recs.append(r)
            ctx.judge('Scopes', recs, 'scopes on one process', cfg(1, 0))
