"""C12: deliveries hand the recorded outputs over, in order, exactly once."""
import contextlib
from collections import deque

from rv import toy

ID = 'C12'
RULE = (
    'generated modules; random sets of deliveries on functions, methods and '
    'inherited methods, with recorders beside them; random histories of '
    'recording and overriding windows, over- and underflow, exceptions. A '
    'queue model predicts every call while it runs')
ASSUMPTIONS = [
    'a delivered source is not recorded in overriding windows',
    'windows are left in the reverse order of entering (with statements)',
]
REQUIRED_EVENTS = {'delivered': 800, 'pushed': 1000, 'overflow': 60,
                   'underflow': 60, 'windows': 1200, 'failed_starts': 40,
                   'several_pending': 200, 'same_source': 100}


class Stop(Exception):
    """The window is over: an over- or underflow was due."""


def deliver(ctx):
    from mmrazor.models.task_modules import (DistillDeliveryManager,
                                             RecorderManager)
    rng = ctx.rng
    t = toy.Toy(rng)
    try:
        run(ctx, rng, t, DistillDeliveryManager, RecorderManager)
    finally:
        t.close()


def clash(t, keys, new):
    return any('.' in k and '.' in new and t.definer(k) == t.definer(new)
               for k in keys)


def run(ctx, rng, t, Manager, Recorders):
    keys, managers = [], []
    for m in range(rng.choice([1, 1, 2])):
        cfg, src = {}, {}
        for i in range(rng.randint(1, 3)):
            k = rng.choice(t.FUNCS + t.METHODS)
            if k in keys or clash(t, keys, k):
                continue
            keys.append(k)
            n = rng.choice([1, 1, 2, 3, 4])
            if '.' in k:
                cfg[f'd{i}'] = dict(type='MethodOutputs', max_keep_data=n,
                                    method_path=f'{t.name}.{k}')
            else:
                cfg[f'd{i}'] = dict(type='FunctionOutputs', max_keep_data=n,
                                    func_path=f'{t.name}.{k}')
            src[f'd{i}'] = (k, n)
        with ctx.sut('build'):
            man = Manager(cfg)
        ctx.check(man.override_data is False, 'default-mode', 'overrides')
        managers.append((man, src))
    # a recorder of the same sources, used in recording windows only
    rcfg = {}
    for i, k in enumerate(keys):
        if rng.random() < .4:
            rcfg[f'r{i}'] = dict(
                type='MethodOutputs' if '.' in k else 'FunctionOutputs',
                source=f'{t.name}.{k}')
    with ctx.sut('build'):
        recs = Recorders(rcfg)
        recs.initialize(None)
    ctx.key(tuple(tuple(s.values()) for _, s in managers), tuple(rcfg))
    ctx.sample(dict(deliveries=[s for _, s in managers], recorders=rcfg))

    queues = {}  # label -> deque
    limit = {}
    override = {}
    for mi, (man, src) in enumerate(managers):
        for name, (k, n) in src.items():
            queues[mi, name] = deque()
            limit[mi, name] = n
    due = {}

    def hook(key, chain):
        """Predict a call from the queues; outermost wrapper first."""
        labels = [c for c in chain if c in queues]
        if not labels:
            return None
        # sources are distinct, so there is one delivery on the way
        lab = labels[0]
        if override[lab[0]]:
            if not queues[lab]:
                due['what'] = 'underflow'
                return None
            want = queues[lab].popleft()

            def after(out, n):
                ctx.event('delivered')
                ctx.check(out is want, 'not-delivered', lambda:
                          f'{key}: {out} instead of the recorded {want}')
                ctx.check(len(t.bodies) == n, 'called-through',
                          lambda: f'{key} itself was called although its '
                          'output was delivered')

            return after
        if len(queues[lab]) >= limit[lab]:
            due['what'] = 'overflow'
            return None

        def after(out, n):
            ctx.check(len(t.bodies) > n and any(
                o is out for _, o in t.bodies[n:]), 'not-called',
                lambda: f'{key}: output is not its own while recording')
            if len(queues[lab]) >= limit[lab]:
                # a nested call of the same source filled the queue
                return
            queues[lab].append(out)
            ctx.event('pushed')
            if len(queues[lab]) > 1:
                ctx.event('several_pending')

        return after

    t.hook = hook
    for w in range(rng.randint(2, 6)):
        order = list(range(len(managers)))
        rng.shuffle(order)
        order = order[:rng.randint(1, len(order))]
        for mi in range(len(managers)):
            # mostly alternate: teacher records, student is overridden
            ov = bool(w % 2) if rng.random() < .8 else rng.random() < .5
            override[mi] = ov
            managers[mi][0].override_data = ov
            ctx.check(all(d.override_data is ov for d in
                          managers[mi][0].deliveries.values()),
                      'mode', 'mode of the manager not handed on')
        recording = not any(override[mi] for mi in order) and \
            rng.random() < .5
        t.fail = {rng.choice(list(t.sig))} if rng.random() < .15 else set()
        olds = []
        start = len(t.log)
        due.clear()
        want = {n: [] for n in rcfg}
        try:
            with contextlib.ExitStack() as st:
                todo = [('d', mi) for mi in order]
                if recording:
                    todo.insert(rng.randint(0, len(todo)), ('r', 0))
                for kind, mi in todo:
                    man = recs if kind == 'r' else managers[mi][0]
                    with ctx.sut('enter'):
                        st.enter_context(man)
                    if kind == 'r':
                        for n in rcfg:
                            k = rcfg[n]['source'][len(t.name) + 1:]
                            olds.append((k, t.wrap(k, ('rec', n))))
                    else:
                        for name, (k, _) in managers[mi][1].items():
                            olds.append((k, t.wrap(k, (mi, name))))
                for _ in range(rng.randint(1, 6)):
                    key = rng.choice(keys * 3 + t.FUNCS + t.METHODS)
                    try:
                        t.call(key)
                    except toy.Boom:
                        # calls under way did not complete; outputs of nested
                        # ones that did are in the queues
                        if rng.random() < .4:
                            raise
                    except AssertionError:
                        ctx.check('what' in due, 'refused', lambda:
                                  f'{key} was refused; queues '
                                  f'{ {k: len(q) for k, q in queues.items()} }')
                        raise Stop
                    ctx.check('what' not in due, 'not-refused', lambda:
                              f'{key}: {due["what"]} went unnoticed')
        except Stop:
            ctx.event(due['what'])
        except toy.Boom:
            ctx.event('raised_windows')
        for k, old in reversed(olds):
            t.unwrap(k, old)
        ctx.event('windows')
        ctx.check(not t.diff(), 'left-behind',
                  lambda: f'still wrapped after the window: {t.diff()}')
        for mi, (man, src) in enumerate(managers):
            for name in src:
                q = man.deliveries[name].data_queue
                ctx.check(
                    len(q) == len(queues[mi, name]) and all(
                        a is b for a, b in zip(q, queues[mi, name])),
                    'queue', lambda: f'{src[name]}: {list(q)} kept, '
                    f'{list(queues[mi, name])} expected')
        if recording:
            for key, chain, passed, out, _, _ in t.log[start:]:
                for lab in chain:
                    if lab[0] == 'rec':
                        want[lab[1]].append(out)
            for n, lst in want.items():
                got = recs.get_recorder(n).data_buffer
                ctx.check(len(got) == len(lst) and all(
                    a is b for a, b in zip(got, lst)), 'recorder-beside',
                    lambda: f'{rcfg[n]}: {len(got)} records, '
                    f'{len(lst)} calls')
        # calls outside of windows neither push nor pop
        t.fail = set()
        if rng.random() < .6:
            t.call(rng.choice(keys or t.FUNCS))
    # a set one of which can not start
    if rng.random() < .4:
        cfg = {}
        for i, k in enumerate(rng.sample(t.FUNCS + ['A.m0', 'B.m1'], 2)):
            cfg[f'd{i}'] = dict(
                type='MethodOutputs', max_keep_data=1,
                method_path=f'{t.name}.{k}') if '.' in k else dict(
                    type='FunctionOutputs', max_keep_data=1,
                    func_path=f'{t.name}.{k}')
        items = list(cfg.items()) + [('bad', dict(
            type='FunctionOutputs', max_keep_data=1,
            func_path=f'{t.name}.' + rng.choice(
                ['no_such_func', 'NOT_A_FUNC'])))]
        rng.shuffle(items)
        man = Manager(dict(items))
        with ctx.rejects('missing-source'):
            with man:
                pass
        ctx.event('failed_starts')
        ctx.check(not t.diff(), 'left-behind-failed-start',
                  lambda: f'still wrapped: {t.diff()}')
    with ctx.rejects('unknown-type', AssertionError):
        Manager(dict(a=dict(type='ModuleOutputs', max_keep_data=1)))
    for k in ('A.no_such', 'NOT_A_FUNC.m0', 'Nope.m0', 'A.CONST'):
        with ctx.rejects(f'bad-method:{k}', (AssertionError, TypeError)):
            Manager(dict(a=dict(type='MethodOutputs', max_keep_data=1,
                                method_path=f'{t.name}.{k}')))


def same(ctx):
    """Deliveries of one source, which is what it was after every window."""
    from mmrazor.models.task_modules import DistillDeliveryManager
    rng = ctx.rng
    t = toy.Toy(rng)
    try:
        k = rng.choice(t.FUNCS + t.METHODS)
        n, calls = rng.randint(2, 3), rng.randint(1, 2)
        kind, arg = (('MethodOutputs', 'method_path') if '.' in k else
                     ('FunctionOutputs', 'func_path'))
        with ctx.sut('build'):
            man = DistillDeliveryManager({
                f'd{i}': {'type': kind, 'max_keep_data': n,
                          arg: f'{t.name}.{k}'}
                for i in range(rng.randint(2, 3))})
        ctx.key('same', k, n, calls, len(man.deliveries))
        for mode in (False, True):
            man.override_data = mode
            boom = rng.random() < .3
            t.hook = lambda key, chain: None
            try:
                with man:
                    for _ in range(calls):
                        t.call(k)
                    if boom:
                        raise Stop
            except (AssertionError, Stop):
                pass  # nested calls may fill or empty the queues
            ctx.check(not t.diff(), 'left-behind',
                      lambda: f'still wrapped: {t.diff()}')
            ctx.event('same_source')
    finally:
        t.close()


SECTIONS = {'deliver': (deliver, 1500, 15000), 'same': (same, 150, 1500)}
