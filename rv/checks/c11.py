"""C11: recorders capture intermediate results and leave nothing behind."""
import contextlib
import copy

import torch
import torch.nn as nn

from rv import toy

ID = 'C11'
RULE = (
    'generated modules of functions and classes that call one another, and '
    'networks with reused blocks; random sets of recorders in nested '
    'managers; random histories of entering, calling, raising and leaving. '
    'The truth about calls is logged at the call sites')
ASSUMPTIONS = [
    'a manager is not entered again while it is active; managers are left in '
    'the reverse order of entering (with statements)',
    'no source and the inherited version of it are recorded together',
]
REQUIRED_EVENTS = {'records': 3000, 'windows': 600, 'shared_sources': 60,
                   'raised_windows': 60, 'module_records': 300,
                   'failed_starts': 30, 'params': 50}


def no_inheritance_clash(t, keys, new):
    """Whether recording ``new`` next to ``keys`` is well defined."""
    if '.' not in new:
        return True
    for k in keys:
        if '.' in k and k != new and t.definer(k) == t.definer(new):
            return False
    return True


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def calls(ctx):
    """Functions and methods of generated modules."""
    from mmrazor.models.task_modules import RecorderManager
    rng = ctx.rng
    t = toy.Toy(rng)
    try:
        keys, managers = [], []
        for m in range(rng.randint(1, 3)):
            cfg, src = {}, {}
            for i in range(rng.randint(1, 4)):
                pool = t.FUNCS + t.METHODS
                if keys and rng.random() < .35:
                    pool = keys
                k = rng.choice(pool)
                if not no_inheritance_clash(t, keys, k):
                    continue
                if k in keys:
                    ctx.event('shared_sources')
                keys.append(k)
                io = rng.choice(['Inputs', 'Outputs'])
                kind = 'Method' if '.' in k else 'Function'
                cfg[f'r{i}'] = dict(type=kind + io, source=f'{t.name}.{k}')
                src[f'r{i}'] = (k, io)
            with ctx.sut('build'):
                man = RecorderManager(cfg)
                man.initialize(nn.Identity())
            managers.append((man, src))
        ctx.key('calls', len(managers),
                tuple(tuple(s.values()) for _, s in managers))
        if len(keys) > 3:
            ctx.sample(dict(sources=keys, signatures={
                k: t.sig[t.definer(k)] for k in keys}))
        ctx.check(not t.diff(), 'built', lambda: f'patched by building: '
                  f'{t.diff()}')
        kept = {}

        def look(when):
            """All buffers against the log."""
            for mi, (man, src) in enumerate(managers):
                for name, (k, io) in src.items():
                    want = kept.get((mi, name), [])
                    rec = man.get_recorder(name)
                    got = rec.data_buffer
                    ctx.event('records', len(want))
                    ctx.check(
                        len(got) == len(want), 'count',
                        lambda: f'{k} {io} {when}: {len(got)} records, '
                        f'{len(want)} completed calls')
                    for i, (g, w) in enumerate(zip(got, want)):
                        ok = same(g, w) if io == 'Inputs' else g is w
                        ctx.check(ok, f'value:{io.lower()}', lambda:
                                  f'{k} {when} record {i}: {g} is not {w}')
                    ask(ctx, rng, rec, want, io)

        for w in range(rng.randint(1, 4)):
            # calls outside of any window
            for _ in range(rng.randint(0, 2)):
                t.fail = set()
                t.call(rng.choice(t.FUNCS + t.METHODS))
            order = list(range(len(managers)))
            rng.shuffle(order)
            order = order[:rng.randint(1, len(order))]
            t.fail = {rng.choice(list(t.sig))} if rng.random() < .3 else set()
            olds = []
            start = len(t.log)
            try:
                with contextlib.ExitStack() as st:
                    for mi in order:
                        man, src = managers[mi]
                        with ctx.sut('enter'):
                            st.enter_context(man)
                        for name, (k, io) in src.items():
                            olds.append((k, t.wrap(k, (mi, name))))
                            kept[mi, name] = []
                    for _ in range(rng.randint(1, 8)):
                        key = rng.choice(t.FUNCS + t.METHODS + keys * 2)
                        try:
                            t.call(key)
                        except toy.Boom:
                            if rng.random() < .3:
                                raise
                    if rng.random() < .15:
                        raise toy.Boom('by the caller')
            except toy.Boom:
                ctx.event('raised_windows')
            for k, old in reversed(olds):
                t.unwrap(k, old)
            for key, chain, passed, out, _, _ in t.log[start:]:
                for mi, name in chain:
                    io = managers[mi][1][name][1]
                    kept[mi, name].append(
                        passed if io == 'Inputs' else out)
            ctx.event('windows')
            ctx.check(not t.diff(), 'left-behind', lambda: 'still wrapped '
                      f'after the window: {t.diff()}')
            look(f'after window {w}')
        # nothing is recorded outside
        t.fail = set()
        for _ in range(3):
            t.call(rng.choice(t.FUNCS + t.METHODS))
        look('after calls outside')
        # a manager one of whose recorders can not start
        if rng.random() < .4:
            bad = rng.choice(['no_such_func', 'NOT_A_FUNC'])
            cfg = {}
            for i, k in enumerate(rng.sample(t.FUNCS + ['A.m0', 'B.m1'],
                                             rng.randint(1, 3))):
                cfg[f'r{i}'] = dict(
                    type='MethodOutputs' if '.' in k else 'FunctionOutputs',
                    source=f'{t.name}.{k}')
            items = list(cfg.items()) + [('bad', dict(
                type='FunctionOutputs', source=f'{t.name}.{bad}'))]
            rng.shuffle(items)
            man = RecorderManager(dict(items))
            man.initialize(None)
            with ctx.rejects('missing-source'):
                with man:
                    pass
            ctx.event('failed_starts')
            ctx.check(not t.diff(), 'left-behind-failed-start',
                      lambda: f'still wrapped: {t.diff()}')
    finally:
        t.close()


def ask(ctx, rng, rec, want, io):
    """get_record_data against the records."""
    n = len(want)
    with ctx.rejects('record-index', AssertionError):
        rec.get_record_data(record_idx=n + rng.randint(0, 2))
    if not n:
        return
    i = rng.randrange(n)
    with ctx.sut('get_record_data'):
        got = rec.get_record_data(record_idx=i)
        first = rec.get_record_data()
    ctx.check(got is rec.data_buffer[i] and first is rec.data_buffer[0],
              'get-record', 'not the record asked for')
    if isinstance(want[i], (list, tuple)):
        if len(want[i]):
            j = rng.randrange(len(want[i]))
            with ctx.sut('get_record_data'):
                got = rec.get_record_data(i, j)
            ctx.check(got is want[i][j], 'get-data',
                      lambda: f'{got} is not {want[i][j]}')
        with ctx.rejects('data-index', AssertionError):
            rec.get_record_data(i, len(want[i]) + rng.randint(0, 1))
    else:
        with ctx.rejects('data-index-of-single', TypeError):
            rec.get_record_data(i, 0)


class Block(nn.Module):

    def __init__(self, rng, depth):
        super().__init__()
        self.fc = nn.Linear(4, 4)
        self.kind = rng.choice(['one'] * 4 + ['tuple', 'list', 'dict'])
        self.again = rng.random() < .4
        self.subs = nn.ModuleList([Block(rng, depth - 1) for _ in range(
            rng.randint(1, 2))]) if depth else nn.ModuleList()
        self.act = rng.choice([
            nn.ReLU, nn.Tanh, nn.Sigmoid, nn.Identity,
            lambda: nn.ReLU(inplace=not self.again)])()
        self.times = [rng.randint(0, 2) for _ in self.subs]
        self.log = None

    def forward(self, x, scale=None):
        x = self.call(self.act, self.call(self.fc, x))
        if self.again:  # an identity returns the same object again
            x = self.call(self.act, x)
        for s, n in zip(self.subs, self.times):
            for _ in range(n):
                x = self.call(s, x)
                x = self.join(x)
        return dict(one=x, tuple=(x, x * 2), list=[x, x * 2],
                    dict=dict(a=x, b=x * 2))[self.kind]

    @staticmethod
    def join(x):
        if isinstance(x, dict):
            x = list(x.values())
        return x[0] + x[1] if isinstance(x, (list, tuple)) else x

    def call(self, m, *args):
        out = m(*args)
        if self.log is not None:
            self.log.append((m, args, out))
        return out


def modules(ctx):
    """Blocks of networks: outputs, inputs, parameters; copies."""
    from mmrazor.models.task_modules import RecorderManager
    rng = ctx.rng
    net = Block(rng, rng.randint(0, 2))
    log = []

    def set_log(n, lg):
        for m in n.modules():
            if isinstance(m, Block):
                m.log = lg

    names = [n for n, m in net.named_modules()
             if n and not isinstance(m, nn.ModuleList)]
    mods = dict(net.named_modules())
    pars = dict(net.named_parameters())

    def make():
        cfg, src = {}, {}
        for i in range(rng.randint(1, 4)):
            io = rng.choice(['Outputs', 'Outputs', 'Inputs', 'Param'])
            if io == 'Param':
                s = rng.choice(list(pars))
                cfg[f'r{i}'] = dict(type='Parameter', source=s)
            else:
                s = rng.choice(names)
                cfg[f'r{i}'] = dict(type='Module' + io, source=s)
            src[f'r{i}'] = (s, io)
        man = RecorderManager(cfg)
        with ctx.rejects('not-initialized', AssertionError):
            with man:
                pass
        with ctx.sut('initialize'):
            man.initialize(net)
        return man, src

    x0 = torch.randn(2, 4)
    plain = Block.join(net(x0)).clone()
    state = copy.deepcopy(net.state_dict())
    a, b = make(), make()
    ctx.key('modules', str(net), tuple(a[1].values()), tuple(b[1].values()))

    def verify(man, src, mods_, pars_, lg, when):
        for name, (s, io) in src.items():
            got = man.get_recorder(name).data_buffer
            if io == 'Param':
                ctx.event('params')
                ctx.check(len(got) == 1 and got[0] is pars_[s], 'param',
                          lambda: f'{s} {when}: not the parameter')
                with ctx.sut('get_record_data'):
                    p = man.get_recorder(name).get_record_data()
                ctx.check(p is pars_[s], 'param', f'{s} {when}')
                continue
            want = [(i, o) for m, i, o in lg if m is mods_[s]]
            ctx.check(len(got) == len(want), 'module-count', lambda:
                      f'{s} {io} {when}: {len(got)} records, {len(want)} runs')
            ctx.event('module_records', len(want))
            for g, (i, o) in zip(got, want):
                if io == 'Outputs':
                    ctx.check(g is o, 'module-output',
                              f'{s} {when}: not the output')
                else:
                    ctx.check(isinstance(g, tuple) and same(g, i),
                              'module-input', f'{s} {when}: not the inputs')
            ask(ctx, rng, man.get_recorder(name),
                [o if io == 'Outputs' else i for i, o in want], io)

    logs = {0: [], 1: []}
    for w in range(rng.randint(1, 4)):
        use = rng.choice([[0], [1], [0, 1], [1, 0], []])
        log = []
        set_log(net, log)
        x = x0 if rng.random() < .5 else torch.randn(2, 4)
        boom = rng.random() < .25
        try:
            with contextlib.ExitStack() as st:
                for u in use:
                    with ctx.sut('enter'):
                        st.enter_context((a, b)[u][0])
                for _ in range(rng.randint(1, 2)):
                    if rng.random() < .3:
                        with torch.no_grad():
                            y = net(x)
                    else:
                        y = net(x)
                if boom:
                    raise toy.Boom()
        except toy.Boom:
            ctx.event('raised_windows')
        for u in use:
            logs[u] = log
        ctx.event('windows')
        if x is x0:
            ctx.check(torch.equal(Block.join(y), plain), 'changed-result',
                      'recording changed the result of the network')
        for u in (0, 1):
            verify(*(a, b)[u], mods, pars, logs[u], f'window {w}')
        # outside
        set_log(net, None)
        net(x)
        for u in (0, 1):
            verify(*(a, b)[u], mods, pars, logs[u], f'outside {w}')
    ctx.check(all(torch.equal(v, state[k])
                  for k, v in net.state_dict().items()) and
              list(state) == list(net.state_dict()), 'changed-state',
              'recording changed the state of the network')
    # gradients flow through what was recorded
    man, src = a
    outs = [n for n, (s, io) in src.items() if io == 'Outputs']
    if outs:
        lg = []
        set_log(net, lg)
        with man:
            net(x0)
        n = rng.choice(outs)
        if man.get_recorder(n).data_buffer:
            o = man.get_recorder(n).get_record_data()
            o = Block.join(o)
            net.zero_grad()
            o.sum().backward()
            ctx.check(net.fc.weight.grad is not None or
                      not o.requires_grad, 'no-gradient',
                      'no gradient through the recorded output')
            net.zero_grad()
    # a copy of the network with its recorders (weight averaging) is apart.
    # Recorded results that need gradients can not be copied: enter under
    # no_grad first.
    set_log(net, None)
    with torch.no_grad(), a[0], b[0]:
        net(x0)
    hold = nn.Module()
    hold.net, hold.a, hold.b = net, a[0], b[0]
    with ctx.sut('deepcopy'):
        twin = copy.deepcopy(hold)
    tm, tp = dict(twin.net.named_modules()), dict(twin.net.named_parameters())
    buf = {(m, n): list(m.get_recorder(n).data_buffer)
           for m in (a[0], b[0]) for n in m.recorders}
    log = []
    set_log(twin.net, log)
    with twin.a:
        twin.net(x0)
    verify(twin.a, a[1], tm, tp, log, 'in a copy')
    for (m, n), v in buf.items():
        ctx.check(same(v, m.get_recorder(n).data_buffer), 'copy-leaks',
                  'running a copy recorded in the original')
    with ctx.rejects('unknown-module', AssertionError):
        m = RecorderManager(dict(r=dict(
            type=rng.choice(['ModuleOutputs', 'ModuleInputs', 'Parameter']),
            source='no.such.thing')))
        m.initialize(net)


SECTIONS = {'calls': (calls, 500, 8000), 'modules': (modules, 250, 4000)}
