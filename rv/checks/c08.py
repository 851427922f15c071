"""C08: reported FLOPs and parameters are those of the network measured."""
import copy

import torch
import torch.nn as nn

from rv import nas
from rv.nets import describe
from rv.prune import build_net, close, prepare

ID = 'C08'
RULE = ('random networks (operator kinds and geometries, batch sizes, '
        'non-square inputs, shared modules, nested modules), random settings '
        'of the estimator and of the call; non-trivial: at least one counted '
        'operator')
ASSUMPTIONS = [
    'all parameters are trainable (frozen parameters are not counted by some '
    'counters)',
    'the costs per operator are the documented ones: multiply-accumulates of '
    'convolutions (bias counted), multiplications of linear layers, one or '
    'two operations per normalized value, one per activation/pooled value',
    'latency needs CUDA: only its settings are checked, against a stub',
]
REQUIRED_EVENTS = {
    'estimates': 500, 'modules_counted': 2000, 'separate': 50,
    'pruned_estimates': 50, 'shared_modules': 20, 'faults': 30,
    'state_compared': 300,
}

CONVS = (nn.Conv1d, nn.Conv2d, nn.Conv3d)
NORMS = (nn.BatchNorm1d, nn.BatchNorm2d, nn.BatchNorm3d, nn.GroupNorm,
         nn.InstanceNorm1d, nn.InstanceNorm2d, nn.InstanceNorm3d,
         nn.LayerNorm)
ACTS = (nn.ReLU, nn.PReLU, nn.ELU, nn.LeakyReLU, nn.ReLU6)
POOLS = (nn.MaxPool1d, nn.MaxPool2d, nn.MaxPool3d, nn.AvgPool1d, nn.AvgPool2d,
         nn.AvgPool3d, nn.AdaptiveMaxPool1d, nn.AdaptiveMaxPool2d,
         nn.AdaptiveMaxPool3d, nn.AdaptiveAvgPool1d, nn.AdaptiveAvgPool2d,
         nn.AdaptiveAvgPool3d)
NAMES = {}
for c in CONVS + NORMS + ACTS + POOLS + (nn.Linear, nn.ConvTranspose2d,
                                         nn.Upsample):
    NAMES[c] = c.__name__ + 'Counter'


def kind(m):
    for c in NAMES:
        if isinstance(m, c):
            return c
    return None


def cost(m, x, y):
    """Operations of one call of an operator."""
    if isinstance(m, CONVS):
        k = 1
        for a in m.kernel_size:
            k *= a
        n = y.numel() * k * m.in_channels // m.groups
        return n + (y.numel() if m.bias is not None else 0)
    if isinstance(m, nn.ConvTranspose2d):
        k = m.kernel_size[0] * m.kernel_size[1]
        n = x.numel() * k * m.out_channels // m.groups
        return n + (y.numel() if m.bias is not None else 0)
    if isinstance(m, nn.Linear):
        return x.numel() * m.out_features
    if isinstance(m, NORMS):
        return x.numel() * (2 if getattr(m, 'affine', False) else 1)
    if isinstance(m, POOLS):
        return x.numel()
    return y.numel()


class Meter:
    """Observes one run of a copy of the network, call by call."""

    def __init__(self, net, x):
        net = copy.deepcopy(net).eval()
        self.flops, self.params, self.calls = {}, {}, {}
        self.kinds = {}
        hs = []
        for n, m in net.named_modules():
            if kind(m) is not None:
                self.kinds[n] = NAMES[kind(m)]
                hs.append(m.register_forward_hook(self.hook(n)))
                self.params[n] = sum(p.numel() for p in m.parameters())
        with torch.no_grad():
            net(x)
        self.batch = len(x)

    def hook(self, n):

        def f(m, i, o):
            self.flops[n] = self.flops.get(n, 0) + cost(m, i[0], o)
            self.calls[n] = self.calls.get(n, 0) + 1

        return f

    def total(self, under=None, off=()):
        names = [
            n for n in self.flops
            if self.kinds[n] not in off and (
                under is None or n == under or n.startswith(under + '.'))
        ]
        return (sum(self.flops[n] for n in names) / self.batch,
                sum(self.params[n] for n in names))


def state(net):
    return ({k: v.clone() for k, v in net.state_dict().items()},
            {n: (len(m._forward_hooks), len(m._forward_pre_hooks),
                 sorted(set(vars(m)) - {'training', '__batch_counter__'}))
             for n, m in net.named_modules() if n})


def same_state(ctx, net, before):
    sd, hooks = before
    now, hooks2 = state(net)
    ctx.event('state_compared')
    ctx.check(sorted(sd) == sorted(now), 'state:keys', '')
    for k in sd:
        ctx.check(torch.equal(sd[k], now[k]), 'state:changed', k)
    for n in hooks:
        ctx.check(hooks[n] == hooks2[n], 'state:leftover',
                  lambda: f'{n}: {hooks[n]} -> {hooks2[n]}')
    ctx.check(not net._forward_hooks, 'state:leftover', 'hook on the network')


# ------------------------------------------------------------------ networks
def rand_op(r, dim, c):
    """-> (module, channels after)"""
    k = r.choice(['conv', 'conv', 'conv', 'norm', 'act', 'pool', 'other'] +
                 (['deconv', 'up'] if dim == 2 else []))
    if k == 'conv':
        g = r.choice([1, 1, c] + [d for d in (2, 3, 4) if c % d == 0])
        co = g * r.randint(1, max(1, 12 // g)) if g != c else c * r.choice(
            [1, 1, 2])
        ks = tuple(r.choice([1, 1, 2, 3]) for _ in range(dim))
        m = CONVS[dim - 1](
            c, co, ks if r.random() < .6 else ks[0],
            stride=r.choice([1, 1, 2]), padding=r.choice([1, 2]),
            dilation=r.choice([1, 1, 2]) if max(ks) < 3 else 1, groups=g,
            bias=r.random() < .6)
        return m, co
    if k == 'deconv':
        g = r.choice([1, 1] + [d for d in (2, 3) if c % d == 0])
        co = g * r.randint(1, max(1, 8 // g))
        return nn.ConvTranspose2d(
            c, co, (r.choice([2, 3]), r.choice([2, 3])),
            stride=r.choice([1, 2]), padding=r.choice([0, 1]), groups=g,
            bias=r.random() < .6), co
    if k == 'norm':
        i = dim - 1
        o = r.choice(['bn', 'bn', 'in', 'gn'])
        if o == 'bn':
            return NORMS[i](c, affine=r.random() < .7), c
        if o == 'in':
            return NORMS[4 + i](c, affine=r.random() < .5), c
        return nn.GroupNorm(
            r.choice([d for d in range(1, c + 1) if c % d == 0]), c,
            affine=r.random() < .7), c
    if k == 'act':
        return r.choice([
            nn.ReLU, nn.ReLU6, nn.ELU, nn.LeakyReLU,
            lambda: nn.PReLU(r.choice([1, c]))
        ])(), c
    if k == 'pool':
        o = r.randint(0, 3)
        if o < 2:
            return POOLS[o * 3 + dim - 1](2, stride=1, padding=1), c
        return POOLS[o * 3 + dim - 1](r.randint(1, 6)), c
    if k == 'up':
        return nn.Upsample(scale_factor=2), c
    return r.choice([nn.Sigmoid, nn.Dropout, nn.Identity, nn.GELU])(), c


def rand_tail(r, c):
    """Operators on vectors."""
    return [r.choice([
        lambda: nn.BatchNorm1d(c, affine=r.random() < .7), nn.ReLU,
        lambda: nn.PReLU(r.choice([1, c])), lambda: nn.Linear(c, c),
        lambda: nn.LayerNorm(c, elementwise_affine=r.random() < .7),
        nn.ReLU6, nn.Sigmoid, lambda: nn.GroupNorm(1, c)])()
        for _ in range(r.randint(0, 3))]


class MyConv(nn.Conv2d):
    """A subclass: counted as what it derives from."""


class Plain(nn.Module):
    """Stages of random operators; some operators are called repeatedly."""

    def __init__(self, r):
        super().__init__()
        self.dim = r.choice([1, 2, 2, 2, 3])
        c = self.cin = r.randint(1, 4)
        self.plan = []
        self.stages = nn.ModuleList()
        self.shared = 0
        # shared parts keep the number of channels
        self.common = nn.Sequential(
            CONVS[self.dim - 1](self.cin, self.cin, 3, padding=1),
            NORMS[self.dim - 1](self.cin), nn.PReLU())
        reps = r.choice([0, 0, 1, 2, 3])
        self.reps = reps
        self.shared = int(reps > 1)
        for _ in range(r.randint(1, 3)):
            ops = []
            for _ in range(r.randint(1, 4)):
                m, c = rand_op(r, self.dim, c)
                ops.append(m)
            if self.dim == 2 and r.random() < .3:
                ops.append(MyConv(c, 5, 1))
                c = 5
            self.stages.append(nn.Sequential(*ops))
        self.ln = nn.LayerNorm(c) if r.random() < .5 else None
        self.fc = nn.Linear(c, r.randint(1, 9), bias=r.random() < .7)
        self.last = r.random() < .5
        self.tokens = r.random() < .5
        self.tail = nn.Sequential(*(rand_tail(r, self.fc.out_features)
                                    if self.last else []))

    def forward(self, x):
        for _ in range(self.reps):
            x = self.common(x)
        for s in self.stages:
            x = s(x)
            # keep maps small
            if max(x.shape[2:]) > 24:
                x = x[(slice(None), slice(None)) +
                      (slice(0, 24), ) * self.dim]
        if self.tokens:
            x = x.flatten(2)
        x = x.movedim(1, -1)  # B, ..., C
        if self.ln is not None:
            x = self.ln(x)
        if self.last:
            x = x.flatten(1, -2).mean(1)
        return self.tail(self.fc(x))


def make(ctx):
    r = ctx.rng
    for t in range(20):
        torch.manual_seed(ctx.case_seed + t)
        net = Plain(r)
        shape = (r.choice([1, 1, 2, 3, 5]), net.cin) + tuple(
            r.randint(7, 12) for _ in range(net.dim))
        x = torch.randn(shape)
        try:
            net.eval()(x)
        except (RuntimeError, ValueError):
            continue  # e.g. a map that became too small
        return net, x
    return None, None


def conv_unit(v, u):
    d = dict(G=1e9, M=1e6, K=1e3)
    return v if u is None else round(v / d[u], 3)


def estimator(**k):
    from mmrazor.models.task_modules.estimators import ResourceEstimator
    return ResourceEstimator(**k)


def agree(ctx, got, want, what, net):
    ctx.event('estimates')
    for k, w in zip(('flops', 'params'), want):
        g = got[k]
        ctx.check(
            abs(float(g) - w) <= 1e-6 * max(1, abs(w)), f'{what}:{k}',
            lambda: f'reported {g}, the network needs {w}: {net}')


def ops(ctx):
    for _ in range(5):
        net, x = make(ctx)
        if net is None:
            ctx.skip('no valid network')
            continue
        me = Meter(net, x)
        ctx.event('modules_counted', len(me.flops))
        ctx.event('shared_modules', net.shared)
        ctx.key(str(net), tuple(x.shape))
        ctx.sample(dict(shape=tuple(x.shape), net=str(net)[:400]))
        was = state(net)
        if ctx.rng.random() < .5:
            net.train()
        with ctx.sut('estimate'):
            res = estimator(input_shape=tuple(x.shape)).estimate(
                net, dict(units=None))
        agree(ctx, res, me.total(), 'whole', net)
        ctx.check(res['latency'] == 0.0, 'latency', '')
        same_state(ctx, net, was)


def options(ctx):
    """Settings of the estimator and of the call; repeated estimates."""
    r = ctx.rng
    net, x = make(ctx)
    if net is None:
        return ctx.skip('no valid network')
    y = x[:1] if len(x) > 1 else torch.cat([x, x])
    me, other = Meter(net, x), Meter(net, y)
    was = state(net)
    kinds = sorted(set(me.kinds.values()))
    names = [n for n, m in net.named_modules() if n]
    own = dict(input_shape=tuple(x.shape))
    if r.random() < .5:
        own['units'] = dict(flops=r.choice('GMK'), params=r.choice('GMK'))
    if r.random() < .3:
        own['as_strings'] = True
    own_cfg = {}
    if r.random() < .3:
        own_cfg['disabled_counters'] = r.sample(kinds, 1)
    if r.random() < .3:
        own_cfg['input_shape'] = tuple(y.shape)
    if own_cfg and r.random() < .8:
        own['flops_params_cfg'] = own_cfg
    else:
        own_cfg = {}
    given = copy.deepcopy(own_cfg)
    with ctx.sut('build'):
        est = estimator(**own)
    ctx.key(str(net), str(own))
    for t in range(6):
        how = r.choice(['plain', 'call', 'call', 'spec', 'separate', 'fault'])
        call = {}
        if how in ('call', 'spec', 'separate', 'fault'):
            if r.random() < .3:
                call['input_shape'] = r.choice(
                    [tuple(x.shape), tuple(y.shape)])
            if r.random() < .4:
                call['units'] = r.choice([
                    None, dict(flops='K', params='K'),
                    dict(flops='M', params='G')
                ])
            if r.random() < .3:
                call['as_strings'] = r.random() < .5
            if r.random() < .4:
                call['disabled_counters'] = r.sample(
                    kinds, r.randint(0, len(kinds)))
            if r.random() < .3:
                call['input_constructor'] = None
        if how in ('spec', 'separate'):
            call['spec_modules'] = r.sample(
                names, min(len(names), r.randint(1, 4)))
        eff = dict(input_shape=est.input_shape, units=est.units,
                   as_strings=est.as_strings, disabled_counters=[])
        eff.update(own_cfg)
        eff.update(call)
        m = me if eff['input_shape'] == tuple(x.shape) else other
        u = eff['units'] or dict(flops=None, params=None)
        off = eff['disabled_counters']
        if how == 'fault':
            # a measurement that fails leaves nothing behind
            ctx.event('faults')
            bad = dict(call, input_shape=(1, net.cin + 1) + (8, ) * net.dim)
            if r.random() < .5 and bad.get('disabled_counters'):
                bad['disabled_counters'] = []
            with ctx.rejects('wrong-input'):
                est.estimate(net, bad)
            continue

        def text(v, k, eff=eff, u=u):
            if not eff['as_strings']:
                return v
            suf = 'FLOPs' if k == 'flops' else ''
            return f'{v} {u[k] or ""}{suf}'.strip()

        def expect(tot):
            return {
                k: conv_unit(v, u[k])
                for k, v in zip(('flops', 'params'), tot)
            }

        def same(got, want, what):
            for k in ('flops', 'params'):
                g, w = got[k], want[k]
                if eff['as_strings']:
                    ctx.check(isinstance(g, str), f'{what}:string', repr(g))
                    num, _, suf = g.partition(' ')
                    ctx.check(
                        suf == text(w, k).partition(' ')[2], f'{what}:unit',
                        f'{g!r} {u} {eff}')
                    g = float(num)
                tol = 0.0011 if what == 'spec' and u[k] else 1e-9
                ctx.check(
                    abs(g - w) <= max(tol * len(eff.get(
                        'spec_modules', [0])), 1e-9 * abs(w)),
                    f'{what}:{k}', lambda: f'{got} {want} {eff} {net}')

        keep = copy.deepcopy(call)
        if how == 'separate':
            ctx.event('separate')
            with ctx.sut('separate'):
                res = est.estimate_separation_modules(net, call)
            ctx.check(set(res) == set(call['spec_modules']), 'separate:keys',
                      '')
            for n in res:
                same(res[n], expect(m.total(n, off)), 'separate')
        else:
            with ctx.sut('estimate'):
                res = est.estimate(net, call or None)
            ctx.event('estimates')
            lat = res['latency']
            ctx.check(lat in (0.0, '0.0 ms'), 'latency', repr(lat))
            if how == 'spec':
                tot = [m.total(n, off) for n in call['spec_modules']]
                parts = [expect(v) for v in tot]
                same(res, {
                    k: sum(p[k] for p in parts)
                    for k in ('flops', 'params')
                }, 'spec')
            else:
                same(res, expect(m.total(off=off)), how)
        ctx.check(keep == call, 'call-settings-changed', f'{keep} {call}')
        ctx.check(given == own_cfg, 'own-settings-changed', f'{own_cfg}')
        same_state(ctx, net, was)
    with ctx.rejects('unknown-key', (KeyError, )):
        est.estimate(net, dict(shape=1))
    with ctx.rejects('unknown-module', (AssertionError, )):
        est.estimate(net, dict(spec_modules=['no.such']))
    same_state(ctx, net, was)
    with ctx.rejects('separate-nothing', (AssertionError, )):
        est.estimate_separation_modules(net, dict(spec_modules=[]))
    with ctx.rejects('unknown-unit', (KeyError, )):
        estimator(units=dict(speed='M'))


def latency(ctx):
    """The settings the latency measurement gets (the measurement is a
    stub: it needs CUDA)."""
    from mmrazor.models.task_modules.estimators.counters import \
        latency_counter as lc
    r = ctx.rng
    seen = []
    old = lc._get_model_latency
    lc._get_model_latency = lambda m, s, i, w, g: seen.append(
        (tuple(s), i, w, g)) or fps
    net, x = make(ctx)
    if net is None:
        return ctx.skip('no valid network')
    fps = r.choice([1., 4., 8., 80., 1000.])
    try:
        est = estimator(
            input_shape=tuple(x.shape), as_strings=r.random() < .4,
            latency_cfg=dict(num_warmup=7) if r.random() < .5 else None)
        call = dict(max_iter=r.randint(10, 20), repeat_num=r.randint(1, 3))
        with ctx.sut('latency'):
            res = est.estimate(net, latency_cfg=call)
        ctx.event('estimates')
        want = round(1000 / fps, 1)
        got = res['latency']
        if est.as_strings:
            ctx.check(got.endswith(' ms'), 'latency:unit', got)
            got = float(got.split()[0])
        ctx.check(abs(got - want) < 1e-6, 'latency:value', f'{got} {want}')
        ctx.check(len(seen) == call['repeat_num'], 'latency:repeats', '')
        ctx.check(
            seen[0] == (tuple(x.shape), call['max_iter'],
                        7 if est.latency_cfg else 5, 100), 'latency:settings',
            lambda: f'{seen} {call}')
        ctx.key('latency', fps, call, est.as_strings)
    finally:
        lc._get_model_latency = old


def pruned(ctx):
    """A pruned supernet costs what the exported network costs."""
    from mmrazor.structures import export_fix_subnet
    r = ctx.rng
    spec, net, x = build_net(r, ctx.case_seed)
    mut, orig = prepare(ctx, net)
    d = describe(spec)
    ctx.key(d)
    norms = [NAMES[c] for c in NORMS]
    for _ in range(3):
        mut.set_choices(mut.sample_choices())
        with ctx.sut('dynamic'):
            # searchable norms have no counter of their own
            dyn = estimator(input_shape=tuple(x.shape)).estimate(
                net, dict(units=None, disabled_counters=norms))
        _, st = export_fix_subnet(net, slice_weight=True)
        me = Meter(st, x)
        with ctx.sut('static'):
            sta = estimator(input_shape=tuple(x.shape)).estimate(
                st, dict(units=None))
        ctx.event('pruned_estimates')
        ctx.event('modules_counted', len(me.flops))
        agree(ctx, sta, me.total(), 'exported', d)
        want = me.total(off=norms)[0]
        ctx.check(
            abs(dyn['flops'] - want) <= 1e-6 * want + 1e-6,
            'dynamic:flops', lambda: f'{dyn} {me.total()} {d}')


def subnets(ctx):
    """Networks exported from a supernet; candidates measured separately."""
    from mmrazor.models.mutators import NasMutator
    from mmrazor.structures import export_fix_subnet
    r = ctx.rng
    spec = nas.rand_spec(r)
    net = nas.build(spec, ctx.case_seed)
    mut = NasMutator()
    mut.prepare_from_supernet(net)
    ctx.key(nas.describe(spec))
    shape = (r.randint(1, 3), 3, nas.HW, nas.HW)
    for _ in range(3):
        mut.set_choices(mut.sample_choices())
        _, st = export_fix_subnet(net, slice_weight=True)
        me = Meter(st, torch.randn(shape))
        ctx.event('modules_counted', len(me.flops))
        with ctx.sut('subnet'):
            res = estimator(input_shape=shape).estimate(st, dict(units=None))
        agree(ctx, res, me.total(), 'subnet', nas.describe(spec))


def custom(ctx):
    """User counters, and repeated calls through a user input constructor."""
    from mmrazor.models.task_modules.estimators.counters import BaseCounter
    from mmrazor.registry import TASK_UTILS
    r = ctx.rng
    a, b = r.randint(1, 9999), r.randint(1, 9999)

    class RVThing(nn.Module):

        def __init__(self):
            super().__init__()
            self.w = nn.Parameter(torch.ones(3))

        def forward(self, x):
            return x * self.w.sum()

    class RVThingCounter(BaseCounter):

        @staticmethod
        def add_count_hook(module, input, output):
            module.__flops__ += a
            module.__params__ += b

    TASK_UTILS.register_module(module=RVThingCounter, force=True)
    n = r.randint(1, 3)
    calls = r.randint(1, 4)

    class Net(nn.Module):

        def __init__(self):
            super().__init__()
            self.things = nn.ModuleList([RVThing() for _ in range(n)])

        def forward(self, x, times=1):
            for _ in range(times):
                for t in self.things:
                    x = t(x)
            return x

    net = Net()
    with ctx.sut('custom'):
        res = estimator().estimate(
            net, dict(
                units=None, input_shape=(1, 2, 4, 4),
                input_constructor=lambda s: dict(
                    x=torch.randn(s), times=calls)))
        off = estimator().estimate(
            net, dict(units=None, disabled_counters=['RVThingCounter'],
                      input_shape=(1, 2, 4, 4)))
    ctx.event('estimates', 2)
    ctx.key('custom', a, b, n, calls)
    ctx.check(res['flops'] == a * n * calls, 'custom:flops',
              f'{res} {a} {n} {calls}')
    ctx.check(res['params'] == b * n, 'custom:params', f'{res} {b} {n}')
    ctx.check(off['flops'] == 0 and off['params'] == 0, 'custom:disabled',
              f'{off}')


SECTIONS = {
    'ops': (ops, 150, 1500),
    'options': (options, 150, 1500),
    'latency': (latency, 20, 100),
    'pruned': (pruned, 60, 500),
    'subnets': (subnets, 60, 400),
    'custom': (custom, 30, 100),
}
