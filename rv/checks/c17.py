"""C17: iterative pruning follows its schedule and exports what it trained."""
import contextlib
import copy
import functools
import math
import os
import shutil
import tempfile

import torch
import torch.nn.functional as F

from rv import sandwich as sw
from rv.prune import close, make_mutator, tracer_spec

ID = 'C17'
RULE = (
    'random networks, targets (some units, all units, none), step frequencies '
    'and numbers of prunings, epoch and iteration based loops of the real '
    'runner and a driven loop, interruptions and resumption, validations in '
    'between; every execution is observed with the structure it ran')
ASSUMPTIONS = [
    'an epoch based training has more than one epoch (one epoch is read as an '
    'iteration based training)',
    'the forms of the targets are those of the choices of the units',
]
REQUIRED_EVENTS = {'manager_points': 2000, 'executions': 800, 'prunings': 150,
                   'fused_ops': 150, 'runner_runs': 6, 'resumed_runs': 8,
                   'exported': 3, 'fused_direct': 80, 'eval_forwards': 60}


# --- reference of the schedule ---------------------------------------------

def ref_value(s, t, k, n, linear):
    """Allowed values of a choice after the k-th of n prunings."""
    v = s + (t - s) * k / n if linear else t
    if isinstance(s, int) and isinstance(t, int):
        return {math.floor(v + 1e-9), math.floor(v - 1e-9)} if k < n else {t}
    return v


def near_value(got, want):
    if isinstance(want, set):
        return got in want
    return abs(got - want) < 1e-9


def width(v, c):
    """Channel numbers allowed for a choice."""
    if isinstance(v, set):
        return v
    if isinstance(v, int):
        return {v}
    return {max(1, math.floor(c * v + 2e-6)), max(1, math.floor(c * v))}


def sec_manager(ctx):
    from mmrazor.models.algorithms.pruning.ite_prune_algorithm import \
        ItePruneConfigManager
    rng = ctx.rng
    step, n = rng.randint(1, 7), rng.randint(1, 6)
    step = rng.choice([step, float(step)])
    linear = rng.random() < .7
    sup, tgt = {}, {}
    for i in range(rng.randint(1, 5)):
        if rng.random() < .5:
            c = rng.randint(1, 64)
            sup[f'u{i}'], tgt[f'u{i}'] = c, rng.randint(1, c)
        else:
            c = rng.randint(1, 64)
            sup[f'u{i}'] = rng.choice([1., rng.randint(1, c) / c])
            tgt[f'u{i}'] = rng.choice([round(rng.uniform(.05, 1.), 2),
                                       rng.randint(1, c) / c])
    for i in range(rng.randint(0, 2)):
        sup[f'x{i}'] = 1.
    with ctx.sut('manager'):
        m = ItePruneConfigManager(dict(tgt), dict(sup), step, n, linear)
    ctx.key(step, n, linear, sorted(tgt.items()))
    k = 0
    its = list(range(int(step) * (n + 2)))
    if rng.random() < .3:
        its = its[rng.randint(0, len(its) - 1):]
    for it in its:
        due = it % step == 0 and it < step * n
        with ctx.sut('is_prune_time'):
            got = m.is_prune_time(it)
        ctx.check(bool(got) == due, 'manager:time',
                  f'pruning at iteration {it} is {got}; every {step} for {n} '
                  'times')
        ctx.event('manager_points')
        if not due:
            continue
        k = it // int(step) + 1
        with ctx.sut('prune_at'):
            c = m.prune_at(it)
        ctx.check(set(c) == set(tgt), 'manager:units', f'{c} for {tgt}')
        for u in tgt:
            want = ref_value(sup[u], tgt[u], k, n, linear)
            ctx.check(near_value(c[u], want), 'manager:value',
                      f'{u} is {c[u]} after pruning {k}/{n} from {sup[u]} to '
                      f'{tgt[u]} ({"linear" if linear else "at once"}), '
                      f'expected {want}')
    ctx.sample(dict(step=step, n=n, linear=linear, target=tgt))


# --- reference of the fusion -------------------------------------------------

def ref_temperature(cur, total):
    e = math.exp
    A = 2 * (10000 - 1) * (1 + e(-total)) / (1 - e(-total))
    return 1 / (A / (1 + e(-cur)) + 1 - A / 2)


def ref_proxies(w, tau):
    """(proxies, importance) of the filters, in double precision."""
    w = w.detach().double().flatten(1)
    d = (w[:, None] - w[None]).square().sum(-1).sqrt()
    p = torch.softmax(-d / tau, dim=1)
    lp = (p + 1e-7).log()
    # sum over the other filters of the divergence from them
    kl = (p[:, None] * (lp[:, None] - lp[None])).sum(-1)
    return p, kl.sum(1)


def match_rows(ctx, choice, w, tau, n, label):
    """The observed fusion is made of the proxies of the best n filters."""
    p, score = ref_proxies(w, tau)
    ctx.check(tuple(choice.shape) == (n, w.shape[0]), 'fuse:shape',
              lambda: f'{label}: {tuple(choice.shape)} for {n} of '
              f'{w.shape[0]} filters')
    # float32 distances of equal or close filters are inexact, and divided by
    # the temperature
    flat = w.detach().double().flatten(1)
    # (beyond 25 filters they are calculated from products)
    noise = (2e-6 if w.shape[0] <= 25 else 1e-3) * (float(flat.norm(dim=1).max()) + 1e-9) / tau
    if noise > .02:
        ctx.skip('temperature too low for single precision')
        ctx.check(bool((choice >= -1e-6).all()) and bool(
            ((choice.double().sum(1) - 1).abs() < 1e-4).all()),
            'fuse:proxy', lambda: f'{label}: {choice}')
        return
    d = (choice.double()[:, None] - p[None]).abs().amax(-1)
    best, idx = d.min(1)
    ctx.check(float(best.max()) < 1e-4 + 4 * noise, 'fuse:proxy',
              lambda: f'{label}: a row of the fusion is no softmax proxy of a '
              f'filter (off by {float(best.max()):.3g})')
    # distinct filters may share a proxy: compare the scores
    got = torch.sort(score[idx], descending=True)[0]
    want = torch.sort(score, descending=True)[0][:n]
    tol = (2e-4 + 20 * noise) * (1 + float(score.abs().max()))
    ctx.check(float((got - want).abs().max()) <= tol, 'fuse:importance',
              lambda: f'{label}: kept filters of importance {got.tolist()}, '
              f'the best are {want.tolist()}')


def ref_fused(conv, choice, w, b, full):
    """Weights of a convolution after the fusion."""
    if full:
        return w, b
    m = conv.mutable_attrs
    dw = conv.groups > 1
    if not dw and 'in_channels' in m:
        w = w[:, m['in_channels'].current_mask]
    fw = torch.einsum('oc,cikl->oikl', choice, w)
    return fw, None if b is None else choice @ b


def sec_fuse(ctx):
    """A fused convolution alone."""
    from mmrazor.models.architectures.dynamic_ops import FuseConv2d
    from mmrazor.models.mutables import SquentialMutableChannel
    rng = ctx.rng
    cin, cout = rng.randint(1, 7), rng.randint(2, 8)
    kh, kw = rng.choice([(1, 1), (3, 3), (1, 3), (3, 1), (2, 3), (1, 4),
                         (3, 3)])
    dw = rng.random() < .3
    if dw:
        cin = cout
    stride = rng.choice([1, 2])
    pad = (rng.randint(0, kh // 2), rng.randint(0, kw // 2))
    ctx.key(cin, cout, kh, kw, dw, stride)
    conv = torch.nn.Conv2d(cin, cout, (kh, kw), stride, pad,
                           groups=cout if dw else 1,
                           bias=rng.random() < .5)
    with torch.no_grad():
        if rng.random() < .3 and cout > 2:
            conv.weight[1] = conv.weight[0]  # equal filters
    with ctx.sut('convert'):
        op = FuseConv2d.convert_from(conv)
    mi = SquentialMutableChannel(cin)
    mo = SquentialMutableChannel(cout)
    op.load_state_dict(conv.state_dict(), strict=False)
    concat = not dw and cin > 2 and rng.random() < .4
    if dw:
        mi = mo
    if concat:
        # two pruned inputs put together
        a = rng.randint(1, cin - 1)
        m1, m2 = SquentialMutableChannel(a), SquentialMutableChannel(cin - a)
        from mmrazor.models.mutables import DerivedMutable
        mi = DerivedMutable(
            choice_fn=lambda: m1.current_choice + m2.current_choice,
            mask_fn=lambda: torch.cat([m1.current_mask, m2.current_mask]),
            source_mutables=[m1, m2])
    with ctx.sut('register'):
        op.register_mutable_attr('in_channels', mi)
        op.register_mutable_attr('out_channels', mo)
    for _ in range(3):
        for m in ([m1, m2] if concat else [mi]) + [mo]:
            m.current_choice = rng.randint(1, m.num_channels)
        tau = rng.choice([1., .5, .1, .02])
        with ctx.sut('pooled'):
            choice = op.get_pooled_channel(tau)
        n = int(mo.current_mask.sum())
        match_rows(ctx, choice, conv.weight, tau, n, 'op')
        with ctx.sut('set_forward_args'):
            op.set_forward_args(choice=choice)
        full = bool(mi.current_mask.all()) and bool(mo.current_mask.all())
        x = torch.randn(2, int(mi.current_mask.sum()), 7, 8)
        with ctx.sut('fused forward'):
            y = op(x)
        fw, fb = ref_fused(op, choice, op.weight, op.bias, full)
        want = F.conv2d(x, fw, fb, stride, pad,
                        groups=x.shape[1] if dw else 1)
        ctx.check(close(y, want), 'fuse:forward',
                  f'{cin}->{cout} kernel {kh}x{kw} depthwise {dw} concat '
                  f'{concat}: output {tuple(y.shape)}, expected '
                  f'{tuple(want.shape)}')
        g = torch.autograd.grad(y.square().sum(), op.weight)[0]
        gw = torch.autograd.grad(want.square().sum(), op.weight)[0]
        ctx.check(close(g, gw), 'fuse:gradient', 'gradient of the filters')
        ctx.event('fused_direct')
        if not concat:
            st = copy.deepcopy(op)
            for m in st.mutable_attrs.values():
                if not m.is_fixed:
                    m.fix_chosen()
            with ctx.sut('static'):
                s = st.to_static_op()
            ctx.check(type(s) is torch.nn.Conv2d and close(s(x), want),
                      'fuse:static', 'the static convolution differs')
    ctx.sample(dict(cin=cin, cout=cout, kernel=(kh, kw), dw=dw))


# --- training ---------------------------------------------------------------

def hub():
    from mmengine import MessageHub
    return MessageHub.get_current_instance()


UNITS = [('SequentialMutableChannelUnit', 'number'),
         ('SequentialMutableChannelUnit', 'ratio'),
         ('L1MutableChannelUnit', 'number'),
         ('L1MutableChannelUnit', 'ratio')]


class Case:
    """A network to be pruned, its target and its schedule."""

    def __init__(self, ctx, dcff=None, **kw):
        rng = self.rng = ctx.rng
        self.dcff = rng.random() < .45 if dcff is None else dcff
        for _ in range(20):
            self.spec = tracer_spec(rng, 'FxTracer', group=not self.dcff,
                                    max_blocks=3, dets=rng.random() < .3,
                                    **kw)
            self.net_seed = rng.getrandbits(28)
            self.unit, self.mode = rng.choice(UNITS)
            if self.dcff:
                self.unit, self.mode = 'DCFFChannelUnit', 'ratio'
            probe = sw.graph_arch(self.spec, self.net_seed)
            mut = make_mutator(probe.net, unit=self.unit, default_args=dict(
                choice_mode=self.mode))
            mut.parse_cfg['demo_input'] = (1, 3, probe.net.hw, probe.net.hw)
            with ctx.sut('prepare'):
                mut.prepare_from_supernet(probe)
            self.units = {u.name: u.num_channels for u in mut.mutable_units}
            if self.units:
                break
        self.hw = probe.net.hw
        self.names = sorted(self.units)
        r = rng.random()
        self.target = None if r < .06 else {}
        if self.target is not None:
            some = self.names if rng.random() < .6 else rng.sample(
                self.names, rng.randint(1, len(self.names)))
            for u in some:
                c = self.units[u]
                self.target[u] = rng.randint(1, c) if self.mode == 'number' \
                    else rng.choice([rng.randint(1, c) / c,
                                     round(rng.uniform(.1, 1.), 2), 1.])
            if rng.random() < .2:
                self.target['other.unit_(0, 8)_8'] = \
                    4 if self.mode == 'number' else .5
        self.linear = rng.random() < .75 if not self.dcff else \
            rng.random() < .3
        self.by_epoch = rng.random() < .5
        self.per_epoch = rng.randint(1, 4)
        self.epochs = rng.randint(2, 5) if self.by_epoch else 1
        self.total = self.per_epoch * self.epochs if self.by_epoch else \
            rng.randint(2, 12)
        self.kw = {}
        if self.dcff:
            if rng.random() < .65:
                top = self.epochs if self.by_epoch else self.total
                self.kw = dict(step_freq=rng.randint(1, top))
                step = self.kw['step_freq'] * (
                    self.per_epoch if self.by_epoch else 1)
                n = self.total // step
            else:
                n = rng.randint(1, self.total)
                self.kw = dict(step_freq=0, prune_times=n)
                step = self.total // n
        else:
            f = rng.randint(1, 3)
            n = rng.randint(1, 4)
            if rng.random() < .6:  # everything happens within the training
                f = rng.randint(1, 2)
                self.epochs = f * n if self.by_epoch else 1
                self.epochs = max(2, self.epochs) if self.by_epoch else 1
                self.total = self.per_epoch * self.epochs \
                    if self.by_epoch else max(2, f * n + rng.randint(-1, 2))
            self.kw = dict(step_freq=f, prune_times=n)
            if rng.random() < .1:
                self.kw, f, n = {}, 1, 1
            step = f * (self.per_epoch if self.by_epoch else 1)
        self.step, self.n = step, n
        self.resumed = False
        # the whole of it fits
        self.start = {u: c if self.mode == 'number' else 1.
                      for u, c in self.units.items()}

    def build(self, ctx):
        from mmrazor.models.algorithms import DCFF, ItePruneAlgorithm
        arch = sw.graph_arch(self.spec, self.net_seed)
        cfg = dict(
            type='DCFFChannelMutator' if self.dcff else 'ChannelMutator',
            channel_unit_cfg=dict(type=self.unit, default_args=dict(
                choice_mode=self.mode)),
            parse_cfg=dict(type='ChannelAnalyzer', tracer_type='FxTracer',
                           demo_input=(1, 3, self.hw, self.hw)))
        with ctx.sut('build'):
            algo = (DCFF if self.dcff else ItePruneAlgorithm)(
                arch, mutator_cfg=cfg,
                target_pruning_ratio=copy.deepcopy(self.target),
                linear_schedule=self.linear, **self.kw)
        return algo

    def after(self, it):
        """Number of prunings done once iteration ``it`` ran."""
        return min(it // self.step + 1, self.n)

    def due(self, it):
        return it % self.step == 0 and it // self.step < self.n

    def expected(self, it):
        k = self.after(it)
        out = {}
        for u, c in self.units.items():
            t = (self.target or {}).get(u, self.start[u])
            out[u] = width(ref_value(self.start[u], t, k, self.n,
                                     self.linear), c)
            if self.resumed and self.linear and k < self.n:
                # the checkpoint has whole channels
                out[u] = {w + d for w in out[u] for d in (-1, 0, 1)}
        return out


class Monitor:
    """Observes every execution of the network of an algorithm."""

    def __init__(self, ctx, case, algo):
        self.ctx, self.case, self.algo = ctx, case, algo
        self.prunings = []
        self.last = None
        self.it = None
        self.fusion = {}
        self.handles = [algo.architecture.register_forward_pre_hook(
            self.pre, with_kwargs=True)]
        if case.dcff:
            from mmrazor.models.architectures.dynamic_ops import FuseConv2d
            for n, m in algo.architecture.named_modules():
                if isinstance(m, FuseConv2d):
                    self.handles.append(m.register_forward_hook(
                        self.conv(n)))
        mut = algo.mutator
        real = mut.set_choices

        def spy(choices):
            self.prunings.append(self.iter())
            return real(choices)
        mut.set_choices = spy
        self.strict = True

    def iter(self):
        return hub().runtime_info['iter']

    def widths(self):
        return {u.name: int(u.mutable_channel.current_mask.sum())
                for u in self.algo.mutator.mutable_units}

    def pre(self, mod, args, kw):
        ctx, c = self.ctx, self.case
        w = self.widths()
        ctx.event('executions')
        if not mod.training:
            ctx.event('eval_forwards')
            ctx.check(self.last is None or w == self.last,
                      'schedule:eval-prunes',
                      lambda: f'{w} in validation, {self.last} before it')
            return
        it = self.iter()
        self.it = it
        want = c.expected(it)
        bad = {u: (w[u], want[u]) for u in w if w[u] not in want[u]}
        ctx.check(not bad, 'schedule:structure', lambda: (
            f'iteration {it}: (observed, expected) channels {bad}; every '
            f'{c.step} iterations, {c.n} times, target {c.target} of '
            f'{c.units}, linear {c.linear}, pruned at {self.prunings}, '
            f'dcff {c.dcff}'))
        if c.due(it):
            ctx.event('prunings')
            ctx.check(self.prunings and self.prunings[-1] == it,
                      'schedule:time', lambda: f'not pruned at {it}')
        else:
            ctx.check(self.last is None or w == self.last,
                      'schedule:between', lambda: f'iteration {it}: changed '
                      f'from {self.last} to {w}; step {c.step}')
        self.last = w
        if c.dcff and c.due(it):
            self.fusion = {}
            tau = ref_temperature(it, c.total)
            from mmrazor.models.architectures.dynamic_ops import FuseConv2d
            for n, m in self.algo.architecture.named_modules():
                if isinstance(m, FuseConv2d) and \
                        'out_channels' in m.mutable_attrs:
                    self.fusion[n] = (m.weight.detach().clone(), tau)

    def conv(self, name):
        def hook(m, args, y):
            ctx = self.ctx
            if name not in self.fusion:
                return
            f = m._get_dynamic_params_by_mutable_channels
            ctx.check(hasattr(f, 'keywords') and 'choice' in f.keywords,
                      'fuse:missing', f'{name} runs without a fusion')
            choice = f.keywords['choice']
            at = m.mutable_attrs
            n = int(at['out_channels'].current_mask.sum())
            w0, tau = self.fusion[name]
            if tau is not None:
                match_rows(ctx, choice, w0, tau, n, name)
                self.fusion[name] = (w0, None)
            full = n == m.out_channels and (
                'in_channels' not in at or bool(
                    at['in_channels'].current_mask.all()))
            fw, fb = ref_fused(m, choice, m.weight, m.bias, full)
            x = args[0]
            want = F.conv2d(x, fw, fb, m.stride, m.padding, m.dilation,
                            x.shape[1] if m.groups > 1 else 1)
            ctx.check(close(y, want), 'fuse:forward',
                      lambda: f'{name} ({m.in_channels}->{m.out_channels}, '
                      f'groups {m.groups}) does not run its fused filters')
            ctx.event('fused_ops')
        return hook

    def close(self):
        for h in self.handles:
            h.remove()
        self.algo.mutator.__dict__.pop('set_choices', None)


def set_hub(case, it):
    h = hub()
    h.update_info('iter', it)
    h.update_info('epoch', it // case.per_epoch if case.by_epoch else 0)
    h.update_info('max_epochs', case.epochs)
    h.update_info('max_iters', case.total)


def batch(case, seed, n=4):
    g = torch.Generator().manual_seed(seed)
    return dict(inputs=torch.randn(n, 3, case.hw, case.hw, generator=g),
                data_samples=torch.randint(0, 4, (n, ), generator=g))


def opt_of(algo):
    from mmengine.optim import OptimWrapper
    return OptimWrapper(torch.optim.SGD(algo.parameters(), lr=.01,
                                        momentum=.9))


def steps(ctx, case, algo, w, lo, hi, seed):
    rng = ctx.rng
    for it in range(lo, hi):
        set_hub(case, it)
        algo.train()
        with ctx.sut('train_step'):
            algo.train_step(batch(case, seed + it), w)
        if rng.random() < .15:
            # the forward repeated in the same iteration
            with ctx.sut('forward'):
                algo(mode='loss', **batch(case, seed + it))
        if rng.random() < .3:
            algo.eval()
            with torch.no_grad(), ctx.sut('eval'):
                if rng.random() < .5:
                    algo(batch(case, 5)['inputs'], mode='tensor')
                else:
                    algo(mode='loss', **batch(case, 5))


def done(ctx, case, algo, mon):
    """After the last pruning the target is reached."""
    if case.after(case.total - 1) < case.n:
        return
    w = mon.widths()
    for u, c in case.units.items():
        t = (case.target or {}).get(u, case.start[u])
        ctx.check(w[u] in width({t} if isinstance(t, int) else t, c),
                  'schedule:target', lambda: f'{u} has {w[u]} of {c} '
                  f'channels, the target is {t}')


def sec_train(ctx):
    case = Case(ctx)
    ctx.key(case.dcff, case.unit, case.mode, case.linear, case.by_epoch,
            case.step, case.n, case.total, len(case.units))
    algo = case.build(ctx)
    mon = Monitor(ctx, case, algo)
    seed = ctx.rng.getrandbits(28)
    if ctx.rng.random() < .3:
        algo.eval()
        set_hub(case, 0)
        with torch.no_grad(), ctx.sut('eval'):
            algo(mode=ctx.rng.choice(['loss', 'tensor']), **batch(case, 5))
        w = mon.widths()
        ctx.check(w == case.units, 'schedule:eval-prunes',
                  lambda: f'{w} before the training, of {case.units}')
    steps(ctx, case, algo, opt_of(algo), 0, case.total, seed)
    mon.close()
    done(ctx, case, algo, mon)
    ctx.sample(dict(dcff=case.dcff, unit=case.unit, target=case.target,
                    step=case.step, n=case.n, total=case.total))


def sec_resume(ctx):
    """Killed at any iteration and continued in a new process' objects."""
    case = Case(ctx, chans=ctx.rng.choice([(2, 3, 5), (18, 24, 32)]))
    ctx.key(case.dcff, case.unit, case.mode, case.linear, case.by_epoch,
            case.step, case.n, case.total, len(case.units))
    seed = ctx.rng.getrandbits(28)
    algo = case.build(ctx)
    mon = Monitor(ctx, case, algo)
    w = opt_of(algo)
    cut = ctx.rng.randint(1, case.total - 1)
    steps(ctx, case, algo, w, 0, cut, seed)
    mon.close()
    ck = copy.deepcopy(dict(m=algo.state_dict(), o=w.state_dict()))
    algo2 = case.build(ctx)
    case.resumed = True
    w2 = opt_of(algo2)
    with ctx.sut('load'):
        algo2.load_state_dict(ck['m'])
        w2.load_state_dict(ck['o'])
    mon2 = Monitor(ctx, case, algo2)
    mon2.last = mon.last
    if case.dcff:
        mods = dict(algo2.architecture.named_modules())
        last = (case.after(cut - 1) - 1) * case.step
        mon2.fusion = {k: (mods[k].weight.detach().clone(),
                           ref_temperature(last, case.total))
                       for k in mon.fusion}
    steps(ctx, case, algo2, w2, cut, case.total, seed)
    mon2.close()
    done(ctx, case, algo2, mon2)
    ctx.event('resumed_runs')


# --- the real runner -----------------------------------------------------

class DS(torch.utils.data.Dataset):

    def __init__(self, n, hw):
        self.n, self.hw = n, hw
        self.metainfo = {}

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        g = torch.Generator().manual_seed(i)
        return dict(inputs=torch.randn(3, self.hw, self.hw, generator=g),
                    data_samples=torch.randint(0, 4, (), generator=g))


def collate(items):
    return {k: torch.stack([i[k] for i in items]) for k in items[0]}


@contextlib.contextmanager
def workdir():
    d = tempfile.mkdtemp(prefix='rv-c17-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Metric:
    pass


def make_runner(case, algo, d, name, resume=False, val='ItePruneValLoop'):
    from mmengine.evaluator import BaseMetric, Evaluator
    from mmengine.runner import Runner
    import mmrazor.engine  # noqa: F401

    class M(BaseMetric):
        default_prefix = 'rv'

        def process(self, data_batch, data_samples):
            self.results.append(1)

        def compute_metrics(self, results):
            return dict(n=len(results))

    loader = lambda n, shuffle: dict(  # noqa: E731
        dataset=DS(n, case.hw), batch_size=2, num_workers=0,
        sampler=dict(type='DefaultSampler', shuffle=shuffle))
    from torch.utils.data import DataLoader
    mk = lambda n, shuffle: DataLoader(  # noqa: E731
        DS(n, case.hw), batch_size=2, shuffle=shuffle, collate_fn=collate)
    if case.by_epoch:
        tc = dict(by_epoch=True, max_epochs=case.epochs, val_interval=1)
        train = mk(2 * case.per_epoch, True)
    else:
        tc = dict(by_epoch=False, max_iters=case.total, val_interval=2)
        train = mk(6, True)
    hooks = dict(
        checkpoint=dict(type='CheckpointHook', interval=1,
                        by_epoch=case.by_epoch),
        logger=None, timer=None, sampler_seed=None)
    return Runner(
        model=algo, work_dir=d, train_dataloader=train,
        val_dataloader=mk(4, False), train_cfg=tc,
        val_cfg=dict(type='mmrazor.' + val),
        val_evaluator=Evaluator(M()),
        optim_wrapper=dict(optimizer=dict(type='SGD', lr=.01, momentum=.9)),
        default_hooks=hooks, resume=resume, load_from=resume or None,
        log_level='ERROR', default_scope='mmrazor', experiment_name=name,
        randomness=dict(seed=1))


def predictable(arch):
    """mode='predict' gives tensors; metrics want sequences."""
    return arch


class Stop(Exception):
    pass


def sec_runner(ctx):
    from mmengine.hooks import Hook
    rng = ctx.rng
    case = Case(ctx)
    ctx.key(case.dcff, case.unit, case.mode, case.linear, case.by_epoch,
            case.step, case.n, case.total, len(case.units))
    with workdir() as d:
        algo = case.build(ctx)
        mon = Monitor(ctx, case, algo)
        cut = rng.randint(1, case.total - 1) if rng.random() < .6 else None

        class Kill(Hook):
            priority = 'LOWEST'

            def after_train_iter(self, runner, batch_idx, data_batch=None,
                                 outputs=None):
                if cut is not None and runner.iter + 1 >= cut:
                    raise Stop()

        name = f'rv{ctx.case_seed}'
        r = make_runner(case, algo, d, name)
        r.register_hook(Kill())
        try:
            with ctx.sut('runner'):
                try:
                    r.train()
                except Stop:
                    pass
        finally:
            mon.close()
        ctx.event('runner_runs')
        if cut is not None:
            ck = [f for f in os.listdir(d) if f.endswith('.pth')
                  and (f.startswith('epoch_') or f.startswith('iter_'))]
            if not ck:
                return
            num = max(int(f.split('_')[1][:-4]) for f in ck)
            base = num * (case.per_epoch if case.by_epoch else 1)
            f = os.path.join(
                d, f"{'epoch' if case.by_epoch else 'iter'}_{num}.pth")
            algo = case.build(ctx)
            case.resumed = True
            mon = Monitor(ctx, case, algo)
            r = make_runner(case, algo, d, name + 'r', resume=f)
            first = []
            algo.architecture.register_forward_pre_hook(
                lambda m, a: first.append(mon.iter()) if m.training else None)
            with ctx.sut('resumed runner'):
                r.train()
            mon.close()
            if base < case.total:
                ctx.check(first and first[0] == base, 'resume:iteration',
                          f'resumed at {first[:1]}, checkpoint of {base}')
            ctx.event('resumed_runs')
        done(ctx, case, algo, mon)
        if case.dcff or case.target is None:
            return check_export(ctx, case, algo, d)


@functools.lru_cache()
def shipped_init_(path):
    from mmengine import Config
    from rv.core import REPO
    return Config.fromfile(os.path.join(REPO, path)).model.init_cfg


def shipped_init():
    """How the shipped config of the exported network reads the weights."""
    return dict(shipped_init_(
        'configs/pruning/mmcls/dcff/dcff_compact_resnet_8xb32_in1k.py'))


def check_export(ctx, case, algo, d):
    """What the validation saved computes what was trained."""
    from mmengine.runner import load_checkpoint

    from mmrazor.registry import MODELS
    js = os.path.join(d, 'fix_subnet.json')
    ctx.check(os.path.exists(js), 'export:missing', os.listdir(d))
    if case.by_epoch is False and case.total % 2:
        return  # trained on after the last validation
    name = f'RvArch{ctx.case_seed}'

    def arch(**kw):
        return sw.graph_arch(case.spec, case.net_seed + 1)
    init = shipped_init()
    init['checkpoint'] = os.path.join(d, 'fix_subnet_weight.pth')
    with ctx.sut('sub_model'):
        sub = MODELS.get('sub_model')(
            cfg=dict(type=arch), fix_subnet=js, mode='mutator',
            init_cfg=init)
    algo.eval()
    sub.eval()
    x = batch(case, 3)['inputs']
    with torch.no_grad():
        want = algo(x, mode='tensor')
        with ctx.sut('exported forward'):
            got = sub(x, mode='tensor')
    ctx.check(close(got, want), 'export:output',
              lambda: f'{name}: the exported network computes '
              f'{got.flatten()[:4].tolist()}, the trained one '
              f'{want.flatten()[:4].tolist()} (dcff {case.dcff})')
    ctx.event('exported')


def sec_config(ctx):
    """One and only one of the two settings of DCFF."""
    rng = ctx.rng
    case = Case(ctx, dcff=True)
    if case.by_epoch:
        case.by_epoch, case.epochs = False, 1
    total = case.total
    bad = rng.choice(['both', 'none', 'above'])
    case.kw = dict(
        both=dict(step_freq=rng.randint(1, total),
                  prune_times=rng.randint(1, total)),
        none=dict(step_freq=0, prune_times=0),
        above=dict(step_freq=total + rng.randint(1, 3), prune_times=0))[bad]
    ctx.key(bad, sorted(case.kw.items()), total)
    algo = case.build(ctx)
    set_hub(case, 0)
    algo.train()
    with ctx.rejects(f'dcff:{bad}', (RuntimeError, )):
        algo(mode='loss', **batch(case, 1))
    # the temperature falls from one to almost zero
    n = rng.randint(1, 300)
    ts = [algo._calc_temperature(i, n) for i in range(n + 1)]
    for i, t in enumerate(ts):
        ctx.check(abs(t - ref_temperature(i, n)) <= 1e-9 * max(t, 1e-4),
                  'dcff:temperature', f'{t} at {i}/{n}')


SECTIONS = {
    'manager': (sec_manager, 150, 4000),
    'fuse': (sec_fuse, 60, 1500),
    'train': (sec_train, 48, 900),
    'resume': (sec_resume, 32, 700),
    'runner': (sec_runner, 16, 240),
    'config': (sec_config, 8, 60),
}
CASE_LIMIT = 120
