"""C29: training on several ranks trains one model, on everybody's data."""
import contextlib
import copy
import random

import torch
import torch.distributed as dist
from mmengine.optim import OptimWrapper, OptimWrapperDict

from rv import nas, ranks
from rv import sandwich as sw
from rv.checks import c15, c16
from rv.prune import tracer_spec

ID = 'C29'
RULE = (
    'random supernets, distillation losses, optimizers and accumulations are '
    'trained by two (thorough: up to three) real ranks with their own data, '
    'and with the same or their own random paths; after every step the ranks '
    'are compared with each other and with a reference that trains a twin on '
    'the mean of the losses of all ranks')
ASSUMPTIONS = [
    'the ranks start from equal weights, as wrapping them establishes',
    'statistics of normalization layers belong to the rank',
    'gradients are accumulated over passes that reach the same parameters: '
    'PyTorch keeps the local gradients of what the last pass does not reach',
]
REQUIRED_EVENTS = {'rank_steps': 60, 'own_paths': 6, 'accumulated': 15,
                   'arch_updates': 20, 'unrolled': 5, 'finetune': 3,
                   'distill': 6}


class Rec:
    """What a rank found; judged by the parent."""

    def __init__(self, seed):
        self.bad, self.events, self.n = [], {}, 0
        self.rng = random.Random(seed)

    def check(self, ok, mech, msg):
        self.n += 1
        if not ok and len(self.bad) < 5:
            self.bad.append((mech, str(msg() if callable(msg) else msg)[:500]))

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n


def launch(ctx, what, fn, world, timeout=120):
    """fn(rank, rec) -> per step {name: tensor}"""
    seed = ctx.case_seed

    def one(rank):
        torch.set_num_threads(1)
        rec = Rec(seed)
        random.seed(seed)
        steps = fn(rank, rec)
        return rec.bad, rec.events, rec.n, [
            {k: v.detach().cpu().numpy().copy() for k, v in s.items()}
            for s in steps]
    try:
        res = ranks.run(world, one, timeout)
    except ranks.RankError as e:
        ctx.check(False, f'{what}:raised:{e.kind}', f'{e}\n{e.tb[-700:]}')
    for rank, (bad, events, n, _) in enumerate(res):
        for mech, msg in bad:
            ctx.check(False, f'{what}:{mech}', f'rank {rank}: {msg}')
        ctx.check(n > 0, f'{what}:compared', 'nothing was compared')
        for k, v in events.items():
            ctx.event(k, v if rank == 0 else 0)
    first = res[0][3]
    for rank in range(1, world):
        for t, (a, b) in enumerate(zip(first, res[rank][3])):
            off = sorted(set(a) ^ set(b)) or [
                k for k in a if a[k].shape != b[k].shape or not sw.near(
                    torch.from_numpy(a[k]), torch.from_numpy(b[k]), 1e-6)]
            ctx.check(not off, f'{what}:agree', lambda:
                      f'after step {t} ranks 0 and {rank} differ in {off[:4]} '
                      f'(of {len(a)})')
            ctx.event('rank_steps')
    return res


def worlds(ctx):
    return ctx.rng.choice([2, 2, 3]) if ctx.thorough else 2


@contextlib.contextmanager
def no_ranks():
    """As if there were no other ranks."""
    keep = dist.is_initialized
    dist.is_initialized = lambda: False
    try:
        yield
    finally:
        dist.is_initialized = keep


def everybody(x, world):
    out = [None] * world
    dist.all_gather_object(out, x)
    return out


def mean(ds):
    """The mean of dictionaries of losses."""
    return {k: sum(d[k] for d in ds) / len(ds) for k in ds[0]}


def params(m):
    return dict(m.named_parameters())


def frozen(m):
    return {k: p.detach().clone() for k, p in m.named_parameters()}


# ---------------------------------------------------------------- sandwiches
def sandwich(ctx):
    rng = ctx.rng
    kind = rng.choice(['autoslim', 'autoslim', 'slimmable', 'bignas'])
    built = dict(autoslim=autoslim, slimmable=slimmable, bignas=bignas)[kind](
        ctx)
    if built is None:
        return
    make, ddp_cls, kinds, hard, loss = built
    K = len(kinds)
    acc, steps, it0, total = c15.schedule(rng, K, ctx.thorough)
    steps = min(steps, 3)
    if kind != 'autoslim':
        # subnets reach parameters of their own: see ASSUMPTIONS
        acc = 1
    opt = c15.rand_opt(rng)
    world = worlds(ctx)
    own = rng.random() < .5 and any('random' in k for k in kinds)
    seed = ctx.case_seed
    ctx.key(kind, K, acc, steps, it0, total, str(opt), world, own)
    if own:
        ctx.event('own_paths')

    def fn(rank, rec):
        algo, twin = make().double(), make().double()
        algo.train()
        twin.train()
        w, mk = sw.optim(rec.rng, algo, acc, opt, it=it0, total=total)
        mine = mk(twin.parameters())
        model = ddp_cls(module=algo, find_unused_parameters=True)
        if own:
            random.seed(seed + rank)
            torch.manual_seed(seed + rank)
            import numpy as np
            np.random.seed((seed + rank) % 2**32)
        else:
            torch.manual_seed(seed)
            import numpy as np
            np.random.seed(seed % 2**32)
        watch = sw.Watch(algo.architecture,
                         lambda: algo.mutator.current_choices, seed)
        heads = []
        twin.architecture.head.register_forward_hook(
            lambda m, i, o: heads.append(o))
        count, M = it0 * K, total * K
        rest = M % acc
        out = []
        for t in range(steps):
            w.message_hub.runtime_info['iter'] = it0 + t
            data = []
            for r in range(world):
                g = torch.Generator().manual_seed(seed + 100 * t + r)
                data.append((
                    torch.randn(4, 3, 8, 8,
                                generator=g).double(),
                    torch.randint(0, 50, (4, ),
                                  generator=g)))
            before = len(watch.seen)
            x, y = data[rank]
            model.train_step(dict(inputs=x, data_samples=y), w)
            runs = watch.seen[before:]
            rec.check(len(runs) == K and all(
                torch.equal(r['x'], x) for r in runs), 'executions',
                lambda: f'{len(runs)} executions for {kinds}')
            runs = everybody([dict(choice=r['choice'], drop=r['drop'])
                              for r in runs], world)
            rec.check(own or all(str(r) == str(runs[0]) for r in runs),
                      'same-paths', lambda: str(runs)[:300])
            teacher = [None] * world
            for i, k in enumerate(kinds):
                loss_sum = 0
                for r in range(world):
                    a = runs[r][i]
                    twin.mutator.set_choices(a['choice'])
                    for n, m in twin.architecture.named_modules():
                        if n in a['drop']:
                            m.drop_path_rate = a['drop'][n]
                    torch.manual_seed(seed + before + i)
                    del heads[:]
                    o = twin.architecture(*data[r], mode='loss')
                    ls = dict(o) if k == 'max' or hard else {}
                    if k == 'max':
                        teacher[r] = heads[0].detach()
                    elif loss:
                        ls['loss_kd'] = sw.soft(loss, heads[0], teacher[r])
                    loss_sum = loss_sum + c16.total(ls) / world
                factor = 1 if acc == 1 else (acc if count < M - rest else rest)
                (loss_sum / factor).backward()
                count += 1
                if count % acc == 0 or count == M:
                    mine.step()
                    mine.zero_grad()
                else:
                    rec.event('accumulated')
            compare(rec, algo.architecture, twin.architecture, 1e-6,
                    lambda: f'{kind} step {t} acc {acc} kinds {kinds} {opt}')
            out.append(frozen(algo))
        watch.close()
        return out
    launch(ctx, kind, fn, world)


def compare(rec, a, b, tol, info):
    a, b = params(a), params(b)
    off = [k for k, p in a.items() if k not in b or not sw.near(p, b[k], tol)]
    rec.check(not off, 'mean', lambda: f'not the mean of the ranks: {info()}'
              f': {off[:4]} of {len(b)}, by ' + str([float(
                  (a[k] - b[k]).abs().max()) for k in off[:2] if k in b]))
    # rounding is amplified: continue from equal values
    for k, p in a.items():
        if k in b:
            b[k].data.copy_(p.data)



def autoslim(ctx):
    from mmrazor.models.algorithms import AutoSlim
    from mmrazor.models.algorithms.nas.autoslim import AutoSlimDDP
    from mmrazor.models.mutators import OneShotChannelMutator
    rng = ctx.rng
    tracer = rng.choice(['FxTracer', 'BackwardTracer'])
    spec = tracer_spec(rng, tracer, dets=False, hw=8)
    seed = ctx.case_seed
    loss = c15.rand_loss(rng)
    n = rng.choice([1, 2, 2])
    cands = rng.choice([[.25, .5, 1.], [.5, 1.]])

    def make():
        mut = OneShotChannelMutator(
            channel_unit_cfg=dict(
                type='OneShotMutableChannelUnit', default_args=dict(
                    candidate_choices=cands, choice_mode='ratio', divisor=1,
                    min_value=1, min_ratio=.1)),
            parse_cfg=dict(type='ChannelAnalyzer', demo_input=(1, 3, 8, 8),
                           tracer_type=tracer))
        return AutoSlim(sw.graph_arch(spec, seed), mut,
                        copy.deepcopy(sw.distiller(loss)),
                        num_random_samples=n)
    with ctx.sut('build'):
        if not make().mutator.mutable_units:
            ctx.skip('no mutable unit')
            return
    return (make, AutoSlimDDP, ['max', 'min'] + [f'random{i}' for i in range(
        n)], True, loss)


def slimmable(ctx):
    from mmrazor.models.algorithms import SlimmableNetwork
    from mmrazor.models.algorithms.pruning.slimmable_network import \
        SlimmableNetworkDDP
    from mmrazor.models.mutators import SlimmableChannelMutator
    from rv.prune import make_mutator
    rng = ctx.rng
    tracer = rng.choice(['FxTracer', 'BackwardTracer'])
    spec = tracer_spec(rng, tracer, dets=False, hw=8, cats=False, share=False)
    seed = ctx.case_seed
    k = rng.randint(2, 3)
    probe = sw.graph_arch(spec, seed)
    probe.hw = 8
    m0 = make_mutator(probe, tracer)
    m0.prepare_from_supernet(probe)
    if not m0.mutable_units:
        ctx.skip('no mutable unit')
        return
    units = {u.name: dict(init_args=dict(
        num_channels=u.num_channels, divisor=1, min_value=1, min_ratio=.9,
        choice_mode='number', candidate_choices=[
            rng.randint(1, u.num_channels) for _ in range(k)]))
        for u in m0.mutable_units}

    def make():
        mut = SlimmableChannelMutator(
            channel_unit_cfg=dict(type='SlimmableChannelUnit',
                                  units=copy.deepcopy(units)),
            parse_cfg=dict(type='ChannelAnalyzer', tracer_type=tracer,
                           demo_input=(1, 3, 8, 8)))
        return SlimmableNetwork(sw.graph_arch(spec, seed), mut)
    return (make, SlimmableNetworkDDP, [f'subnet_{i}' for i in range(k)],
            True, None)


def bignas(ctx):
    from mmrazor.models.algorithms import BigNAS
    from mmrazor.models.algorithms.nas.bignas import BigNASDDP
    from mmrazor.models.mutators import NasMutator
    from mmrazor.registry import MODELS
    rng = ctx.rng
    seed = ctx.case_seed
    loss = c15.rand_loss(rng)
    n = rng.choice([1, 2])
    setting = dict(
        kernel_size=[[3, rng.choice([3, 5]), 2] for _ in range(4)],
        num_blocks=[[1, rng.choice([1, 2]), 1] for _ in range(4)],
        expand_ratio=[[1, rng.choice([1, 2]), 1] for _ in range(5)],
        num_out_channels=[[8, 16, 8], [8, 8, 8], [8, 16, 8], [8, 16, 8],
                          [8, 16, 8], [16, 16, 8]])
    rate = rng.choice([0., 0., .5])

    def make():
        torch.manual_seed(seed)
        bb = MODELS.build(dict(
            type='mmrazor.AttentiveMobileNetV3',
            arch_setting=copy.deepcopy(setting), out_indices=(4, ),
            stride_list=[1, 1, 2, 1], with_se_list=[False, True, False, True],
            act_cfg_list=['Swish', 'Swish', 'HSwish', 'ReLU', 'Swish',
                          'Swish'],
            conv_cfg=dict(type='mmrazor.BigNasConv2d'),
            norm_cfg=dict(type='mmrazor.DynamicBatchNorm2d', momentum=.1)))
        arch = sw.arch_class()(c15.Only(bb))
        arch.backbone = bb
        return BigNAS(arch, NasMutator(), copy.deepcopy(sw.distiller(loss)),
                      num_random_samples=n, drop_path_rate=rate,
                      backbone_dropout_stages=[1, 2, 3, 4])
    return (make, BigNASDDP, ['max', 'min'] + [f'random{i}' for i in range(
        n)], False, loss)


# ------------------------------------------------------- differentiable search
def darts(ctx, unroll=False):
    from mmrazor.models.algorithms import Darts
    from mmrazor.models.algorithms.nas.darts import DartsDDP
    from mmrazor.models.mutators import NasMutator
    rng = ctx.rng
    seed = ctx.case_seed
    spec = nas.rand_spec(rng, ['diff', 'diff', 'route', 'routediff'])
    accs = dict(architecture=rng.choice([1, 1, 2]),
                mutator=1 if unroll else rng.choice([1, 1, 2]))
    cfgs = dict(architecture=c16.opt_cfg(rng, sgd=True),
                mutator=rng.choice([('SGD', dict(lr=.5)),
                                    ('SGD', dict(lr=.2, momentum=.9))]))
    if unroll and rng.random() < .7:
        # the second order terms weigh as much as the first
        cfgs['architecture'] = ('SGD', dict(
            lr=rng.choice([.3, .6]), momentum=rng.choice([0, .9]),
            weight_decay=rng.choice([0, .1, .3])))
    idle = [rng.random() * .5 for _ in range(2)] if rng.random() < .4 else []
    steps = rng.randint(2, 4)
    world = worlds(ctx)
    ctx.key('unrolled' if unroll else 'darts', nas.describe(spec), str(accs),
            str(cfgs), world)

    def fn(rank, rec):
        def make():
            arch = sw.nas_arch(spec, seed)
            if unroll:
                c16.smooth(arch)
            torch.manual_seed(seed)
            algo = Darts(arch, NasMutator(), unroll=unroll)
            g = torch.Generator().manual_seed(seed + 1)
            for p in algo.mutator.arch_params.values():
                p.data = torch.randn(p.shape, generator=g)
            algo.train()
            ps = list(algo.architecture.parameters())
            for i in idle:
                ps[int(i * len(ps))].requires_grad = False
            return algo
        algo, twin = make(), make()
        dt = torch.float32
        tol = 4e-3
        parts = dict(architecture=algo.architecture, mutator=algo.mutator)
        w = OptimWrapperDict(**{
            n: OptimWrapper(
                getattr(torch.optim, k)(parts[n].parameters(), **kw),
                accumulative_counts=accs[n])
            for n, (k, kw) in cfgs.items()})
        W, A = list(twin.architecture.parameters()), list(
            twin.mutator.parameters())
        mine = dict(
            architecture=torch.optim.SGD(W, **cfgs['architecture'][1]),
            mutator=torch.optim.SGD(A, **cfgs['mutator'][1]))
        hold = dict(architecture=[torch.zeros_like(p) for p in W],
                    mutator=[torch.zeros_like(p) for p in A])
        model = DartsDDP(module=algo, find_unused_parameters=True,
                         broadcast_buffers=False)
        model.train()

        def loss(ds):
            return mean([twin.architecture(**d, mode='loss') for d in ds])

        def grads(v, ps):
            got = iter(torch.autograd.grad(
                v, [p for p in ps if p.requires_grad], allow_unused=True))
            return [next(got) if p.requires_grad else None for p in ps]

        def update(name, ps, gs, t):
            for h, q in zip(hold[name], gs):
                if q is not None:
                    h += q / accs[name]
            if (t + 1) % accs[name]:
                rec.event('accumulated')
                return
            for p, h, q in zip(ps, hold[name], gs):
                p.grad = None if q is None else h.clone()
                h.zero_()
            mine[name].step()
            for p in ps:
                p.grad = None
        out = []
        for t in range(steps):
            both = []
            for level in range(2):
                both.append([c16.batch(torch.Generator().manual_seed(
                    seed + 1000 * t + 10 * level + r), dt)
                    for r in range(world)])
            train, val = both
            got = model.train_step((train[rank], val[rank]), w)
            if unroll:
                rec.event('unrolled')
                lv, ga = c16.unrolled(twin, W, A, train, val, loss, grads,
                                      mine['architecture'])
            else:
                lv = loss(val)
                ga = grads(c16.total(lv), A)
            was = [p.detach().clone() for p in A]
            update('mutator', A, ga, t)
            rec.event('arch_updates')
            big = max(float((p - o).abs().max()) for p, o in zip(A, was))
            for i, (p, q, o) in enumerate(zip(algo.mutator.parameters(), A,
                                              was)):
                off = float((p - q).abs().max())
                rec.check(off <= .01 * big + 1e-6, 'mean:arch-step', lambda:
                          f'step {t} {cfgs}: parameter {i} is off by '
                          f'{off:.2g} after an update by {big:.2g}')
            lt = loss(train)
            was = [p.detach().clone() for p in W]
            update('architecture', W, grads(c16.total(lt), W), t)
            logs = mean(everybody({k: float(v) for k, v in got.items()},
                                  world))
            for p, d in ('mutator', lv), ('supernet', lt):
                v = float(c16.total(d))
                rec.check(abs(logs[f'{p}.loss'] - v) <= tol * (1 + abs(v)),
                          'loss-value', lambda: f'{p} {logs} for {v}')
            big = max(float((p - o).abs().max()) for p, o in zip(W, was))
            off = max(float((p - q).detach().abs().max()) for p, q in zip(
                algo.architecture.parameters(), W))
            rec.check(off <= .01 * big + 2e-6, 'mean:step', lambda:
                      f'step {t} {cfgs} {accs}: weights are off by {off:.2g} '
                      f'after an update by {big:.2g}')
            # what is written by a rank is the rounding of everybody's
            for mech, a, b in (
                    ('mean:arch', algo.mutator.parameters(), A),
                    ('mean', algo.architecture.parameters(), W)):
                for i, (p, q) in enumerate(zip(a, b)):
                    rec.check(sw.near(p.detach(), q.detach(), tol), mech,
                              lambda: f'step {t} {cfgs} {accs}: parameter {i} '
                              f'off by {float((p - q).abs().max()):.2g}')
                    # rounding is amplified: continue from equal values
                    q.data.copy_(p.data)
            out.append(frozen(algo))
        return out
    launch(ctx, 'unrolled' if unroll else 'darts', fn, world)


def unrolled(ctx):
    darts(ctx, True)


def dsnas(ctx):
    """One architecture comes out, with one set of weights."""
    from mmengine.logging import MessageHub

    from mmrazor.models.algorithms import DSNAS
    from mmrazor.models.algorithms.nas.dsnas import DSNASDDP
    from mmrazor.models.mutators import NasMutator
    rng = ctx.rng
    seed = ctx.case_seed
    spec = nas.rand_spec(rng, ['onehot'])
    pre, fin = rng.choice([(0, 2), (1, 2), (1, 3)])
    thr = rng.choice([1., 1., .3])
    own = rng.random() < .5
    world = worlds(ctx)
    est = dict(type='mmrazor.ResourceEstimator',
               input_shape=(1, 3, nas.HW, nas.HW))
    ctx.key('dsnas', nas.describe(spec), pre, fin, thr, own, world)
    if own:
        ctx.event('own_paths')

    def make():
        arch = sw.nas_arch(spec, seed)
        for b in arch.net.blocks:
            b.fix_threshold = thr
        torch.manual_seed(seed)
        algo = DSNAS(arch, NasMutator(), pretrain_epochs=pre,
                     finetune_epochs=fin, flops_constraints=0.,
                     estimator_cfg=copy.deepcopy(est))
        g = torch.Generator().manual_seed(seed + 1)
        for p in algo.mutator.arch_params.values():
            p.data = torch.randn(p.shape, generator=g)
        algo.train()
        return algo
    # of this process, which has no ranks
    alone = make()

    def fn(rank, rec):
        algo = make()
        w = OptimWrapperDict(
            architecture=OptimWrapper(torch.optim.SGD(
                algo.architecture.parameters(), lr=.05, momentum=.9)),
            mutator=OptimWrapper(torch.optim.SGD(
                algo.mutator.parameters(), lr=.5)))
        model = DSNASDDP(module=algo, find_unused_parameters=True,
                         broadcast_buffers=False)
        out = []
        for e in range(fin + 2):
            MessageHub.get_current_instance().update_info('epoch', e)
            d = c16.batch(torch.Generator().manual_seed(
                seed + 10 * e + rank), torch.float32)
            mine = {}
            # an operator fixed on the way has other parameters
            if pre <= e < fin and thr == 1:
                alone.load_state_dict(algo.state_dict())
                old = [p.detach().clone() for p in alone.mutator.parameters()]
                alone.zero_grad()
                torch.manual_seed(seed + 100 * e + rank * own)
                with no_ranks():
                    alone.train_step(d, OptimWrapperDict(
                        architecture=OptimWrapper(torch.optim.SGD(
                            alone.architecture.parameters(), lr=0.)),
                        mutator=OptimWrapper(torch.optim.SGD(
                            alone.mutator.parameters(), lr=.5))))
                mine = [p.detach() - o for p, o in zip(
                    alone.mutator.parameters(), old)]
            torch.manual_seed(seed + 100 * e + rank * own)
            model.train_step(d, w)
            rec.event('finetune' if e >= fin else 'search')
            if mine:
                moves = everybody(mine, world)
                for i, (p, o) in enumerate(zip(
                        algo.mutator.parameters(), old)):
                    want = o + sum(m[i] for m in moves) / world
                    rec.check(sw.near(p.detach(), want, 1e-3), 'mean:arch',
                              lambda: f'epoch {e}: {p.tolist()} for '
                              f'{want.tolist()} from {o.tolist()}')
                    off = float((p.detach() - want).abs().max())
                    big = float((want - o).abs().max())
                    rec.check(off <= .01 * big + 2e-6, 'mean:arch-step',
                              lambda: f'epoch {e}: parameter {i} is off by '
                              f'{off:.2g} after an update by {big:.2g}')
                    rec.event('arch_updates', bool((p != o).any()))
            rec.check(algo.is_supernet == (e < fin), 'stage', f'epoch {e}')
            out.append(frozen(algo))
        for b in algo.architecture.net.blocks:
            rec.check(b.is_fixed, 'fixed', 'an operator is not fixed')
        chosen = everybody([list(b.choices) for b in
                            algo.architecture.net.blocks], world)
        rec.check(all(c == chosen[0] for c in chosen), 'one-architecture',
                  lambda: f'{chosen}')
        return out
    launch(ctx, 'dsnas', fn, world)


# -------------------------------------------------- the usual wrapper of ranks
def usual(ctx):
    """One path, or one student, per step and rank."""
    from mmengine.model import MMDistributedDataParallel

    from mmrazor.models.algorithms import (SPOS, Autoformer,
                                           SingleTeacherDistill)
    from mmrazor.models.mutators import NasMutator
    rng = ctx.rng
    seed = ctx.case_seed
    what = rng.choice(['spos', 'autoformer', 'distill', 'distill'])
    acc = rng.choice([1, 2, 3]) if what == 'distill' else 1
    steps = rng.randint(2, 6)
    opt = c15.rand_opt(rng)
    world = worlds(ctx)
    own = what != 'distill' and rng.random() < .6
    if what == 'distill':
        sspec, tspec = (tracer_spec(rng, 'FxTracer', dets=False, hw=8)
                        for _ in range(2))
        loss = rng.choice([dict(type='KLDivergence', tau=2.),
                           dict(type='KLDivergence', tau=1., loss_weight=3.)])
        trainable = rng.random() < .4

        class Wide(torch.nn.Module):
            """Of one number of classes."""

            def __init__(self, net):
                super().__init__()
                self.net = net

            def forward(self, x):
                y = self.net(x)
                y = y[0] if isinstance(y, tuple) else y
                y = y.mean((2, 3)) if y.dim() == 4 else y
                y = y.flatten(1)
                return torch.nn.functional.pad(y, (0, 64))[:, :12]

        def make():
            t, s = (sw.arch_class()(Wide(sw.graph_arch(p, seed + i).net))
                    for i, p in enumerate((tspec, sspec)))
            algo = SingleTeacherDistill(
                distiller=copy.deepcopy(sw.distiller(loss)), teacher=t,
                architecture=s, teacher_trainable=trainable)
            return algo
    else:
        spec = nas.rand_spec(rng)
        cls = dict(spos=SPOS, autoformer=Autoformer)[what]

        def make():
            return cls(sw.nas_arch(spec, seed), NasMutator())
        if not make().mutator.search_groups:
            ctx.skip('nothing to search')
            return
    ctx.key(what, acc, steps, str(opt), world, own)
    if own:
        ctx.event('own_paths')

    def fn(rank, rec):
        algo, twin = make().double(), make().double()
        algo.train()
        twin.train()
        w, mk = sw.optim(rec.rng, algo, acc, opt, it=0, total=steps)
        w.initialize_count_status(algo, 0, -1)
        mine = mk(twin.parameters())
        model = MMDistributedDataParallel(module=algo,
                                          find_unused_parameters=True)
        random.seed(seed + (rank if own else 0))
        torch.manual_seed(seed + (rank if own else 0))
        import numpy as np
        np.random.seed((seed + (rank if own else 0)) % 2**32)
        if what != 'distill':
            watch = sw.Watch(algo.architecture,
                             lambda: algo.mutator.current_choices, seed)
        out = []
        for t in range(steps):
            data = []
            for r in range(world):
                g = torch.Generator().manual_seed(seed + 100 * t + r)
                data.append((torch.randn(4, 3, 8, 8, generator=g).double()
                             if what == 'distill' else torch.randn(
                                 4, 3, nas.HW, nas.HW, generator=g).double(),
                             torch.randint(0, 50, (4, ), generator=g)))
            x, y = data[rank]
            if what == 'distill':
                torch.manual_seed(seed + t)
            got = model.train_step(dict(inputs=x, data_samples=y), w)
            if what == 'distill':
                rec.event('distill')
                choices = [None] * world
            else:
                choices = everybody(watch.seen[-1]['choice'], world)
            v = 0
            for r in range(world):
                if what == 'distill':
                    # by the algorithm without a wrapper: decided by C13
                    torch.manual_seed(seed + t)
                    o = twin(*data[r], mode='loss')
                else:
                    twin.mutator.set_choices(choices[r])
                    torch.manual_seed(seed + t)
                    o = twin.architecture(*data[r], mode='loss')
                v = v + c16.total(o) / world
                if r == rank:
                    rec.check(sw.near(torch.as_tensor(got['loss']),
                                      c16.total(o)), 'loss-value',
                              lambda: f'step {t} {got} {o}')
            (v / acc).backward()
            if (t + 1) % acc == 0:
                mine.step()
                mine.zero_grad()
            else:
                rec.event('accumulated')
            compare(rec, algo, twin, 1e-6,
                    lambda: f'{what} step {t} acc {acc} {opt}')
            out.append(frozen(algo))
        return out
    launch(ctx, what, fn, world)


SECTIONS = {
    'sandwich': (sandwich, 16, 200),
    'darts': (darts, 10, 120),
    'unrolled': (unrolled, 8, 90),
    'dsnas': (dsnas, 8, 90),
    'usual': (usual, 14, 200),
}
