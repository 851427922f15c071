"""C15: supernet training runs and updates the subnets its rule prescribes."""
import contextlib
import copy
import math

import torch

from rv import nas
from rv import sandwich as sw
from rv.prune import make_mutator, tracer_spec

ID = 'C15'
RULE = (
    'random supernets, distillation losses, optimizers, numbers of random '
    'subnets, gradient accumulation, start iterations, plain or wrapped for '
    'distributed training; every execution of the network is observed and the '
    'training is repeated by a reference on a twin')
ASSUMPTIONS = [
    'the distillation loss detaches the teacher',
    'the wrapper runs in a process group of one rank',
]
REQUIRED_EVENTS = {'steps': 150, 'executions': 500, 'random_subnets': 150,
                   'accumulated': 40, 'ddp_steps': 30, 'drop_path': 8,
                   'oneshot_steps': 60, 'random_pairs': 6}


def rand_opt(rng):
    return rng.choice([
        ('SGD', dict(lr=.05)), ('SGD', dict(lr=.05, momentum=.9)),
        ('SGD', dict(lr=.02, momentum=.9, weight_decay=1e-2)),
        ('SGD', dict(lr=.05, weight_decay=.05))])


def rand_loss(rng):
    return rng.choice([
        dict(type='KLDivergence', tau=1.), dict(
            type='KLDivergence', tau=3., loss_weight=.5),
        dict(type='KLDivergence', tau=2., reduction='sum'),
        dict(type='DISTLoss', loss_weight=2.)])


def drive(ctx, algo, twin, kinds, hard, loss_cfg, opt, acc, steps, it0, total,
          wrap=None, batch=4, hw=8, judge=None, floor=None,
          space=0):
    """Train ``algo``; repeat on ``twin``; compare everything."""
    rng = ctx.rng
    K = len(kinds)
    # in double precision: training amplifies rounding
    algo.double()
    algo.train()
    twin.double()
    twin.train()
    model = wrap(algo) if wrap else algo
    w, make = sw.optim(rng, algo, acc, opt, it=it0, total=total)
    mine = make(twin.parameters())
    count = it0 * K
    M = total * K
    rest = M % acc
    seed = rng.getrandbits(28)
    watch = sw.Watch(algo.architecture,
                     lambda: algo.mutator.current_choices, seed)
    heads = []
    twin.architecture.head.register_forward_hook(
        lambda m, i, o: heads.append(o))
    g = torch.Generator().manual_seed(seed)
    seen_random = []
    pairs = []  # of the random subnets of one step
    n_sut = 0
    for step in range(steps):
        w.message_hub.runtime_info['iter'] = it0 + step
        x = torch.randn(batch, 3, hw, hw, generator=g).double()
        y = torch.randint(0, 50, (batch, ), generator=g)
        before = len(watch.seen)
        with ctx.sut('train_step'):
            got = model.train_step(dict(inputs=x, data_samples=y), w)
        ctx.event('steps')
        if wrap:
            ctx.event('ddp_steps')
        runs = watch.seen[before:]
        ctx.event('executions', len(runs))
        ctx.check(len(runs) == K, 'executions', lambda:
                  f'{len(runs)} executions for {kinds}')
        ctx.check(all(r['train'] for r in runs), 'mode', 'not in train mode')
        ctx.check(all(torch.equal(r['x'], x) for r in runs), 'batch',
                  'a subnet got another batch')
        if judge:
            judge(kinds, runs)
        seen_random += [str(r['choice']) for k, r in zip(kinds, runs)
                        if 'random' in k]
        drawn = [str(r['choice']) for k, r in zip(kinds, runs)
                 if 'random' in k]
        pairs += [a == b for a, b in zip(drawn, drawn[1:])]
        ctx.event('random_subnets', sum('random' in k for k in kinds))
        # the reference
        want = {}
        teacher = None
        for k, r in zip(kinds, runs):
            twin.mutator.set_choices(r['choice'])
            for n, m in twin.architecture.named_modules():
                if n in r['drop']:
                    m.drop_path_rate = r['drop'][n]
            torch.manual_seed(seed + before + kinds.index(k))
            del heads[:]
            out = twin.architecture(x, y, mode='loss')
            mine_losses = dict(out) if k == 'max' or hard else {}
            if k == 'max':
                teacher = heads[0].detach()
            elif loss_cfg:
                mine_losses['loss_kd'] = sw.soft(loss_cfg, heads[0],
                                                    teacher)
            for n, v in mine_losses.items():
                want[name_of(k, n, K)] = v.detach()
            tot = sum(v for n, v in mine_losses.items() if 'loss' in n)
            factor = 1 if acc == 1 else (
                acc if count < M - rest else rest)
            (tot / factor).backward()
            count += 1
            if count % acc == 0 or count == M:
                mine.step()
                mine.zero_grad()
            else:
                ctx.event('accumulated')
        ctx.check(set(got) == set(want), 'loss-names', lambda:
                  f'{sorted(got)} for {sorted(want)}')
        for n in want:
            v = torch.as_tensor(got[n])
            ctx.check(sw.near(v, want[n].reshape(v.shape)), 'loss-value',
                      lambda: f'step {step} {n}: {got[n]} for {want[n]}')
        diff = sw.state_diff(algo.architecture, twin.architecture)
        ctx.check(not diff, 'weights', lambda: f'step {step} acc {acc} '
                  f'kinds {kinds} opt {opt}: {diff[:4]} (of {len(diff)})')
        for p, q in zip(algo.architecture.parameters(),
                        twin.architecture.parameters()):
            a = torch.zeros_like(p) if p.grad is None else p.grad
            b = torch.zeros_like(q) if q.grad is None else q.grad
            ctx.check(sw.near(a, b), 'pending-gradient',
                      lambda: f'step {step} acc {acc}')
        if (acc == K or acc == 1) and kinds != ['single']:
            ctx.check(w._inner_count == count and w._max_counts == M,
                      'counts', f'{w._inner_count} {w._max_counts}')
    watch.close()
    if floor and len(seen_random) >= 10:
        ctx.check(len(set(seen_random)) > 1, 'random-diversity',
                  lambda: f'always {seen_random[0]}')
    if space and len(pairs) * math.log(space) > 25:
        # each is drawn by itself
        ctx.event('random_pairs', len(pairs))
        ctx.check(not all(pairs), 'random-same-in-step',
                  lambda: f'{len(pairs)} pairs of {space} subnets, all equal')


def name_of(kind, n, K):
    if kind == 'single':
        return n
    if kind.startswith('subnet'):
        return f'{kind}.{n}'
    return f'{kind}_subnet.{n}'


def schedule(rng, K, thorough):
    """(acc, steps, first iteration, all iterations)"""
    acc = rng.choice([1, K, K, 2 * K, 2])
    steps = rng.randint(2, 4)
    it0 = rng.choice([0, 0, 4, 2])
    total = it0 + steps + rng.choice([0, 0, 3])
    if (it0 * K) % acc:
        it0 = 0
    return acc, steps, it0, max(total, it0 + steps)


def units_judge(ctx, mut):
    cand = {}
    for u in mut.mutable_units:
        cand[u.name] = list(u.candidate_choices)

    def norm(u, v):
        return v

    def judge(kinds, runs):
        for k, r in zip(kinds, runs):
            for n, c in r['choice'].items():
                cs = cand[n]
                ok = c == max(cs) if k == 'max' else c == min(cs) \
                    if k == 'min' else any(abs(c - i) < 1e-9 for i in cs)
                ctx.check(ok, f'choice:{k[:6]}', lambda:
                          f'{n}: {c} of {cs} for the {k} subnet')
    return judge


def autoslim(ctx):
    from mmrazor.models.algorithms import AutoSlim
    from mmrazor.models.algorithms.nas.autoslim import AutoSlimDDP
    from mmrazor.models.mutators import OneShotChannelMutator
    rng = ctx.rng
    tracer = rng.choice(['FxTracer', 'BackwardTracer'])
    spec = tracer_spec(rng, tracer, dets=False, hw=8)
    seed = ctx.case_seed
    loss = rand_loss(rng)
    n_rand = rng.choice([0, 1, 2, 3])
    mode = rng.choice(['number', 'ratio'])
    cands = rng.choice([[.25, .5, 1.], [.5, 1.], [1 / 8, 3 / 8, 1.]])

    def make():
        arch = sw.graph_arch(spec, seed)
        if mode == 'ratio':
            unit = dict(candidate_choices=cands, choice_mode='ratio',
                        divisor=1, min_value=1, min_ratio=.1)
        else:
            unit = dict(candidate_choices=[1, 2], choice_mode='number',
                        divisor=1, min_value=1, min_ratio=.1)
        mut = OneShotChannelMutator(
            channel_unit_cfg=dict(type='OneShotMutableChannelUnit',
                                  default_args=unit),
            parse_cfg=dict(type='ChannelAnalyzer', demo_input=(1, 3, 8, 8),
                           tracer_type=tracer))
        return AutoSlim(arch, mut, copy.deepcopy(sw.distiller(loss)),
                        norm_training=norm_training,
                        num_random_samples=n_rand)
    norm_training = rng.random() < .5
    with ctx.sut('build'):
        algo, twin = make(), make()
    if not algo.mutator.mutable_units:
        ctx.skip('no mutable unit')
        return
    kinds = ['max', 'min'] + [f'random{i}' for i in range(n_rand)]
    acc, steps, it0, total = schedule(rng, len(kinds), ctx.thorough)
    ddp = rng.random() < .35
    ctx.key('autoslim', tracer, mode, n_rand, acc, steps, it0, total, ddp,
            loss['type'], len(algo.mutator.mutable_units))
    with contextlib.ExitStack() as st:
        wrap = None
        if ddp:
            st.enter_context(sw.one_rank())
            wrap = lambda m: AutoSlimDDP(  # noqa: E731
                module=m, find_unused_parameters=True)
        drive(ctx, algo, twin, kinds, True, loss, rand_opt(rng), acc, steps,
              it0, total, wrap, judge=units_judge(ctx, algo.mutator),
              floor=False, space=math.prod(
                  len(set(u.candidate_choices))
                  for u in algo.mutator.mutable_units))
    norm_mode(ctx, algo, norm_training)


def norm_mode(ctx, algo, norm_training):
    """Normalization layers in evaluation mode."""
    from torch.nn.modules.batchnorm import _BatchNorm
    with ctx.sut('eval'):
        algo.eval()
    for m in algo.architecture.modules():
        want = norm_training and isinstance(m, _BatchNorm)
        ctx.check(m.training == want, 'norm-mode', lambda:
                  f'{type(m).__name__} training={m.training}, '
                  f'norm_training={norm_training}')
    algo.train()
    ctx.check(all(m.training for m in algo.architecture.modules()),
              'norm-mode', 'not back in train mode')


def slimmable(ctx):
    from mmrazor.models.algorithms import SlimmableNetwork
    from mmrazor.models.algorithms.pruning.slimmable_network import \
        SlimmableNetworkDDP
    from mmrazor.models.mutators import SlimmableChannelMutator
    rng = ctx.rng
    tracer = rng.choice(['FxTracer', 'BackwardTracer'])
    spec = tracer_spec(rng, tracer, dets=False, hw=8, cats=False, share=False)
    seed = ctx.case_seed
    probe = sw.graph_arch(spec, seed).net
    m0 = make_mutator(probe, tracer)
    m0.prepare_from_supernet(probe)
    if not m0.mutable_units:
        ctx.skip('no mutable unit')
        return
    k = rng.randint(2, 3)
    # the architecture wraps the network: names of units carry its prefix
    probe = sw.graph_arch(spec, seed)
    probe.hw = 8
    m0 = make_mutator(probe, tracer)
    m0.prepare_from_supernet(probe)
    units = {}
    for u in m0.mutable_units:
        N = u.num_channels
        units[u.name] = dict(init_args=dict(
            num_channels=N, divisor=1, min_value=1, min_ratio=.9,
            choice_mode='number',
            candidate_choices=[rng.randint(1, N) for _ in range(k)]))
    deploy = rng.choice([-1, -1, -1] + list(range(k)))

    def make(deploy=deploy):
        mut = SlimmableChannelMutator(
            channel_unit_cfg=dict(type='SlimmableChannelUnit',
                                  units=copy.deepcopy(units)),
            parse_cfg=dict(type='ChannelAnalyzer', tracer_type=tracer,
                           demo_input=(1, 3, 8, 8)))
        return SlimmableNetwork(sw.graph_arch(spec, seed), mut,
                                deploy_index=deploy)
    with ctx.sut('build'):
        algo, twin = make(), make()
    ctx.check(algo.is_deployed == (deploy != -1), 'deployed', 'flag')
    kinds = ['single'] if deploy != -1 else [
        f'subnet_{i}' for i in range(k)]
    want = [{n: c['init_args']['candidate_choices'][i]
             for n, c in units.items()} for i in range(k)]
    acc, steps, it0, total = schedule(rng, len(kinds), ctx.thorough)
    if deploy != -1:
        acc, it0 = 1, 0
        # a deployed network is static and computes what the subnet does
        full = make(-1)
        full.mutator.set_choices(full.mutator.subnets[deploy])
        full.architecture.eval()
        algo.architecture.eval()
        from mmrazor.models.mutables import BaseMutable
        ctx.check(not any(isinstance(m, BaseMutable) for m in
                          algo.architecture.modules()), 'deployed',
                  'mutables left')
        x = torch.randn(2, 3, 8, 8)
        with torch.no_grad():
            a, b = algo.architecture(x), full.architecture(x)
        ctx.check(sw.near(a, b), 'deployed-output', 'another subnet')

        class Fixed(torch.nn.Module):
            current_choices = {}

            def set_choices(self, c):
                pass
        algo.mutator = Fixed()
        twin.mutator = Fixed()

    def judge(kinds, runs):
        if deploy == -1:
            for i, r in enumerate(runs):
                ctx.check(r['choice'] == want[i], 'choice:slim', lambda:
                          f'{r["choice"]} for {want[i]}')
    ddp = rng.random() < .35
    ctx.key('slim', tracer, k, deploy, acc, steps, it0, total, ddp)
    with contextlib.ExitStack() as st:
        wrap = None
        if ddp:
            st.enter_context(sw.one_rank())
            wrap = lambda m: SlimmableNetworkDDP(  # noqa: E731
                module=m, find_unused_parameters=True)
        drive(ctx, algo, twin, kinds, True, None, rand_opt(rng), acc, steps,
              it0, total, wrap, judge=judge)


def bignas(ctx):
    from mmrazor.models.algorithms import BigNAS
    from mmrazor.models.algorithms.nas.bignas import BigNASDDP
    from mmrazor.models.architectures.ops.mobilenet_series import MBBlock
    from mmrazor.models.mutators import NasMutator
    from mmrazor.registry import MODELS
    rng = ctx.rng
    seed = ctx.case_seed
    loss = rand_loss(rng)
    n_rand = rng.choice([0, 1, 2])
    nb = [[1, rng.choice([1, 2]), 1] for _ in range(4)]
    setting = dict(
        kernel_size=[[3, rng.choice([3, 5]), 2] for _ in range(4)],
        num_blocks=nb,
        expand_ratio=[[1, rng.choice([1, 2]), 1] for _ in range(5)],
        num_out_channels=[[8, 16, 8], [8, 8, 8], [8, 16, 8], [8, 16, 8],
                          [8, 16, 8], [16, 16, 8]])
    rate = rng.choice([0., .2, .5])
    stages = rng.choice([[1, 2, 3, 4], [3, 4], [6, 7], [2]])

    def make():
        torch.manual_seed(seed)
        bb = MODELS.build(dict(
            type='mmrazor.AttentiveMobileNetV3',
            arch_setting=copy.deepcopy(setting), out_indices=(4, ),
            stride_list=[1, 1, 2, 1], with_se_list=[False, True, False, True],
            act_cfg_list=['Swish', 'Swish', 'HSwish', 'ReLU', 'Swish',
                          'Swish'],
            conv_cfg=dict(type='mmrazor.BigNasConv2d'),
            norm_cfg=dict(type='mmrazor.DynamicBatchNorm2d', momentum=.1)))
        arch = sw.arch_class()(Only(bb))
        arch.backbone = bb
        return BigNAS(arch, NasMutator(), copy.deepcopy(sw.distiller(loss)),
                      num_random_samples=n_rand, drop_path_rate=rate,
                      backbone_dropout_stages=stages)
    with ctx.sut('build'):
        algo, twin = make(), make()
    kinds = ['max', 'min'] + [f'random{i}' for i in range(n_rand)]
    acc, steps, it0, total = schedule(rng, len(kinds), ctx.thorough)
    steps = min(steps, 3)
    # position of every block in the depth of the network
    drop, pos = {}, 0
    bb = algo.architecture.backbone
    layers = bb.layers[:-1]
    blocks = [[b for b in la if isinstance(b, MBBlock)] for la in layers]
    n_all = sum(len(b) for b in blocks)
    names = {m: n for n, m in algo.architecture.named_modules()}
    for i, bl in enumerate(blocks, 1):
        for b in bl:
            drop[names[b]] = rate * pos / n_all if i in stages else None
            pos += 1
    lims = {}
    for name, ms in algo.mutator.search_groups.items():
        m = lead(ms)
        lims[name] = (m.max_choice, m.min_choice, options(m))

    def judge(kinds, runs):
        for k, r in zip(kinds, runs):
            for n, c in r['choice'].items():
                hi, lo, cs = lims[n]
                ok = c == hi if k == 'max' else c == lo if k == 'min' \
                    else c in cs
                ctx.check(ok, f'choice:{k[:6]}', lambda:
                          f'{n}: {c} of {cs} for the {k} subnet')
            for n, d in drop.items():
                if d is None:
                    continue
                ctx.event('drop_path')
                want = d if k == 'max' else 0
                ctx.check(abs(r['drop'].get(n, 0) - want) < 1e-9,
                          'drop-path', lambda: f'{n} {r["drop"].get(n)} for '
                          f'{want} in the {k} subnet')
    ddp = rng.random() < .3
    ctx.key('bignas', n_rand, acc, steps, it0, total, ddp, rate, str(stages),
            str(setting))
    with contextlib.ExitStack() as st:
        wrap = None
        if ddp:
            st.enter_context(sw.one_rank())
            wrap = lambda m: BigNASDDP(  # noqa: E731
                module=m, find_unused_parameters=True)
        drive(ctx, algo, twin, kinds, False, loss, rand_opt(rng), acc, steps,
              it0, total, wrap, batch=2, hw=8, judge=judge)


def options(m):
    return list(m.candidate_choices if hasattr(m, 'candidate_choices')
                else m.choices)


def lead(ms):
    """The mutable of a group that has candidates of its own."""
    from mmrazor.models.mutables import DerivedMutable
    return next(m for m in ms if not isinstance(m, DerivedMutable))


class Only(torch.nn.Module):

    def __init__(self, bb):
        super().__init__()
        self.bb = bb

    def forward(self, x):
        return self.bb(x)[-1]


def oneshot(ctx):
    """One random path per step."""
    from mmrazor.models.algorithms import SPOS, Autoformer
    from mmrazor.models.mutators import NasMutator
    rng = ctx.rng
    spec = nas.rand_spec(rng)
    seed = ctx.case_seed
    cls = rng.choice([SPOS, Autoformer])
    kw = dict(norm_training=rng.random() < .5) if cls is SPOS else {}

    def make():
        return cls(sw.nas_arch(spec, seed), NasMutator(), **kw)
    with ctx.sut('build'):
        algo, twin = make(), make()
    if not algo.mutator.search_groups:
        ctx.skip('nothing to search')
        return
    acc = rng.choice([1, 1, 3])
    steps = rng.randint(4, 12)
    ctx.key('oneshot', cls.__name__, nas.describe(spec), acc, steps)
    cands = {n: options(lead(m)) for n, m in algo.mutator.search_groups.items()}
    space = 1
    for c in cands.values():
        space *= len(c)

    def judge(kinds, runs):
        ctx.event('oneshot_steps')
        ctx.check(set(runs[0]['choice']) == set(cands), 'choice:groups',
                  'not every group has a choice')
        for n, c in runs[0]['choice'].items():
            legal = all(i in cands[n] for i in c) if isinstance(
                c, (list, tuple)) and c not in cands[n] else c in cands[n]
            ctx.check(legal, 'choice:path', lambda: f'{n}: {c} of {cands[n]}')
    opt = rand_opt(rng)
    oneshot_drive(ctx, algo, twin, opt, acc, steps, judge, space)
    if cls is SPOS:
        norm_mode(ctx, algo, kw['norm_training'])


def oneshot_drive(ctx, algo, twin, opt, acc, steps, judge, space):
    """The usual train step of mmengine around a sampled path."""
    rng = ctx.rng
    algo.double()
    algo.train()
    twin.double()
    twin.train()
    w, make = sw.optim(rng, algo, acc, opt, it=0, total=steps)
    w.initialize_count_status(algo, 0, -1)
    mine = make(twin.parameters())
    seed = rng.getrandbits(28)
    watch = sw.Watch(algo.architecture,
                     lambda: algo.mutator.current_choices, seed)
    g = torch.Generator().manual_seed(seed)
    paths = set()
    for step in range(steps):
        x = torch.randn(4, 3, nas.HW, nas.HW, generator=g).double()
        y = torch.randint(0, 50, (4, ), generator=g)
        torch.manual_seed(rng.getrandbits(30))
        before = len(watch.seen)
        with ctx.sut('train_step'):
            got = algo.train_step(dict(inputs=x, data_samples=y), w)
        ctx.event('steps')
        runs = watch.seen[before:]
        ctx.event('executions', len(runs))
        ctx.check(len(runs) == 1, 'executions', f'{len(runs)} executions')
        judge(None, runs)
        paths.add(str(runs[0]['choice']))
        twin.mutator.set_choices(runs[0]['choice'])
        torch.manual_seed(seed + before)
        out = twin.architecture(x, y, mode='loss')
        tot = out['loss_ce'] + out['loss_reg']
        (tot / acc).backward()
        if (step + 1) % acc == 0:
            mine.step()
            mine.zero_grad()
        ctx.check(sw.near(torch.as_tensor(got['loss']), tot), 'loss-value',
                  lambda: f'{got["loss"]} for {tot}')
        diff = sw.state_diff(algo.architecture, twin.architecture)
        ctx.check(not diff, 'weights', lambda: f'step {step}: {diff[:4]}')
    watch.close()
    if space >= 16 and steps >= 10:
        ctx.check(len(paths) > 1, 'random-diversity', lambda:
                  f'one path in {steps} steps of {space}')


SECTIONS = {
    'autoslim': (autoslim, 40, 500),
    'slimmable': (slimmable, 30, 400),
    'bignas': (bignas, 16, 150),
    'oneshot': (oneshot, 40, 500),
}
