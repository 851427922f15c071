"""C18: Fisher pruning removes the least important channel, and exports."""
import copy
import json
import os
import shutil
import tempfile

import torch

from rv import ranks
from rv import sandwich as sw
from rv.checks.c17 import batch, collate, hub, set_hub
from rv.nets import rand_spec
from rv.prune import close

ID = 'C18'
RULE = (
    'random networks (residual, concatenated, depthwise, shared layers), '
    'normalizations, intervals, losses, gradient accumulation, interruptions; '
    'the gradients of every channel of every layer are taken on a twin')
ASSUMPTIONS = [
    'group convolutions that are not depthwise are not supported and not '
    'generated',
    'the ranks of the distributed workload run networks without batch norm '
    '(no synchronized one on CPU)',
]
REQUIRED_EVENTS = {'steps': 300, 'prunings': 120, 'scores': 500,
                   'exhausted': 2, 'resumed': 6, 'rank_steps': 8,
                   'exports': 8, 'thresholds': 3}


class Case:

    def __init__(self, ctx, bn=True, hw=None, **kw):
        rng = ctx.rng
        from mmrazor.implementations.pruning.group_fisher import \
            GroupFisherAlgorithm
        self.cls = GroupFisherAlgorithm
        self.linear = rng.random() < .3
        self.norm = rng.choice(['flops', 'flops', 'act', 'act', 'none'])
        shared = rng.random() < .3
        self.interval = rng.randint(1, 3)
        for _ in range(200):
            self.spec = rand_spec(rng, 'FxTracer', group=False, hw=hw,
                                  max_blocks=rng.randint(1, 3), **kw)
            if not bn:
                if any(n['op'] in ('bn', 'gn') or (
                        n['op'] == 'convmodule' and n['args']['bn'])
                       for n in self.spec['nodes']):
                    continue
            mods = [n['mod'] for n in self.spec['nodes']
                    if n['op'] in ('conv', 'linear')]
            if shared and len(set(mods)) == len(mods):
                continue
            self.net_seed = rng.getrandbits(28)
            probe = self.build(ctx)
            if probe.mutator.mutable_units:
                break
        else:
            raise RuntimeError('no network')
        self.units = {u.name: u.num_channels
                      for u in probe.mutator.mutable_units}
        self.by_epoch, self.per_epoch, self.epochs = False, 1, 1
        self.total = 50
        self.hw = self.spec['hw']

    def arch(self):
        return sw.graph_arch(self.spec, self.net_seed)

    def build(self, ctx, arch=None):
        hw = self.spec['hw']
        with ctx.sut('build'):
            return self.cls(
                arch or self.arch(), interval=self.interval,
                mutator=dict(
                    type='GroupFisherChannelMutator',
                    parse_cfg=dict(type='ChannelAnalyzer',
                                   demo_input=(1, 3, hw, hw),
                                   tracer_type='FxTracer'),
                    channel_unit_cfg=dict(
                        type='GroupFisherChannelUnit', default_args=dict(
                            normalization_type=self.norm,
                            mutate_linear=self.linear))))


def in_mask(m):
    n = m.in_features if isinstance(m, torch.nn.Linear) else m.in_channels
    a = m.get_mutable_attr('in_channels')
    return torch.ones(n).bool() if a is None else a.current_mask.bool()


class Reference:
    """Importance of every channel, from the gradient of a mask on it."""

    def __init__(self, case, algo):
        self.case = case
        self.score = {u.name: torch.zeros(u.num_channels).double()
                      for u in algo.mutator.mutable_units}

    def reset(self):
        for s in self.score.values():
            s.zero_()

    def add(self, twin, data):
        """One batch, on a copy of the model before the step."""
        from mmrazor.implementations.pruning.group_fisher.ops import \
            GroupFisherMixin
        runs = {}

        def pre(m, args):
            x = args[0]
            mask = torch.ones(x.shape[:2], dtype=x.dtype, requires_grad=True)
            runs.setdefault(m, []).append([mask, None])
            return (x * mask.reshape(*mask.shape, *[1] * (x.dim() - 2)), )

        def post(m, args, y):
            runs[m][-1][1] = y.shape
        hs = []
        for m in twin.modules():
            if isinstance(m, GroupFisherMixin):
                hs += [m.register_forward_pre_hook(pre),
                       m.register_forward_hook(post)]
        twin.train()
        losses = twin.architecture(mode='loss', **data)
        (losses['loss_ce'] + losses['loss_reg']).backward()
        for h in hs:
            h.remove()
        for u in twin.mutator.mutable_units:
            per_sample = 0
            for ch in u.input_related:
                m = ch.module
                if not isinstance(m, GroupFisherMixin):
                    continue
                keep = in_mask(m)
                ratio = (ch.end - ch.start) // u.num_channels
                for mask, _ in runs.get(m, []):
                    g = mask.grad if mask.grad is not None else \
                        torch.zeros_like(mask)
                    full = torch.zeros(g.shape[0], keep.numel(),
                                       dtype=torch.double)
                    full[:, keep] = g.detach().double()
                    per_sample = per_sample + full[:, ch.start:ch.end].reshape(
                        g.shape[0], u.num_channels, ratio).sum(-1)
            s = (per_sample**2).sum(0)
            self.score[u.name] += s / self.cost(u, runs)

    def cost(self, u, runs):
        """What one channel of the unit costs."""
        from mmrazor.implementations.pruning.group_fisher.ops import \
            GroupFisherMixin
        kind = self.case.norm
        if kind == 'none':
            return 1.
        total = 0.
        for ch in list(u.output_related) + list(u.input_related):
            m = ch.module
            if not isinstance(m, GroupFisherMixin):
                continue
            conv = not isinstance(m, torch.nn.Linear)
            dw = conv and m.groups > 1
            r = (ch.end - ch.start) // u.num_channels
            k = m.kernel_size[0] * m.kernel_size[1] if conv else 1
            for _, out in runs.get(m, []):
                area = out[2] * out[3] if conv else 1
                if ch.is_output_channel:
                    n = 1 if kind == 'act' else k * (
                        1 if dw else int(in_mask(m).sum()))
                elif kind == 'act' or dw:
                    # a depthwise channel is one channel
                    continue
                else:
                    n = k * out[1]
                total += area * n * r
        return total


def masks(algo):
    return {u.name: u.mutable_channel.current_mask.bool().clone()
            for u in algo.mutator.mutable_units}


def compare(ctx, case, algo, ref):
    """Kept channels compare as the reference says: one common factor."""
    got, want = [], []
    for u in algo.mutator.mutable_units:
        m = u.mutable_channel.current_mask.bool()
        if int(m.sum()) > 1:
            with ctx.sut('importance'):
                imp = u.importance()
            got.append(imp[m].double())
            want.append(ref.score[u.name][m])
    if not got:
        return
    got, want = torch.cat(got), torch.cat(want)
    ctx.event('scores', got.numel())
    top = int(want.argmax())
    if float(want[top]) <= 1e-25:
        return
    f = got[top] / want[top]
    err = float((got / f - want).abs().max() / want[top])
    ctx.check(err < 1e-6, 'fisher:score', lambda: (
        f'relative importance of the channels {(got / f).tolist()}, expected '
        f'{want.tolist()} ({case.norm}, linear {case.linear}, '
        f'{[n["op"] for n in case.spec["nodes"]]})'))


def judge(ctx, case, algo, ref, before, due):
    after = masks(algo)
    gone = [(u, int(c)) for u in before
            for c in torch.nonzero(before[u] & ~after[u]).flatten()]
    back = [u for u in before if bool((after[u] & ~before[u]).any())]
    ctx.check(not back, 'prune:revived', lambda: f'{back} got channels back')
    if not due:
        ctx.check(not gone, 'prune:time', lambda: f'{gone} pruned off time')
        return
    cand = [(float(ref.score[u][c]), u, int(c)) for u in before
            if int(before[u].sum()) > 1
            for c in torch.nonzero(before[u]).flatten()]
    if not cand:
        ctx.event('exhausted')
        ctx.check(not gone, 'prune:last', lambda: f'{gone} were the last ones')
        return
    best = min(cand)
    ctx.check(len(gone) == 1, 'prune:count',
              lambda: f'{gone} pruned at once, the least important is {best}')
    u, c = gone[0]
    ctx.check(int(before[u].sum()) > 1, 'prune:last', f'last channel of {u}')
    s = float(ref.score[u][c])
    top = max(cand)[0]
    ctx.check(s <= best[0] * (1 + 1e-6) + 1e-12 * top + 1e-30,
              'prune:least', lambda: f'{u}[{c}] of importance {s} pruned, '
              f'{best[1]}[{best[2]}] has {best[0]} ({case.norm})')
    ctx.event('prunings')


def optim_of(algo, acc=1, lr=.05):
    from mmengine.optim import OptimWrapper
    return OptimWrapper(torch.optim.SGD(algo.parameters(), lr=lr,
                                        momentum=.9),
                        accumulative_counts=acc)


def steps(ctx, case, algo, ref, w, lo, hi, seed, scale=1.):
    rng = ctx.rng
    for it in range(lo, hi):
        set_hub(case, it)
        data = batch(case, seed + it, rng.choice([2, 4]))
        data['inputs'] = data['inputs'].double()
        algo.train()
        before = masks(algo)
        twin = copy.deepcopy(algo)
        torch.manual_seed(seed + it)
        ref.add(twin, data)
        if not all(bool(s.isfinite().all()) and float(s.max()) < 1e200
                   for s in ref.score.values()):
            ctx.event('diverged')
            return
        torch.manual_seed(seed + it)
        if (it % case.interval) != 0:
            with ctx.sut('train_step'):
                algo.train_step(data, w)
            judge(ctx, case, algo, ref, before, False)
            compare(ctx, case, algo, ref)
        else:
            with ctx.sut('train_step'):
                algo.train_step(data, w)
            judge(ctx, case, algo, ref, before, True)
            ref.reset()
        ctx.event('steps')
        if rng.random() < .2:
            algo.eval()
            with torch.no_grad(), ctx.sut('eval'):
                algo(data['inputs'], mode='tensor')


def sec_train(ctx):
    rng = ctx.rng
    case = Case(ctx)
    ctx.key(case.norm, case.linear, case.interval, len(case.units),
            str([n['op'] for n in case.spec['nodes']]))
    algo = case.build(ctx).double()
    if rng.random() < .2:
        # few channels left: everything is exhausted soon
        for u in algo.mutator.mutable_units:
            m = torch.zeros(u.num_channels)
            m[rng.randrange(u.num_channels)] = 1
            if rng.random() < .3:
                m[rng.randrange(u.num_channels)] = 1
            u.mutable_channel.current_choice = m.bool()
        case.interval = algo.interval = 1
    if rng.random() < .3:
        # large importances
        with torch.no_grad():
            for m in algo.modules():
                if isinstance(m, torch.nn.Conv2d):
                    m.weight *= rng.choice([1e-2, 3., 10.])
    n = rng.randint(3, 8)
    w = optim_of(algo, lr=rng.choice([0., .01]),
                 acc=rng.choice([1, 1, 2]))
    w.initialize_count_status(algo, 0, n * 4)
    ref = Reference(case, algo)
    steps(ctx, case, algo, ref, w, 0, n, rng.getrandbits(28))
    ctx.sample(dict(norm=case.norm, linear=case.linear, units=case.units,
                    ops=[n['op'] for n in case.spec['nodes']]))


def sec_resume(ctx):
    """A checkpoint carries the masks and the importance so far."""
    rng = ctx.rng
    case = Case(ctx)
    case.interval = rng.randint(2, 4)
    ctx.key(case.norm, case.interval, len(case.units))
    algo = case.build(ctx).double()
    w = optim_of(algo, lr=.01)
    ref = Reference(case, algo)
    seed = rng.getrandbits(28)
    cut, end = rng.randint(1, 6), rng.randint(8, 12)
    steps(ctx, case, algo, ref, w, 0, cut, seed)
    with tempfile.TemporaryFile() as f:
        torch.save(dict(m=algo.state_dict(), o=w.state_dict()), f)
        f.seek(0)
        ck = torch.load(f)
    algo2 = case.build(ctx).double()
    w2 = optim_of(algo2, lr=.01)
    with ctx.sut('load'):
        algo2.load_state_dict(ck['m'])
        w2.load_state_dict(ck['o'])
    a, b = masks(algo), masks(algo2)
    ctx.check(all(torch.equal(a[u], b[u]) for u in a), 'resume:masks',
              'masks of the checkpoint')
    steps(ctx, case, algo2, ref, w2, cut, end, seed)
    ctx.event('resumed')


def sec_ranks(ctx):
    """Every rank trains on its own batch, all keep one model."""
    rng = ctx.rng
    case = Case(ctx, bn=False)
    ctx.key(case.norm, case.interval, len(case.units))
    seed = rng.getrandbits(28)
    n = rng.randint(2, 4)

    def one(rank):
        from mmrazor.implementations.pruning.group_fisher.algorithm import \
            GroupFisherDDP
        algo = case.build(ctx).double()
        w = optim_of(algo, lr=.05)
        ddp = GroupFisherDDP(algo, broadcast_buffers=False,
                             find_unused_parameters=True)
        out = []
        for it in range(n):
            set_hub(case, it)
            data = batch(case, seed + 10 * it + rank)
            data['inputs'] = data['inputs'].double()
            ddp.train()
            torch.manual_seed(seed + it)
            ddp.train_step(data, w)
            out.append((
                {k: v.numpy().copy() for k, v in masks(algo).items()},
                [p.detach().numpy().copy() for p in algo.parameters()]))
        return out
    try:
        res = ranks.run(2, one)
    except ranks.RankError as e:
        ctx.check(False, 'ranks:raised', f'{e}\n{e.tb[-600:]}')
    # the reference: one model, the mean gradient, the sum of the scores
    algo = case.build(ctx).double()
    w = optim_of(algo, lr=.05)
    ref = Reference(case, algo)
    for it in range(n):
        before = masks(algo)
        mean = None
        for rank in range(2):
            data = batch(case, seed + 10 * it + rank)
            data['inputs'] = data['inputs'].double()
            twin = copy.deepcopy(algo)
            torch.manual_seed(seed + it)
            ref.add(twin, data)
            g = [torch.zeros_like(p) if p.grad is None else p.grad
                 for p in twin.parameters()]
            mean = g if mean is None else [a + b for a, b in zip(mean, g)]
        for p, g in zip(algo.parameters(), mean):
            p.grad = g / 2
        w.step()
        w.zero_grad()
        for rank in range(2):
            for p, q in zip(algo.parameters(), res[rank][it][1]):
                ctx.check(sw.near(torch.from_numpy(q), p, 1e-8),
                          'ranks:weights', f'weights of rank {rank} after '
                          f'step {it} are not those of the mean gradient')
        got = [{k: torch.from_numpy(v) for k, v in res[r][it][0].items()}
               for r in range(2)]
        ctx.check(all(torch.equal(got[0][u], got[1][u]) for u in got[0]),
                  'ranks:masks', f'the ranks disagree after step {it}')
        for u in algo.mutator.mutable_units:
            u.mutable_channel.current_choice = got[0][u.name]
        due = it % case.interval == 0
        judge(ctx, case, algo, ref, before, due)
        if due:
            ref.reset()
        ctx.event('rank_steps')


def sec_export(ctx):
    from mmrazor.implementations.pruning.group_fisher import (
        GroupFisherDeploySubModel, GroupFisherSubModel)
    rng = ctx.rng
    case = Case(ctx, hw=8, dets=False)
    ctx.key(len(case.units), str([n['op'] for n in case.spec['nodes']]))
    algo = case.build(ctx)
    w = optim_of(algo)
    for it in range(rng.randint(2, 6)):
        set_hub(case, it)
        algo.train()
        with ctx.sut('train_step'):
            algo.train_step(batch(case, it), w)
    for u in algo.mutator.mutable_units:
        if rng.random() < .5 and u.num_channels > 2:
            m = u.mutable_channel.current_mask.clone()
            m[rng.randrange(u.num_channels)] = False
            if m.any():
                u.mutable_channel.current_choice = m
    algo.eval()
    x = torch.randn(3, 3, 8, 8)
    with torch.no_grad():
        want = algo(x, mode='tensor')
    keep = {u: int(m.sum()) for u, m in masks(algo).items()}
    ckpt = copy.deepcopy(algo.state_dict())
    d = tempfile.mkdtemp(prefix='rv-c18-')
    try:
        fresh = case.build(ctx)
        fresh.load_state_dict(ckpt)
        with ctx.sut('sub model'):
            sub = GroupFisherSubModel(fresh)
        sub.eval()
        with torch.no_grad(), ctx.sut('sub forward'):
            got = sub(x, mode='tensor')
        ctx.check(close(got, want), 'export:output',
                  'the static network computes something else')
        from mmrazor.models.architectures.dynamic_ops import DynamicMixin
        left = [n for n, m in sub.named_modules()
                if isinstance(m, DynamicMixin)]
        ctx.check(not left, 'export:static', f'{left[:3]}')
        hub().update_info('cfg', f'work_dir={d!r}\n')
        with ctx.sut('init_weights'):
            sub.init_weights()
        with torch.no_grad():
            ctx.check(close(sub(x, mode='tensor'), want), 'export:init',
                      'the weights were initialized again')
        js = f'{d}/fix_subnet.json'
        ctx.check(os.path.exists(js), 'export:structure', 'no fix_subnet.json')
        ctx.check(json.load(open(js)) == keep, 'export:structure',
                  lambda: f'{json.load(open(js))} for {keep}')
        divisor = rng.choice([1, 2, 4, 8])
        with ctx.sut('deploy'):
            dep = GroupFisherDeploySubModel(
                case.arch(), fix_subnet=js if rng.random() < .5 else keep,
                divisor=divisor, parse_cfg=dict(
                    type='ChannelAnalyzer', demo_input=(1, 3, 8, 8),
                    tracer_type='FxTracer'))
        with ctx.sut('load'):
            dep.load_state_dict(sub.state_dict())
        dep.eval()
        with torch.no_grad(), ctx.sut('deployed forward'):
            got = dep(x, mode='tensor')
        ctx.check(close(got, want), 'deploy:output',
                  'the deployed network computes something else')
        if divisor > 1:
            with ctx.sut('divisible'):
                dep.post_process_for_mmdeploy()
            dep.eval()
            with torch.no_grad(), ctx.sut('divisible forward'):
                got = dep(x, mode='tensor')
            ctx.check(close(got, want), 'deploy:divisible',
                      f'making channels divisible by {divisor} changed the '
                      'output')
            mods = dict(dep.named_modules())
            for u, c in keep.items():
                name = u.rsplit('_(', 1)[0]
                m = mods[name]
                full = m.out_features if isinstance(m, torch.nn.Linear) \
                    else m.out_channels
                ctx.check(full % divisor == 0, 'deploy:divisor',
                          f'{name} has {full} channels, divisor {divisor}')
        ctx.event('exports')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sec_hook(ctx):
    """Checkpoints at the thresholds of a resource, in the real runner."""
    from mmengine.runner import Runner
    from torch.utils.data import DataLoader

    from mmrazor.implementations.pruning.group_fisher import ResourceInfoHook
    from mmrazor.models.task_modules.demo_inputs import DefaultDemoInput
    from mmrazor.models.task_modules.estimators import ResourceEstimator
    from rv.checks.c17 import DS
    rng = ctx.rng
    # the estimator rounds to a thousand: wide enough to see one channel
    case = Case(ctx, hw=16, chans=[8, 12, 16])
    case.interval = 1
    thr = sorted(rng.sample([.9, .8, .7, .6, .5, .4], rng.randint(1, 3)),
                 reverse=rng.random() < .5)
    every = rng.randint(1, 2)
    early = rng.random() < .6
    total = rng.randint(8, 16)
    kind = rng.choice(['flops', 'params'])
    ctx.key(tuple(thr), every, early, total, kind, len(case.units))
    d = tempfile.mkdtemp(prefix='rv-c18-')

    def resource(model):
        m = copy.deepcopy(model).eval()
        est = ResourceEstimator(flops_params_cfg=dict(input_shape=(1, 3, 16, 16)))
        return est.estimate(m.architecture)[kind]
    try:
        algo = case.build(ctx)
        base = resource(algo)
        if base < .02:
            kind = 'flops'
            base = resource(algo)
        seen = []
        real = algo.train_step

        def spy(*a, **k):
            out = real(*a, **k)
            seen.append(resource(algo) / base)
            return out
        algo.train_step = spy
        mk = DataLoader(DS(6, 16), batch_size=2, collate_fn=collate)
        with ctx.sut('hook'):
            hook = ResourceInfoHook(
                demo_input=DefaultDemoInput([1, 3, 16, 16]), interval=every,
                resource_type=kind, save_ckpt_thr=list(thr), early_stop=early)
        with ctx.sut('runner'):
            r = Runner(
                model=algo, work_dir=d, train_dataloader=mk,
                train_cfg=dict(by_epoch=False, max_iters=total),
                optim_wrapper=dict(optimizer=dict(type='SGD', lr=.01)),
                default_hooks=dict(logger=None, timer=None, checkpoint=None,
                                   sampler_seed=None),
                custom_hooks=[hook], log_level='ERROR',
                default_scope='mmrazor', experiment_name=f'rvh{ctx.case_seed}')
            exited = False
            try:
                r.train()
            except SystemExit:
                exited = True
        # reference
        want, left, stop = [], sorted(thr, reverse=True), None
        for it, p in enumerate(seen):
            if it % every == 0 and left and p < left[0]:
                want.append((left.pop(0), p))
            if early and not left:
                stop = it
                break
        ctx.check(exited == (stop is not None), 'hook:stop',
                  f'exited {exited}; percents {seen}, thresholds {thr}')
        if stop is not None:
            ctx.check(len(seen) == stop + 1, 'hook:stop-late',
                      f'{len(seen)} steps, reached at {stop}')
        files = sorted(f for f in os.listdir(d) if f.startswith(kind))
        ctx.check(files == sorted(f'{kind}_{t:.2f}.pth' for t, _ in want),
                  'hook:files', f'{files}, expected {want}')
        for t, p in want:
            ck = torch.load(f'{d}/{kind}_{t:.2f}.pth')
            m = case.build(ctx)
            with ctx.sut('load'):
                m.load_state_dict(ck['state_dict'])
            ctx.check(abs(resource(m) / base - p) < 1e-6 and p < t,
                      'hook:content', f'the checkpoint of {t} has '
                      f'{resource(m) / base}, expected {p}')
            ctx.event('thresholds')
    finally:
        shutil.rmtree(d, ignore_errors=True)


SECTIONS = {
    'train': (sec_train, 90, 1500),
    'resume': (sec_resume, 16, 300),
    'ranks': (sec_ranks, 6, 60),
    'export': (sec_export, 24, 500),
    'hook': (sec_hook, 12, 160),
}
CASE_LIMIT = 120
