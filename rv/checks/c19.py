"""C19: DMCP samples, trains and exports the widths its parameters describe."""
import contextlib
import copy
import json
import os
import random
import shutil
import tempfile

import torch
import torch.nn as nn

from rv import ranks
from rv import sandwich as sw
from rv.checks.c08 import cost as op_cost
from rv.checks.c15 import rand_loss
from rv.checks.c17 import hub
from rv.nets import GraphNet, init_net
from rv.prune import tracer_spec

ID = 'C19'
RULE = (
    'random networks, group sizes, strategies, distillation starts, '
    'frequencies, FLOPs losses, plain or wrapped, one or two ranks; every '
    'execution is observed and repeated by a reference on a twin whose norms '
    'are scaled by an own hook')
ASSUMPTIONS = [
    'batch norms do not normalize a concatenation (each belongs to one unit)',
    'the distillation loss detaches the teacher',
    'the networks of the distributed workload read the running statistics of '
    'their rank in architecture steps; only parameters are compared',
]
REQUIRED_EVENTS = {'steps': 100, 'executions': 300, 'direct_subnets': 40,
                   'arch_updates': 25, 'expected_flops': 40, 'samples': 5000,
                   'rank_steps': 8, 'exports': 10, 'exported_subnets': 20}


def arch_class():
    base = sw.arch_class()

    class Arch(base):

        def __init__(self, net):
            super().__init__(net)
            self.backbone = net
            del self.net

        @property
        def net(self):
            return self.backbone

        @net.setter
        def net(self, v):
            self.backbone = v
    return Arch


def make_arch(spec, seed):
    torch.manual_seed(seed)
    return arch_class()(init_net(GraphNet(spec), seed))


def arch_of(spec, seed):
    return make_arch(json.loads(spec), seed)


class Case:

    def __init__(self, ctx, cats=True, **kw):
        rng = ctx.rng
        self.rng = rng
        self.tracer = rng.choice(['FxTracer', 'BackwardTracer'])
        self.cfg = rng.choice([(.25, 1, .25), (.1, 1, .05), (.2, 1, .2),
                               (.1, 1, .1), (.5, 1, .125), (.4, 1, .3),
                               (.1, 1, .3), (.4, 1, .1), (.2, 1, .1)])
        self.seed = ctx.case_seed
        self.loss = rand_loss(rng)
        self.strategy = rng.choice([
            ['max', 'min', 'arch_random'],
            ['max', 'min', 'scheduled_random', 'arch_random'],
            ['max', 'min', 'scheduled_random'], ['max', 'arch_random'],
            ['max', 'arch_random', 'arch_random', 'min', 'max']])
        self.args = dict(
            arch_start_train=rng.choice([-1, 1, 2]),
            arch_train_freq=rng.randint(1, 3),
            distillation_times=rng.choice([-1, 1, 100]),
            target_flops=rng.choice([.01, .3, 1, 5, 50]),
            flops_loss_type=rng.choice(['l1', 'l2', 'log_l1', 'log_l1']),
            flop_loss_weight=rng.choice([.1, 1.]))
        for _ in range(80):
            self.spec = tracer_spec(
                rng, self.tracer, dets=False, hw=8, cats=cats or None, group=False,
                max_blocks=rng.randint(1, 3), chans=rng.choice(
                    [(4, 8), (4, 5, 6, 8), (20, 24)]), **kw)
            if norm_over_cat(self.spec):
                continue
            if any(n['op'] in ('bn', ) or (n['op'] == 'convmodule' and
                                           n['args']['bn'])
                   for n in self.spec['nodes']):
                break
        else:
            raise RuntimeError('no network')

    def build(self, ctx, **over):
        from mmrazor.models.algorithms import DMCP
        with ctx.sut('build'):
            return DMCP(
                distiller=copy.deepcopy(sw.distiller(self.loss)),
                architecture=make_arch(self.spec, self.seed),
                mutator_cfg=dict(
                    type='DMCPChannelMutator', pruning_cfg=self.cfg,
                    channel_unit_cfg=dict(
                        type='DMCPChannelUnit',
                        default_args=dict(choice_mode='number')),
                    parse_cfg=dict(type='ChannelAnalyzer',
                                   demo_input=(1, 3, 8, 8),
                                   tracer_type=self.tracer)),
                strategy=list(self.strategy), **dict(self.args, **over))


def norm_over_cat(spec):
    cat = {}
    for i, n in enumerate(spec['nodes']):
        ins = [cat.get(j, False) for j in n['ins'] if j >= 0]
        if n['op'] == 'bn' and any(ins):
            return True
        own = n['op'] == 'conv' and n['args']['g'] == 1 or n['op'] in (
            'convmodule', 'linear')
        cat[i] = n['op'] == 'cat' or (any(ins) and not own)
    return False


def layout(case, n):
    """(size of a group, number of groups, minimum) of n channels."""
    lo, hi, off = case.cfg
    size = int(off * n / hi)
    num = int((hi - lo) / off + 1e-4)
    return size, num, n - size * num


def units_of(algo):
    return list(algo.mutator.units)


def probs(algo, i):
    a = algo.mutator.arch_params[str(i)].detach().double()
    return (-a.clamp(min=0)).exp()


def randomize(rng, algo):
    with torch.no_grad():
        for p in algo.mutator.arch_params.values():
            p.copy_(torch.tensor([rng.choice([-.5, 0, .05, .3, 1., 3.])
                                  for _ in range(p.numel())]))


def widths(algo):
    return [int(u.mutable_channel.current_mask.sum()) for u in units_of(algo)]


def judge(ctx, case, kind, got, algo):
    for u, g in zip(units_of(algo), got):
        n = u.num_channels
        size, num, lo = layout(case, n)
        ok = {'max': [n], 'min': [lo]}.get(
            kind, [lo + size * k for k in range(num + 1)])
        ctx.check(g in ok, f'width:{kind}',
                  lambda: f'{u.name}: {g} of {n}, legal {ok}')


class Twin:
    """The same network, its norms scaled by own hooks."""

    def __init__(self, case, algo):
        self.case, self.algo, self.scaled = case, algo, False
        self.group = {}
        for i, u in enumerate(units_of(algo)):
            for ch in list(u.output_related) + list(u.input_related):
                if isinstance(ch.module, nn.modules.batchnorm._BatchNorm):
                    self.group[ch.module] = i
        self.heads = []
        algo.architecture.head.register_forward_hook(
            lambda m, a, o: self.heads.append(o))
        for m, i in self.group.items():
            m.register_forward_hook(self.scale(i))

    def scale(self, i):
        def f(m, a, y):
            if not self.scaled:
                return None
            n = units_of(self.algo)[i].num_channels
            size, num, lo = layout(self.case, n)
            p = self.algo.mutator.arch_params[str(i)]
            keep = (-p.clamp(min=0)).exp().cumprod(0)
            w = [torch.ones((), dtype=y.dtype)] * lo
            for k in range(num):
                w += [keep[k]] * size
            return y * torch.stack(w)[:y.shape[1]][:, None, None]
        return f

    def set(self, ws):
        for u, w in zip(units_of(self.algo), ws):
            u.mutable_channel.current_choice = int(w)

    def expected(self):
        out = []
        for i, u in enumerate(units_of(self.algo)):
            size, num, lo = layout(self.case, u.num_channels)
            p = self.algo.mutator.arch_params[str(i)]
            keep = (-p.clamp(min=0)).exp().cumprod(0)
            out.append(keep.sum() * size + lo)
        return out

    def flops(self, E):
        """Of the backbone, on the input the estimator uses."""
        net = self.algo.architecture.backbone
        cin, cout = {}, {}
        for u, e in zip(units_of(self.algo), E):
            for ch in list(u.input_related) + list(u.output_related):
                d = cout if ch.is_output_channel else cin
                if ch.module is not None and ch.name:
                    d.setdefault(ch.module, {})[(ch.start, ch.end)] = e * (
                        (ch.end - ch.start) / u.num_channels)

        def full(d, m, n):
            parts = d.get(m, {})
            if not parts:
                return n
            rest = n - sum(b - a for a, b in parts)
            return sum(parts.values()) + rest
        total = [0.]
        hs = []

        def hook(m, a, y):
            if isinstance(m, nn.Conv2d):
                o = full(cout, m, m.out_channels)
                i = full(cin, m, m.in_channels)
                k = m.kernel_size[0] * m.kernel_size[1]
                area = y.shape[2] * y.shape[3]
                if m.groups == m.in_channels and m.groups > 1:
                    n = o
                else:
                    n = o * i / m.groups
                total[0] = total[0] + area * k * n
                if m.bias is not None:
                    total[0] = total[0] + area * o
            elif isinstance(m, nn.modules.batchnorm._BatchNorm):
                total[0] = total[0] + y.shape[2] * y.shape[3] * 2 * full(
                    cout, m, m.num_features)
            elif isinstance(m, nn.Linear):
                total[0] += a[0].numel() * y.shape[-1]
            else:
                from rv.checks.c08 import kind
                if kind(m):
                    total[0] += op_cost(m, a[0], y)
        for m in net.modules():
            hs.append(m.register_forward_hook(hook))
        was = net.training
        net.eval()
        p = next(net.parameters())
        net(torch.zeros(1, 3, 224, 224, dtype=p.dtype))
        net.train(was)
        for h in hs:
            h.remove()
        return total[0]


def flops_loss(case, f):
    a = case.args
    e = f - a['target_flops'] * 1e6
    kind = a['flops_loss_type']
    if kind == 'l1':
        x = e.abs()
    elif kind == 'l2':
        x = e**2
    else:
        r = .1 if float(e.abs()) > 200 else 1.
        lo = a['target_flops'] * 1e6 * .95
        if f < lo:
            x = (r * e.abs()).log()
        elif f < a['target_flops'] * 1e6:
            x = f * 0
        else:
            x = (r * (f - lo).abs()).log()
    return x * a['flop_loss_weight']


def check_expected(ctx, twin, ws, E):
    for u, w, e in zip(units_of(twin.algo), ws, E):
        e = float(e)
        ctx.check(abs(w - e) < .5 + 1e-3 and w >= 1, 'width:expected',
                  lambda: f'{u.name}: {w} kept of {u.num_channels}, '
                  f'expected {e}')


def drive(ctx, case, algo, wrap, steps, it0):
    from mmengine.optim import OptimWrapper, OptimWrapperDict
    rng = ctx.rng
    algo.double().train()
    tw = Twin(case, case.build(ctx).double())
    randomize(rng, algo)
    tw.algo.load_state_dict(algo.state_dict())
    tw.algo.train()
    if rng.random() < .5:
        # a target around what is expected
        f = float(tw.flops(tw.expected()))
        algo.target_flops = case.args['target_flops'] = \
            f / 1e6 / rng.choice([.9, .96, .99, 1.01, 1.03, 1.1])
    model = wrap(algo) if wrap else algo
    kw = rng.choice([dict(lr=.01), dict(lr=.003, momentum=.9)])
    akw = dict(lr=rng.choice([.1, 1e-3]))

    def opts(m):
        return (torch.optim.SGD(m.architecture.parameters(), **kw),
                torch.optim.Adam(m.mutator.parameters(), **akw))
    ow, om = opts(algo)
    w = OptimWrapperDict(architecture=OptimWrapper(ow),
                         mutator=OptimWrapper(om))
    tww, twm = opts(tw.algo)
    seed = rng.getrandbits(28)
    watch = sw.Watch(algo.architecture, lambda: widths(algo), seed)
    flops_seen = []
    drawn = 0
    real = algo.calc_current_flops

    def spy():
        ws = widths(algo)
        watch.on = False
        f = real()
        watch.on = True
        flops_seen.append((f, ws))
        return f
    algo.calc_current_flops = spy
    g = torch.Generator().manual_seed(seed)
    a = case.args
    for it in range(it0, it0 + steps):
        hub().update_info('iter', it)
        x = torch.randn(4, 3, 8, 8, generator=g).double()
        y = torch.randint(0, 50, (4, ), generator=g)
        before, nf = len(watch.seen), len(flops_seen)
        with ctx.sut('train_step'):
            got = model.train_step(dict(inputs=x, data_samples=y), w)
        ctx.event('steps')
        runs = watch.seen[before:]
        flops_now = flops_seen[nf:]
        trains = it > a['arch_start_train']
        update = trains and it % a['arch_train_freq'] == 0
        kinds = list(case.strategy)
        K = len(kinds)
        ctx.check(len(runs) == K + update, 'executions', lambda:
                  f'{len(runs)} executions for {kinds}, update {update}')
        ctx.event('executions', len(runs))
        ctx.check(all(torch.equal(r['x'], x) for r in runs), 'batch',
                  'a subnet got another batch')
        ctx.check(all(r['train'] for r in runs[:K]), 'mode',
                  'not in train mode')
        want, num = {}, {}
        teacher = None
        for j, (k, r) in enumerate(zip(kinds, runs)):
            judge(ctx, case, k, r['choice'], algo)
            if k == 'scheduled_random' and trains:
                # which of the two is a matter of chance
                name = 'random' if 'random_subnet1.loss_ce' in got else \
                    'direct'
            elif k in ('arch_random', 'scheduled_random'):
                name = 'direct' if trains else 'random'
            else:
                name = k
            num[name] = num.get(name, 0) + 1
            if name == 'direct':
                ctx.event('direct_subnets')
            tw.set(r['choice'])
            tw.scaled = trains
            torch.manual_seed(seed + before + j)
            del tw.heads[:]
            out = tw.algo.architecture(x, y, mode='loss')
            losses = dict(out)
            if k == 'max':
                teacher = tw.heads[0].detach()
            elif it > a['distillation_times']:
                losses['loss_kd'] = sw.soft(case.loss, tw.heads[0], teacher)
            for n, v in losses.items():
                want[f'{name}_subnet{num[name]}.{n}'] = v.detach()
            sum(v for n, v in losses.items() if 'loss' in n).backward()
            tww.step()
            tw.algo.zero_grad()
        if update:
            ctx.event('arch_updates')
            r = runs[K]
            ctx.check(not r['train'], 'mode:arch', 'statistics are updated')
            judge(ctx, case, 'max', r['choice'], algo)
            tw.set(r['choice'])
            tw.algo.eval()
            tw.scaled = True
            out = tw.algo.architecture(x, y, mode='loss')
            for n, v in out.items():
                want[f'arch.{n}'] = v.detach()
            sum(v for n, v in out.items() if 'loss' in n).backward()
            twm.step()
            tw.algo.zero_grad()
            tw.scaled = False
            E = tw.expected()
            ctx.check(len(flops_now) == 1, 'flops:calls', '')
            f, ws = flops_now[0]
            check_expected(ctx, tw, ws, E)
            tw.set(ws)
            ref = tw.flops(E)
            ctx.check(abs(float(f) / float(ref) - 1) < 1e-6, 'flops:expected',
                      lambda: f'{float(f)} for {float(ref)}; kept {ws}, '
                      f'expected {[float(e) for e in E]}')
            ctx.event('expected_flops')
            loss = flops_loss(case, ref)
            want['flops.loss'] = loss.detach()
            loss.backward()
            twm.step()
            tw.algo.zero_grad()
            tw.algo.train()
            ctx.check(algo.training and algo.architecture.training,
                      'mode:back', 'still in evaluation mode')
        ctx.check(set(got) == set(want), 'loss-names', lambda:
                  f'{sorted(got)} for {sorted(want)}')
        for n in want:
            v = torch.as_tensor(got[n])
            ctx.check(sw.near(v, want[n].reshape(v.shape)), 'loss-value',
                      lambda: f'iter {it} {n}: {got[n]} for {want[n]}')
        for part in ('architecture', 'mutator'):
            diff = sw.state_diff(getattr(algo, part), getattr(tw.algo, part))
            if part == 'mutator':
                diff = [d for d in diff if 'arch_params' in d]
            ctx.check(not diff, f'weights:{part}', lambda: f'iter {it} '
                      f'update {update} {a}: {diff[:4]} (of {len(diff)})')
        drawn += kinds.count('scheduled_random')
        prob = getattr(algo, 'cur_sample_prob', None)
        ctx.check(prob is None or abs(prob - .9999**drawn) < 1e-9,
                  'schedule', lambda: f'{prob} after {drawn} draws')
        if any(float(v) > 50 for n, v in want.items()
               if 'loss_ce' in n or 'loss_reg' in n):
            ctx.event('diverged')  # the optimizer's business
            break
    watch.close()


def sec_train(ctx):
    rng = ctx.rng
    case = Case(ctx)
    algo = case.build(ctx)
    if not algo.mutator.mutable_units:
        ctx.skip('no mutable unit')
        return
    ddp = rng.random() < .3
    ctx.key(case.tracer, case.cfg, str(case.strategy), ddp,
            str(sorted(case.args.items())), len(units_of(algo)))
    with contextlib.ExitStack() as st:
        wrap = None
        if ddp:
            from mmrazor.models.algorithms import DMCPDDP
            st.enter_context(sw.one_rank())
            wrap = lambda m: DMCPDDP(  # noqa: E731
                module=m, find_unused_parameters=True,
                broadcast_buffers=False)
        drive(ctx, case, algo, wrap, rng.randint(2, 5), rng.choice([0, 0, 3]))
    ctx.sample(dict(cfg=case.cfg, strategy=case.strategy, **case.args))


def sec_sample(ctx):
    """Widths are distributed as the parameters say."""
    rng = ctx.rng
    case = Case(ctx)
    algo = case.build(ctx)
    randomize(rng, algo)
    if rng.random() < .3:
        algo = copy.deepcopy(algo)
    ctx.key(case.cfg, len(units_of(algo)))
    us = units_of(algo)
    for kind in ('max', 'min'):
        with ctx.sut('set_subnet'):
            algo.set_subnet(kind, arch_train=rng.random() < .5)
        judge(ctx, case, kind, widths(algo), algo)
    N = 400
    for kind in ('random', 'direct'):
        hist = [dict() for _ in us]
        for _ in range(N):
            with ctx.sut('set_subnet'):
                algo.set_subnet(kind, arch_train=False)
            for h, c in zip(hist, widths(algo)):
                h[c] = h.get(c, 0) + 1
            ctx.event('samples')
        judge(ctx, case, kind, widths(algo), algo)
        for i, (u, h) in enumerate(zip(us, hist)):
            size, num, lo = layout(case, u.num_channels)
            if not size:
                continue
            p = probs(algo, i).tolist()
            keep = 1.
            for k in range(1, num + 1):
                keep = keep * p[k - 1] if kind == 'direct' else \
                    1 - k / (num + 1)
                got = sum(c for v, c in h.items() if v >= lo + size * k) / N
                # five deviations
                tol = 5 * (max(keep * (1 - keep), 1e-4) / N)**.5 + 1e-3
                ctx.check(abs(got - keep) <= tol, f'distribution:{kind}',
                          lambda: f'{u.name}: at least {k} groups in {got} of '
                          f'the samples, expected {keep}')
    # what runs is what was sampled
    x = torch.randn(2, 3, 8, 8)
    algo.eval()
    with torch.no_grad(), ctx.sut('forward'):
        algo(x, mode='tensor')
    tw = Twin(case, algo)
    E = tw.expected()
    with ctx.sut('expected'):
        algo.set_subnet('expected', arch_train=False)
        f = algo.calc_current_flops()
    check_expected(ctx, tw, widths(algo), E)
    ref = tw.flops(E)
    ctx.check(abs(float(f) / float(ref) - 1) < 1e-5, 'flops:expected',
              lambda: f'{float(f)} for {float(ref)}')
    ctx.event('expected_flops')
    # and after it, a plain subnet
    with ctx.sut('direct'):
        algo.set_subnet('direct', arch_train=False)
        f = algo.calc_current_flops()
    ref = tw.flops([float(w) for w in widths(algo)])
    ctx.check(abs(float(f) / float(ref) - 1) < 1e-5, 'flops:direct',
              lambda: f'{float(f)} for {float(ref)}')
    ctx.event('expected_flops')


def sec_ranks(ctx):
    """Ranks draw different subnets and keep one model."""
    rng = ctx.rng
    case = Case(ctx)
    case.args.update(arch_start_train=-1, arch_train_freq=rng.randint(1, 2),
                     distillation_times=rng.choice([-1, 100]))
    probe = case.build(ctx)
    if not probe.mutator.mutable_units:
        ctx.skip('no mutable unit')
        return
    ctx.key(case.cfg, str(case.strategy), len(units_of(probe)))
    seed = rng.getrandbits(28)
    n = rng.randint(2, 4)
    same = rng.random() < .3

    def one(rank):
        from mmengine.optim import OptimWrapper, OptimWrapperDict

        from mmrazor.models.algorithms import DMCPDDP
        algo = case.build(ctx).double().train()
        randomize(random.Random(seed), algo)
        ddp = DMCPDDP(module=algo, find_unused_parameters=True,
                      broadcast_buffers=False)
        ddp.train()
        w = OptimWrapperDict(
            architecture=OptimWrapper(torch.optim.SGD(
                algo.architecture.parameters(), lr=.02)),
            mutator=OptimWrapper(torch.optim.Adam(
                algo.mutator.parameters(), lr=.05)))
        random.seed(seed if same else seed + rank)
        out = []
        for it in range(n):
            hub().update_info('iter', it)
            g = torch.Generator().manual_seed(seed + 10 * it + rank)
            x = torch.randn(4, 3, 8, 8, generator=g).double()
            y = torch.randint(0, 50, (4, ), generator=g)
            ddp.train_step(dict(inputs=x, data_samples=y), w)
            out.append({k: p.detach().numpy().copy()
                        for k, p in algo.named_parameters()})
        return out
    try:
        res = ranks.run(2, one)
    except ranks.RankError as e:
        ctx.check(False, f'ranks:raised:{e.kind}', f'{e}\n{e.tb[-600:]}')
    for it in range(n):
        off = [k for k in res[0][it] if not sw.near(
            torch.from_numpy(res[0][it][k]),
            torch.from_numpy(res[1][it][k]), 1e-9)]
        ctx.check(not off, 'ranks:agree', lambda:
                  f'after step {it} the ranks differ in {off[:3]}')
        ctx.event('rank_steps')
    moved = [k for k in res[0][0] if 'arch_params' in k and n > 1 and bool(
        (res[0][0][k] != res[0][-1][k]).any())]
    ctx.event('arch_moved', len(moved))


def sec_hook(ctx):
    """The subnets drawn at the end of a run."""
    from mmrazor.engine import DMCPSubnetHook
    from mmrazor.registry import MODELS
    if 'RVC19Arch' not in MODELS.module_dict:
        MODELS.register_module('RVC19Arch', module=arch_of)
    rng = ctx.rng
    case = Case(ctx)
    algo = case.build(ctx)
    if not algo.mutator.mutable_units:
        ctx.skip('no mutable unit')
        return
    randomize(rng, algo)
    ctx.key(case.cfg, case.tracer, len(units_of(algo)))
    # a target that is drawn now and then
    fs = []
    for _ in range(12):
        with ctx.sut('flops'):
            algo.set_subnet('direct', arch_train=False)
            fs.append(float(algo.calc_current_flops()))
    target = rng.choice(fs)
    algo.target_flops = target / 1e6
    n = rng.randint(1, 3)
    d = tempfile.mkdtemp(prefix='rv-c19-')
    drawn = []
    real = algo.calc_current_flops

    def spy():
        f = real()
        drawn.append((float(f), widths(algo)))
        if len(drawn) > 600:
            raise TimeoutError
        return f
    algo.calc_current_flops = spy

    class R:
        work_dir = d
        model = algo

        class logger:
            info = staticmethod(lambda *a: None)
    try:
        with ctx.sut('hook'):
            try:
                DMCPSubnetHook(subnet_sample_num=n).after_run(R)
            except TimeoutError:
                ctx.event('target_too_rare')
                return
        algo.calc_current_flops = real
        ctx.event('exports')
        files = sorted(os.listdir(f'{d}/model_sample'))
        ctx.check(files == sorted(
            [f'subnet_{i + 1}.json' for i in range(n)] +
            ['excepted_ch.json']), 'hook:files', f'{files}')
        tw = Twin(case, algo)
        E = tw.expected()
        for f in files:
            js = json.load(open(f'{d}/model_sample/{f}'))
            ws = {k: v['choice'] for k, v in
                  js['channel_unit_cfg']['units'].items()}
            ws = [ws[u.name] for u in units_of(algo)]
            if f.startswith('exc'):
                check_expected(ctx, tw, ws, E)
            else:
                judge(ctx, case, 'direct', ws, algo)
                tw.set(ws)
                ref = float(tw.flops([float(w) for w in ws]))
                ctx.check(.95 - 1e-6 <= ref / target <= 1.05 + 1e-6,
                          'hook:flops', f'{f} has {ref}, target {target}')
            # the documented way to train it
            with ctx.sut('sub_model'):
                sub = MODELS.build(dict(
                    type='mmrazor.sub_model',
                    cfg=dict(type='RVC19Arch', seed=case.seed,
                             spec=json.dumps(case.spec)), fix_subnet=js,
                    mode='mutator'))
            mods = dict(sub.named_modules())
            for u, w in zip(units_of(algo), ws):
                for ch in u.output_related:
                    m = mods.get(ch.name)
                    c = getattr(m, 'out_channels',
                                getattr(m, 'num_features', None))
                    raw = getattr(ch.module, 'out_channels',
                                  getattr(ch.module, 'num_features', None))
                    if c is not None and (ch.start, ch.end) == (
                            0, u.num_channels) and raw == u.num_channels:
                        ctx.check(c == w, 'sub:width',
                                  f'{ch.name}: {c} for {w}')
            # it computes what the slices of the supernet do
            tw.set(ws)
            x = torch.randn(2, 3, 8, 8)
            sub.eval()
            algo.eval()
            tw.scaled = False
            with torch.no_grad(), ctx.sut('forward'):
                got = sub(x, mode='tensor')
                algo.mutator.modify_supernet_forward(False)
                want = algo.architecture(x, mode='tensor')
            ctx.check(sw.near(got, want, 1e-4), 'sub:output',
                      'another network')
            ctx.event('exported_subnets')
    finally:
        shutil.rmtree(d, ignore_errors=True)


SECTIONS = {
    'train': (sec_train, 60, 900),
    'sample': (sec_sample, 12, 150),
    'ranks': (sec_ranks, 6, 60),
    'hook': (sec_hook, 24, 300),
}
CASE_LIMIT = 150
