"""C10: recalibrated batch norm statistics and subnet validation."""
import copy
import os
import pickle
import shutil
import tempfile

import torch
import torch.nn as nn
from torch.nn.modules.batchnorm import _BatchNorm

from rv import nas, search
from rv.checks.c09 import two_ranks

ID = 'C10'
RULE = (
    'random networks with 1d/2d/3d, dynamic (masked), shared, nested and '
    'unused norms; random batch formats, sizes and sample numbers; the '
    'inputs of every norm are observed in an own run and averaged in float64')
ASSUMPTIONS = [
    'norms track running statistics; no norm is switchable',
    'several ranks: whole batches of every rank may exceed the number of '
    'samples',
]
REQUIRED_EVENTS = {'norms': 150, 'unchosen': 40, 'samples': 500,
                   'subnets_validated': 30,
                   'evolve_calibrated': 60, 'evolve_given': 10, 'rank_norms': 3}


class Net(nn.Module):
    """A chain of norms of one kind, with branches."""

    def __init__(self, spec):
        super().__init__()
        d = spec['dim']
        conv = {1: nn.Conv1d, 2: nn.Conv2d, 3: nn.Conv3d}[d]
        bn = {1: nn.BatchNorm1d, 2: nn.BatchNorm2d, 3: nn.BatchNorm3d}[d]
        self.spec = spec
        c = spec['c']
        self.stem = conv(3, c, 1)
        self.layers = nn.ModuleList()
        for kind in spec['layers']:
            if kind == 'dyn':
                from mmrazor.models.architectures import dynamic_ops as D
                from mmrazor.models.mutables import (
                    MutableChannelContainer, SimpleMutableChannel)
                m = {1: D.DynamicBatchNorm1d, 2: D.DynamicBatchNorm2d,
                     3: D.DynamicBatchNorm3d}[d](c)
                m.register_mutable_attr(
                    'num_features', MutableChannelContainer(c))
                mc = SimpleMutableChannel(c)
                MutableChannelContainer.register_mutable_channel_to_module(
                    m, mc, False)
                mc.current_choice = torch.tensor(spec['mask'])
                self.layers.append(m)
            elif kind == 'two':
                self.layers.append(nn.ModuleList([bn(c), bn(c)]))
            elif kind == 'free':
                self.layers.append(bn(c, affine=False))
            else:
                self.layers.append(bn(c))
        self.n_lin = spec['flat']
        if self.n_lin:
            self.fc = nn.Linear(c, c)
            self.head_bn = nn.BatchNorm1d(c)

    def forward(self, x):
        s = self.spec
        x = self.stem(x)
        mask = torch.tensor(s['mask'])
        for kind, m in zip(s['layers'], self.layers):
            if kind == 'dyn':
                y = x.new_zeros(x.shape)
                y[:, mask] = m(x[:, mask])
                x = y * 1.5 + .1
            elif kind == 'two':
                x = m[s['branch']](x) * .7
            elif kind == 'shared':
                x = m(torch.tanh(m(x) + .3))
            elif kind == 'off':
                pass
            else:
                x = torch.relu(m(x)) + x
        if self.n_lin:
            x = self.head_bn(self.fc(x.flatten(2).mean(-1)))
        return x


def rand_spec(rng):
    c = rng.randint(2, 6)
    mask = [rng.random() < .6 for _ in range(c)]
    if rng.random() < .5:
        k = rng.randint(1, c)
        mask = [i < k for i in range(c)]
    mask[rng.randrange(c)] = True
    return dict(
        dim=rng.choice([1, 2, 2, 3]), c=c, mask=mask, branch=rng.randint(0, 1),
        flat=rng.random() < .4, mom=rng.choice([.1, .5, None]),
        layers=[rng.choice(['bn', 'dyn', 'dyn', 'two', 'shared', 'off',
                            'free'])
                for _ in range(rng.randint(1, 4))])


class Model(nn.Module):

    def __init__(self, spec, seed):
        super().__init__()
        torch.manual_seed(seed)
        self.net = Net(spec)
        self.device = torch.device('cpu')
        self.used = []
        for m in self.modules():
            if isinstance(m, _BatchNorm):
                m.momentum = spec['mom']
                m.running_mean.normal_()
                m.running_var.uniform_(.5, 2)
                if m.affine:
                    m.weight.data.uniform_(.5, 2)
                    m.bias.data.normal_()

    @staticmethod
    def inputs(data):
        x = data['inputs'] if isinstance(data, dict) else data
        return torch.stack(list(x)) if isinstance(x, list) else x

    def test_step(self, data):
        x = self.inputs(data)
        if isinstance(data, dict) and 'data_samples' in data:
            assert len(data['data_samples']) == len(x)
        self.used.append(len(x))
        return self.net(x)


class Loop:

    def __new__(cls, model):
        from mmrazor.engine.runner.utils import CalibrateBNMixin

        class L(CalibrateBNMixin):
            pass

        lo = L()
        lo.runner = search.Runner(model, '.')
        return lo


def batches(rng, spec, sizes, seed, fmt):
    g = torch.Generator().manual_seed(seed)
    hw = [4] * spec['dim']
    out = []
    for i, n in enumerate(sizes):
        x = torch.randn(n, 3, *hw, generator=g) * (1 + i) + i
        if fmt == 'tensor':
            out.append(x)
        elif fmt == 'dict':
            out.append(dict(inputs=x, data_samples=[object()] * n))
        elif fmt == 'dict3':
            out.append(dict(inputs=x, data_samples=[object()] * n,
                            idx=list(range(n))))
        else:
            out.append(dict(inputs=list(x), data_samples=[object()] * n))
    return out


def expected(model, data, num):
    """Statistics of the norms' inputs over the first num samples."""
    ref = copy.deepcopy(model)
    rec = {}

    def hook(name):

        def fn(m, inp):
            x = inp[0].double()
            d = [i for i in range(x.dim()) if i != 1]
            n = x.numel() / x.shape[1]
            mean = x.mean(d)
            var = ((x - mean.reshape([1, -1] + [1] * (x.dim() - 2)))**2
                   ).sum(d) / (n - 1)
            rec.setdefault(name, []).append((len(x), mean, var))

        return fn

    for name, m in ref.named_modules():
        if isinstance(m, _BatchNorm):
            m.register_forward_pre_hook(hook(name))
    ref.train()
    left = num
    used = 0
    with torch.no_grad():
        for b in data:
            x = Model.inputs(b)[:left]
            ref.net(x)
            used += len(x)
            left -= len(x)
            if left <= 0:
                break
    out = {}
    for name, lst in rec.items():
        tot = sum(n for n, _, _ in lst)
        out[name] = (sum(n * a for n, a, _ in lst) / tot,
                     sum(n * v for n, _, v in lst) / tot)
    return out, used


def compare(ctx, model, before, want, what='norms'):
    after = dict(model.state_dict())
    for name, m in model.named_modules():
        if not isinstance(m, _BatchNorm):
            continue
        keys = [f'{name}.running_mean', f'{name}.running_var']
        if name not in want:
            for k in keys + [f'{name}.num_batches_tracked']:
                ctx.check(torch.equal(after[k], before[k]),
                          'calibration:unused-norm-changed', k)
            ctx.event('unchosen')
            continue
        for k, w in zip(keys, want[name]):
            full = before[k].double().clone()
            if len(w) == len(full):
                full = w
            else:
                full[torch.tensor(model.net.spec['mask'])] = w
            ok = torch.allclose(after[k].double(), full, rtol=2e-4, atol=1e-4)
            ctx.check(ok, 'calibration:' + k.split('.')[-1],
                      lambda: f'{k}: {after[k]} want {full}')
        ctx.event(what)
    for k, v in before.items():
        if 'running_' in k or 'num_batches' in k:
            continue
        ctx.check(torch.equal(v, after[k]), 'calibration:weights-changed', k)
    for n, m in model.named_modules():
        ctx.check(not m._forward_hooks and not m._forward_pre_hooks,
                  'calibration:hooks-left', n)
        left = [a for a in m.__dict__ if '_meter_' in a]
        ctx.check(not left, 'calibration:meters-left', lambda: f'{n} {left}')


def sec_calibrate(ctx):
    rng = ctx.rng
    spec = rand_spec(rng)
    fmt = rng.choice(['tensor', 'dict', 'dict3', 'list'])
    sizes = [rng.randint(2, 7)] * rng.randint(1, 4) + [rng.randint(2, 5)]
    total = sum(sizes)
    num = rng.choice([total, rng.randint(2, total), rng.randint(2, total),
                      total + 5, sizes[0], sizes[0] + 2])
    model = Model(spec, ctx.case_seed)
    data = batches(rng, spec, sizes, ctx.case_seed, fmt)
    # the last piece of a single value has no variance
    s, left = 0, num
    for n in sizes:
        if left - n == 1:
            num += 1
            break
        left -= n
        if left <= 0:
            break
    ctx.key(repr(spec), fmt, repr(sizes), num)
    ctx.sample(dict(spec=repr(spec), fmt=fmt, sizes=sizes, num=num))
    want, used = expected(model, data, num)
    before = search.state(model)
    loop = Loop(model)
    with ctx.sut('calibrate'):
        loop.calibrate_bn_statistics(data, num)
    ctx.check(sum(model.used) == used == min(num, total),
              'calibration:samples',
              lambda: f'{model.used} used, {num} of {total} wanted')
    ctx.event('samples', used)
    compare(ctx, model, before, want)
    # a second time: the result depends on the data only
    if rng.random() < .5:
        model.train(False)
        with ctx.sut('calibrate-again'):
            loop.calibrate_bn_statistics(data, num)
        compare(ctx, model, before, want)


# ----------------------------------------------------- subnet validation
def sec_val(ctx):
    from mmrazor.engine import SubnetValLoop
    from mmrazor.models.task_modules import ResourceEstimator
    rng = ctx.rng
    kinds = rng.choice([['max', 'min', 'random'], ['random0', 'random1'],
                        ['min'], ['random', 'max']])
    # operators have no largest and smallest choice
    blocks = (nas.ONESHOT[:4] if kinds[0] == 'random0' else
              ['depth', 'kernel']) + ['expand']
    spec = nas.rand_spec(rng, kinds=blocks, nblocks=rng.randint(1, 4))
    seed = ctx.case_seed % 10**6
    model = search.make_spos(spec, seed)
    model.sample_kinds = kinds
    fixed = rng.random() < .3
    if fixed:
        model.mutator.set_choices(model.mutator.sample_choices())
    chosen = copy.deepcopy(model.mutator.current_choices) if fixed else None
    num = rng.choice([2, 4, 6, 9])
    train = [dict(inputs=torch.randn(rng.randint(2, 3), 3, nas.HW, nas.HW)
                  * 2 + 1) for _ in range(3)]
    shape = (1, 3, nas.HW, nas.HW)
    runner = search.Runner(model, '.', train=train)
    metrics = {}
    runner.call_hook = lambda name, **k: metrics.update(
        k.get('metrics') or {}) if name == 'after_val_epoch' else None
    ev = search.mm_evaluator(model, 'acc')
    ctx.key(nas.describe(spec), repr(kinds), num, fixed)
    ctx.sample(dict(spec=nas.describe(spec), kinds=kinds, num=num))
    with ctx.sut('init'):
        loop = SubnetValLoop(
            runner, search.loader(), ev, evaluate_fixed_subnet=fixed,
            calibrate_sample_num=num,
            estimator_cfg=dict(type='mmrazor.ResourceEstimator',
                               input_shape=shape))
    with ctx.sut('run'):
        loop.run()
    names = ['fix'] if fixed else [
        k for k in kinds]
    ctx.check(len(ev.seen) == len(names), 'val:number',
              lambda: f'{len(ev.seen)} of {names}')
    ref = search.make_spos(spec, seed)
    for name, (subnet, score, y) in zip(names, ev.seen):
        ref.mutator.set_choices(subnet)
        if name == 'max':
            want = ref.mutator.max_choices
        elif name == 'min':
            want = ref.mutator.min_choices
        else:
            want = chosen if fixed else subnet
        ctx.check(search.key_of(subnet) == search.key_of(want),
                  'val:other-subnet', lambda: f'{name}: {subnet} {want}')
        # outputs of the subnet with statistics of the training data
        stats(ref, train, num)
        ref.eval()
        with torch.no_grad():
            out = torch.cat([ref(b['inputs']) for b in search.loader()])
        ctx.check(torch.allclose(out, y, atol=1e-3, rtol=1e-3),
                  'val:outputs',
                  lambda: f'{name} {subnet}: {(out - y).abs().max()}')
        res = ResourceEstimator(input_shape=shape).estimate(ref)
        got = {k: metrics.get(f'{name}_subnet.{k}') for k in
               ('acc', 'flops', 'params')}
        ctx.check(got == dict(acc=score, flops=res['flops'],
                              params=res['params']), 'val:metrics',
                  lambda: f'{name}: {got}, {score} {res}; {list(metrics)}')
        ctx.event('subnets_validated')


def stats(model, train, num):
    """Set the running statistics of ``model`` from the data, own code."""
    rec = {}

    def hook(m, inp):
        x = inp[0]
        n = x.numel() / x.shape[1]
        mean = x.mean((0, 2, 3))
        var = x.var((0, 2, 3), unbiased=False) * n / (n - 1)
        rec.setdefault(m, []).append((len(x), mean, var))

    hs = [m.register_forward_pre_hook(hook) for m in model.modules()
          if isinstance(m, _BatchNorm)]
    model.train()
    keep = search.state(model)
    left = num
    with torch.no_grad():
        for b in train:
            model(b['inputs'][:left])
            left -= len(b['inputs'])
            if left <= 0:
                break
    model.load_state_dict(keep)
    for h in hs:
        h.remove()
    for m, lst in rec.items():
        tot = sum(n for n, _, _ in lst)
        k = len(lst[0][1])
        m.running_mean[:k] = sum(n * a for n, a, _ in lst) / tot
        m.running_var[:k] = sum(n * v for n, _, v in lst) / tot


# ------------------------------------------------- evolution search
def sec_evolve(ctx):
    """Every candidate of a search is judged with the statistics of the
    training data (or, without calibration, with those it was given)."""
    from mmrazor.engine import EvolutionSearchLoop
    rng = ctx.rng
    spec = nas.rand_spec(rng, kinds=nas.ONESHOT[:4] + ['expand'],
                         nblocks=rng.randint(1, 3))
    seed = ctx.case_seed % 10**6
    model = search.make_spos(spec, seed)
    num = rng.choice([0, 2, 4, 7])
    train = [dict(inputs=torch.randn(rng.randint(2, 3), 3, nas.HW, nas.HW)
                  * 2 + 1) for _ in range(3)]
    work = tempfile.mkdtemp()
    epochs = rng.randint(2, 3)
    ctx.key(nas.describe(spec), num, epochs)
    ctx.sample(dict(spec=nas.describe(spec), num=num, epochs=epochs))
    try:
        runner = search.Runner(model, work, train=train)
        ev = search.Evaluator(model, 'acc')
        with ctx.sut('init'):
            loop = EvolutionSearchLoop(
                runner, search.loader(), ev, max_epochs=epochs,
                num_candidates=rng.randint(4, 5), top_k=2, num_mutation=2,
                num_crossover=2, calibrate_sample_num=num, score_key='acc')
        # as after training
        if rng.random() < .7:
            model.train()
        given = search.state(model)
        with ctx.sut('run'):
            loop.run()
    finally:
        shutil.rmtree(work)
    ctx.check(len(ev.seen) >= 4 * epochs, 'evolve:number', len(ev.seen))
    ref = search.make_spos(spec, seed)
    ref.load_state_dict(given)
    for i, (subnet, score, y) in enumerate(ev.seen):
        ref.mutator.set_choices(subnet)
        if num:
            stats(ref, train, num)
        ref.eval()
        with torch.no_grad():
            out = torch.cat([ref(b['inputs']) for b in search.loader()])
        ctx.check(torch.allclose(out, y, atol=1e-3, rtol=1e-3),
                  'evolve:outputs', lambda: f'candidate {i} of {len(ev.seen)},'
                  f' {num} samples: {(out - y).abs().max()}')
        ctx.event('evolve_calibrated' if num else 'evolve_given')


# ---------------------------------------------------------------- ranks
def _rank(rank, init, path, spec, seed, sizes, num):
    import torch.distributed as dist
    torch.set_num_threads(1)
    dist.init_process_group('gloo', init_method=f'file://{init}', rank=rank,
                            world_size=2)
    model = Model(spec, seed)
    data = batches(None, spec, sizes[rank], seed + rank, 'dict')
    Loop(model).calibrate_bn_statistics(data, num)
    with open(f'{path}.{rank}', 'wb') as f:
        pickle.dump((search.state(model), model.used), f)
    dist.barrier()
    dist.destroy_process_group()


def sec_ranks(ctx):
    """Two ranks with different batch sizes: both get the statistics of all
    samples together."""
    rng = ctx.rng
    spec = dict(rand_spec(rng), dim=2, flat=False)
    spec['layers'] = [k if k != 'shared' else 'bn' for k in spec['layers']]
    n = rng.randint(1, 3)
    sizes = [[rng.randint(2, 6) for _ in range(n)] for _ in range(2)]
    num = sum(map(sum, sizes))
    ctx.key(repr(spec), repr(sizes))
    ctx.sample(dict(spec=repr(spec), sizes=sizes))
    work = tempfile.mkdtemp()
    try:
        path = os.path.join(work, 'out')
        codes = two_ranks(_rank, (os.path.join(work, 'init'), path, spec,
                                  ctx.case_seed, sizes, num))
        ctx.check(codes == [0, 0], 'ranks:failed-or-hung', str(codes))
        res = [pickle.load(open(f'{path}.{k}', 'rb')) for k in (0, 1)]
    finally:
        shutil.rmtree(work)
    model = Model(spec, ctx.case_seed)
    before = search.state(model)
    # per step, the ranks' batches are averaged with their sizes
    datas = [batches(None, spec, sizes[r], ctx.case_seed + r, 'dict')
             for r in (0, 1)]
    left, steps = num, 0
    for i in range(n):
        steps += 1
        left -= sizes[0][i] + sizes[1][i]
        if left <= 0:
            break
    want = {}
    for r in (0, 1):
        w, used = expected(model, datas[r][:steps], 10**6)
        for k, (a, v) in w.items():
            want.setdefault(k, []).append((used, a, v))
    want = {k: (sum(n * a for n, a, _ in v) / sum(n for n, _, _ in v),
                sum(n * b for n, _, b in v) / sum(n for n, _, _ in v))
            for k, v in want.items()}
    for r in (0, 1):
        model.load_state_dict(res[r][0])
        compare(ctx, model, before, want, 'rank_norms')
        ctx.check(sum(res[r][1]) == sum(sizes[r][:steps]), 'ranks:samples',
                  lambda: f'{res[r][1]} of {sizes}')


SECTIONS = dict(
    calibrate=(sec_calibrate, 300, 4000),
    val=(sec_val, 48, 500),
    evolve=(sec_evolve, 24, 250),
    ranks=(sec_ranks, 3, 30),
)
