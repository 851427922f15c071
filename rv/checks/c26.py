"""C26: the loops that feed, train, validate and search supernets."""
import copy
import glob
import math
import os
import pickle
import random
import shutil
import tempfile
import warnings

import torch

from rv import nas, search, sandwich as sw
from rv.prune import make_mutator, tracer_spec

ID = 'C26'
RULE = (
    'random datasets, batch sizes, samplers, lengths and schedules for the '
    'two-loader loops on the real mmengine runner; random supernets, pool '
    'sizes and schedules for the greedy sampler; random pruned networks, '
    'targets and crash points for the slimmable and AutoSlim loops')
ASSUMPTIONS = [
    'one rank; loaders without workers',
    'the evaluator is a deterministic function of the outputs',
]
REQUIRED_EVENTS = {'batches': 300, 'epochs': 30, 'restarts': 10,
                   'resumed_batches': 20, 'refreshes': 10, 'trained': 40,
                   'pool_scores': 60, 'probs': 100, 'subnets_validated': 15,
                   'greedy_steps': 20, 'crash_points': 10, 'targets': 8}


class Ids(torch.utils.data.Dataset):

    def __init__(self, n, base=0):
        self.n, self.base = n, base

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return dict(inputs=torch.tensor([float(self.base + i)]))


def two_model():
    from mmengine.model import BaseModel

    class Model(BaseModel):

        def __init__(self):
            super().__init__()
            self.w = torch.nn.Parameter(torch.ones(1))
            self.log = []

        def forward(self, inputs=None, mode='loss'):
            return dict(loss=self.w.sum())

        def train_step(self, data, optim_wrapper):
            self.log.append((data, self.training))
            loss = self.w.sum()
            optim_wrapper.update_params(loss)
            return dict(loss=loss)

        def val_step(self, data):
            return []
    return Model()


class Events:
    """A hook noting where the training is."""

    def __new__(cls):
        from mmengine.hooks import Hook

        class W(Hook):
            priority = 'VERY_LOW'

            def __init__(self):
                self.seen = []

            def before_train(self, runner):
                self.seen.append(('train', ))

            def before_train_epoch(self, runner):
                self.seen.append(('epoch', runner.epoch))

            def before_train_iter(self, runner, batch_idx, data_batch=None):
                self.seen.append(('iter', runner.iter, batch_idx))

            def after_train_iter(self, runner, batch_idx, data_batch=None,
                                 outputs=None):
                self.seen.append(('done', runner.iter, batch_idx))

            def after_train_epoch(self, runner):
                self.seen.append(('end', runner.epoch))

            def after_train(self, runner):
                self.seen.append(('finish', ))

            def before_val(self, runner):
                self.seen.append(('val', runner.epoch, runner.iter))
        return W()


def loader_cfg(rng, n, base, finite=True):
    kind = rng.choice(['DefaultSampler', 'InfiniteSampler']) \
        if not finite else 'DefaultSampler'
    return dict(
        dataset=Ids(n, base), num_workers=0,
        batch_size=rng.randint(1, 3), drop_last=rng.random() < .3,
        sampler=dict(type=kind, shuffle=rng.random() < .7),
        collate_fn=dict(type='pseudo_collate'))


def order_of(cfg, epoch, seed):
    """The batches of one pass, by the definition of the sampler."""
    n = len(cfg['dataset'])
    if cfg['sampler']['shuffle']:
        g = torch.Generator()
        g.manual_seed(seed + epoch)
        idx = torch.randperm(n, generator=g).tolist()
    else:
        idx = list(range(n))
    return batches(cfg, idx)


def batches(cfg, idx):
    b = cfg['batch_size']
    out = [[cfg['dataset'].base + i for i in idx[k:k + b]]
           for k in range(0, len(idx), b)]
    if cfg['drop_last'] and out and len(out[-1]) < b:
        out.pop()
    return out


def endless(cfg, seed):
    n, idx = len(cfg['dataset']), []
    g = torch.Generator()
    g.manual_seed(seed)
    while True:
        idx += torch.randperm(n, generator=g).tolist() \
            if cfg['sampler']['shuffle'] else list(range(n))
        while len(idx) >= cfg['batch_size']:
            b, idx = idx[:cfg['batch_size']], idx[cfg['batch_size']:]
            yield [cfg['dataset'].base + i for i in b]


def got(data):
    return [[int(v) for v in d['inputs']] if isinstance(d, dict) else d
            for d in data]


def make_runner(work, model, train, train_cfg, val, seed, epoch, hooks):
    import mmengine.runner.runner as mr
    from mmengine.evaluator import BaseMetric, Evaluator
    from mmengine.runner import Runner

    class Acc(BaseMetric):

        def process(self, data_batch, data_samples):
            pass

        def compute_metrics(self, results):
            return dict(acc=1.)

    mr.collect_env = lambda: {}
    args = dict(
        model=model, work_dir=work, log_level='CRITICAL',
        train_dataloader=copy.deepcopy(train), train_cfg=train_cfg,
        optim_wrapper=dict(type='OptimWrapper',
                           optimizer=dict(type='SGD', lr=.1)),
        default_hooks=dict(
            logger=None, param_scheduler=None,
            sampler_seed=dict(type='DistSamplerSeedHook'),
            checkpoint=dict(type='CheckpointHook', interval=1,
                            by_epoch=epoch)),
        visualizer=dict(type='Visualizer', vis_backends=[]),
        randomness=dict(seed=seed), custom_hooks=list(hooks),
        default_scope='mmrazor',
        experiment_name=os.path.basename(work))
    if val:
        args.update(val_dataloader=dict(
            dataset=Ids(1), num_workers=0, batch_size=1,
            sampler=dict(type='DefaultSampler', shuffle=False)),
            val_cfg=dict(), val_evaluator=Evaluator(Acc()))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return Runner(**args)


def scratch(fn):

    def run(ctx):
        work = tempfile.mkdtemp(prefix='rv-c26-')
        try:
            fn(ctx, work)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    run.__name__ = fn.__name__
    return run


@scratch
def multi_epoch(ctx, work):
    rng = ctx.rng
    train = loader_cfg(rng, rng.randint(3, 9), 0)
    mutat = loader_cfg(rng, rng.randint(3, 9), 100)
    if rng.random() < .3:
        mutat = dict(copy.deepcopy(train), dataset=Ids(
            len(train['dataset']), 100))
    epochs, begin = rng.randint(1, 3), rng.randint(1, 3)
    every, seed = rng.randint(1, 3), rng.randint(0, 999)
    val = rng.random() < .6
    ids = [len(order_of(c, 0, seed)) for c in (train, mutat)]
    per = min(ids)
    ctx.key('multi-epoch', ids[0] > ids[1], ids[0] < ids[1], epochs, val,
            train['sampler']['shuffle'], mutat['sampler']['shuffle'])
    cfg = dict(type='DartsEpochBasedTrainLoop', max_epochs=epochs,
               mutator_dataloader=copy.deepcopy(mutat), val_begin=begin,
               val_interval=every)

    def run(name, resume=None):
        model, hook = two_model(), Events()
        with ctx.sut('train'):
            r = make_runner(os.path.join(work, name), model, train,
                            copy.deepcopy(cfg), val, seed, True, [hook])
            if resume:
                r._resume, r._load_from = True, resume
            r.train()
        return r, model, hook

    r, model, hook = run('full')
    want = []
    for e in range(epochs):
        want += list(zip(order_of(train, e, seed),
                         order_of(mutat, e, seed)))[:per]
    judge_feed(ctx, model, want, 'epoch-loop')
    ctx.event('epochs', epochs)
    ctx.check(r.iter == per * epochs and r.epoch == epochs, 'counters',
              lambda: f'iter {r.iter} epoch {r.epoch} of {per}*{epochs}')
    ctx.check(r.max_iters == per * epochs, 'max-iters', lambda:
              f'max_iters {r.max_iters}, {per * epochs} iterations are run')
    if not per:
        return
    seen = [s for s in hook.seen if s[0] in ('epoch', 'end')]
    ctx.check(seen == [p for e in range(epochs)
                       for p in (('epoch', e), ('end', e))],
              'epoch-hooks', lambda: f'{seen}')
    it = [s for s in hook.seen if s[0] in ('iter', 'done')]
    ctx.check(it == [p for i in range(per * epochs) for p in
                     (('iter', i, i % per), ('done', i, i % per))],
              'iter-hooks', lambda: f'{it[:12]}')
    vals = [s[1] for s in hook.seen if s[0] == 'val']
    must = [e for e in range(1, epochs + 1)
            if e >= begin and e % every == 0] if val else []
    ctx.check(vals in (must, sorted(set(must) | (
        {epochs} if val and epochs >= begin else set()))), 'validation-time',
        lambda: f'validated after epochs {vals}, want {must}')
    # resumed from every checkpoint
    for e in range(1, epochs):
        _, m2, _ = run(f'resume{e}', os.path.join(
            work, 'full', f'epoch_{e}.pth'))
        ctx.event('resumed_batches', len(m2.log))
        judge_feed(ctx, m2, want[e * per:], 'epoch-resume')
    ctx.sample(dict(loop='epoch', n=ids, epochs=epochs))


def judge_feed(ctx, model, want, mech):
    ctx.check(len(model.log) == len(want), f'{mech}:number', lambda:
              f'{len(model.log)} iterations, want {len(want)}')
    for i, ((data, training), w) in enumerate(zip(model.log, want)):
        ctx.event('batches')
        g = got(data)
        ctx.check(g == [list(x) for x in w], f'{mech}:batch', lambda:
                  f'iteration {i} got {g}, want {w}')
        ctx.check(training, f'{mech}:mode', f'evaluation mode at {i}')


@scratch
def multi_iter(ctx, work):
    rng = ctx.rng
    train = loader_cfg(rng, rng.randint(3, 8), 0, False)
    mutat = loader_cfg(rng, rng.randint(3, 8), 100, False)
    seed = rng.randint(0, 999)
    total = rng.randint(1, 20)
    begin, every = rng.randint(1, 6), rng.randint(1, 5)
    val = rng.random() < .6
    cfg = dict(type='DartsIterBasedTrainLoop', max_iters=total,
               mutator_dataloader=copy.deepcopy(mutat), val_begin=begin,
               val_interval=every)
    kinds = [c['sampler']['type'] for c in (train, mutat)]
    ctx.key('multi-iter', kinds, val)
    model, hook = two_model(), Events()
    with ctx.sut('train'):
        r = make_runner(os.path.join(work, 'r'), model, train, cfg, val, seed,
                        False, [hook])
        r.train()
    ctx.check(len(model.log) == total and r.iter == total, 'iter-loop:number',
              lambda: f'{len(model.log)} iterations, want {total}')
    it = [s[:2] for s in hook.seen if s[0] in ('iter', 'done')]
    ctx.check(it == [p for i in range(total)
                     for p in (('iter', i), ('done', i))],
              'iter-hooks', lambda: f'{it[:12]}')
    ends = [s[0] for s in hook.seen if s[0] in (
        'train', 'epoch', 'end', 'finish')]
    ctx.check(ends == ['train', 'epoch', 'end', 'finish'], 'epoch-hooks',
              lambda: f'{ends}')
    vals = [s[2] for s in hook.seen if s[0] == 'val']
    must = [i for i in range(1, total + 1)
            if i >= begin and i % every == 0] if val else []
    ctx.check(vals in (must, sorted(set(must) | (
        {total} if val and total >= begin else set()))), 'validation-time',
        lambda: f'validated after {vals}, want {must}')
    # one batch of every loader, each pass after pass of its own sampler
    def passes(c):
        if c['sampler']['type'] != 'DefaultSampler':
            yield from endless(c, seed)
        for k in range(total + 1):
            if k:
                ctx.event('restarts')
            yield from order_of(c, k, seed)
    streams = [passes(c) for c in (train, mutat)]
    for i, (data, training) in enumerate(model.log):
        g = got(data)
        ctx.event('batches')
        ctx.check(training, 'iter-loop:mode', f'evaluation mode at {i}')
        w = [next(s) for s in streams]
        ctx.check(g == w, 'iter-loop:batch', lambda:
                  f'iteration {i} got {g}, want {w}')
    ctx.sample(dict(loop='iter', kinds=kinds, total=total))


# ------------------------------------------------------------- the sampler

class Steps:
    """A supernet whose training steps are observed."""

    def __init__(self, algo, loop=None):
        self.algo = algo
        self.seen = []
        algo.train_step = self.step

    def step(self, data, optim_wrapper):
        self.seen.append((copy.deepcopy(self.algo.mutator.current_choices),
                          self.algo.architecture.training,
                          torch.is_grad_enabled()))
        y = self.algo.architecture.net(data['inputs'])
        loss = y.square().mean()
        loss.backward()
        with torch.no_grad():
            for p in self.algo.parameters():
                if p.grad is not None:
                    p -= .001 * p.grad.clamp(-1, 1)
                    p.grad = None
        return dict(loss=loss.detach())


class Hubless:

    def update_info(self, *a, **k):
        pass


def prob_at(cfg, it):
    """The probability of sampling a candidate, by its description."""
    a, b = cfg['schedule_start_iter'], cfg['schedule_end_iter']
    p, q = cfg['init_prob'], cfg['max_prob']
    if it < a:
        return p
    if it >= b:
        return q
    t = (it - a) / (b - a)
    if cfg['prob_schedule'] != 'linear':
        t = (1 - math.cos(math.pi * t)) / 2
    return p + (q - p) * t


@scratch
def greedy(ctx, work):
    from mmrazor.engine import GreedySamplerTrainLoop
    rng = ctx.rng
    spec = nas.rand_spec(rng, kinds=['op', 'op', 'depth', 'kernel'])
    with ctx.sut('build'):
        algo = search.make_spos(spec, ctx.case_seed)
    if not algo.mutator.search_groups:
        ctx.skip('nothing to search')
        return
    seen = Steps(algo)
    levels = rng.choice([None, 4])
    ev = search.Evaluator(algo, 'acc', levels)
    runner = search.Runner(algo, work)
    runner.optim_wrapper = None
    runner.message_hub = Hubless()
    runner.val_loop = None
    runner.seed = 0
    a = rng.randint(0, 6)
    cfg = dict(
        max_iters=rng.randint(4, 14), val_interval=rng.randint(1, 5),
        score_key='acc', num_candidates=rng.randint(1, 6),
        num_samples=rng.randint(1, 4), top_k=rng.randint(1, 4),
        prob_schedule=rng.choice(['linear', 'consine']),
        schedule_start_iter=a, schedule_end_iter=a + rng.randint(1, 8),
        init_prob=rng.choice([0., .2, .5]), max_prob=rng.choice([.6, .8, 1.]))
    limit = None
    if rng.random() < .5:
        # half of some sampled subnets pass
        from mmrazor.engine.runner.utils import check_subnet_resources
        from mmrazor.models import ResourceEstimator
        est = ResourceEstimator(input_shape=(1, 3, nas.HW, nas.HW))
        vals = sorted(check_subnet_resources(
            algo, algo.mutator.sample_choices(), est,
            dict(flops=(0, 1e9)))[1]['flops'] for _ in range(5))
        limit = vals[3]
        # enough samples that some pass, for the first refresh
        cfg['num_samples'] = rng.randint(9, 12)
        cfg['estimator_cfg'] = dict(
            type='mmrazor.ResourceEstimator',
            input_shape=(1, 3, nas.HW, nas.HW))
    cfg['constraints_range'] = dict(flops=(0, limit)) if limit else None
    ctx.key('greedy', cfg['prob_schedule'], bool(limit), cfg['top_k'],
            cfg['num_candidates'], cfg['num_samples'])
    n_val = rng.randint(1, 4)
    train = search.loader(6, 2, seed=1)
    with ctx.sut('build-loop'):
        loop = GreedySamplerTrainLoop(
            runner, train, search.loader(n_val, 2, seed=2), ev, **cfg)
    runner.train_loop = loop
    type(runner).val_begin = property(lambda s: loop.val_begin)
    type(runner).val_interval = property(lambda s: loop.val_interval)
    # the loop alone: the probability
    for it in [rng.randint(0, a + 12) for _ in range(6)]:
        with ctx.sut('prob'):
            loop.update_cur_prob(it)
        ctx.event('probs')
        w = prob_at(cfg, it)
        ctx.check(abs(loop.cur_prob - w) < 1e-9, f'prob:'
                  f'{cfg["prob_schedule"]}', lambda: f'{loop.cur_prob} at '
                  f'{it}, want {w} ({cfg})')
    loop.cur_prob = 0.
    # every iteration
    plan, pool, refreshes = [], [], 0
    own = loop.run_iter
    val_x = torch.cat([b['inputs'] for b in loop.dataloader_val])

    def run_iter(data):
        nonlocal plan, refreshes
        n0 = len(ev.seen)
        frozen = search.state(algo)
        before = [dict(d) for d in loop.candidates.data]
        own(data)
        new = ev.seen[n0:]
        ctx.check(bool(new) == (not plan), 'refresh-time', lambda:
                  f'{len(new)} validated while {len(plan)} of the best '
                  'candidates were not trained yet')
        if new:
            refreshes += 1
            ctx.event('refreshes')
            w = prob_at(cfg, loop._iter - 1)
            ctx.check(abs(loop.cur_prob - w) < 1e-9, 'prob-used', lambda:
                      f'{loop.cur_prob} at {loop._iter - 1}, want {w}')
            at_most = len(before) + cfg['num_samples']
            ctx.check(len(before) <= len(new) <= at_most, 'pool-growth',
                      lambda: f'{len(new)} scored, {len(before)} before')
            # scored with the weights of now
            twin = copy.deepcopy(algo.architecture)
            probe = search.make_spos(spec, ctx.case_seed)
            probe.architecture.load_state_dict(frozen_of(frozen))
            probe.architecture.eval()
            scores = {}
            for choices, s, y in new:
                probe.mutator.set_choices(choices)
                with torch.no_grad():
                    y2 = torch.cat([probe.architecture.net(x) for x in
                                    val_x.split(2)])
                ctx.event('pool_scores')
                ctx.check(torch.allclose(y, y2, atol=1e-5), 'pool-score',
                          'scored another network than the subnet')
                scores[search.key_of(choices)] = s
                if limit:
                    ok, res = _flops(algo, probe, choices, limit)
                    ctx.check(ok, 'pool-constraint', lambda:
                              f'{res} over {limit}')
            del twin
            keys = [search.key_of(c) for c, _, _ in new]
            for d in before:
                k = search.key_of(eval(next(iter(d))))
                ctx.check(k in keys, 'pool-lost', 'not scored again')
            ranked = sorted((s for _, s, _ in new), reverse=True)
            kept = ranked[:cfg['num_candidates']]
            have = [next(iter(d.values()))['score']
                    for d in loop.candidates.data]
            ctx.check(have == kept, 'pool-best', lambda:
                      f'kept {have}, scored {ranked}')
            for d in loop.candidates.data:
                k = search.key_of(eval(next(iter(d))))
                ctx.check(scores.get(k) == next(iter(d.values()))['score'],
                          'pool-score', 'of another subnet')
            plan = kept[:cfg['top_k']]
            pool[:] = [scores]
        choice, training, grad = seen.seen[-1]
        ctx.event('trained')
        ctx.check(training, 'train-mode', 'trained in evaluation mode')
        ctx.check(grad, 'train-grad', 'trained without gradients')
        s = pool[0].get(search.key_of(choice)) if pool else None
        ctx.check(plan and s == plan[0], 'trained-subnet', lambda:
                  f'a subnet of score {s}, next of the best: {plan[:1]}')
        if plan:
            plan.pop(0)
    loop.run_iter = run_iter
    with ctx.sut('train'):
        loop.run()
    ctx.check(len(seen.seen) == cfg['max_iters'], 'iterations', lambda:
              f'{len(seen.seen)} of {cfg["max_iters"]}')
    path = os.path.join(work, 'candidates.pkl')
    ctx.check(os.path.exists(path), 'saved', 'no candidates.pkl')
    with open(path, 'rb') as f:
        saved = pickle.load(f)
    ctx.check([search.key_of(s) for s in saved.subnets] ==
              [search.key_of(s) for s in loop.candidates.subnets] and
              saved.scores == loop.candidates.scores, 'saved',
              'other candidates')
    # how often the candidates are used
    loop.constraints_range = None
    for p in (0., .3, .8, 1.):
        loop.cur_prob = p
        state = random.getstate()
        random.seed(ctx.case_seed)
        with ctx.sut('sample'):
            c, n = loop.get_candidates_with_sample(300)
        random.setstate(state)
        ctx.event('probs')
        got_p = 1 - n / 300
        ctx.check(abs(got_p - p) <= 6 * math.sqrt(p * (1 - p) / 300) + 1e-9,
                  'prob-frequency', lambda: f'{got_p} for {p}')
        ctx.check(len(c) == 300, 'prob-frequency', f'{len(c)} of 300 samples')
    ctx.sample(dict(loop='greedy', refreshes=refreshes))


def frozen_of(state):
    p = 'architecture.'
    return {k[len(p):]: v for k, v in state.items() if k.startswith(p)}


def _flops(algo, probe, choices, limit):
    from mmrazor.engine.runner.utils import check_subnet_resources
    from mmrazor.models import ResourceEstimator
    est = ResourceEstimator(input_shape=(1, 3, nas.HW, nas.HW))
    return check_subnet_resources(probe, choices, est,
                                  dict(flops=(0, limit)))


# ------------------------------------------------------ slimmable, AutoSlim

class Labelled(torch.utils.data.Dataset):
    METAINFO = dict(rv=1)

    def __init__(self, n, seed):
        g = torch.Generator().manual_seed(seed)
        self.x = torch.randn(n, 3, 8, 8, generator=g)

    @property
    def metainfo(self):
        return self.METAINFO

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        return self.x[i]


def val_loader(n, batch, seed=3):
    return torch.utils.data.DataLoader(
        Labelled(n, seed), batch_size=batch, collate_fn=search.collate)


def predict(model, x, batch):
    """Predictions of the current subnet of a copy."""
    twin = copy.deepcopy(model.architecture).eval()
    with torch.no_grad():
        return torch.cat([twin(b, mode='tensor') for b in x.split(batch)])


@scratch
def slimmable(ctx, work):
    from mmrazor.engine import SlimmableValLoop
    from mmrazor.models.algorithms import SlimmableNetwork
    from mmrazor.models.mutators import SlimmableChannelMutator
    rng = ctx.rng
    tracer = rng.choice(['FxTracer', 'BackwardTracer'])
    spec = tracer_spec(rng, tracer, dets=False, hw=8, cats=False, share=False)
    seed = ctx.case_seed
    probe = sw.graph_arch(spec, seed)
    probe.hw = 8
    m0 = make_mutator(probe, tracer)
    m0.prepare_from_supernet(probe)
    if not m0.mutable_units:
        ctx.skip('no mutable unit')
        return
    k = rng.randint(2, 4)
    units = {u.name: dict(init_args=dict(
        num_channels=u.num_channels, divisor=1, min_value=1, min_ratio=.9,
        choice_mode='number', candidate_choices=[
            rng.randint(1, u.num_channels) for _ in range(k)]))
        for u in m0.mutable_units}
    with ctx.sut('build'):
        algo = SlimmableNetwork(
            sw.graph_arch(spec, seed),
            SlimmableChannelMutator(
                channel_unit_cfg=dict(type='SlimmableChannelUnit',
                                      units=copy.deepcopy(units)),
                parse_cfg=dict(type='ChannelAnalyzer', tracer_type=tracer,
                               demo_input=(1, 3, 8, 8))))
    shake(algo, seed)
    n, b = rng.randint(1, 5), rng.randint(1, 3)
    ev = search.mm_evaluator(algo, 'acc')
    runner = search.Runner(algo, work)
    val = val_loader(n, b)
    with ctx.sut('build-loop'):
        loop = SlimmableValLoop(runner, val, ev)
    algo.train()
    log = []
    runner.call_hook = lambda name, **kw: log.append((name, kw))
    ctx.key('slimmable', tracer, k, len(units), n, b)
    own = algo.val_step

    def val_step(data):
        modes = {m.training for m in algo.architecture.modules()}
        ctx.check(modes == {False}, 'slimmable:mode', 'not evaluating')
        ctx.check(not torch.is_grad_enabled(), 'slimmable:grad', 'grads')
        y = own(data)
        return y
    algo.val_step = val_step
    for _ in range(rng.randint(1, 2)):
        ev.seen.clear()
        log.clear()
        before = weights(algo)
        with ctx.sut('validate'):
            res = loop.run()
        ctx.check(search.same_state(before, weights(algo)),
                  'slimmable:state', 'validation changed the weights')
        ctx.check(len(ev.seen) == k, 'slimmable:subnets', lambda:
                  f'{len(ev.seen)} of {k} subnets')
        want = {}
        for i, (choices, s, y) in enumerate(ev.seen):
            ctx.event('subnets_validated')
            sub = {u: c['init_args']['candidate_choices'][i]
                   for u, c in units.items()}
            ctx.check(choices == sub, 'slimmable:subnets', lambda:
                      f'subnet {i} is {choices}, want {sub}')
            algo.mutator.set_choices(sub)
            y2 = predict(algo, val.dataset.x, b)
            ctx.check(torch.allclose(y, y2, atol=1e-5), 'slimmable:outputs',
                      f'of another network for subnet {i}')
            want[f'subnet_{i}.acc'] = s
            want[f'subnet_{i}.other'] = -s
        names = [x[0] for x in log]
        ctx.check(names[0] == 'before_val' and names[-1] == 'after_val' and
                  names.count('after_val_epoch') == 1 and
                  names.count('before_val_iter') == k * len(val) and
                  names.count('after_val_iter') == k * len(val),
                  'slimmable:hooks', lambda: f'{names}')
        m = [kw['metrics'] for x, kw in log if x == 'after_val_epoch'][0]
        ctx.check(m == want, 'slimmable:metrics', lambda:
                  f'{m}, want {want}')
        ctx.check(res == want, 'slimmable:returned', lambda: f'{res}')
        # trained between two validations
        shake(algo, seed + 1)
    ctx.sample(dict(loop='slimmable', subnets=k))


def weights(algo):
    out = {k: v.detach().clone() for k, v in algo.named_parameters()}
    out.update((k, v.clone()) for k, v in algo.named_buffers()
               if 'running_' in k or 'tracked' in k)
    return out


def shake(algo, seed):
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in algo.architecture.parameters():
            p.add_(.2 * torch.randn(p.shape, generator=g))
        for name, b in algo.architecture.named_buffers():
            if name.endswith('running_mean'):
                b.add_(torch.rand(b.shape, generator=g))


@scratch
def autoslim(ctx, work):
    from mmrazor.engine import AutoSlimGreedySearchLoop
    from mmrazor.models.algorithms import AutoSlim
    from mmrazor.models.mutators import OneShotChannelMutator
    rng = ctx.rng
    tracer = rng.choice(['FxTracer', 'BackwardTracer'])
    spec = tracer_spec(rng, tracer, dets=False, hw=8)
    seed = ctx.case_seed
    mode = rng.choice(['number', 'ratio'])
    cands = rng.choice([[.25, .5, 1.], [.5, 1.], [.25, .5, .75, 1.]])
    unit = dict(candidate_choices=cands, choice_mode='ratio') \
        if mode == 'ratio' else dict(candidate_choices=[1, 2, 3],
                                     choice_mode='number')
    unit.update(divisor=1, min_value=1, min_ratio=.1)

    def make():
        algo = AutoSlim(
            sw.graph_arch(spec, seed),
            OneShotChannelMutator(
                channel_unit_cfg=dict(type='OneShotMutableChannelUnit',
                                      default_args=copy.deepcopy(unit)),
                parse_cfg=dict(type='ChannelAnalyzer', tracer_type=tracer,
                               demo_input=(1, 3, 8, 8))),
            copy.deepcopy(sw.distiller(dict(type='KLDivergence', tau=1,
                                            loss_weight=1))))
        shake(algo, seed)
        return algo
    with ctx.sut('build'):
        algo = make()
    units = algo.mutator.mutable_units
    if not units:
        ctx.skip('no mutable unit')
        return
    if mode == 'number' and min(u.num_channels for u in units) < 3:
        ctx.skip('narrow units')
        return
    n, b = rng.randint(1, 3), 2
    val = val_loader(n, b)
    est = dict(type='mmrazor.ResourceEstimator', input_shape=(1, 3, 8, 8))
    twin = make()
    cc = {u.name: list(u.candidate_choices) for u in twin.mutator.mutable_units}

    def choices(bins):
        return {k: cc[k][v - 1] for k, v in bins.items()}

    def flops(bins):
        from mmrazor.engine.runner.utils import check_subnet_resources
        from mmrazor.registry import TASK_UTILS
        return check_subnet_resources(
            twin, choices(bins), TASK_UTILS.build(dict(est)))[1]['flops']
    levels = rng.choice([None, None, 3])

    def score(bins):
        twin.mutator.set_choices(choices(bins))
        return search.score_of(predict(twin, val.dataset.x, b), levels)
    top = {k: len(v) for k, v in cc.items()}
    hi, lo = flops(top), flops({k: 1 for k in cc})
    targets = sorted((lo + (hi - lo) * rng.uniform(0, 1.1)
                      for _ in range(rng.randint(1, 3))), reverse=True)
    given = list(targets)
    rng.shuffle(given)
    fail = rng.random() < .15
    if fail:
        given.append(lo * .5 - 1e-3)
    ctx.key('autoslim', tracer, mode, len(cc), len(given), fail, levels)

    def make_loop(model, d, resume=None):
        ev = search.mm_evaluator(model, 'acc', levels)
        runner = search.Runner(model, d)
        with ctx.sut('build-loop'):
            loop = AutoSlimGreedySearchLoop(
                runner, val, ev, tuple(given), estimator_cfg=dict(est),
                score_key='acc', resume_from=resume)
        return loop, ev, runner
    full = os.path.join(work, 'full')
    os.makedirs(full)
    loop, ev, runner = make_loop(algo, full)
    # a crash may happen after every file that was written
    shots = []
    own = loop._save_searcher_ckpt

    def save():
        own()
        p = os.path.join(work, f'shot{len(shots)}.pkl')
        shutil.copy(os.path.join(full, 'latest.pkl'), p)
        shots.append(p)
    loop._save_searcher_ckpt = save
    before = weights(algo)
    if fail:
        with ctx.rejects('unreachable-target', RuntimeError):
            loop.run()
        return
    with ctx.sut('search'):
        loop.run()
    ctx.check(search.same_state(before, weights(algo)),
              'autoslim:state', 'the search changed the weights')
    # an own greedy search
    bins, seen = dict(top), iter(ev.seen)
    want = []
    for t in targets:
        while flops(bins) > t:
            best = None
            for k in sorted(bins):
                if bins[k] == 1:
                    continue
                nb = dict(bins)
                nb[k] -= 1
                c, s, y = next(seen, ({}, None, None))
                ctx.check(all(abs(c.get(u, -1) - v) < 1e-9 for u, v in
                              choices(nb).items()), 'autoslim:tried',
                          lambda: f'{c}, want {choices(nb)}')
                twin.mutator.set_choices(choices(nb))
                y2 = predict(twin, val.dataset.x, b)
                ctx.check(torch.allclose(y, y2, atol=1e-5),
                          'autoslim:outputs', 'of another network')
                if best is None or s > best[0]:
                    best = (s, nb)
            bins = best[1]
            ctx.event('greedy_steps')
        want.append((dict(bins), flops(bins)))
        ctx.event('targets')
    ctx.check(next(seen, None) is None, 'autoslim:tried',
              'more validations than needed')
    judge_found(ctx, loop, want, targets, full, make, cc, score, 'autoslim')
    # continued after every crash
    if not ctx.thorough and len(shots) > 4:
        shots = [shots[0], shots[-1]] + rng.sample(shots[1:-1], 2)
    for i, p in enumerate(shots):
        ctx.event('crash_points')
        d = os.path.join(work, f'again{i}')
        os.makedirs(d)
        l2, _, _ = make_loop(make(), d, p)
        with ctx.sut('resume'):
            l2.run()
        judge_found(ctx, l2, want, targets, d, make, cc, score,
                    'autoslim-resume', files=i == 0)
    ctx.sample(dict(loop='autoslim', targets=len(targets), steps=len(shots)))


def judge_found(ctx, loop, want, targets, d, make, cc, score, mech,
                files=True):
    ctx.check(list(loop.searched_subnet) == [w[0] for w in want],
              f'{mech}:found', lambda: f'{loop.searched_subnet}, want '
              f'{[w[0] for w in want]} for {targets}')
    ctx.check(all(abs(a - w[1]) < 1e-9 for a, w in zip(
        loop.searched_subnet_flops, want)) and
        len(loop.searched_subnet_flops) == len(want), f'{mech}:flops',
        lambda: f'{loop.searched_subnet_flops}, want {[w[1] for w in want]}')
    if not files:
        return
    from mmrazor.structures import load_fix_subnet
    names = {f'FLOPS_{w[1]:.2f}M.yaml': w[0] for w in want}
    have = {os.path.basename(p) for p in glob.glob(f'{d}/*.yaml')}
    ctx.check(have == set(names), f'{mech}:files', lambda:
              f'{have}, want {set(names)}')
    for name, bins in names.items():
        if [f'{w[1]:.2f}' for w in want].count(name[6:-6]) > 1:
            continue
        algo = make()
        with ctx.sut('load-yaml'):
            load_fix_subnet(algo, os.path.join(d, name))
        x = torch.randn(2, 3, 8, 8)
        twin = make()
        twin.mutator.set_choices(
            {k: cc[k][v - 1] for k, v in bins.items()})
        ctx.check(torch.allclose(predict(algo, x, 2), predict(twin, x, 2),
                                 atol=1e-4), f'{mech}:file-subnet',
                  'the file describes another subnet')


SECTIONS = {
    'multi_epoch': (multi_epoch, 40, 200),
    'multi_iter': (multi_iter, 60, 300),
    'greedy': (greedy, 30, 200),
    'slimmable': (slimmable, 20, 120),
    'autoslim': (autoslim, 16, 100),
}
