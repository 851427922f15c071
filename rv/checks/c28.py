"""C28: hooks, optimizers of parts, converters and reports around a training."""
import copy
import glob
import hashlib
import json
import os
import random
import re
import runpy
import shutil
import sys
import tempfile
import warnings

import numpy as np
import torch
import torch.nn as nn

from rv import nas, search, sandwich as sw
from rv.checks import c26

ID = 'C28'
RULE = (
    'random supernets trained on the real mmengine runner with random '
    'intervals, directories, limits and stages of the hooks; random parts, '
    'parameter options and wrappers for the optimizers; random checkpoints, '
    'key names and subnets for the converters, run as the scripts they are; '
    'random feature maps and options for the drawings')
ASSUMPTIONS = [
    'one rank; the working directory is local',
    'the interval of the estimates counts finished epochs or the batches of '
    'a validation, as documented',
]
REQUIRED_EVENTS = {'subnets_saved': 40, 'subnets_loaded': 40, 'pruned': 3,
                   'fixed_stage': 2, 'argmax': 8, 'estimates': 20,
                   'supernet_estimates': 4, 'part_params': 200,
                   'converted_keys': 200, 'published': 8, 'sliced': 3,
                   'static_models': 6, 'prune_configs': 3, 'latest': 30,
                   'drawings': 60, 'hook_drawings': 15, 'runtime': 10}

ROOT = os.environ.get('RV_REPO', '/repo')


def scratch(fn):

    def run(ctx):
        work = tempfile.mkdtemp(prefix='rv-c28-')
        cwd = os.getcwd()
        try:
            os.chdir(work)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fn(ctx, work)
        finally:
            os.chdir(cwd)
            shutil.rmtree(work, ignore_errors=True)
    run.__name__ = fn.__name__
    return run


def trainer(work, model, epochs, hooks, seed, by_epoch=True, n=4, batch=2,
            parts=False, val=None, every=1):
    """The real runner around a search algorithm."""
    import mmengine.runner.runner as mr
    from mmengine.evaluator import BaseMetric, Evaluator
    from mmengine.runner import Runner

    class Acc(BaseMetric):

        def process(self, data_batch, data_samples):
            pass

        def compute_metrics(self, results):
            return dict(acc=1.)

    mr.collect_env = lambda: {}

    def load(k=n):
        return dict(dataset=search.Data(k, nas.HW, seed), num_workers=0,
                    batch_size=batch,
                    sampler=dict(type='DefaultSampler', shuffle=False),
                    collate_fn=collate)
    ow = dict(type='OptimWrapper', optimizer=dict(type='SGD', lr=.01))
    if parts:
        ow = dict(constructor='mmrazor.SeparateOptimWrapperConstructor',
                  architecture=ow, mutator=dict(
                      type='OptimWrapper',
                      optimizer=dict(type='Adam', lr=.05)))
    cfg = dict(type='EpochBasedTrainLoop', max_epochs=epochs,
               val_interval=every) if by_epoch else dict(
        type='IterBasedTrainLoop', max_iters=epochs, val_interval=every)
    args = dict(
        model=model, work_dir=work, log_level='CRITICAL',
        train_dataloader=load(), train_cfg=cfg, optim_wrapper=ow,
        default_hooks=dict(
            logger=None, param_scheduler=None, checkpoint=None,
            sampler_seed=dict(type='DistSamplerSeedHook')),
        visualizer=dict(type='Visualizer', vis_backends=[]),
        randomness=dict(seed=seed), custom_hooks=list(hooks),
        default_scope='mmrazor',
        experiment_name=f'{os.path.basename(work)}-{seed}-{random.random()}')
    if val is not None:
        args.update(val_dataloader=load(val), val_cfg=dict(),
                    val_evaluator=Evaluator(Acc()))
    return Runner(**args)


def supernet(ctx, kind, seed, **kw):
    from mmrazor.models.algorithms import DSNAS
    from mmrazor.models.mutators import NasMutator
    spec = nas.rand_spec(ctx.rng, ['onehot'] if kind == 'dsnas' else None)
    if kind == 'dsnas':
        def make():
            torch.manual_seed(seed)
            return DSNAS(sw.nas_arch(spec, seed), NasMutator(),
                         estimator_cfg=dict(input_shape=(1, 3, nas.HW,
                                                         nas.HW)),
                         **kw)
        return spec, make
    return spec, lambda: search.make_spos(spec, seed)


def collate(items):
    return dict(inputs=torch.stack(items), data_samples=torch.tensor(
        [int(i.sum() * 10) % 50 for i in items]))


@scratch
def dump(ctx, work):
    from mmrazor.engine.hooks import DumpSubnetHook
    from mmrazor.structures import load_fix_subnet
    rng, seed = ctx.rng, ctx.case_seed
    kind = rng.choice(['spos', 'spos', 'dsnas'])
    by_epoch = kind == 'dsnas' or rng.random() < .6
    total = rng.randint(1, 5) if by_epoch else rng.randint(1, 9)
    every = rng.choice([-1, 1, 2, 3])
    last = rng.random() < .6
    keep = rng.choice([-1, -1, 1, 2])
    fin = rng.randint(1, 5)
    spec, make = supernet(ctx, kind, seed, **(dict(
        pretrain_epochs=0, finetune_epochs=fin) if kind == 'dsnas' else {}))
    kw = dict(interval=every, by_epoch=by_epoch, save_last=last,
              max_keep_subnets=keep)
    if rng.random() < .2:
        del kw['interval']
        every = -1
    name = 'subnet_epoch_{}.yaml' if by_epoch else 'subnet_iter_{}.yaml'
    if rng.random() < (.25 if keep < 0 else .6):
        name = kw['filename_tmpl'] = rng.choice(['best{}.yaml', 'now.yaml'])
    base = os.path.join(work, 'exp')
    where = base
    if rng.random() < .4:
        kw['out_dir'] = os.path.join(work, 'out')
        os.makedirs(kw['out_dir'])
        where = os.path.join(work, 'out', 'exp')
    ctx.key('dump', kind, by_epoch, every, last, keep, 'out_dir' in kw,
            nas.describe(spec))
    with ctx.sut('build'):
        hook = DumpSubnetHook(**kw)
        model = make()
    taken = []

    class Before(sw_hook()):
        priority = 'LOW'

        def after_train_epoch(self, runner):
            self.look(runner)

        def after_train_iter(self, runner, batch_idx, data_batch=None,
                             outputs=None):
            self.look(runner)

        def look(self, runner):
            self.state = search.state(runner.model)
            self.choices = copy.deepcopy(runner.model.mutator.current_choices)
            self.mode = [m.training for m in runner.model.modules()]

    class After(sw_hook()):
        priority = 'LOWEST'

        def after_train_epoch(self, runner):
            self.look(runner, runner.epoch + 1, by_epoch)

        def after_train_iter(self, runner, batch_idx, data_batch=None,
                             outputs=None):
            self.look(runner, runner.iter + 1, not by_epoch)

        def look(self, runner, step, mine):
            before = first
            ctx.check(search.same_state(before.state, search.state(
                runner.model)), 'dump:weights', 'the trained weights changed')
            now = runner.model.mutator.current_choices
            ctx.check(now == before.choices, 'dump:choices', lambda:
                      f'{before.choices} -> {now}')
            ctx.check(before.mode == [
                m.training for m in runner.model.modules()], 'dump:mode',
                'training modes changed')
            path = os.path.join(where, name.format(step))
            if not mine or not os.path.isfile(path):
                return
            best = None
            if kind == 'dsnas':
                best = {n: ms[0].current_choice if ms[0].is_fixed else
                        ms[0].choices[int(torch.argmax(
                            runner.model.mutator.arch_params[n]))]
                        for n, ms in
                        runner.model.mutator.search_groups.items()}
                if not runner.model.is_supernet:
                    ctx.event('fixed_stage')
            with open(path) as f:
                taken.append((step, path, f.read(), best))
            ctx.event('subnets_saved')
    first = Before()
    with ctx.sut('train'):
        r = trainer(base, model, total, [first, hook, After()], seed, by_epoch,
                    parts=kind == 'dsnas')
        r.train()
    want = [s for s in range(1, total + 1)
            if every > 0 and s % every == 0 or last and s == total]
    ctx.check([t[0] for t in taken] == want, 'dump:times', lambda:
              f'saved at {[t[0] for t in taken]}, want {want}')
    found = sorted(glob.glob(os.path.join(work, '**', '*.yaml'),
                             recursive=True))
    left = want if keep < 0 else want[-keep:]
    files = sorted({os.path.join(where, name.format(s)) for s in left})
    if len(left) < len(want):
        ctx.event('pruned')
    ctx.check(found == files, 'dump:files', lambda: f'{found}, want {files}')
    # every file is a subnet of the supernet
    g = torch.Generator().manual_seed(seed)
    x = torch.randn(2, 3, nas.HW, nas.HW, generator=g)
    for step, path, text, best in taken:
        p = os.path.join(work, 'one.yaml')
        with open(p, 'w') as f:
            f.write(text)
        sub, ref = make(), make()
        with ctx.sut('load'):
            load_fix_subnet(sub, p)
        from mmengine import fileio
        chosen = {k: v['chosen'] for k, v in fileio.load(p).items()}
        ctx.event('subnets_loaded')
        y = infer(sub, x)
        # the same choices on the supernet
        choices = {}
        for n, ms in ref.mutator.search_groups.items():
            m = ms[0]
            keys = [k for k, q in ref.named_modules() if q in ms]
            if m.alias in chosen:
                keys = [m.alias]
            got = {repr(chosen[k]) for k in keys if k in chosen}
            if len(got) == 1 and best is not None:
                ctx.event('argmax')
                ctx.check(got == {repr(best[n])}, 'dump:best', lambda:
                          f'{n}: saved {got}, the best is {best[n]}')
        with ctx.sut('load again'):
            other = make()
            load_fix_subnet(other, p)
        ctx.check(sw.near(infer(other, x), y, 1e-6), 'dump:reload',
                  'another network at the second time')
        ctx.check(not any(hasattr(m, 'is_fixed') and not m.is_fixed
                          for m in sub.architecture.modules()),
                  'dump:complete', 'a choice is left open')
    ctx.sample(dict(kind=kind, want=want, left=left))


def infer(model, x):
    model.train(False)
    with torch.no_grad():
        return model.architecture(x, mode='tensor')


class Logs:
    """The messages of a logger."""

    def __init__(self, logger):
        self.logger, self.seen = logger, []

    def info(self, msg, *a):
        self.seen.append(str(msg))

    def __getattr__(self, k):
        return getattr(self.logger, k)


@scratch
def estimate(ctx, work):
    from mmrazor.engine.hooks import EstimateResourcesHook
    from mmrazor.models.task_modules import ResourceEstimator
    rng, seed = ctx.rng, ctx.case_seed
    kind = rng.choice(['spos', 'dsnas', 'dsnas', 'plain'])
    by_epoch = rng.random() < .65
    epochs = rng.randint(1, 4)
    every = rng.choice([-1, 1, 1, 2, 2, 3])
    vint = rng.choice([1, 1, 2])
    nval = rng.randint(2, 7)
    batches = (nval + 1) // 2
    if kind == 'plain':
        spec = nas.rand_spec(rng)
        make = lambda: search.make_arch(  # noqa: E731
            nas.rand_spec(random.Random(seed), ['op']), seed)
    else:
        spec, make = supernet(ctx, kind, seed, **(dict(
            pretrain_epochs=0, finetune_epochs=rng.randint(
                1, 4)) if kind == 'dsnas' else {}))
    cfg = dict(input_shape=(1, 3, nas.HW, nas.HW))
    if rng.random() < .4:
        cfg['type'] = 'mmrazor.ResourceEstimator'
    ctx.key('estimate', kind, by_epoch, every, vint, epochs, batches)
    seen = []

    class Spy:
        """Notes what is measured."""

        def __init__(self, est):
            self.est = est

        def estimate(self, model, *a, **kw):
            run = first.runner
            seen.append((run.epoch, where[0]))
            ref = copy.deepcopy(model)
            got = self.est.estimate(model, *a, **kw)
            with torch.no_grad():
                want = ResourceEstimator(
                    input_shape=(1, 3, nas.HW, nas.HW)).estimate(ref)
            first.want.append(str(want))
            ctx.event('estimates')
            if model is not run.model:
                ctx.event('supernet_estimates')
                # what is measured is one subnet, all choices made
                ctx.check(not any(
                    hasattr(m, 'is_fixed') and not m.is_fixed
                    for m in model.architecture.modules()),
                    'estimate:subnet', 'a choice is left open')
            elif kind == 'dsnas':
                ctx.check(not model.is_supernet, 'estimate:supernet',
                          'the supernet was measured')
            return got

        def __getattr__(self, k):
            return getattr(self.est, k)

    def state(model):
        return (search.state(model), copy.deepcopy(
            model.mutator.current_choices) if kind != 'plain' else None)

    class Before(sw_hook()):
        priority = 'LOW'

        def before_train(self, runner):
            self.runner = runner
            runner.logger = Logs(runner.logger)

        def after_val_epoch(self, runner, metrics=None):
            self.look(runner)

        def after_val_iter(self, runner, batch_idx, data_batch=None,
                           outputs=None):
            where[0] = batch_idx
            self.look(runner)

        def look(self, runner):
            self.state, self.want = state(runner.model), []
            runner.logger.seen.clear()

    class After(sw_hook()):
        priority = 'LOWEST'

        def after_val_epoch(self, runner, metrics=None):
            self.look(runner)

        def after_val_iter(self, runner, batch_idx, data_batch=None,
                           outputs=None):
            self.look(runner)

        def look(self, runner):
            (a, c), (b, d) = first.state, state(runner.model)
            ctx.check(search.same_state(a, b), 'estimate:weights',
                      'the model changed')
            ctx.check(c == d, 'estimate:choices', 'the choices changed')
            said = ' '.join(runner.logger.seen)
            ctx.check(all(w in said for w in first.want), 'estimate:value',
                      lambda: f'said {said}, want {first.want}')
    first = Before()
    where = [None]
    with ctx.sut('build'):
        hook = EstimateResourcesHook(interval=every, by_epoch=by_epoch,
                                     estimator_cfg=cfg)
        hook.estimator = Spy(hook.estimator)
        model = make()
    with ctx.sut('train'):
        r = trainer(os.path.join(work, 'exp'), model, epochs,
                    [first, hook, After()], seed, parts=kind == 'dsnas', val=nval,
                    every=vint)
        r.train()
    vals = [e for e in range(1, epochs + 1) if e % vint == 0]
    if by_epoch:
        want = [e for e in vals if every > 0 and e % every == 0]
        got = [s[0] for s in seen]
    else:
        want = [(e, b) for e in vals for b in range(batches)
                if every > 0 and (b + 1) % every == 0]
        got = list(seen)
    if epochs % vint:
        # the runner may validate after the last epoch too
        got = [s for s in got if (s if by_epoch else s[0]) != epochs]
    ctx.check(got == want, 'estimate:times', lambda:
              f'estimated after {got}, want {want}')
    ctx.sample(dict(kind=kind, got=str(got)))


def sw_hook():
    from mmengine.hooks import Hook
    return Hook


# optimizers of parts

def part(rng, depth=0):
    """A random tree of layers."""
    m = nn.Module()
    for i in range(rng.randint(1, 3)):
        name = rng.choice(['conv', 'norm', 'fc', 'head', 'sub']) + str(i)
        k = rng.choice(['conv', 'norm', 'fc', 'tree', 'raw'])
        if k == 'tree' and depth < 2:
            m.add_module(name, part(rng, depth + 1))
        elif k == 'norm':
            m.add_module(name, nn.BatchNorm2d(rng.randint(1, 3)))
        elif k == 'fc':
            m.add_module(name, nn.Linear(2, rng.randint(1, 3)))
        elif k == 'raw':
            m.register_parameter(name, nn.Parameter(torch.randn(2)))
        else:
            m.add_module(name, nn.Conv2d(1, rng.randint(1, 3), 1,
                                         groups=1))
    return m


def optims(ctx):
    from mmrazor.registry import OPTIM_WRAPPER_CONSTRUCTORS
    rng = ctx.rng
    net = nn.Module()
    names = rng.sample(['architecture', 'mutator', 'gen', 'disc', 'extra'],
                       rng.randint(2, 4))
    for n in names:
        net.add_module(n, part(rng))
    used = rng.sample(names, rng.randint(1, len(names)))
    for p in net.parameters():
        if rng.random() < .15:
            p.requires_grad_(False)
    for n in names:
        next(getattr(net, n).parameters()).requires_grad_(True)
    cfg, refs = {}, {}
    for n in used:
        lr, wd = rng.choice([.1, .01]), rng.choice([0., 1e-3])
        opt = rng.choice([dict(type='SGD', lr=lr, momentum=.9,
                               weight_decay=wd),
                          dict(type='Adam', lr=lr, betas=(.5, .999),
                               weight_decay=wd)])
        cfg[n] = dict(type='OptimWrapper', optimizer=opt,
                      accumulative_counts=rng.randint(1, 4))
        if rng.random() < .3:
            cfg[n]['clip_grad'] = dict(max_norm=rng.choice([1., 2.]))
        pw = {}
        if rng.random() < .6:
            if rng.random() < .5:
                pw['bias_lr_mult'] = rng.choice([2., .5])
            if rng.random() < .5:
                pw['norm_decay_mult'] = 0.
            if rng.random() < .4:
                pw['custom_keys'] = {'conv': dict(lr_mult=3.)}
            cfg[n]['paramwise_cfg'] = pw
        refs[n] = (opt, pw, cfg[n]['accumulative_counts'],
                   cfg[n].get('clip_grad'))
    ctx.key('optims', len(used), len(names), str([r[1] for r in
                                                  refs.values()]))
    keep = copy.deepcopy(cfg)
    model = net
    if rng.random() < .5:
        model = nn.Module()
        model.module = net
    with ctx.sut('constructor'):
        w = OPTIM_WRAPPER_CONSTRUCTORS.build(
            dict(type='SeparateOptimWrapperConstructor',
                 optim_wrapper_cfg=cfg))(model)
    ctx.check(cfg == keep, 'optims:config', 'the config changed')
    ctx.check(set(dict(w.items())) == set(used), 'optims:parts',
              lambda: f'{list(dict(w.items()))}, want {used}')
    if rng.random() < .2:
        with ctx.rejects('outer paramwise', (AssertionError, )):
            OPTIM_WRAPPER_CONSTRUCTORS.build(
                dict(type='SeparateOptimWrapperConstructor',
                     optim_wrapper_cfg=copy.deepcopy(keep),
                     paramwise_cfg=dict(norm_decay_mult=0.)))
    for n in used:
        opt, pw, acc, clip = refs[n]
        mod = getattr(net, n)
        at = {}
        for g in w[n].param_groups:
            for p in g['params']:
                ctx.check(id(p) not in at, 'optims:twice', n)
                at[id(p)] = g
        mine = {id(p): (k, p) for k, p in mod.named_parameters()}
        alien = set(at) & {id(p) for p in net.parameters()} - set(mine)
        ctx.check(not alien, 'optims:foreign', lambda:
                  f'{n}: {len(alien)} parameters of others')
        norm = {id(p) for m in mod.modules()
                if isinstance(m, nn.BatchNorm2d)
                for p in m.parameters(recurse=False)}
        for i, (k, p) in mine.items():
            if not p.requires_grad:
                continue
            ctx.event('part_params')
            ctx.check(i in at, 'optims:missing', lambda: f'{n}.{k}')
            if i not in at:
                continue
            lr, wd = opt['lr'], opt['weight_decay']
            if 'conv' in k and 'custom_keys' in pw:
                lr *= 3.
            else:
                if k.split('.')[-1] == 'bias' and i not in norm and \
                        'bias_lr_mult' in pw:
                    lr *= pw['bias_lr_mult']
                if i in norm and 'norm_decay_mult' in pw:
                    wd *= pw['norm_decay_mult']
            g = at[i]
            ctx.check(abs(g['lr'] - lr) < 1e-9 and
                      abs(g['weight_decay'] - wd) < 1e-12, 'optims:options',
                      lambda: f'{n}.{k}: lr {g["lr"]} wd '
                      f'{g["weight_decay"]}, want {lr} {wd} ({pw})')
        ctx.check(type(w[n].optimizer).__name__ == opt['type'] and
                  w[n]._accumulative_counts == acc, 'optims:settings', n)
        ctx.check((w[n].clip_grad_kwargs or None) == (
            {k: v for k, v in clip.items()} if clip else None),
            'optims:clip', lambda: f'{w[n].clip_grad_kwargs} {clip}')
    # a step of one part leaves the others
    n = rng.choice(used)
    before = {k: p.detach().clone() for k, p in net.named_parameters()}
    loss = sum((p ** 2).sum() for p in net.parameters() if p.requires_grad)
    if loss is not 0 and isinstance(loss, torch.Tensor) and any(  # noqa
            p.requires_grad for p in getattr(net, n).parameters()):
        w[n].zero_grad()
        loss.backward()
        with ctx.sut('step'):
            w[n].step()
        for k, p in net.named_parameters():
            if k.split('.')[0] != n or not p.requires_grad:
                ctx.check(torch.equal(p, before[k]), 'optims:others',
                          lambda: f'a step of {n} changed {k}')


# converters

def script(ctx, label, path, *args):
    """Run a tool as a program of its own arguments."""
    keep = sys.argv
    sys.argv = [path] + [str(a) for a in args]
    try:
        import contextlib
        import io
        with ctx.sut(label), contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(os.path.join(ROOT, 'tools', path),
                           run_name='__main__')
    finally:
        sys.argv = keep


WORDS = ['architecture', 'backbone', 'architecture_x', 'qmodels', 'predict',
         'model', 'weight_fake_quant', 'min_val', 'max_val', 'conv1', '0',
         'teacher', 'student', 'head', 'running_vals', 'distiller']


def state_dict(rng, heads):
    out = {}
    for i in range(rng.randint(4, 14)):
        head = rng.choice(heads)
        tail = [rng.choice(WORDS) for _ in range(rng.randint(1, 4))]
        k = head + '.'.join(tail + [rng.choice(['weight', 'bias'])])
        out[k] = torch.full((2, ), float(i))
    return out


def same(a, b):
    return list(a) == list(b) and all(torch.equal(a[k], b[k]) for k in a)


@scratch
def ckpts(ctx, work):
    rng = ctx.rng
    tool = rng.choice(['student', 'kd', 'quant', 'publish', 'publish'])
    ctx.key('ckpts', tool)
    ck = os.path.join(work, rng.choice(['a.pth', 'epoch_3.pth', 'b.c.pth']))
    meta = dict(epoch=rng.randint(0, 9), note='x' * rng.randint(0, 5))
    if tool == 'publish':
        return publish(ctx, work, ck, meta)
    heads = dict(student=['architecture.', 'architecture.', 'teacher.',
                          'distiller.', 'architecture2.', ''],
                 kd=['architecture.model.', 'architecture.model.distiller.'
                     'teacher.', 'architecture.mutator.',
                     'architecture.model2.', ''],
                 quant=['qmodels.predict.', 'qmodels.loss.',
                        'architecture.', ''])[tool]
    sd = state_dict(rng, heads)
    if tool == 'quant' and rng.random() < .8:
        sd['qmodels.predict.c.weight_fake_quant.activation_post_process.'
           'min_val'] = torch.ones(3)
        sd['qmodels.predict.c.activation_post_process.min_val'] = \
            torch.ones(3)
    blob = dict(meta=meta, state_dict=dict(sd), optimizer=dict(x=1))
    torch.save(blob, ck)
    with open(ck, 'rb') as f:
        raw = f.read()
    args, inplace = [ck], rng.random() < .4
    stem = os.path.basename(ck)[:-4]
    out = os.path.join(work, stem + dict(
        student='_student', kd='_latest', quant='_deploy')[tool] + '.pth')
    if inplace:
        args, out = args + ['--inplace'], ck
    elif tool != 'kd' and rng.random() < .5:
        os.makedirs(os.path.join(work, 'o'))
        args += ['--out-path', os.path.join(work, 'o')]
        out = os.path.join(work, 'o', os.path.basename(out))
    script(ctx, tool, 'model_converters/' + dict(
        student='convert_kd_ckpt_to_student.py', kd='convert_kd_ckpt.py',
        quant='convert_quant_ckpt.py')[tool], *args)
    ctx.check(os.path.isfile(out), f'{tool}:file', lambda:
              f'{os.listdir(work)}')
    if not os.path.isfile(out):
        return
    got = torch.load(out)
    want = {}
    for k, v in sd.items():
        if tool == 'student':
            if k.startswith('architecture.'):
                want[k[len('architecture.'):]] = v
        elif tool == 'kd':
            t = 'architecture.model.distiller.teacher.'
            if k.startswith(t):
                k = 'architecture.teacher.' + k[len(t):]
            elif k.startswith('architecture.model.'):
                k = 'architecture.' + k[len('architecture.model.'):]
            want[k] = v
        elif k.startswith('qmodels.predict.'):
            k = k[len('qmodels.predict.'):]
            if 'weight_fake_quant' in k and '_val' in k:
                # ranges of the weights carry another name in a deploy model
                k = k.replace('_val', '_vals')
            want[k] = v
    ctx.event('converted_keys', len(sd))
    g = got['state_dict']
    ctx.check(same(g, want), f'{tool}:keys', lambda: 'differ: ' + str(
        sorted(set(g) ^ set(want))[:6] or 'order or values'))
    ctx.check(got['meta'] == meta, f'{tool}:meta', lambda: str(got['meta']))
    if not inplace:
        with open(ck, 'rb') as f:
            ctx.check(f.read() == raw, f'{tool}:input', 'the input changed')
    if tool == 'kd':
        ctx.check(got['optimizer'] == dict(x=1), 'kd:rest', 'lost')


def publish(ctx, work, ck, meta):
    rng = ctx.rng
    sd = state_dict(rng, ['', 'architecture.'])
    if rng.random() < .5:
        # as big as real checkpoints: files of many blocks
        sd['big.weight'] = torch.randn(rng.randint(20000, 60000))
    blob = dict(meta=meta, state_dict=sd)
    for k in ('optimizer', 'message_hub', 'param_schedulers', 'ema',
              'ema_state_dict'):
        if rng.random() < .6:
            blob[k] = dict(a=torch.ones(3))
    torch.save(blob, ck)
    with open(ck, 'rb') as f:
        raw = f.read()
    ts = rng.choice(['20230101_101010', '1'])
    os.makedirs(os.path.join(work, ts, 'vis_data'))
    texts = dict(log=f'log {rng.random()}', json=f'{rng.random()}')
    with open(os.path.join(work, ts, f'{ts}.log'), 'w') as f:
        f.write(texts['log'])
    with open(os.path.join(work, ts, 'vis_data', f'{ts}.json'), 'w') as f:
        f.write(texts['json'])
    out = os.path.join(work, rng.choice(['o', 'o/p/q']))
    if rng.random() < .3:
        os.makedirs(out)
        with open(os.path.join(out, 'other.pth'), 'w') as f:
            f.write('keep')
    name = rng.choice(['net', 'res_net-8x'])
    script(ctx, 'publish', 'model_converters/publish_model.py', ck,
           '--model-name', name, '--timestamp', ts, '--out-dir', out)
    ctx.event('published')
    files = sorted(f for f in os.listdir(out) if f != 'other.pth')
    pat = re.compile(re.escape(f'{name}_{ts}-') + '([0-9a-f]{8})[.](.*)')
    m = [pat.fullmatch(f) for f in files]
    ok = len(m) == 3 and all(m)
    ctx.check(ok and sorted(i[2] for i in m) == ['json', 'log', 'pth'],
              'publish:files', lambda: f'{files}')
    if not ok:
        return
    path = os.path.join(out, [f for f in files if f.endswith('.pth')][0])
    with open(path, 'rb') as f:
        sha = hashlib.sha256(f.read()).hexdigest()
    ctx.check(all(i[1] == sha[:8] for i in m), 'publish:hash', lambda:
              f'{files}, sha {sha[:8]}')
    got = torch.load(path)
    ctx.check(same(got['state_dict'], sd) and got['meta'] == meta,
              'publish:content', 'weights or meta differ')
    want = {k for k in blob if k not in ('optimizer', 'message_hub',
                                         'param_schedulers')}
    ctx.check(set(got) == want, 'publish:entries', lambda:
              f'{sorted(got)}, want {sorted(want)}')
    for ext in ('log', 'json'):
        with open(path[:-3] + ext) as f:
            ctx.check(f.read() == texts[ext], 'publish:logs', ext)
    with open(ck, 'rb') as f:
        ctx.check(f.read() == raw, 'publish:input', 'the input changed')


@scratch
def convert(ctx, work):
    """Subnets of trained supernets, by the scripts."""
    from mmengine import fileio
    from mmrazor.registry import MODELS
    from mmrazor.structures import (convert_fix_subnet, export_fix_subnet,
                                    load_fix_subnet)
    rng, seed = ctx.rng, ctx.case_seed
    register_zoo()
    tool = rng.choice(['supernet2subnet', 'static', 'prune_cfg', 'units'])
    ctx.key('convert', tool)
    g = torch.Generator().manual_seed(seed)
    x = torch.randn(2, 3, nas.HW, nas.HW, generator=g)
    if tool == 'supernet2subnet':
        spec = nas.rand_spec(rng)
        model = dict(type='mmrazor.SPOS', architecture=dict(
            type='RVNasArch', spec=json.dumps(spec), seed=seed),
            mutator=dict(type='mmrazor.NasMutator'))
        trained = search.make_spos(spec, seed)
        with torch.no_grad():
            for p in trained.parameters():
                p.add_(torch.randn(p.shape, generator=g) * .1)
        ck = os.path.join(work, 'sup.pth')
        torch.save(dict(state_dict=trained.state_dict(), meta={}), ck)
        trained.mutator.set_choices(trained.mutator.sample_choices())
        want = infer(trained, x)
        sub = convert_fix_subnet(export_fix_subnet(trained)[0])
        y = os.path.join(work, 'sub.yaml')
        fileio.dump(sub, y)
        cfg = os.path.join(work, 'cfg.py')
        with open(cfg, 'w') as f:
            f.write(f'model = {model!r}\n')
            f.write("default_scope = 'mmrazor'\nlog_level = 'CRITICAL'\n"
                    "visualizer = dict(type='Visualizer', "
                    "vis_backends=[])\n")
        import mmengine.runner.runner as mr
        mr.collect_env = lambda: {}
        random_state = torch.get_rng_state()
        torch.manual_seed(seed + 1)
        script(ctx, tool, 'model_converters/convert_supernet2subnet.py', cfg,
               ck, y)
        torch.set_rng_state(random_state)
        out = glob.glob(os.path.join(work, 'subnet_*.pth'))
        ctx.check(len(out) == 1, 'supernet2subnet:file', lambda:
                  f'{os.listdir(work)}')
        if len(out) != 1:
            return
        sd = torch.load(out[0])['state_dict']
        new = search.make_spos(spec, seed + 5)
        load_fix_subnet(new, y)
        res = new.load_state_dict(sd, strict=False)
        ctx.check(not res.missing_keys and not res.unexpected_keys,
                  'supernet2subnet:keys', lambda: str(res)[:300])
        ctx.event('sliced')
        got = infer(new, x)
        ctx.check(sw.near(got, want, 1e-5), 'supernet2subnet:weights',
                  lambda: 'the converted subnet computes something else: '
                  f'off by {float((got - want).abs().max()):.3g} of '
                  f'{float(want.abs().max()):.3g}')
        return
    c = [rng.randint(4, 9) for _ in range(3)]
    arch = dict(type='RVPruneArch', chans=c, seed=seed)
    base = MODELS.build(dict(arch, _scope_='mmrazor'))
    with torch.no_grad():
        for p in base.parameters():
            p.add_(torch.randn(p.shape, generator=g) * .1)
    mut = dict(type='ChannelMutator',
               channel_unit_cfg=dict(type='L1MutableChannelUnit',
                                     default_args=dict(choice_mode='ratio')),
               parse_cfg=dict(type='ChannelAnalyzer', tracer_type='FxTracer',
                              demo_input=(1, 3, nas.HW, nas.HW)))
    cfg = os.path.join(work, 'net.py')
    if tool == 'static':
        probe = MODELS.build(dict(
            type='mmrazor.ItePruneAlgorithm', architecture=copy.deepcopy(
                arch), mutator_cfg=copy.deepcopy(mut)))
        names = list(probe.mutator.choice_template)
        algo = dict(type='mmrazor.ItePruneAlgorithm', architecture=arch,
                    mutator_cfg=mut)
        with open(cfg, 'w') as f:
            f.write(f"model = {algo!r}\ndefault_scope = 'mmrazor'\n")
        probe.architecture.load_state_dict(base.state_dict(), strict=False)
        probe.mutator.set_choices({n: rng.choice([.25, .5, .75, 1.])
                                   for n in names})
        probe.eval()
        want = infer(probe, x)
        wchoice = probe.mutator.choice_template
        ck = os.path.join(work, 'run.v2.pth' if rng.random() < .3
                          else 'run.pth')
        torch.save(dict(state_dict=probe.state_dict(), meta={}), ck)
        args = [cfg, ck]
        out = os.path.join(work, 'work_dirs', 'net')
        if rng.random() < .6:
            out = os.path.join(work, 'o')
            args += ['-o', out]
        script(ctx, tool, 'pruning/get_static_model_from_algorithm.py', *args)
        files = sorted(os.listdir(out)) if os.path.isdir(out) else None
        ctx.check(files == ['run_pruned.json', 'run_pruned.pth'],
                  'static:files', lambda: f'{files}')
        if files != ['run_pruned.json', 'run_pruned.pth']:
            return
        with open(os.path.join(out, files[0])) as f:
            ctx.check(json.load(f) == wchoice, 'static:structure', 'other')
        sd = torch.load(os.path.join(out, files[1]))
        new = MODELS.build(dict(arch, _scope_='mmrazor'))
        shapes(new, sd)
        res = new.load_state_dict(sd, strict=False)
        ctx.check(not res.missing_keys and not res.unexpected_keys,
                  'static:keys', lambda: str(res)[:300])
        ctx.event('static_models')
        new.eval()
        with torch.no_grad():
            got = new(x, mode='tensor')
        ctx.check(sw.near(got, want, 1e-5), 'static:weights',
                  'the static model computes something else')
        return
    # the plain network of a config of mmrazor, pruned by the tools
    with open(cfg, 'w') as f:
        f.write(f'model = {dict(arch, type="mmrazor.RVPruneArch")!r}\n'
                "default_scope = 'mmrazor'\n")
        rest = dict(train_cfg=dict(by_epoch=True, max_epochs=rng.randint(
            2, 9)), load_from=rng.choice([None, 'x.pth']))
        for k, v in rest.items():
            f.write(f'{k} = {v!r}\n')
        mean = None
        if rng.random() < .6:
            mean = [round(rng.random() * 99, 2) for _ in range(3)]
            f.write('data_preprocessor = ' + repr(dict(
                type='mmengine.ImgDataPreprocessor', mean=mean,
                std=[2., 3., 4.])) + '\n')
    demo = patch_demo()
    try:
        if tool == 'units':
            out = os.path.join(work, 'u.json')
            opts = rng.choice([['--choice'], ['-i'], ['-c'], []])
            script(ctx, tool, 'pruning/get_channel_units.py', cfg, *opts,
                   '-o', out)
            with open(out) as f:
                got = json.load(f)
            n = {3: 2}[len(c)]
            vals = sorted(c[:2])
            if opts == ['--choice']:
                ctx.check(len(got) == n and set(got.values()) == {1.},
                          'units:choices', lambda: f'{got}')
            else:
                args = [u['init_args']['num_channels'] for u in
                        got['channel_unit_cfg']['units'].values()] \
                    if opts == ['-i'] else None
                if args is not None:
                    ctx.check(sorted(args) == vals, 'units:channels',
                              lambda: f'{args}, want {vals}')
                units = got['channel_unit_cfg']['units']
                ctx.check(len(units) == n, 'units:number', lambda:
                          f'{len(units)} units, want {n}')
            ctx.event('prune_configs')
            return
        ck = os.path.join(work, 'w.pth')
        torch.save(dict(state_dict=base.state_dict(), meta={}), ck)
        out = os.path.join(work, 'prune.py')
        args = [cfg, '-o', out, '--checkpoint', ck]
        target = None
        if rng.random() < .6:
            tmp = os.path.join(work, 't.json')
            script(ctx, tool, 'pruning/get_channel_units.py', cfg,
                   '--choice', '-o', tmp)
            with open(tmp) as f:
                target = {k: rng.choice([.5, .25, 1.])
                          for k in json.load(f)}
            with open(tmp, 'w') as f:
                json.dump(target, f)
            args += ['--subnet', tmp]
        script(ctx, tool, 'pruning/get_l1_prune_config.py', *args)
        from mmengine import Config
        pc = Config.fromfile(out)
        ctx.check(pc.model.type == 'ItePruneAlgorithm' and
                  pc.model.architecture.init_cfg.checkpoint == ck,
                  'prune-config:model', lambda: str(pc.model)[:300])
        got = dict(pc.model.target_pruning_ratio)
        ctx.check(set(got.values()) == {1.} if target is None
                  else got == target, 'prune-config:target', lambda:
                  f'{got}, want {target}')
        with ctx.sut('build pruned'):
            algo = MODELS.build(pc.model)
            algo.init_weights()
            algo.mutator.set_choices(got)
        ctx.event('prune_configs')
        ctx.check(all(pc.get(k) == v for k, v in rest.items()),
                  'prune-config:rest', lambda: f'{rest} lost: {pc}'[:300])
        for m in (algo, algo.architecture) if mean else ():
            got_mean = getattr(m.data_preprocessor, 'mean', None)
            ctx.check(got_mean is not None and torch.allclose(
                got_mean.flatten(), torch.tensor(mean)),
                'prune-config:preprocessor', 'the images are prepared '
                f'otherwise: {got_mean} instead of {mean}')
            ctx.event('preprocessors')
        # weights of the checkpoint, with the most important channels
        ref = keep_l1(base, {k: got[k] for k in got}, algo)
        algo.train(False)
        y = infer(algo, x)
        ctx.check(sw.near(y, ref(x), 1e-4), 'prune-config:network',
                  'not the pruned network of the checkpoint')
    finally:
        demo()


def patch_demo():
    """The demo input of an unknown scope: an image of the size."""
    from mmrazor.models.task_modules.demo_inputs import demo_inputs as di
    from mmrazor.models.task_modules.demo_inputs import default_demo_inputs
    from rv.checks import c28  # noqa: F401
    cls = default_demo_inputs.DefaultDemoInput
    old = cls.__init__

    def init(self, input_shape=(1, 3, nas.HW, nas.HW), training=False,
             scope=None, kwargs=None):
        old(self, input_shape, training, scope, kwargs or {})
    cls.__init__ = init
    return lambda: setattr(cls, '__init__', old)


def keep_l1(base, target, algo):
    """conv1 and conv2 keep the filters of the largest L1 norm."""
    net = copy.deepcopy(base).eval()

    def run(x):
        masks = {}
        for name, conv in (('conv1', net.conv1), ('conv2', net.conv2)):
            r = [v for k, v in target.items() if k.startswith(name)]
            n = conv.out_channels
            s = conv.weight.detach().flatten(1).abs().sum(1)
            m = torch.zeros(n)
            k = max(int(n * r[0]), 1)
            m[s.topk(k)[1]] = 1
            masks[name] = m.reshape(1, -1, 1, 1)
        with torch.no_grad():
            h = torch.relu(net.bn1(net.conv1(x))) * masks['conv1']
            h = torch.relu(net.bn2(net.conv2(h))) * masks['conv2']
            return net.conv3(h)
    return run


def shapes(net, sd):
    """Give the layers the shapes of the stored tensors."""
    for n, m in net.named_modules():
        if f'{n}.weight' in sd:
            w = sd[f'{n}.weight']
            if isinstance(m, nn.Conv2d):
                m.out_channels, m.in_channels = w.shape[:2]
                m.weight = nn.Parameter(torch.empty_like(w))
                if m.bias is not None:
                    m.bias = nn.Parameter(torch.empty(w.shape[0]))
            elif isinstance(m, nn.BatchNorm2d):
                m.num_features = len(w)
                m.weight = nn.Parameter(torch.empty_like(w))
                m.bias = nn.Parameter(torch.empty_like(w))
                m.running_mean = torch.empty_like(w)
                m.running_var = torch.empty_like(w)


def register_zoo():
    from mmengine.model import BaseModel
    from mmrazor.registry import MODELS
    nas.register_ops()
    if 'RVPruneArch' in MODELS.module_dict:
        return

    def RVNasArch(spec, seed, **kw):
        return search.make_arch(json.loads(spec), seed)
    MODELS.register_module(name='RVNasArch', module=RVNasArch)

    class RVPruneArch(BaseModel):

        def __init__(self, chans, seed, init_cfg=None, **kw):
            super().__init__(init_cfg=init_cfg, data_preprocessor=kw.get(
                'data_preprocessor'))
            torch.manual_seed(seed)
            a, b, c = chans
            self.conv1, self.bn1 = nn.Conv2d(3, a, 3, padding=1), \
                nn.BatchNorm2d(a)
            self.conv2, self.bn2 = nn.Conv2d(a, b, 3, padding=1), \
                nn.BatchNorm2d(b)
            self.conv3 = nn.Conv2d(b, c, 1)

        def forward(self, inputs, data_samples=None, mode='tensor'):
            h = torch.relu(self.bn1(self.conv1(inputs)))
            h = torch.relu(self.bn2(self.conv2(h)))
            h = self.conv3(h)
            return dict(loss=h.square().mean()) if mode == 'loss' else h
    MODELS.register_module(name='RVPruneArch', module=RVPruneArch)


# latest checkpoint and the state of the run

@scratch
def latest(ctx, work):
    from mmrazor.utils import find_latest_checkpoint
    rng = ctx.rng
    suffix = rng.choice(['pth', 'pth', 'yaml'])
    d = os.path.join(work, 'd')
    kind = rng.choice(['none', 'empty', 'latest', 'numbers', 'numbers',
                       'mixed'])
    ctx.key('latest', kind, suffix)
    want = None
    if kind != 'none':
        os.makedirs(d)
        # of another kind
        for n in ('epoch_99', 'latest'):
            if rng.random() < .4:
                open(os.path.join(d, f'{n}.txt'), 'w').close()
    if kind in ('latest', 'numbers', 'mixed'):
        ids = rng.sample([0, 1, 2, 9, 10, 11, 99, 100, 1000],
                         rng.randint(1, 6))
        pre = rng.choice(['epoch', 'iter', 'my_net_epoch'])
        for i in ids:
            open(os.path.join(d, f'{pre}_{i}.{suffix}'), 'w').close()
        want = os.path.join(d, f'{pre}_{max(ids)}.{suffix}')
        if kind == 'mixed':
            for n in rng.sample(['best_acc_epoch_1', 'last', 'pretrained',
                                 'best_mAP'], 2):
                if n != 'best_acc_epoch_1':
                    open(os.path.join(d, f'{n}.{suffix}'), 'w').close()
    if kind == 'latest':
        want = os.path.join(d, f'latest.{suffix}')
        open(want, 'w').close()
    with ctx.sut('latest'):
        got = find_latest_checkpoint(d, suffix) if suffix != 'pth' or \
            rng.random() < .5 else find_latest_checkpoint(d)
    ctx.event('latest')
    ctx.check(got == want, 'latest', lambda: f'{got}, want {want}')


@scratch
def runtime(ctx, work):
    """What the run is reported to be at."""
    from mmrazor.utils import RuntimeInfo
    rng, seed = ctx.rng, ctx.case_seed
    epochs, n, b = rng.randint(1, 4), rng.randint(1, 7), rng.randint(1, 3)
    per = -(-n // b)
    ctx.key('runtime', epochs, n, b)
    seen = []

    class Look(sw_hook()):
        priority = 'LOWEST'

        def before_train_iter(self, runner, batch_idx, data_batch=None):
            seen.append((RuntimeInfo.epoch(), RuntimeInfo.iter(),
                         RuntimeInfo.iter_by_epoch(),
                         RuntimeInfo.iter_pre_epoch(),
                         RuntimeInfo.max_epochs(), RuntimeInfo.max_iters()))
    spec, make = supernet(ctx, 'spos', seed)
    with ctx.sut('train'):
        r = trainer(os.path.join(work, 'exp'), make(), epochs, [Look()],
                    seed, n=n, batch=b)
        r.train()
    want = [(e, e * per + i, i, per, epochs, epochs * per)
            for e in range(epochs) for i in range(per)]
    ctx.event('runtime', len(want))
    ctx.check(seen == want, 'runtime', lambda: f'{seen[:4]}, want {want[:4]}')
    with ctx.rejects('unknown', (KeyError, )):
        RuntimeInfo.get_info('rv_nothing')


# drawings

def heat(img):
    """A grey image in the colours of mmengine."""
    import cv2
    v = img.astype(np.float32)
    out = np.zeros(v.shape, np.uint8)
    norm = np.zeros(v.shape)
    norm = cv2.normalize(v, norm, 0, 255, cv2.NORM_MINMAX)
    out = np.asarray(norm, dtype=np.uint8)
    return cv2.cvtColor(cv2.applyColorMap(out, cv2.COLORMAP_JET),
                        cv2.COLOR_BGR2RGB)


def draw(ctx):
    import torch.nn.functional as F
    from mmrazor.visualization.local_visualizer import modify
    rng = ctx.rng
    g = torch.Generator().manual_seed(ctx.case_seed)
    c, h, w = rng.randint(1, 8), rng.randint(3, 9), rng.randint(3, 9)
    f = torch.randn(c, h, w, generator=g, requires_grad=rng.random() < .3)
    f0 = f.detach().clone()
    mode = rng.choice(['squeeze_mean', 'select_max', 'pixel_wise_max', None])
    over = None
    if rng.random() < .5:
        oh, ow = (h, w) if rng.random() < .3 else (
            rng.randint(4, 20), rng.randint(4, 20))
        over = (torch.rand(oh, ow, 3, generator=g) * 255).numpy().astype(
            np.uint8)
    size = (rng.randint(4, 16), rng.randint(4, 16)) \
        if rng.random() < .4 else None
    alpha = rng.choice([0., .3, .5, 1.])
    topk = rng.choice([-1, 0, 3, 20])
    ctx.key('draw', mode, over is None, size is None, topk > 0)
    kw = dict(channel_reduction=mode, topk=topk, resize_shape=size,
              alpha=alpha)
    keep = None if over is None else over.copy()
    if mode is None and topk <= 0 and c not in (1, 3):
        with ctx.rejects('channels', (AssertionError, )):
            modify(f, over, **kw)
        return
    if mode is None and topk > 0 and rng.random() < .2:
        with ctx.rejects('arrangement', (AssertionError, )):
            modify(f, over, arrangement=(1, topk - 1), **kw)
        return
    with ctx.sut('modify'):
        out = modify(f, over, **kw)
    ctx.event('drawings')
    ctx.check(torch.equal(f.detach(), f0), 'draw:feature', 'changed')
    if over is not None:
        ctx.check(np.array_equal(over, keep), 'draw:image', 'changed')
    # the map as shown
    m = f0
    if over is not None and over.shape[:2] != (h, w) and size is None:
        oh, ow = over.shape[:2]
        fh, fw = h, w
        if h / w > oh / ow:
            fh = round(w * oh / ow)  # what the padding added is cut
        else:
            fw = round(h * ow / oh)
        if fh < 1 or fw < 1:
            return
        m = F.interpolate(m[..., :fh, :fw][None], (oh, ow),
                          mode='bilinear')[0]
    img = over
    if size is not None:
        import cv2
        m = F.interpolate(m[None], size, mode='bilinear',
                          align_corners=False)[0]
        img = None if over is None else cv2.resize(over, size[::-1])
    ctx.check(out.ndim == 3 and out.shape[2] == 3 and out.dtype == np.uint8,
              'draw:kind', lambda: f'{out.shape} {out.dtype}')
    if mode is None and topk > 0:
        return
    ctx.check(out.shape[:2] == tuple(m.shape[1:]), 'draw:size', lambda:
              f'{out.shape}, want {tuple(m.shape[1:])}')
    if mode == 'squeeze_mean':
        v = m.mean(0)
    elif mode == 'pixel_wise_max':
        v = m.max(0)[0]
    elif mode == 'select_max':
        v = m[m.sum((1, 2)).argmax()]
    elif c == 1:
        v = m[0]
    else:
        return
    want = heat(v.numpy()).astype(np.float64)
    if img is not None:
        want = img * (1 - alpha) + want * alpha
    d = np.abs(out.astype(np.float64) - want)
    ctx.check(out.shape == want.shape and d.max() <= 2.5, 'draw:pixels',
              lambda: f'{mode} off by {d.max():.1f}')


@scratch
def visual(ctx, work):
    """Feature maps drawn while a model is trained."""
    import cv2
    from mmengine import ConfigDict
    from mmcls.visualization import ClsVisualizer
    from mmengine.model import BaseModel
    from mmrazor.engine.hooks import RazorVisualizationHook
    rng, seed = ctx.rng, ctx.case_seed
    ClsVisualizer.get_instance(f'rv{seed}-{rng.random()}')
    g = torch.Generator().manual_seed(seed)
    n = rng.randint(1, 3)
    for i in range(n):
        cv2.imwrite(os.path.join(work, f'{i}.png'), (torch.rand(
            12, 10, 3, generator=g) * 255).numpy().astype(np.uint8))

    class Net(BaseModel):

        def __init__(self):
            super().__init__(data_preprocessor=dict(
                type='mmcls.ClsDataPreprocessor', mean=[0., 0, 0],
                std=[255., 255, 255]))
            self.conv, self.bn = nn.Conv2d(3, 4, 3, padding=1), \
                nn.BatchNorm2d(4)
            self.drop = nn.Dropout(.5)
            self.calls = 0

        def forward(self, inputs, data_samples=None, mode='tensor'):
            self.calls += 1
            return self.drop(self.bn(self.conv(inputs)))
    torch.manual_seed(seed)
    net = Net()
    epochs, every = rng.randint(1, 5), rng.randint(1, 3)
    idx = rng.choice([0, list(range(n)), [n - 1]])
    on = rng.random() < .85
    use = rng.random() < .4
    over = rng.random() < .5
    out = 'vis'
    ctx.key('visual', epochs, every, str(idx), on, use, over)

    class R:
        work_dir, timestamp, epoch = work, 'ts', 0
        model = net
        cfg = ConfigDict(test_dataloader=dict(dataset=dict(pipeline=[
            dict(type='LoadImageFromFile'),
            dict(type='LoadAnnotations'),
            dict(type='mmcls.PackClsInputs')])))

        class val_loop:

            class dataloader:

                class dataset:
                    get_data_info = staticmethod(lambda i: dict(
                        img_path=os.path.join(work, f'{i}.png')))
    runner = R()
    recorders = ConfigDict(
        a=dict(_scope_='mmrazor', type='ModuleOutputs', source='conv'),
        b=dict(_scope_='mmrazor', type='ModuleOutputs', source='bn'))
    mappings = ConfigDict(one=dict(recorder='a'), two=dict(recorder='b'))
    with ctx.sut('hook'):
        hook = RazorVisualizationHook(
            recorders, mappings, enabled=on, data_idx=idx, interval=every,
            out_dir=out, is_overlaid=over, use_norm=use)
        hook.before_run(runner)
    net.train()
    before = search.state(net)
    modes = [m.training for m in net.modules()]
    want = set()
    ids = [idx] if isinstance(idx, int) else idx
    base = os.path.join(work, 'ts', out)

    def files(stage):
        return {os.path.join(base, f'{stage}_data_idx_{i}_{m}_0.jpg')
                for i in ids for m in ('one', 'two')}
    with ctx.sut('before_train'):
        hook.before_train(runner)
    if on:
        want |= files('before_run')
    for e in range(epochs):
        runner.epoch = e
        with ctx.sut('after_train_epoch'):
            hook.after_train_epoch(runner)
        if on and e % every == 0:
            want |= files(f'epoch_{e}')
    got = set(glob.glob(os.path.join(work, '**', '*.jpg'), recursive=True))
    ctx.event('hook_drawings', len(want))
    ctx.check(got == want, 'visual:files', lambda: 'differ: ' + str(sorted(
        os.path.relpath(p, work) for p in got ^ want)[:5]))
    ctx.check(net.calls == len(want) // 2, 'visual:runs', lambda:
              f'{net.calls} runs of the model for {len(want)} drawings')
    ctx.check(search.same_state(before, search.state(net)),
              'visual:state', lambda: 'drawing changed the trained model: ' +
              str([k for k, v in search.state(net).items()
                   if not torch.equal(v, before[k])][:4]))
    ctx.check(modes == [m.training for m in net.modules()],
              'visual:mode', 'drawing changed the training mode')


SECTIONS = {
    'dump': (dump, 60, 350),
    'estimate': (estimate, 45, 250),
    'optims': (optims, 60, 500),
    'ckpts': (ckpts, 60, 500),
    'convert': (convert, 40, 250),
    'latest': (latest, 60, 300),
    'runtime': (runtime, 6, 40),
    'draw': (draw, 150, 1500),
    'visual': (visual, 24, 150),
}
