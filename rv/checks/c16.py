"""C16: differentiable search trains each level from its own data."""
import contextlib
import copy

import torch
import torch.nn as nn
import torch.nn.functional as F

from rv import nas
from rv import sandwich as sw

ID = 'C16'
RULE = (
    'random supernets of mixed, routed and one-hot operators (groups by alias '
    'and by the user), optimizers, accumulation, losses, epochs, thresholds '
    'and resource limits, plain or wrapped for distributed training; after '
    'every step weights, architecture parameters, pending gradients and '
    'losses are compared with a reference training of a twin')
ASSUMPTIONS = [
    'the wrapper runs in a process group of one rank',
    'the weights of unrolled search are trained by SGD without dampening',
]
REQUIRED_EVENTS = {'steps': 250, 'arch_updates': 120, 'unrolled': 40,
                   'pretrain': 15, 'search': 40, 'finetune': 25,
                   'auto_fixed': 4, 'limited': 10, 'shared': 8,
                   'ddp_steps': 20, 'accumulated': 20}


def opt_cfg(rng, sgd=False):
    c = [('SGD', dict(lr=.05)), ('SGD', dict(lr=.05, momentum=.9)),
         ('SGD', dict(lr=.02, momentum=.9, weight_decay=1e-2))]
    if not sgd:
        c += [('Adam', dict(lr=.01, betas=(.5, .999))),
              ('Adam', dict(lr=.02, weight_decay=1e-3))]
    return rng.choice(c)


def custom_groups(rng, spec):
    """Groups of the user: (argument, joins of element keys)."""
    same = {}
    for i, b in enumerate(spec['blocks']):
        if b['kind'] in ('diff', 'onehot') and b['alias'] is None:
            # a group has one search space
            same.setdefault((b['kind'], tuple(b['cands']) if b[
                'kind'] == 'onehot' else len(b['cands'])), []).append(i)
    out = []
    for ids in same.values():
        if len(ids) > 1 and rng.random() < .5:
            out.append(rng.sample(ids, 2))
    rng.shuffle(out)
    return out


def wrappers(ctx, algo, cfgs, accs):
    """An optimizer per level, by hand or by the constructor."""
    from mmengine.optim import OptimWrapper, OptimWrapperDict

    from mmrazor.registry import OPTIM_WRAPPER_CONSTRUCTORS
    parts = dict(architecture=algo.architecture, mutator=algo.mutator)
    if ctx.rng.random() < .5:
        ctx.event('constructor')
        cfg = {n: dict(type='OptimWrapper', accumulative_counts=accs[n],
                       optimizer=dict(type=k, **kw))
               for n, (k, kw) in cfgs.items()}
        keep = copy.deepcopy(cfg)
        with ctx.sut('constructor'):
            w = OPTIM_WRAPPER_CONSTRUCTORS.build(
                dict(type='SeparateOptimWrapperConstructor',
                     optim_wrapper_cfg=cfg))(algo)
        ctx.check(cfg == keep, 'constructor:config', 'changed')
        for n, p in parts.items():
            got = [id(q) for g in w[n].param_groups for q in g['params']]
            ctx.check(sorted(got) == sorted(id(q) for q in p.parameters()),
                      'constructor:split', lambda: f'{n}: {len(got)} params')
            k, kw = cfgs[n]
            ctx.check(
                type(w[n].optimizer).__name__ == k and
                w[n]._accumulative_counts == accs[n] and all(
                    g[a] == v for g in w[n].param_groups
                    for a, v in kw.items()), 'constructor:settings', n)
        return w
    return OptimWrapperDict(**{
        n: OptimWrapper(
            getattr(torch.optim, k)(parts[n].parameters(), **kw),
            accumulative_counts=accs[n]) for n, (k, kw) in cfgs.items()})


def total(losses):
    return sum(v for n, v in losses.items() if 'loss' in n)


def batch(g, dt, n=4, hw=nas.HW):
    x = torch.randn(n, 3, hw, hw, generator=g).to(dt)
    return dict(inputs=x, data_samples=torch.randint(0, 50, (n, ),
                                                     generator=g))


def same_params(ctx, mech, got, want, tol, info):
    got, want = list(got), list(want)
    ctx.check(len(got) == len(want), mech, 'other parameters')
    for i, (a, b) in enumerate(zip(got, want)):
        if not sw.near(a, b, tol):
            ctx.check(False, mech, lambda: f'{info()} parameter {i} '
                      f'{tuple(a.shape)} off by '
                      f'{float((a - b).abs().max()):.2g} of '
                      f'{float(b.abs().max()):.2g}')
            return
    ctx.check(True, mech, '')


def pending(ps):
    return [torch.zeros_like(p) if p.grad is None else p.grad for p in ps]


def darts(ctx, unroll=False):
    from mmrazor.models.algorithms import Darts
    from mmrazor.models.algorithms.nas.darts import DartsDDP
    from mmrazor.models.mutators import NasMutator
    rng = ctx.rng
    seed = ctx.case_seed
    spec = nas.rand_spec(rng, ['diff', 'diff', 'route', 'routediff'])
    joins = custom_groups(rng, spec)
    groups = [[f'net.blocks.{i}' for i in j] for j in joins]
    if any(b['alias'] for b in spec['blocks']) or joins:
        ctx.event('shared')
    ddp = rng.random() < .35
    dt = torch.float32 if ddp else torch.float64
    tol = 2e-3 if ddp else 1e-6
    norm = rng.random() < .5

    def make():
        arch = sw.nas_arch(spec, seed)
        if unroll:
            # smooth: the second order term is a finite difference
            smooth(arch)
        torch.manual_seed(seed)
        algo = Darts(arch, NasMutator(custom_groups=groups or None),
                     unroll=unroll, norm_training=norm)
        g = torch.Generator().manual_seed(seed + 1)
        for p in algo.mutator.arch_params.values():
            p.data = torch.randn(p.shape, generator=g)
        return algo.to(dt)
    with ctx.sut('build'):
        algo, twin = make(), make()
    algo.train(False)
    ctx.check(all(m.training == norm for m in algo.architecture.modules()
                  if isinstance(m, nn.BatchNorm2d)), 'norm-training',
              f'norm_training={norm}')
    algo.train()
    twin.train()
    accs = dict(architecture=rng.choice([1, 1, 2, 3]),
                mutator=1 if unroll else rng.choice([1, 1, 2]))
    cfgs = dict(architecture=opt_cfg(rng, sgd=unroll or ddp),
                mutator=opt_cfg(rng))
    with ctx.sut('optimizers'):
        w = wrappers(ctx, algo, cfgs, accs)
    mine = dict(
        architecture=getattr(torch.optim, cfgs['architecture'][0])(
            twin.architecture.parameters(), **cfgs['architecture'][1]),
        mutator=getattr(torch.optim, cfgs['mutator'][0])(
            twin.mutator.parameters(), **cfgs['mutator'][1]))
    ctx.key('unrolled' if unroll else 'darts', nas.describe(spec), str(joins),
            str(accs), str(cfgs), ddp)
    W, A = list(twin.architecture.parameters()), list(
        twin.mutator.parameters())
    steps = rng.randint(2, 5)
    g = torch.Generator().manual_seed(seed)
    seen = []
    algo.architecture.register_forward_pre_hook(
        lambda m, a, k: seen.append(
            (a[0] if a else k['inputs'], m.training)), with_kwargs=True)
    frozen = [p for p in W if rng.random() < .1] if not ddp else []
    for p, q in zip(W, algo.architecture.parameters()):
        if any(p is f for f in frozen):
            p.requires_grad = q.requires_grad = False
    hold = dict(architecture=[torch.zeros_like(p) for p in W],
                mutator=[torch.zeros_like(p) for p in A])
    single = not unroll and rng.random() < .12

    def loss(d):
        return twin.architecture(**d, mode='loss')

    def grads(v, ps):
        ps_ = [p for p in ps if p.requires_grad]
        got = iter(torch.autograd.grad(v, ps_, allow_unused=True))
        out = [next(got) if p.requires_grad else None for p in ps]
        return out

    def update(name, ps, gs, t):
        for h, q in zip(hold[name], gs):
            if q is not None:
                h += q / accs[name]
        if (t + 1) % accs[name] == 0:
            for p, h, q in zip(ps, hold[name], gs):
                # what is not reached is not decayed
                p.grad = None if q is None else h.clone()
                h.zero_()
            mine[name].step()
            for p in ps:
                p.grad = None
        else:
            ctx.event('accumulated')

    with contextlib.ExitStack() as st:
        model = algo
        if ddp:
            st.enter_context(sw.one_rank())
            model = DartsDDP(module=algo, find_unused_parameters=True,
                broadcast_buffers=False)
            model.train()
        if single:
            one_level(ctx, model, algo, twin, g, dt, tol, rng)
            return
        for t in range(steps):
            train, val = batch(g, dt), batch(g, dt)
            n = len(seen)
            with ctx.sut('train_step'):
                got = model.train_step((train, val), w)
            ctx.event('steps')
            if ddp:
                ctx.event('ddp_steps')
            runs = seen[n:]
            order = [val, train] if not unroll else [
                train, val, train, train, train]
            ctx.check(
                len(runs) == len(order) and all(
                    torch.equal(r[0], d['inputs']) and r[1]
                    for r, d in zip(runs, order)), 'data',
                lambda: f'{len(runs)} executions, or other data or mode')
            if unroll:
                ctx.event('unrolled')
                lv, ga = unrolled(twin, W, A, train, val, loss, grads,
                                  mine['architecture'])
            else:
                lv = loss(val)
                ga = grads(total(lv), A)
            update('mutator', A, ga, t)
            ctx.event('arch_updates')
            lt = loss(train)
            update('architecture', W, grads(total(lt), W), t)
            want = {f'{p}.{k}': v for p, d in (
                ('mutator', dict(lv, loss=total(lv))),
                ('supernet', dict(lt, loss=total(lt)))) for k, v in d.items()}
            ctx.check(set(got) == set(want), 'loss-names', lambda:
                      f'{sorted(got)} for {sorted(want)}')
            for k in want:
                ctx.check(sw.near(torch.as_tensor(got[k]), want[k], tol),
                          'loss-value', lambda: f'{k} {got[k]} {want[k]}')

            def info():
                return (f'step {t} of {"unrolled " if unroll else ""}search '
                        f'{cfgs} {accs} {nas.describe(spec)[:120]}')
            same_params(ctx, 'arch-params', algo.mutator.parameters(), A,
                        tol, info)
            same_params(ctx, 'weights', algo.architecture.parameters(), W,
                        tol, info)
            same_params(ctx, 'buffers', [
                b.float() for b in algo.architecture.buffers()], [
                    b.float() for b in twin.architecture.buffers()], tol, info)
            same_params(ctx, 'pending-gradient',
                        pending(algo.architecture.parameters()),
                        hold['architecture'], tol, info)
            same_params(ctx, 'pending-gradient',
                        pending(algo.mutator.parameters()), hold['mutator'],
                        tol, info)


def smooth(net):
    for m in net.modules():
        for n, c in list(m.named_children()):
            if isinstance(c, (nn.ReLU, nn.MaxPool2d)):
                setattr(m, n, nn.Softplus())


def unrolled(twin, W, A, train, val, loss, grads, opt):
    """Second order: the gradient at the virtually trained weights, less the
    mixed derivative by central differences."""
    cfg = opt.param_groups[0]
    lr, mom, wd = (cfg[k] for k in ('lr', 'momentum', 'weight_decay'))
    keep = [p.detach().clone() for p in W]

    def put(vs):
        with torch.no_grad():
            for p, v in zip(W, vs):
                p.copy_(v)
    gw = grads(total(loss(train)), W)
    virt = []
    for p, v, q in zip(W, keep, gw):
        if not p.requires_grad:
            virt.append(v)
            continue
        m = opt.state[p].get('momentum_buffer') if p in opt.state else None
        m = 0 if m is None else m
        virt.append(v - lr * (mom * m + (0 if q is None else q) + wd * v))
    put(virt)
    lv = loss(val)
    both = grads(total(lv), W + A)
    dw = [torch.zeros_like(p) if q is None else q
          for p, q in zip(W, both[:len(W)])]
    da = both[len(W):]
    norm = torch.cat([d.reshape(-1) for d in dw]).norm()
    eps = .01 / norm
    side = []
    for s in (1, -1):
        put([v + s * eps * d for v, d in zip(keep, dw)])
        side.append(grads(total(loss(train)), A))
    put(keep)
    z = torch.zeros_like
    return lv, [
        (z(p) if d is None else d) - lr * (
            (z(p) if a is None else a) - (z(p) if b is None else b)) / (
                2 * eps) for p, d, a, b in zip(A, da, *side)]


def one_level(ctx, model, algo, twin, g, dt, tol, rng):
    """With one optimizer the step is the usual one."""
    from mmengine.optim import OptimWrapper
    cfg = opt_cfg(rng, sgd=dt == torch.float32)
    w = OptimWrapper(getattr(torch.optim, cfg[0])(algo.parameters(),
                                                  **cfg[1]))
    mine = getattr(torch.optim, cfg[0])(twin.parameters(), **cfg[1])
    for t in range(3):
        d = batch(g, dt)
        with ctx.sut('train_step'):
            got = model.train_step(d, w)
        ctx.event('steps')
        ctx.event('one_level')
        out = twin.architecture(**d, mode='loss')
        mine.zero_grad()
        total(out).backward()
        mine.step()
        ctx.check(sw.near(torch.as_tensor(got['loss']), total(out), tol),
                  'loss-value', lambda: f'{got["loss"]} {total(out)}')
        same_params(ctx, 'one-level', algo.parameters(), twin.parameters(),
                    tol, lambda: f'step {t}')


class Hot:
    """One-hot operator of the reference."""

    def __init__(self, mod, group):
        self.mod, self.group, self.fixed = mod, group, None
        self.names = list(mod.choices)
        self.cands = [mod._candidates[n] for n in self.names]
        mod.forward = self.forward

    def forward(self, x):
        if self.fixed is not None:
            return self.cands[self.fixed](x)
        self.w = torch.ones((), dtype=x.dtype, requires_grad=True)
        return self.w * self.cands[self.pick](x)


def dsnas(ctx):
    from mmengine.logging import MessageHub

    from mmrazor.models.algorithms import DSNAS
    from mmrazor.models.algorithms.nas.dsnas import DSNASDDP
    from mmrazor.models.mutators import NasMutator
    from mmrazor.models.task_modules import ResourceEstimator
    rng = ctx.rng
    seed = ctx.case_seed
    spec = nas.rand_spec(rng, ['onehot'])
    joins = custom_groups(rng, spec)
    groups = [[f'net.blocks.{i}' for i in j] for j in joins]
    thr = rng.choice([1., 1., .3, .6])
    norm = rng.random() < .5
    limit = rng.choice(['none', 'mid', 'all'])
    pre, fin = rng.choice([(0, 2), (1, 2), (1, 3), (0, 3), (2, 3)])
    ddp = rng.random() < .3
    dt = torch.float32 if ddp else torch.float64
    tol = 2e-3 if ddp else 1e-6

    def arch():
        a = sw.nas_arch(spec, seed)
        for b in a.net.blocks:
            b.fix_threshold = thr
        return a
    shape = (1, 3, nas.HW, nas.HW)
    est = ResourceEstimator()

    def flops(m, s):
        return est.estimate(copy.deepcopy(m).eval(),
                            dict(input_shape=s))['flops']
    base = arch()
    each = [[flops(nn.Sequential(c), (1, nas.W, nas.HW, nas.HW))
             for c in b._candidates.values()] for b in base.net.blocks]
    for i in range(len(base.net.blocks)):
        base.net.blocks[i] = nn.Identity()
    rest = flops(base, shape)
    lo = rest + sum(map(min, each))
    hi = rest + sum(map(max, each))
    bound = dict(none=hi * 10 + 1, mid=(lo + hi) / 2 + 1e-7, all=0.)[limit]
    est_cfg = dict(input_shape=shape)
    if rng.random() < .5:
        est_cfg['type'] = 'mmrazor.ResourceEstimator'
    with ctx.sut('build'):
        torch.manual_seed(seed)
        algo = DSNAS(arch(), NasMutator(custom_groups=groups or None),
                     pretrain_epochs=pre, finetune_epochs=fin,
                     flops_constraints=bound, norm_training=norm,
                     estimator_cfg=est_cfg).to(dt)
    algo.train(False)
    ctx.check(all(m.training == norm for m in algo.architecture.modules()
                  if isinstance(m, nn.BatchNorm2d)), 'norm-training',
              f'norm_training={norm}')
    if rng.random() < .2:
        with ctx.rejects('epochs', (ValueError, )):
            DSNAS(arch(), NasMutator(), pretrain_epochs=fin + rng.randint(
                0, 1), finetune_epochs=fin, estimator_cfg=dict(est_cfg))
    # groups: what carries one alias, or is joined by the user
    key = {}
    for i, b in enumerate(spec['blocks']):
        j = [k for k, q in enumerate(joins) if i in q]
        key[i] = ('u', j[0]) if j else ('a', b['alias']) if b[
            'alias'] else ('o', i)
    mods = {m: i for i, m in enumerate(algo.architecture.net.blocks)}
    at = {}
    for n, ms in algo.mutator.search_groups.items():
        ks = {key[mods[m]] for m in ms}
        ctx.check(len(ks) == 1, 'groups', f'{n}: {ks}')
        at[ks.pop()] = n
    ctx.check(set(at) == set(key.values()), 'groups', f'{at} {key}')
    if len(at) < len(key):
        ctx.event('shared')
    g = torch.Generator().manual_seed(seed + 1)
    scale = rng.choice([.01, 1., 2.])
    alphas = {}
    for k, n in at.items():
        p = algo.mutator.arch_params[n]
        p.data = torch.randn(p.shape, generator=g).to(dt) * scale
        alphas[k] = p.detach().clone().requires_grad_()
    twin = arch().to(dt)
    hots = [Hot(b, key[i]) for i, b in enumerate(twin.net.blocks)]
    algo.train()
    twin.train()
    cfgs = dict(architecture=opt_cfg(rng, sgd=ddp), mutator=opt_cfg(rng))
    with ctx.sut('optimizers'):
        w = wrappers(ctx, algo, cfgs, dict(architecture=1, mutator=1))
    W = list(twin.parameters())
    ctx.key('dsnas', nas.describe(spec), str(joins), thr, limit, pre, fin,
            ddp, str(cfgs))
    mine = getattr(torch.optim, cfgs['architecture'][0])(
        W, **cfgs['architecture'][1])
    order = {id(p): at_ for at_, p in algo.mutator.arch_params.items()}
    back = {n: k for k, n in at.items()}
    amine = getattr(torch.optim, cfgs['mutator'][0])(
        [alphas[back[order[id(p)]]] for p in algo.mutator.parameters()],
        **cfgs['mutator'][1])
    epochs = [e for e in range(fin + 2) for _ in range(rng.randint(1, 2))]
    # also from a checkpoint
    if rng.random() < .35:
        e0 = rng.randint(0, fin + 1)
        epochs = [e for e in epochs if e >= e0]
    seen = []
    algo.architecture.register_forward_pre_hook(
        lambda m, a, k: seen.append(
            (a[0] if a else k['inputs'], m.training))
        if m is algo.architecture else None, with_kwargs=True)
    hub = MessageHub.get_current_instance()
    done = False
    with contextlib.ExitStack() as st:
        model = algo
        if ddp:
            st.enter_context(sw.one_rank())
            model = DSNASDDP(module=algo, find_unused_parameters=True,
                broadcast_buffers=False)
        for t, e in enumerate(epochs):
            hub.update_info('epoch', e)
            d = batch(g, dt)
            n = len(seen)
            searching = pre <= e < fin
            probs = {k: F.softmax(a, -1).detach() for k, a in alphas.items()}
            for h in hots:
                if h.fixed is not None:
                    continue
                p = probs[h.group]
                top = p.sort(descending=True)[0]
                gap = float(top[0] - (top[1] if len(top) > 1 else 0))
                if abs(gap - thr) < 1e-4:
                    ctx.skip('margin at threshold')
                    return
                if len(top) > 1 and float(top[0] - top[1]) < 1e-6:
                    ctx.skip('tie')
                    return
                if gap >= thr:
                    h.fixed = int(p.argmax())
                    if e < fin:
                        ctx.event('auto_fixed')
                elif e >= fin:
                    h.fixed = int(p.argmax())
            with ctx.sut('train_step'):
                got = model.train_step(d, w)
            ctx.event('steps')
            if ddp:
                ctx.event('ddp_steps')
            ctx.event('pretrain' if e < pre else 'search' if searching
                      else 'finetune')
            runs = seen[n:]
            ctx.check(len(runs) == 1 and torch.equal(
                runs[0][0], d['inputs']) and runs[0][1], 'data',
                lambda: f'{len(runs)} executions, or other data or mode')
            free = []
            for h, m in zip(hots, algo.architecture.net.blocks):
                ctx.check(m.is_fixed == (h.fixed is not None), 'fixed',
                          lambda: f'{m.is_fixed} in epoch {e} of {pre} {fin}')
                if h.fixed is not None:
                    ctx.check(m.choices == [h.names[h.fixed]], 'fixed:choice',
                              lambda: f'{m.choices} {h.names[h.fixed]}')
                else:
                    h.pick = int(m.arch_weights.argmax())
                    free.append(h)
            out = twin(**d, mode='loss')
            mine.zero_grad()
            total(out).backward()
            mine.step()
            want = {f'supernet.{k}': v for k, v in dict(
                out, loss=total(out)).items()}
            if searching:
                loss, fl = 0 * sum(a.sum() for a in alphas.values()), 0.
                now = rest
                for h, costs in zip(hots, each):
                    p = F.softmax(alphas[h.group], -1)
                    now += costs[int(p.argmax()) if h.fixed is None
                                 else h.fixed]
                    if h.fixed is None:
                        loss = loss + p[h.pick].log()
                        fl = fl + p[h.pick] * costs[h.pick]
                want['mutator.arch_loss'] = loss
                # resources are rounded to three digits
                if abs(now - bound) < .001 * (2 + len(hots)):
                    ctx.skip('resource at its limit')
                    return
                over = now > bound
                if over:
                    ctx.event('limited')
                    want['mutator.flops_loss'] = torch.as_tensor(fl * 1e-2)
                want['mutator.loss'] = sum(
                    v for k, v in want.items() if k.startswith('mutator.'))
                # the policy gradient, of each operator by its own reward
                amine.zero_grad()
                for a in alphas.values():
                    a.grad = torch.zeros_like(a)
                for h in free:
                    a = alphas[h.group]
                    p = F.softmax(a, -1)
                    v = p[h.pick].log()
                    if over:
                        v = v + p[h.pick] * each[hots.index(h)][h.pick] * 1e-2
                    a.grad += torch.autograd.grad(v, a)[0] * h.w.grad
                amine.step()
                ctx.event('arch_updates')
            ctx.check(set(got) == set(want), 'loss-names', lambda:
                      f'{sorted(got)} for {sorted(want)} epoch {e}')
            for k in want:
                ctx.check(sw.near(torch.as_tensor(got[k]),
                                  torch.as_tensor(want[k]), max(tol, 1e-5)),
                          'loss-value', lambda: f'{k} {got[k]} {want[k]}')

            def info():
                return f'step {t} epoch {e} of {pre} {fin} {cfgs} thr {thr}'
            same_params(ctx, 'arch-params',
                        [algo.mutator.arch_params[at[k]] for k in alphas],
                        alphas.values(), tol, info)
            a, b = algo.architecture.state_dict(), twin.state_dict()
            same_params(ctx, 'weights', a.values(), [b[k] for k in a], tol,
                        info)
            # not to differ by chance: continue from equal values
            if e >= fin:
                done = True
    if done:
        ctx.event('finished')
        ctx.check(not algo.is_supernet, 'finished', 'still a supernet')
        algo.eval()
        twin.eval()
        for m in twin.modules():
            if isinstance(m, nn.BatchNorm2d):
                m.training = norm
        x = batch(g, dt)['inputs']
        with torch.no_grad(), ctx.sut('predict'):
            a, b = algo(x, mode='tensor'), twin(x)
        ctx.check(sw.near(a, b, max(tol, 1e-5)), 'subnet', 'another output')


def unrolled_case(ctx):
    darts(ctx, True)


SECTIONS = {
    'darts': (darts, 50, 700),
    'unrolled': (unrolled_case, 24, 350),
    'dsnas': (dsnas, 50, 700),
}
