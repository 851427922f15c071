"""C20: SparseGPT prunes what costs least and compensates for it."""
import copy

import torch
import torch.nn as nn

from rv import gpt, ranks
from rv.nets import GraphNet, init_net
from rv.prune import tracer_spec

ID = 'C20'
RULE = (
    'random linear and convolutional layers (strides, paddings, dilations, '
    'groups), calibration data with correlated and dead inputs in random '
    'batches, sparsities, n:m patterns, block sizes, damping; the least '
    'squares solution is recomputed column by column in float64')
ASSUMPTIONS = [
    'the layers are float32 or float64, on CPU',
    'the block size is a multiple of the m of an n:m pattern',
    'the groups of a convolution share one hessian (documented in the code)',
    'a module has one name in the model',
]
REQUIRED_EVENTS = {'pruned_ops': 250, 'patterns': 60, 'columns': 4000,
                   'failures': 10, 'models': 15, 'model_ops': 40,
                   'rank_ops': 3, 'recalibrated': 20}


def convert(ctx, m):
    from mmrazor.implementations.pruning.sparse_gpt.ops import (
        SparseGptConv2d, SparseGptLinear)
    with ctx.sut('convert'):
        if isinstance(m, nn.Linear):
            op = SparseGptLinear.convert_from(m)
            if op is m:
                ctx.check(m.out_features < m.in_features, 'convert:skipped',
                          f'{m} was not converted')
                op = SparseGptLinear(m.in_features, m.out_features,
                                     bias=m.bias is not None).to(
                                         m.weight.dtype)
                op.load_state_dict(m.state_dict(), strict=False)
            return op
        return SparseGptConv2d.convert_from(m)


def judge(ctx, m, H, old, new, sparsity, pattern, block, percdamp):
    """Follow the pruning column by column."""
    H, dead = gpt.damped(H, percdamp)
    inv = gpt.inverses(H)
    W = old.double().clone()
    W[:, dead] = 0
    Q = new.double()
    tol = 5e-3 * float(W.abs().max()) + 1e-6
    c = torch.stack([v[0] for v in inv])
    n, mm = pattern
    zero = Q == 0
    K = len(H)
    for b in range(0, K, block):
        e = min(K, b + block)
        if not n:
            s = W[:, b:e].square() / c[b:e]
            thr = s.flatten().sort()[0][int(s.numel() * sparsity)]
            z = zero[:, b:e]
            count = int(z.sum())
            want = int(s.numel() * sparsity)
            ctx.check(count >= want and count <= max(
                want + 1, int((s <= thr * 1.01 + 1e-12).sum())),
                'sparsity', lambda: f'{count} of {s.numel()} weights of a '
                f'block are pruned, asked for {sparsity}')
            ctx.check(bool((s[z] <= thr * 1.05 + 1e-9).all()),
                      'selection:pruned', lambda: 'a weight worth '
                      f'{float(s[z].max())} was pruned, threshold {thr}')
            ctx.check(bool((s[~z] >= thr * .95 - 1e-9).all()),
                      'selection:kept', lambda: 'a weight worth '
                      f'{float(s[~z].min())} was kept, threshold {thr}')
        for i in range(b, e):
            if n and (i - b) % mm == 0:
                j = min(i + mm, e)
                s = W[:, i:j].square() / c[i:j]
                z = zero[:, i:j]
                if j - i == mm:
                    ctx.check(bool((z.sum(1) >= n).all()), 'pattern', lambda:
                              f'{z.sum(1).tolist()} of {mm} are zero')
                    exact = z.sum(1) == n
                    hi = s.masked_fill(~z, 0).max(1)[0]
                    lo = s.masked_fill(z, 1e30).min(1)[0]
                    ctx.check(bool((hi <= lo * 1.05 + 1e-9)[exact].all()),
                              'selection:pattern', lambda:
                              'a more valuable weight was pruned')
            w = W[:, i].clone()
            keep = ~zero[:, i]
            d = (Q[:, i] - w)[keep].abs()
            ctx.check(not len(d) or float(d.max()) <= tol, 'compensation',
                      lambda: f'column {i} of {K}: off by {float(d.max())} '
                      f'({tol} allowed)')
            err = torch.where(keep, torch.zeros_like(w), w)
            W[:, i:] -= err[:, None] * (inv[i] / inv[i][0])[None]
            W[:, i] = Q[:, i]
            ctx.event('columns')


def rand_setting(rng, mult):
    pattern = (0, 0) if mult == 1 else rng.choice(
        [(2, 4), (1, 4), (2, 4), (1, 2), (3, 4)] if mult == 4 else [(4, 8)])
    return dict(sparsity=rng.choice([0., .1, .5, .5, .7, .93])), pattern, \
        rng.choice([8, 16, 24, 128]), rng.choice([.01, .01, .1, 1.])


def sec_op(ctx):
    rng = ctx.rng
    mult = rng.choice([1, 1, 4, 8])
    m, make = gpt.rand_layer(rng, mult)
    if rng.random() < .2:
        m = m.double()
    kw, pattern, block, percdamp = rand_setting(rng, mult)
    ctx.key(repr(m), str(kw), pattern, block)
    state = {k: v.clone() for k, v in m.state_dict().items()}
    op = convert(ctx, m)
    rounds = 2 if rng.random() < .15 else 1
    for r in range(rounds):
        data = gpt.Calibration(rng, m, make)
        with ctx.sut('calibrate'):
            op.init_hessian()
            op.register_hessian_hook()
            for x in data.batches:
                x = x.to(m.weight.dtype)
                y = op(x)
                ctx.check(torch.equal(y, m(x)), 'forward',
                          'calibrating changes the output')
            op.remove_hessian_hook()
            op(make(2).to(m.weight.dtype))  # not of the calibration
    if rounds == 2:
        ctx.event('recalibrated')
    ctx.check(all(torch.equal(v, op.state_dict()[k])
                  for k, v in state.items()), 'calibrate:weights',
              'calibrating changes the layer')
    old = m.weight.detach().flatten(1)
    H = data.hessian(m)
    gpt.moment(ctx, op.hessian, H)
    with ctx.sut('prune'):
        op.prune(kw['sparsity'], *pattern, blocksize=block,
                 percdamp=percdamp)
    new = op.weight.detach().flatten(1)
    judge(ctx, m, H, old, new, kw['sparsity'], pattern, block, percdamp)
    ctx.event('pruned_ops')
    if pattern[0]:
        ctx.event('patterns')
    ctx.check(m.bias is None or torch.equal(m.bias, op.bias), 'bias',
              'the bias is changed')
    if rng.random() < .3:
        # the hessian is still that of the data
        with ctx.sut('again'):
            op.weight.data.copy_(m.weight.data)
            op.prune(kw['sparsity'], *pattern, blocksize=block,
                     percdamp=percdamp)
        ctx.check(torch.equal(op.weight.detach().flatten(1), new), 'again',
                  'pruning the same weights again has another result')
    with ctx.sut('static'):
        st = op.to_static_op()
    ctx.check(type(st) is type(m), 'static', f'{type(st)}')
    x = make(2).to(m.weight.dtype)
    ctx.check(torch.equal(st(x), op(x)), 'static:output', 'differs')


def sec_fail(ctx):
    """A layer that cannot be pruned stays as it was."""
    rng = ctx.rng
    from mmrazor.implementations.pruning.sparse_gpt import \
        SparseGptCompressor
    kind = rng.choice(['columns', 'singular', 'nan', 'uncalibrated'])
    cin = rng.choice([5, 9, 13]) if kind == 'columns' else 8
    net = nn.Sequential(nn.Linear(cin, 16), nn.ReLU(), nn.Linear(16, 16))
    ctx.key(kind, cin)
    c = SparseGptCompressor()
    with ctx.sut('prepare'):
        c.prepare(net)
        if kind != 'uncalibrated':
            c.init_hessian()
        c.register_hessian_hooks()
    # fewer samples than columns
    x = torch.randn(2 if kind == 'singular' else 40, cin)
    if kind == 'nan':
        x[0, 0] = float('nan')
    if kind != 'uncalibrated':
        with torch.no_grad(), ctx.sut('calibrate'):
            net(x)
    c.remove_hessian_hooks()
    state = copy.deepcopy(net.state_dict())
    with gpt.logged() as lines, ctx.sut('prune'):
        if kind == 'columns':
            c.prune(.5, 2, 4, device=torch.device('cpu'))
        else:
            c.prune(.5, percdamp=0. if kind == 'singular' else .01,
                    device=torch.device('cpu'))
    failed = {s.split()[1] for s in lines if 'failed' in s}
    ctx.event('failures', len(failed))
    for k, v in net.state_dict().items():
        name = k.rsplit('.', 1)[0]
        if name in failed:
            ctx.check(torch.equal(v, state[k]), 'failed:changed',
                      f'{kind}: {name} was reported as failed, but changed')
        elif k.endswith('weight'):
            ctx.check(bool((v == 0).any()), 'failed:silent',
                      f'{kind}: {name} is not pruned')
    ctx.check(torch.get_default_dtype() == torch.float32, 'default-dtype',
              'the default dtype is changed')


def sec_model(ctx):
    rng = ctx.rng
    from mmrazor.implementations.pruning.sparse_gpt import (
        SparseGptCompressor, SparseGptMixIn)
    spec = tracer_spec(rng, 'FxTracer', dets=False, hw=8)
    net = init_net(GraphNet(spec), ctx.case_seed).eval()
    ref = copy.deepcopy(net)
    conv, lin = rng.choice([(True, True), (True, False), (False, True)])
    c = SparseGptCompressor()
    with ctx.sut('prepare'):
        c.prepare(net, prune_conv=conv, prune_linear=lin)
    ctx.key(len(spec['nodes']), conv, lin)
    want = [n for n, m in ref.named_modules() if (
        type(m) is nn.Conv2d and conv) or (
            type(m) is nn.Linear and lin and m.out_features >= m.in_features)]
    names = [n for n, m in net.named_modules()
             if isinstance(m, SparseGptMixIn)]
    ctx.check(names == want, 'prepare:ops', lambda: f'{names} for {want}')
    data = [torch.randn(2, 3, 8, 8) for _ in range(rng.randint(2, 3))]
    seen = {n: [] for n in want}
    hs = [dict(ref.named_modules())[n].register_forward_pre_hook(
        lambda m, a, n=n: seen[n].append(a[0].detach())) for n in want]
    with torch.no_grad():
        outs = [ref(x) for x in data]
        for h in hs:
            h.remove()
        with ctx.sut('calibrate'):
            c.init_hessian()
            c.register_hessian_hooks()
            for x, y in zip(data, outs):
                ctx.check(torch.allclose(net(x), y, 1e-5, 1e-6),
                          'prepare:output', 'differs')
            c.remove_hessian_hooks()
    p24 = rng.random() < .4
    s = .5 if p24 else rng.choice([.3, .5, .8])
    before = copy.deepcopy(net.state_dict())
    with gpt.logged() as lines, ctx.sut('prune'):
        if p24:
            c.prune_24(device=torch.device('cpu'))
        else:
            c.prune(s, device=torch.device('cpu'))
    failed = {t.split()[1] for t in lines if 'failed' in t}
    mods = dict(net.named_modules())
    rmods = dict(ref.named_modules())
    for k, v in net.state_dict().items():
        n = k.rsplit('.', 1)[0]
        if n not in want or not k.endswith('weight') or n in failed:
            ctx.check(torch.equal(v, before[k]), 'untouched',
                      f'{k} is changed')
    for n in want:
        m = rmods[n]
        K = m.weight[0].numel()
        if n in failed:
            ctx.check(p24 and K % 4 > 0, 'model:failed', lambda:
                      [t for t in lines if n in t][:1])
            continue
        d = object.__new__(gpt.Calibration)
        d.batches = seen[n]
        judge(ctx, m, d.hessian(m), m.weight.detach().flatten(1),
              mods[n].weight.detach().flatten(1), s, (2, 4) if p24 else (0, 0),
              128, .01)
        ctx.event('model_ops')
    with torch.no_grad():
        got = net(data[0])
        with ctx.sut('to_static_model'):
            net = c.to_static_model(net)
        ctx.check(not any(isinstance(m, SparseGptMixIn)
                          for m in net.modules()), 'static:ops', 'left')
        ctx.check([type(m) for m in net.modules()] ==
                  [type(m) for m in ref.modules()], 'static:types', '')
        ctx.check(torch.allclose(net(data[0]), got, 1e-5, 1e-6),
                  'static:output', 'differs')
    ctx.event('models')


def sec_ranks(ctx):
    """Ranks collect one hessian and prune alike."""
    rng = ctx.rng
    m, make = gpt.rand_layer(rng, 1, 16)
    k, pattern, block, percdamp = rand_setting(rng, 1)
    torch.manual_seed(ctx.case_seed)
    data = [gpt.Calibration(rng, m, make, 2) for _ in range(2)]
    for i, (a, b) in enumerate(zip(*(d.batches for d in data))):
        n = min(len(a), len(b))  # the ranks have batches of one size
        data[0].batches[i], data[1].batches[i] = a[:n], b[:n]
    ctx.key(repr(m), str(k))

    def one(rank):
        op = convert(ctx, copy.deepcopy(m))
        op.init_hessian()
        op.register_hessian_hook()
        with torch.no_grad():
            for x in data[rank].batches:
                op(x)
        op.remove_hessian_hook()
        H = op.hessian.numpy().copy()
        op.prune(k['sparsity'], blocksize=block, percdamp=percdamp)
        return op.weight.detach().flatten(1).numpy().copy(), H
    try:
        res = ranks.run(2, one)
        collected = [torch.from_numpy(h) for _, h in res]
        res = [torch.from_numpy(r) for r, _ in res]
    except ranks.RankError as e:
        ctx.check(False, f'ranks:raised:{e.kind}', f'{e}\n{e.tb[-600:]}')
    ctx.check(torch.equal(res[0], res[1]), 'ranks:agree', 'differ')
    d = object.__new__(gpt.Calibration)
    d.batches = data[0].batches + data[1].batches
    H = 0
    n = 0
    for b in zip(*(q.batches for q in data)):
        for x in b:
            X, _ = gpt.columns(m, x)
            H = H + 2 * X.T @ X
            n += 1 if isinstance(m, nn.Linear) and x.ndim == 2 else len(x)
    for h in collected:
        gpt.moment(ctx, h, H / n)
    judge(ctx, m, H / n, m.weight.detach().flatten(1), res[0],
          k['sparsity'], (0, 0), block, percdamp)
    ctx.event('rank_ops')


SECTIONS = {
    'op': (sec_op, 1200, 40000),
    'fail': (sec_fail, 100, 2000),
    'model': (sec_model, 80, 3000),
    'ranks': (sec_ranks, 6, 80),
}
