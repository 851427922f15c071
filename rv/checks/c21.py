"""C21: GPTQ rounds weights to the grid of their group and compensates."""
import copy

import numpy as np
import torch
import torch.nn as nn

from rv import gpt, ranks
from rv.nets import GraphNet, init_net
from rv.prune import tracer_spec

ID = 'C21'
RULE = (
    'random layers, calibration data, bits, group sizes, activation orders, '
    'block sizes, symmetric or not, per channel or not; the grids and the '
    'compensated weights are recomputed column by column in float64; packed '
    'weights are unpacked by own bit operations; the quantizer alone on '
    'random weights and activations')
ASSUMPTIONS = [
    'the kernels need a GPU: the packed weights are checked, as their format '
    'is read by the kernel',
    'packed layers have multiples of 32 inputs and outputs',
    'the grid of a group is that of the weights when its block starts '
    '(documented behaviour of GPTQ)',
    'group size and block size divide one another',
]
REQUIRED_EVENTS = {'quantized_ops': 250, 'grids': 2000, 'columns': 4000,
                   'grouped': 60, 'ordered': 60, 'packed': 20, 'zero_points': 6,
                   'models': 12, 'model_ops': 40, 'tensors': 300,
                   'activations': 5, 'rank_ops': 3, 'failures': 4}


def grid(x, bits, sym, perchannel, mse, opts=None):
    """[(scale, zero)] of the rows of x that the quantizer may choose."""
    x = x.double()
    if not perchannel:
        x = x.flatten()[None]
    lo, hi = x.min(1)[0].clamp(max=0), x.max(1)[0].clamp(min=0)
    if sym:
        hi = torch.maximum(-lo, hi)
        lo = -hi
    flat = (lo == 0) & (hi == 0)
    lo[flat], hi[flat] = -1, 1
    top = 2**bits - 1
    cand = [(lo, hi)]
    if mse:
        cand = [((1 - i / 100) * lo, (1 - i / 100) * hi) for i in range(80)]
    out = []
    for a, b in cand:
        s = (b - a) / top
        z = -a / s
        z = torch.full_like(s, (top + 1) / 2) if sym else z.round()
        out.append((s, z))
    return x, out, -lo / ((hi - lo) / top)


def nearest(x, s, z, top):
    return s * ((x / s).round() + z).clamp(0, top) - s * z


def rand_q(rng, packed=False):
    return dict(bits=rng.choice([2, 4, 8] if packed else [2, 3, 4, 8]),
                perchannel=packed or rng.random() < .8,
                sym=rng.random() < .4)


def sec_quantizer(ctx):
    """The quantizer, on weights and activations of all shapes."""
    from mmrazor.implementations.quantization.gptq import Quantizer
    rng = ctx.rng
    kw = rand_q(rng)
    kw['mse'] = rng.random() < .3
    weight = rng.random() < .5
    nd = rng.choice([2, 3, 4])
    shape = [rng.randint(1, 5) for _ in range(nd)]
    if weight and nd == 3:
        shape = shape[:2]
    x = torch.randn(shape) * rng.choice([.01, 1., 50.])
    how = rng.choice(['any', 'any', 'positive', 'negative', 'zero', 'row'])
    if how == 'positive':
        x = x.abs() + rng.choice([0, 1.])
    elif how == 'negative':
        x = -x.abs()
    elif how == 'zero':
        x = x * 0
    elif how == 'row':
        x[0] = 0
    ctx.key(str(kw), weight, nd, how)
    q = Quantizer()
    with ctx.sut('configure'):
        q.configure(**kw)
    ctx.check(not bool(q.ready()), 'ready', 'ready without parameters')
    ctx.check(torch.equal(q.quantize(x), x), 'not-ready', 'quantized')
    keep = x.clone()
    with ctx.sut('find_params'):
        q.find_params(x, weight=weight)
        y = q.quantize(x)
    ctx.event('tensors')
    ctx.check(torch.equal(x, keep), 'input', 'the tensor was changed')
    ctx.check(y.shape == x.shape, 'shape', f'{y.shape} for {x.shape}')
    top = 2**kw['bits'] - 1
    # rows of channels
    axis = 0 if weight else (1 if x.ndim == 4 else -1)
    X = x.movedim(axis, 0).flatten(1).double()
    Y = y.movedim(axis, 0).flatten(1).double()
    S = q.scale.expand_as(x).movedim(axis, 0).flatten(1)[:, 0].double()
    Z = q.zero.expand_as(x).movedim(axis, 0).flatten(1)[:, 0].double()
    rows, cands, raw = grid(X, kw['bits'], kw['sym'], kw['perchannel'],
                            kw['mse'])

    def loss(s, z):
        return (nearest(rows, s[:, None], z[:, None], top) -
                rows).abs().pow(2.4).sum(1)
    best = torch.stack([loss(s, z) for s, z in cands]).min(0)[0]
    if not kw['perchannel']:
        ctx.check(bool((S == S[0]).all() and (Z == Z[0]).all()), 'tensor',
                  'channels differ')
        s1, z1 = S[:1], Z[:1]
    else:
        s1, z1 = S, Z
    if kw['mse']:
        got = loss(s1, z1)
        # near ties and rounding to float
        ctx.check(bool((got <= best * 1.02 + 1e-6 * rows.abs().max()**2.4
                        ).all()), 'mse', lambda: f'{got} for {best}')
    else:
        s0, z0 = cands[0]
        ctx.check(torch.allclose(s1, s0, 1e-4), 'scale', f'{s1} for {s0}')
        near = ((raw - raw.floor() - .5).abs() < 1e-2) & (not kw['sym'])
        ctx.check(bool((((z1 - z0).abs() < 1e-3) | (
            near & ((z1 - z0).abs() < 1.001))).all()), 'zero',
            f'{z1} for {z0}')
        # within half a step
        ctx.check(bool(((Y - X).abs() <= S[:, None] * (
            1.01 if kw['sym'] else .52) + 1e-6).all()), 'step',
            lambda: f'off by {float(((Y - X).abs() / S[:, None]).max())} '
            'steps')
    k = Y / S[:, None] + Z[:, None]
    ctx.check(bool(((k - k.round()).abs() < 1e-2).all() and
                   (k > -.01).all() and (k < top + .01).all()), 'grid',
              'off the grid')
    ctx.check(bool(((Y - nearest(X, S[:, None], Z[:, None], top)).abs() <=
                    S[:, None] * 1.01).all()), 'nearest', '')
    exact = (X / S[:, None]) - (X / S[:, None]).floor() - .5
    far = exact.abs() > 1e-2
    ctx.check(bool(((Y - nearest(X, S[:, None], Z[:, None], top)).abs() <
                    S[:, None] * .01)[far].all()), 'nearest', 'not nearest')


def follow(ctx, m, H, old, new, q, block, percdamp, group, order):
    """Quantize column by column; returns the grid of each column."""
    H, dead = H.clone(), None
    dead = H.diagonal() == 0
    H[dead, dead] = 1
    W = old.double().clone()
    x0 = W.clone()
    W[:, dead] = 0
    Q = new.double()
    K = len(H)
    perm = torch.arange(K)
    if order:
        # descending; ties (dead inputs) in any order
        perm = torch.argsort(H.diagonal().float(), descending=True)
        d = H.diagonal()[perm]
        if bool(((d[:-1] - d[1:]) < 1e-5 * d[:-1]).any()):
            ctx.event('ties')
            return None
        W, Q, H = W[:, perm], Q[:, perm], H[perm][:, perm]
    H.diagonal().add_(percdamp * H.diagonal().mean())
    inv = gpt.inverses(H)
    top = 2**q['bits'] - 1
    grids = []
    whole = grid(x0, q['bits'], q['sym'], q['perchannel'], False)
    cur = None
    stale = W.clone()
    for i in range(K):
        if i % block == 0:
            stale = W.clone()
        if group != -1 and i % group == 0:
            cur = grid(stale[:, i:i + group], q['bits'], q['sym'],
                       q['perchannel'], False)
        elif group == -1:
            cur = whole
        _, cands, raw = cur
        s, z = cands[0]
        near = torch.zeros_like(raw, dtype=torch.bool)
        if not q['sym']:
            near = (raw - raw.floor() - .5).abs() < 2e-2
        s, z, near = (t.expand(len(W)) for t in (s, z, near))
        ctx.event('grids')
        w = W[:, i]
        k = Q[:, i] / s + z
        ok = ~near
        ctx.check(bool(((k - k.round()).abs() < 3e-2)[ok].all()), 'grid',
                  lambda: f'column {i} of {K}: {k[ok].tolist()}')
        ctx.check(bool(((k > -.05) & (k < top + .05))[ok].all()), 'range',
                  lambda: f'column {i}: {k[ok].tolist()}')
        lim = nearest(w, s, z, top)
        off = (Q[:, i] - lim).abs() / s
        # to the nearest one, up to the rounding of the compensation
        d = ((w / s) - (w / s).floor() - .5).abs()
        slack = 2e-2 + 5e-3 * float(w.abs().max()) / s
        bad = (off > .1) & ~((off < 1.1) & (d < slack)) & ok
        ctx.check(not bool(bad.any()), 'compensation', lambda:
                  f'column {i} of {K}: {Q[bad, i][:3]} for {lim[bad][:3]}, '
                  f'step {s[bad][:3]}')
        err = w - Q[:, i]
        W[:, i:] -= err[:, None] * (inv[i] / inv[i][0])[None]
        grids.append((s, z, near))
        ctx.event('columns')
    back = torch.argsort(perm)
    return [grids[j] for j in back.tolist()]


def rand_setting(rng, K):
    block = rng.choice([4, 8, 16, 128])
    group = -1
    if rng.random() < .5:
        group = rng.choice([g for g in (4, 8, 16, 32, 128)
                            if block % g == 0 or g % block == 0])
    return dict(blocksize=block, groupsize=group,
                percdamp=rng.choice([.01, .01, .1]),
                actorder=rng.random() < .4)


def calibrate(ctx, op, data, dtype):
    with torch.no_grad(), ctx.sut('calibrate'):
        op.init_hessian()
        op.register_hessian_hook()
        outs = [op(x.to(dtype)) for x in data.batches]
        op.remove_hessian_hook()
    return outs


def sec_op(ctx):
    from mmrazor.implementations.quantization.gptq import (
        GPTQConv2d, GPTQLinear, Quantizer)
    rng = ctx.rng
    m, make = gpt.rand_layer(rng)
    if rng.random() < .2:
        m = m.double()
    old = m.weight.detach().flatten(1).clone()
    kw, q = rand_setting(rng, old.shape[1]), rand_q(rng)
    ctx.key(repr(m), str(kw), str(q))
    with ctx.sut('convert'):
        op = (GPTQLinear if isinstance(m, nn.Linear) else
              GPTQConv2d).convert_from(m)
    for _ in range(2 if rng.random() < .1 else 1):
        data = gpt.Calibration(rng, m, make)
        outs = calibrate(ctx, op, data, m.weight.dtype)
        for x, y in zip(data.batches, outs):
            ctx.check(torch.equal(y, m(x.to(m.weight.dtype))), 'forward',
                      'calibrating changes the output')
    H = data.hessian(m)
    gpt.moment(ctx, op.hessian, H)
    qz = Quantizer()
    qz.configure(**q)
    with ctx.sut('quant'):
        op.quant(qz, **kw)
    new = op.weight.detach().flatten(1)
    follow(ctx, m, H, old, new, q, kw['blocksize'], kw['percdamp'],
           kw['groupsize'], kw['actorder'])
    ctx.event('quantized_ops')
    ctx.event('grouped', kw['groupsize'] != -1)
    ctx.event('ordered', kw['actorder'])
    ctx.check(m.bias is None or torch.equal(m.bias, op.bias), 'bias',
              'the bias is changed')
    if rng.random() < .3:
        with ctx.sut('again'):
            op.weight.data.copy_(m.weight.data)
            qz = Quantizer()
            qz.configure(**q)
            op.quant(qz, **kw)
        ctx.check(torch.equal(op.weight.detach().flatten(1), new), 'again',
                  'quantizing the same weights again has another result')
    with ctx.sut('static'):
        st = op.to_static_op()
    ctx.check(type(st) is type(m), 'static', f'{type(st)}')
    x = make(2).to(m.weight.dtype)
    ctx.check(torch.equal(st(x), op(x)), 'static:output', 'differs')


def unpack(a, bits, axis):
    """int32 words to the numbers in them, lowest bits first."""
    a = a.numpy().astype(np.int64) & 0xffffffff
    parts = [(a >> (bits * j)) & (2**bits - 1) for j in range(32 // bits)]
    out = np.stack(parts, axis + 1)
    shape = list(a.shape)
    shape[axis] *= 32 // bits
    return torch.from_numpy(out.reshape(shape))


def sec_pack(ctx):
    """The packed layer holds the weights that GPTQ found."""
    from mmrazor.implementations.quantization.gptq import (
        GPTQLinear, Quantizer, TritonGPTQLinear)
    rng = ctx.rng
    cin, cout = 32 * rng.randint(1, 2), 32 * rng.randint(1, 2)
    m = nn.Linear(cin, cout, bias=rng.random() < .5)
    if rng.random() < .5:
        # rows without negative weights have the zero point 0
        rows = torch.tensor([rng.random() < .3 for _ in range(cout)])
        with torch.no_grad():
            m.weight[rows] = m.weight[rows].abs()
    q = rand_q(rng, packed=True)
    kw = rand_setting(rng, cin)
    kw['groupsize'] = rng.choice([-1, 16, 32])
    kw['blocksize'] = rng.choice([16, 32, 128])
    ctx.key(cin, cout, str(q), str(kw))
    data = gpt.Calibration(rng, m, lambda n: torch.randn(n, 4, cin))
    plain = GPTQLinear.convert_from(copy.deepcopy(m))
    with ctx.sut('convert'):
        op = TritonGPTQLinear.convert_from(
            copy.deepcopy(m), bits=q['bits'], groupsize=kw['groupsize'])
    res = []
    for o in (plain, op):
        outs = calibrate(ctx, o, data, torch.float)
        ctx.check(torch.equal(outs[0], m(data.batches[0])), 'forward',
                  'calibrating changes the output')
        qz = Quantizer()
        qz.configure(**q)
        with ctx.sut('quant'):
            res.append(o.quant(qz, **kw))
    Q = plain.weight.detach()
    q_ = unpack(op.qweight, q['bits'], 0)       # in, out
    z_ = (unpack(op.qzeros, q['bits'], 1) + 1) & (2**q['bits'] - 1)
    ctx.check(q_.shape == (cin, cout) and z_.shape[1] == cout, 'pack:shape',
              f'{q_.shape} {z_.shape}')
    g = op.g_idx.long()
    size = kw['groupsize'] if kw['groupsize'] != -1 else cin
    ctx.check(bool((g.bincount() == min(size, cin)).all()) and
              len(g.unique()) == -(-cin // size), 'pack:groups',
              f'{g.tolist()}')
    s_ = op.scales[g].float()
    got = ((q_ - z_[g]) * s_).T
    off = (got - Q).abs() / s_.T
    ctx.check(bool((off < .6).all()), 'pack:weights', lambda:
              f'{int((off >= .6).sum())} of {off.numel()} weights differ, '
              f'up to {float(off.max())} steps')
    if not q['sym']:
        ctx.event('zero_points', int((z_ == 0).any()))
    ctx.event('packed')


def sec_model(ctx):
    from mmrazor.implementations.quantization.gptq import (GPTQCompressor,
                                                           GPTQMixIn)
    rng = ctx.rng
    spec = tracer_spec(rng, 'FxTracer', dets=False, hw=8)
    net = init_net(GraphNet(spec), ctx.case_seed).eval()
    ref = copy.deepcopy(net)
    conv, lin = rng.choice([(True, True), (True, False), (False, True)])
    every = [n for n, m in ref.named_modules()
             if type(m) in (nn.Conv2d, nn.Linear)]
    skipped = [n for n in every if rng.random() < .2]
    act = dict(bits=8, sym=rng.random() < .5, perchannel=False) \
        if rng.random() < .4 else None
    c = GPTQCompressor()
    with ctx.sut('prepare'):
        c.prepare(net, quant_conv=conv, quant_linear=lin,
                  use_triton_ops=False, skipped_layers=skipped,
                  a_qconfig=act)
    rmods = dict(ref.named_modules())
    want = [n for n in every if n not in skipped and (
        lin if isinstance(rmods[n], nn.Linear) else conv)]
    names = [n for n, m in net.named_modules() if isinstance(m, GPTQMixIn)]
    ctx.check(names == want, 'prepare:ops', lambda: f'{names} for {want}')
    ctx.key(len(every), conv, lin, bool(act), len(skipped))
    data = [torch.randn(2, 3, 8, 8) for _ in range(rng.randint(2, 3))]
    mods = dict(net.named_modules())
    seen = {n: [] for n in want}
    linears = [n for n in want if isinstance(rmods[n], nn.Linear)]
    hs = [mods[n].register_forward_pre_hook(
        lambda m, a, n=n: seen[n].append(a[0].detach())) for n in want]
    with torch.no_grad():
        if act:
            # activations are rounded where linear layers read them
            def rounded(m, a):
                x = a[0]
                _, cands, _ = grid(x, 8, act['sym'], False, False)
                s, z = cands[0]
                return (nearest(x.double(), s, z, 255).to(x.dtype), )
            for n in linears:
                rmods[n].register_forward_pre_hook(rounded)
                ctx.event('activations')
        with ctx.sut('calibrate'):
            c.init_hessian()
            c.register_hessian_hooks()
            for x in data:
                y = ref(x)
                tol = 1e-5 if not act else .05
                got = net(x)
                ctx.check(bool(((got - y).abs() <= tol * (
                    1 + y.abs().max())).all()), 'prepare:output',
                    lambda: f'{got} for {y}')
            c.remove_hessian_hooks()
    for h in hs:
        h.remove()
    before = copy.deepcopy(net.state_dict())
    default = rng.random() < .2
    q = rand_q(rng)
    kw = rand_setting(rng, 0)
    if default:
        q = dict(bits=4, perchannel=True, sym=False)
        kw = dict(blocksize=128, groupsize=128, percdamp=.01, actorder=True)
    with gpt.logged() as lines, ctx.sut('quant'):
        if default:
            c.quant_with_default_qconfig(device=torch.device('cpu'))
        else:
            c.quant(device=torch.device('cpu'), **kw, **q)
    failed = [t for t in lines if 'failed' in t]
    ctx.check(not failed, 'model:failed', lambda: failed[:2])
    mods = dict(net.named_modules())
    for k, v in net.state_dict().items():
        n = k.rsplit('.', 1)[0]
        if (n not in want or not k.endswith('weight')) and \
                'a_fakequant' not in k:
            ctx.check(torch.equal(v, before[k]), 'untouched',
                      f'{k} is changed')
    for n in want:
        m = rmods[n]
        d = object.__new__(gpt.Calibration)
        d.batches = seen[n]
        follow(ctx, m, d.hessian(m), m.weight.detach().flatten(1),
               mods[n].weight.detach().flatten(1), q, kw['blocksize'],
               kw['percdamp'], kw['groupsize'], kw['actorder'])
        ctx.event('model_ops')
    with torch.no_grad():
        got = net(data[0])
        if act:
            for n in linears:
                rmods[n].weight.copy_(mods[n].weight)
        with ctx.sut('to_static_model'):
            net = c.to_static_model(net)
        ctx.check([type(m) for m in net.modules()] ==
                  [type(m) for m in ref.modules()], 'static:types', '')
        if not act:
            ctx.check(torch.allclose(net(data[0]), got, 1e-5, 1e-6),
                      'static:output', 'differs')
    ctx.event('models')


def sec_fail(ctx):
    """A layer that cannot be quantized stays as it was."""
    from mmrazor.implementations.quantization.gptq import GPTQCompressor
    rng = ctx.rng
    kind = rng.choice(['singular', 'uncalibrated'])
    net = nn.Sequential(nn.Linear(8, 16), nn.ReLU(), nn.Linear(16, 16))
    ctx.key(kind, rng.random())
    c = GPTQCompressor()
    with ctx.sut('prepare'):
        c.prepare(net, use_triton_ops=False)
        if kind != 'uncalibrated':
            c.init_hessian()
            c.register_hessian_hooks()
            with torch.no_grad():
                net(torch.randn(2, 8))
            c.remove_hessian_hooks()
    state = copy.deepcopy(net.state_dict())
    with gpt.logged() as lines, ctx.sut('quant'):
        c.quant(device=torch.device('cpu'), percdamp=0., bits=4,
                perchannel=True)
    failed = {s.split()[1] for s in lines if 'failed' in s}
    ctx.event('failures', len(failed))
    for k, v in net.state_dict().items():
        if k.rsplit('.', 1)[0] in failed:
            ctx.check(torch.equal(v, state[k]), 'failed:changed',
                      f'{k} was reported as failed, but changed')
    ctx.check(torch.get_default_dtype() == torch.float32, 'default-dtype',
              'the default dtype is changed')


def sec_ranks(ctx):
    from mmrazor.implementations.quantization.gptq import (
        GPTQConv2d, GPTQLinear, Quantizer)
    rng = ctx.rng
    m, make = gpt.rand_layer(rng, 1, 16)
    kw, q = rand_setting(rng, 16), rand_q(rng)
    data = [gpt.Calibration(rng, m, make, 2) for _ in range(2)]
    for i, (a, b) in enumerate(zip(*(d.batches for d in data))):
        n = min(len(a), len(b))
        data[0].batches[i], data[1].batches[i] = a[:n], b[:n]
    ctx.key(repr(m), str(kw), str(q))

    def one(rank):
        op = (GPTQLinear if isinstance(m, nn.Linear) else
              GPTQConv2d).convert_from(copy.deepcopy(m))
        op.init_hessian()
        op.register_hessian_hook()
        with torch.no_grad():
            for x in data[rank].batches:
                op(x)
        op.remove_hessian_hook()
        H = op.hessian.numpy().copy()
        qz = Quantizer()
        qz.configure(**q)
        op.quant(qz, **kw)
        return op.weight.detach().flatten(1).numpy().copy(), H
    try:
        res = ranks.run(2, one)
        collected = [torch.from_numpy(h) for _, h in res]
        res = [torch.from_numpy(r) for r, _ in res]
    except ranks.RankError as e:
        ctx.check(False, f'ranks:raised:{e.kind}', f'{e}\n{e.tb[-600:]}')
    ctx.check(torch.equal(res[0], res[1]), 'ranks:agree', 'differ')
    H, n = 0, 0
    for d in data:
        for x in d.batches:
            X, _ = gpt.columns(m, x)
            H = H + 2 * X.T @ X
            n += 1 if isinstance(m, nn.Linear) and x.ndim == 2 else len(x)
    for h in collected:
        gpt.moment(ctx, h, H / n)
    follow(ctx, m, H / n, m.weight.detach().flatten(1), res[0], q,
           kw['blocksize'], kw['percdamp'], kw['groupsize'], kw['actorder'])
    ctx.event('rank_ops')


SECTIONS = {
    'quantizer': (sec_quantizer, 1000, 20000),
    'op': (sec_op, 1000, 30000),
    'pack': (sec_pack, 60, 2000),
    'model': (sec_model, 60, 2500),
    'fail': (sec_fail, 20, 200),
    'ranks': (sec_ranks, 6, 80),
}
