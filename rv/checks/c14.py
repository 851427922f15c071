"""C14: distillation losses and connectors compute what they stand for."""
import contextlib
import io
import math

import torch
import torch.nn as nn
import torch.nn.functional as F

ID = 'C14'
RULE = (
    'random shapes, values (also all zero, equal, large) and settings of every '
    'distillation loss and connector, histories of contrastive losses; value, '
    'gradient and inputs afterwards against own formulas in float64')
ASSUMPTIONS = [
    'student and teacher features have the same shape unless a loss resizes '
    'them; relational losses get at least two different samples',
    'differentiated away from kinks and from exact equality where the '
    'distance has no derivative',
]
REQUIRED_EVENTS = {'losses': 3000, 'grads': 1500, 'connectors': 80,
                   'crd_steps': 100, 'zero_at_equal': 60, 'detached': 60}


def log_softmax(x, dim):
    m = x.max(dim=dim, keepdim=True)[0].detach()
    return x - m - (x - m).exp().sum(dim, keepdim=True).log()


def softmax(x, dim):
    return log_softmax(x, dim).exp()


def unit(x, eps=1e-12):
    """Rows divided by their length."""
    n = (x * x).sum(1, keepdim=True)
    n = torch.where(n > 0, n, torch.ones_like(n)).sqrt()
    return x / n.clamp_min(eps)


def reduce(x, how, per_sample=None):
    if how == 'none':
        return x
    if how == 'sum':
        return x.sum()
    if how == 'mean':
        return x.mean()
    return x.sum() / x.shape[0]


# ---------------------------------------------------------------- references
def ref_kl(a, s, t):
    lt, ls = log_softmax(t / a['tau'], 1), log_softmax(s / a['tau'], 1)
    return a['loss_weight'] * a['tau']**2 * reduce(
        lt.exp() * (lt - ls), a['reduction'])


def ref_cwd(a, s, t):
    tau = a['tau']
    ls = log_softmax(s.flatten(2) / tau, 2)
    lt = log_softmax(t.flatten(2) / tau, 2)
    return a['loss_weight'] * tau**2 * (lt.exp() * (lt - ls)).sum(2).mean()


def ref_dkd(a, s, t, y):
    tau, n = a['tau'], s.shape[0]
    ps, pt = softmax(s / tau, 1), softmax(t / tau, 1)
    ar = torch.arange(n)
    gs, gt = ps[ar, y], pt[ar, y]
    tc = torch.stack([gt * (gt / gs).log(),
                      (1 - gt) * ((1 - gt) / (1 - gs)).log()], 1)
    keep = torch.ones_like(s, dtype=torch.bool)
    keep[ar, y] = False
    so, to = s[keep].view(n, -1) / tau, t[keep].view(n, -1) / tau
    lo, ls = log_softmax(to, 1), log_softmax(so, 1)
    nc = torch.zeros_like(s)
    nc[keep] = (lo.exp() * (lo - ls)).reshape(-1)
    if a['reduction'] == 'none':
        out = a['alpha'] * tc.sum(1) + a['beta'] * nc.sum(1)
    else:
        out = a['alpha'] * reduce(tc, a['reduction']) + \
            a['beta'] * reduce(nc, a['reduction'])
    return a['loss_weight'] * tau**2 * out


def ref_dist(a, s, t):
    ys, yt = softmax(s / a['tau'], 1), softmax(t / a['tau'], 1)

    def corr(x, y):
        x, y = x - x.mean(1, keepdim=True), y - y.mean(1, keepdim=True)
        den = ((x * x).sum(1) * (y * y).sum(1)).clamp_min(1e-36).sqrt()
        return ((x * y).sum(1) / (den + 1e-8)).mean()
    inter, intra = 1 - corr(ys, yt), 1 - corr(ys.t(), yt.t())
    return a['loss_weight'] * a['tau']**2 * (
        a['inter_loss_weight'] * inter + a['intra_loss_weight'] * intra)


def ref_ce(a, s, t):
    y = t.argmax(1)
    return -a['loss_weight'] * log_softmax(s, 1)[range(len(y)), y].mean()


def ref_soft_ce(a, s, t, w, avg, red):
    tau = a['tau']
    x = -(softmax(t / tau, -1) * log_softmax(s / tau, -1)).sum(-1)
    if w is not None:
        x = x * w
    red = red or a['reduction']
    if red == 'mean':
        x = x.sum() / avg if avg else x.mean()
    elif red == 'sum':
        x = x.sum()
    return x * a['loss_weight'] * (tau**2 if a['mult_tem_square'] else 1)


def ref_wsld(a, s, t, y):
    tau = a['tau']
    ce = -(softmax(t / tau, 1) * log_softmax(s / tau, 1)).sum(1)
    ar = torch.arange(len(y))
    cs = -log_softmax(s.detach(), 1)[ar, y]
    ct = -log_softmax(t.detach(), 1)[ar, y]
    w = 1 - (-(cs / (ct + 1e-7))).exp()
    return a['loss_weight'] * tau**2 * (w * ce).mean()


def ref_onehot(a, t):
    y = t.detach().argmax(1)
    return -a['loss_weight'] * log_softmax(t, 1)[range(len(y)), y].mean()


def ref_entropy(a, t):
    p = softmax(t, 1).mean(0)
    return a['loss_weight'] * (p * p.log()).sum() / math.log(10)


def ref_act(a, t):
    v = t.abs().mean() if a['norm_type'] == 'abs' else (t * t).sum().sqrt()
    return -a['loss_weight'] * v


def ref_ab(a, s, t):
    m = a['margin']
    off = ((s + m).clamp_min(0)**2) * (t <= 0)
    on = ((m - s).clamp_min(0)**2) * (t > 0)
    return a['loss_weight'] * (off + on).sum() / s.shape[0] * 3 / 1000


def ref_at(a, s, t):
    def att(x):
        return unit((x * x).sum(1).flatten(1) / x.shape[1])
    return a['loss_weight'] * ((att(s) - att(t))**2).mean()


def ref_ft(a, s, t):
    return a['loss_weight'] * (unit(s.flatten(1)) - unit(
        t.flatten(1))).abs().mean()


def ref_l1(a, s, t):
    return a['loss_weight'] * reduce((s - t).abs(), a['reduction'])


def ref_l2(a, s, t):
    if a['normalize']:
        s, t = (unit(x.flatten(1)) * a['mult'] for x in (s, t))
    d = ((s - t)**2).sum()
    if a['dist']:
        d = d.sqrt()
    else:
        d = d / (s.numel() if a['div_element'] else s.shape[0])
    return a['loss_weight'] * d


def ref_mgd(a, s, t):
    return a['alpha_mgd'] * ((s - t)**2).sum() / s.shape[0]


def ref_ofd(a, s, t):
    m = ~((s <= t) & (t <= 0))
    return a['loss_weight'] * (((s - t)**2) * m).sum() / \
        s.shape[0] / a['mul_factor']


def ref_pkd(a, s, t):
    if torch.is_tensor(s):
        s, t = [s], [t]
    tot = 0
    for x, y in zip(s, t):
        if x.shape[2:] != y.shape[2:]:
            if a['resize_stu']:
                x = F.interpolate(x, y.shape[2:], mode='bilinear')
            else:
                y = F.interpolate(y, x.shape[2:], mode='bilinear')

        def std(f):
            f = f.transpose(0, 1).flatten(1)
            f = f - f.mean(1, keepdim=True)
            sd = ((f * f).sum(1, keepdim=True) / (f.shape[1] - 1)).sqrt()
            return f / (sd + 1e-6)
        tot = tot + ((std(x) - std(y))**2).mean() / 2
    return a['loss_weight'] * tot


def huber(d):
    d = d.abs()
    return torch.where(d < 1, d * d / 2, d - .5).mean()


def ref_rkd_d(a, s, t):
    out = []
    for x in (s, t):
        x = x.flatten(1)
        if a['with_l2_norm']:
            x = unit(x)
        d = x[:, None] - x[None]
        d = (d * d).sum(2)
        off = ~torch.eye(len(x), dtype=torch.bool)
        r = torch.zeros_like(d)
        r[off] = d[off].sqrt()
        out.append(r / r[off].mean())
    return a['loss_weight'] * huber(out[0] - out[1])


def ref_rkd_a(a, s, t):
    out = []
    for x in (s, t):
        x = x.flatten(1)
        if a['with_l2_norm']:
            x = unit(x)
        d = x[:, None] - x[None]
        n = (d * d).sum(2, keepdim=True)
        n = torch.where(n > 0, n, torch.ones_like(n)).sqrt()
        e = d / n
        out.append(torch.einsum('aik,ajk->aij', e, e))
    return a['loss_weight'] * huber(out[0] - out[1])


def ref_fbkd(a, s, t):
    def fro(x):
        return (x * x).sum().sqrt()
    sm, _, sc, ss, sr, sf = s
    tm, _, ts, tr, tf = t
    mask = ((sm + tm) / 2).detach()
    return a['loss_weight'] * (
        a['mask_l2_weight'] * (mask * (tf - sf)**2).sum().sqrt() +
        a['channel_weight'] * fro(tf.mean((2, 3)) - sc) +
        a['spatial_weight'] * fro(ts - ss) +
        a['nonloacl_weight'] * fro(tr - sr))


# ------------------------------------------------------------------- running
def values(rng, shape, kind):
    g = torch.Generator().manual_seed(rng.getrandbits(40))
    x = torch.randn(shape, generator=g, dtype=torch.float64)
    if kind == 'large':
        x = x * 20
    elif kind == 'sparse':
        x = x.clamp_min(0)
    elif kind == 'offset':
        x = x + 3
    elif kind == 'small':
        x = x * .01
    return x


def layout(rng, x):
    """The same values in another memory layout."""
    if x.dim() == 4 and rng.random() < .3:
        return x.to(memory_format=torch.channels_last)
    return x


def compare(ctx, name, module, ref, args, a, grads=(), nograd=(), extra=(),
            tol=None, has_grad=True):
    """``args``: tensors or tuples of tensors. Value and gradients."""
    rng = ctx.rng
    dt = rng.choice([torch.float32, torch.float64])
    tol = tol or (2e-4 if dt == torch.float32 else 1e-8)
    module = module.to(dt)

    def leaf(x, d):
        if torch.is_tensor(x):
            return x.detach().clone().to(d).requires_grad_(True)
        return tuple(leaf(i, d) for i in x)
    sut = [leaf(x, dt) for x in args]
    flat = [i for x in sut for i in ((x, ) if torch.is_tensor(x) else x)]
    keep = [i.detach().clone() for i in flat]
    # the reference sees what the loss sees
    refs = [leaf(x, torch.float64) for x in sut]
    ex = [e.to(dt) if torch.is_tensor(e) and e.is_floating_point() else e
          for e in extra]
    with ctx.sut(name):
        got = module(*sut, *ex)
    want = ref(a, *refs, *extra)
    ctx.event('losses')
    ctx.key(name, tuple(sorted((k, str(v)) for k, v in a.items())),
            tuple(tuple(i.shape) for i in flat))
    if isinstance(got, torch.Tensor) and got.dim() and want.dim() == 0:
        got = got.reshape(())if got.numel() == 1 else got
    ctx.check(torch.is_tensor(got) and got.shape == want.shape,
              f'{name}:shape', lambda: f'{got.shape} for {want.shape}')
    scale = max(1., float(want.detach().abs().max()))
    err = float((got.detach().double() - want.detach()).abs().max()) / scale
    ctx.check(err <= tol, f'{name}:value', lambda: f'{name}{a} {dt} '
              f'{[tuple(i.shape) for i in flat]}: {got} for {want}')
    for i, k in zip(flat, keep):
        ctx.check(torch.equal(i.detach(), k), f'{name}:input-changed',
                  'the loss changed what it was given')
    g = torch.autograd.grad(got.sum(), flat, allow_unused=True)
    rflat = [i for x in refs for i in ((x, ) if torch.is_tensor(x) else x)]
    r = torch.autograd.grad(want.sum(), rflat, allow_unused=True)
    for j in grads:
        ctx.check(g[j] is None or bool(g[j].isfinite().all()),
                  f'{name}:finite', lambda: f'{name}{a}: gradient {g[j]}')
    if dt == torch.float32 or not has_grad:
        # rounding of ill-conditioned derivatives
        grads = []
    for j in grads:
        want_g = torch.zeros_like(rflat[j]) if r[j] is None else r[j]
        got_g = torch.zeros_like(flat[j]) if g[j] is None else g[j]
        s = max(1e-3, float(want_g.abs().max()))
        e = float((got_g.double() - want_g).abs().max()) / s
        ctx.event('grads')
        ctx.check(e <= max(tol * 20, 1e-6), f'{name}:grad', lambda:
                  f'{name}{a} {dt}: gradient off by {e:.2g}')
    for j in nograd:
        ctx.event('detached')
        ctx.check(g[j] is None or not g[j].abs().sum(), f'{name}:leak',
                  'the teacher gets a gradient')
    return got


def lw(rng):
    return rng.choice([1., 1., .5, 3., .1])


def logits(ctx):
    """Losses of predictions."""
    from mmrazor.registry import MODELS
    rng = ctx.rng
    n, c = rng.choice([1, 2, 3, 5, 8]), rng.choice([2, 3, 5, 10, 17])
    kinds = [None, None, 'large', 'offset', 'small']
    s, t = (values(rng, (n, c), rng.choice(kinds)) for _ in 'st')
    y = torch.tensor([rng.randrange(c) for _ in range(n)])
    tau = rng.choice([1., 2., 4., .5])
    same = rng.random() < .15
    if same:
        t = s.clone()
    red = rng.choice(['none', 'batchmean', 'sum', 'mean'])

    def build(name, **a):
        with ctx.sut('build'):
            return MODELS.build(dict(type=name, **a)), a

    def zero(got, name):
        if same:
            ctx.event('zero_at_equal')
            ctx.check(float(got.abs().max()) < 1e-4, f'{name}:zero',
                      lambda: f'{got} for equal predictions')
    # KL on any shape with classes in dim 1
    shape = (n, c) if rng.random() < .6 else (n, c, 2, 3)
    s2, t2 = values(rng, shape, 'offset'), values(rng, shape, None)
    if same:
        t2 = s2.clone()
    m, a = build('KLDivergence', tau=tau, reduction=red, loss_weight=lw(rng),
                 teacher_detach=rng.random() < .6)
    got = compare(ctx, 'KLDivergence', m, ref_kl, [s2, t2], a,
                  grads=[0] if a['teacher_detach'] else [0, 1],
                  nograd=[1] if a['teacher_detach'] else [])
    zero(got, 'KLDivergence')
    if c > 2:
        # moderate: probabilities of the rest must not round to zero
        m, a = build('DKDLoss', tau=max(tau, 1.), reduction=red,
                     loss_weight=lw(rng), alpha=rng.choice([1., 2., .5]),
                     beta=rng.choice([1., 8., .3]))
        sd, td = s.clamp(-4, 4), t.clamp(-4, 4)
        got = compare(ctx, 'DKDLoss', m, ref_dkd, [sd, td], a, grads=[0],
                      extra=[y], tol=1e-3)
        zero(got, 'DKDLoss')
    if n > 1:
        m, a = build('DISTLoss', tau=max(tau, 1.), loss_weight=lw(rng),
                     inter_loss_weight=rng.choice([1., 2., 0.]),
                     intra_loss_weight=rng.choice([1., .5, 0.]),
                     teacher_detach=rng.random() < .6)
        sd, td = values(rng, (n, c), None), values(rng, (n, c), None)
        compare(ctx, 'DISTLoss', m, ref_dist, [sd, td], a,
                grads=[0] if a['teacher_detach'] else [0, 1],
                nograd=[1] if a['teacher_detach'] else [], tol=1e-3)
    m, a = build('mmrazor.CrossEntropyLoss', loss_weight=lw(rng))
    compare(ctx, 'CrossEntropyLoss', m, ref_ce, [s, t], a, grads=[0],
            nograd=[1])
    m, a = build('KDSoftCELoss', tau=tau, loss_weight=lw(rng),
                 reduction=rng.choice(['none', 'mean', 'sum']),
                 mult_tem_square=rng.random() < .5)
    w = values(rng, (n, ), None).float().double().abs() if rng.random() < .5 else None
    over = rng.choice([None, None, 'none', 'mean', 'sum'])
    avg = rng.choice([None, 7]) if (over or a['reduction']) == 'mean' \
        else None
    if n > 1 or w is None:
        compare(ctx, 'KDSoftCELoss', m, ref_soft_ce, [s, t], a, grads=[0],
                extra=[w, avg, over])
    m, a = build('WSLD', tau=tau, loss_weight=lw(rng), num_classes=c)
    compare(ctx, 'WSLD', m, ref_wsld, [s.clamp(-6, 6), t.clamp(-6, 6)], a,
            grads=[0], extra=[y], tol=1e-3)
    m, a = build('OnehotLikeLoss', loss_weight=lw(rng))
    compare(ctx, 'OnehotLikeLoss', m, ref_onehot, [t], a, grads=[0])
    m, a = build('InformationEntropyLoss', loss_weight=lw(rng))
    compare(ctx, 'InformationEntropyLoss', m, ref_entropy,
            [t.clamp(-5, 5)], a, grads=[0])


def features(ctx):
    """Losses of features."""
    from mmrazor.registry import MODELS
    rng = ctx.rng
    n, c = rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 5])
    h, w = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 4])
    kinds = [None, None, 'large', 'offset', 'small', 'sparse']
    s, t = (values(rng, (n, c, h, w), rng.choice(kinds)) for _ in 'st')
    zeroed = rng.random() < .15
    if zeroed:
        t[rng.randrange(n)] = 0
    same = rng.random() < .15
    if same:
        t = s.clone()

    def run(name, ref, ss, tt, grads=(0, ), tol=None, z=True, g=True, **a):
        with ctx.sut('build'):
            m = MODELS.build(dict(type=name, **a))
        got = compare(ctx, name, m, ref, [ss, tt], a, grads=grads, tol=tol,
                      has_grad=g)
        if same and z:
            ctx.event('zero_at_equal')
            ctx.check(float(got.detach().abs().max()) < 1e-4, f'{name}:zero',
                      lambda: f'{got} for equal features')
    # derivatives: not at equality, not of the direction of a zero vector
    smooth = not same and c * h * w > 1 and bool((s.flatten(1).abs().sum(1) > 0).all())
    run('ABLoss', ref_ab, s, t, loss_weight=lw(rng), z=False,
        margin=rng.choice([1., .5, 2.]))
    run('ATLoss', ref_at, s, t, loss_weight=lw(rng), g=smooth, tol=1e-3)
    run('FTLoss', ref_ft, s, t, loss_weight=lw(rng), g=smooth, tol=1e-3)
    run('L1Loss', ref_l1, s, t, loss_weight=lw(rng),
        reduction=rng.choice(['none', 'mean', 'sum']), g=not same)
    dist = rng.random() < .3
    run('L2Loss', ref_l2, s, t, loss_weight=lw(rng),
        normalize=rng.random() < .6, mult=rng.choice([1., 2.]),
        div_element=rng.random() < .5, dist=dist, g=smooth,
        tol=1e-3)
    run('MGDLoss', ref_mgd, s, t, alpha_mgd=rng.choice([1., .00002, .3]))
    run('OFDLoss', ref_ofd, s, t, loss_weight=lw(rng),
        mul_factor=rng.choice([1000., 10.]))
    if h * w > 1:
        run('ChannelWiseDivergence', ref_cwd, s, t, loss_weight=lw(rng),
            tau=rng.choice([1., 2., 4.]))
    # several features of several sizes
    k = rng.randint(1, 3)
    ss, tt = [], []
    for _ in range(k):
        a, b = rng.randint(2, 5), rng.randint(2, 5)
        a2, b2 = (a, b) if rng.random() < .5 else (
            rng.choice([a, rng.randint(2, 6)]),
            rng.choice([b, rng.randint(2, 6)]))
        ss.append(values(rng, (n, c, a, b), rng.choice([None, 'offset'])))
        tt.append(values(rng, (n, c, a2, b2), rng.choice([None, 'large'])))
    if same:
        tt = [x.clone() for x in ss]
    if k == 1 and rng.random() < .5:
        ss, tt = ss[0], tt[0]
    run('PKDLoss', ref_pkd, ss, tt, loss_weight=lw(rng),
        resize_stu=rng.random() < .5, tol=2e-3,
        grads=[0] if torch.is_tensor(ss) else list(range(k)))
    with ctx.sut('build'):
        nt = rng.choice(['abs', 'norm'])
        a = dict(loss_weight=lw(rng), norm_type=nt)
        m = MODELS.build(dict(type='ActivationLoss', **a))
    compare(ctx, 'ActivationLoss', m, ref_act, [s + .01], a,
            grads=[0])
    for name, r in (('DistanceWiseRKD', ref_rkd_d),
                    ('AngleWiseRKD', ref_rkd_a)):
        if n < 2 or c * h * w < 2:
            continue
        wl = rng.random() < .5
        st = [values(rng, rng.choice([(n, c * h * w), (n, c, h, w)]),
                     rng.choice([None, 'offset'] if not wl else [None]))
              for _ in 'st']
        if same:
            st[1] = st[0].clone()
        run(name, r, *st, loss_weight=lw(rng), with_l2_norm=wl, tol=5e-3)


def nonlocal_block(m, x, kw):
    """A non-local block over keys and values pooled with the stride."""
    n, c, h, w = x.shape

    def conv(mod, y):
        q = next(i for i in mod.modules() if isinstance(i, nn.Conv2d))
        return F.conv2d(y, q.weight, q.bias)

    def pool(y):
        k = kw['maxpool_stride']
        return F.max_pool2d(y, k) if kw['sub_sample'] else y
    mode = kw['mode']
    g = pool(conv(m.g, x)).flatten(2)
    if mode == 'gaussian':
        th, ph = x.flatten(2), pool(x).flatten(2)
    else:
        th, ph = conv(m.theta, x).flatten(2), \
            pool(conv(m.phi, x)).flatten(2)
    if mode == 'concatenation':
        wt = m.concat_project.conv.weight.flatten()
        k = th.shape[1]
        a = torch.einsum('c,ncp->np', wt[:k], th)
        b = torch.einsum('c,ncp->np', wt[k:], ph)
        att = F.relu(a[:, :, None] + b[:, None]) / ph.shape[2]
    else:
        att = torch.einsum('ncp,ncq->npq', th, ph)
        if mode == 'dot_product':
            att = att / ph.shape[2]
        else:
            if mode == 'embedded_gaussian':
                att = att / math.sqrt(th.shape[1])
            att = softmax(att, 2)
    y = torch.einsum('npq,ncq->ncp', att, g).view(n, -1, h, w)
    y = conv(m.conv_out, y)
    bn = [i for i in m.conv_out.modules() if isinstance(i, nn.BatchNorm2d)]
    if bn:
        y = F.batch_norm(y, None, None, bn[0].weight, bn[0].bias, True)
    return x + y


def fbkd(ctx):
    """The feature based losses with their two connectors."""
    from mmrazor.registry import MODELS
    rng = ctx.rng
    n, c = rng.choice([1, 2, 3]), rng.choice([2, 4])
    h, w = rng.choice([2, 3, 4]), rng.choice([2, 4])
    T = [rng.choice([.5, 1., .1]) for _ in range(2)]
    kw = dict(in_channels=c, reduction=rng.choice([1, 2]),
              mode=rng.choice(['embedded_gaussian', 'dot_product',
                               'gaussian', 'concatenation']),
              sub_sample=rng.random() < .5,
              maxpool_stride=rng.choice([1, 2]), spatial_T=T[0], channel_T=T[1],
              zeros_init=rng.random() < .5)
    if kw['mode'] == 'gaussian':
        kw['reduction'] = 1
    with ctx.sut('build'):
        cs = MODELS.build(dict(type='FBKDStudentConnector', **kw)).double()
        ct = MODELS.build(dict(type='FBKDTeacherConnector', **kw)).double()
    for conn in (cs, ct):
        for p in conn.parameters():
            if rng.random() < .9:
                p.data.normal_(0, .3)
    xs, xt = (values(rng, (n, c, h, w), rng.choice([None, 'offset']))
              for _ in 'st')
    keep = xs.clone(), xt.clone()
    with ctx.sut('forward'):
        so, to = cs(xs), ct(xt)
    ctx.check(len(so) == 6 and len(to) == 5, 'fbkd:outputs', 'length')

    def masks(x):
        ax = x.abs()
        sp = softmax(ax.mean(1).flatten(1) / T[0], 1) * h * w
        ch = softmax(ax.mean((2, 3)) / T[1], 1) * c
        return sp.view(n, 1, h, w), ch.view(n, c, 1, 1)

    def near(a, b, what):
        ctx.event('connectors')
        ctx.check(a.shape == b.shape and float((a - b).abs().max()) < 1e-9,
                  f'fbkd:{what}', lambda: f'{what} differs')
    for o, x, who in ((so, xs, 'student'), (to, xt, 'teacher')):
        sp, ch = masks(x)
        near(o[0], sp, f'{who}-spatial-mask')
        near(o[1], ch, f'{who}-channel-mask')
    near(so[2], xs.mean((2, 3)) @ cs.channel_wise_adaptation.weight.t() +
         cs.channel_wise_adaptation.bias, 'student-channel')
    near(so[3], F.conv2d(xs.mean(1, keepdim=True),
                         cs.spatial_wise_adaptation.weight,
                         cs.spatial_wise_adaptation.bias, padding=1),
         'student-spatial')
    near(so[5], F.conv2d(xs, cs.adaptation_layers.weight,
                         cs.adaptation_layers.bias), 'student-feature')
    near(to[2], xt.mean(1, keepdim=True), 'teacher-spatial')
    near(to[4], xt, 'teacher-feature')
    ctx.check(torch.equal(xs, keep[0]) and torch.equal(xt, keep[1]),
              'fbkd:input-changed', 'features changed')
    rel = nonlocal_block(cs.student_non_local, xs, kw)
    near(so[4], F.conv2d(rel, cs.non_local_adaptation.weight,
                         cs.non_local_adaptation.bias), 'student-relation')
    near(to[3], nonlocal_block(ct.teacher_non_local, xt, kw),
         'teacher-relation')
    a = dict(loss_weight=lw(rng), mask_l2_weight=rng.choice([7e-5, 1.]),
             channel_weight=rng.choice([4e-3, 1.]),
             spatial_weight=rng.choice([4e-3, 2.]),
             nonloacl_weight=rng.choice([7e-5, 3.]))
    with ctx.sut('build'):
        m = MODELS.build(dict(type='FBKDLoss', **a))
    compare(ctx, 'FBKDLoss', m, ref_fbkd, [so, to], a, grads=[2, 3, 4, 5],
            nograd=[0, 1], tol=1e-3)


class Sample:
    """What a data sample needs to be for the contrastive loss."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __contains__(self, k):
        return k in self.__dict__


def crd(ctx):
    """Histories of the contrastive loss and its memory."""
    from mmrazor.registry import MODELS
    rng = ctx.rng
    d, N, K = rng.choice([2, 4, 8]), rng.choice([6, 10, 20]), \
        rng.choice([1, 3, 7])
    a = dict(loss_weight=lw(rng), temperature=rng.choice([.5, 1., .2]),
             neg_num=K, sample_n=N, dim_out=d,
             momentum=rng.choice([.5, .9, .1]))
    with ctx.sut('build'):
        m = MODELS.build(dict(type='CRDLoss', **a))
    mem = m.contrast
    v = [mem.memory_v1.double().clone(), mem.memory_v2.double().clone()]
    bound = 1 / math.sqrt(d / 3)
    ctx.check(all(float(x.abs().max()) <= bound + 1e-6 for x in v),
              'crd:init', 'memory out of its range')
    draws = []
    real = mem.multinomial.draw

    def draw(n):
        draws.append(real(n))
        return draws[-1].clone()
    mem.multinomial.draw = draw
    Z = None
    for step in range(rng.randint(2, 6)):
        n = rng.randint(1, min(4, N))
        fs, ft = (unit(values(rng, (n, d), None)) for _ in 'st')
        fs, ft = fs.float().requires_grad_(), ft.float().requires_grad_()
        idx = torch.tensor(rng.sample(range(N), n))
        given = rng.random() < .5
        # (a positive may be another sample of the class)
        con = torch.tensor([[rng.choice([int(i), rng.randrange(N)])] + [rng.randrange(N) for _ in range(K)]
                            for i in idx])
        samples = [Sample(sample_idx=idx[i], **(dict(
            contrast_sample_idxs=con[i]) if given else {}))
            for i in range(n)]
        del draws[:]
        with contextlib.redirect_stdout(io.StringIO()), ctx.sut('crd'):
            got = m(fs, ft, samples)
        if not given:
            ctx.check(len(draws) == 1 and draws[0].numel() == n * (K + 1) and
                      int(draws[0].min()) >= 0 and int(draws[0].max()) < N,
                      'crd:draw', 'draws of negatives')
            con = draws[0].view(n, -1).clone()
            con[:, 0] = idx
        S, Tt = (x.detach().double().requires_grad_() for x in (fs, ft))
        ot = torch.einsum('nkd,nd->nk', v[0][con], Tt).div(
            a['temperature']).exp()
        os_ = torch.einsum('nkd,nd->nk', v[1][con], S).div(
            a['temperature']).exp()
        if Z is None:
            Z = float(os_.mean()) * N, float(ot.mean()) * N
        want = 0
        for o, z in ((os_, Z[0]), (ot, Z[1])):
            p = o / z
            c = K / N
            eps = 1e-7
            want = want - ((p[:, 0] / (p[:, 0] + c + eps)).log().sum() + (
                c / (p[:, 1:] + c + eps)).log().sum()) / n
        want = want * a['loss_weight']
        ctx.event('crd_steps')
        ctx.key('crd', tuple(a.values()), n, given, step)
        ctx.check(got.numel() == 1 and abs(float(got) - float(want)) <=
                  2e-4 * max(1, abs(float(want))), 'crd:value',
                  lambda: f'step {step} {a}: {got} for {want}')
        g = torch.autograd.grad(got.sum(), [fs, ft])
        r = torch.autograd.grad(want, [S, Tt])
        for x, y in zip(g, r):
            ctx.event('grads')
            ctx.check(float((x - y).abs().max()) <= 2e-3 * max(
                1e-2, float(y.abs().max())), 'crd:grad', 'gradient')
        for x, f in ((v[0], S), (v[1], Tt)):
            new = x[idx] * a['momentum'] + f.detach() * (1 - a['momentum'])
            x[idx] = new / new.norm(dim=1, keepdim=True)
        for x, buf in ((v[0], mem.memory_v1), (v[1], mem.memory_v2)):
            ctx.check(float((x - buf.double()).abs().max()) < 1e-4,
                      'crd:memory', lambda: f'step {step}: memory off by '
                      f'{float((x - buf.double()).abs().max()):.2g}')
        ctx.check(not mem.memory_v1.requires_grad, 'crd:memory-grad',
                  'the memory is part of the graph')
    if rng.random() < .2:
        # the negatives are drawn evenly
        cnt = torch.bincount(real(N * 200), minlength=N)
        ctx.check(len(cnt) == N and int(cnt.min()) > 100 and
                  int(cnt.max()) < 320, 'crd:even', lambda: f'{cnt}')
        # or as they are given
        from mmrazor.models.losses.crd_loss import AliasMethod
        n = rng.randint(2, 9)
        p = torch.tensor([rng.choice([0., .2, 1., 3., 10.]) + 1e-3
                          for _ in range(n)])
        p = p / p.sum()
        with ctx.sut('alias'):
            cnt = torch.bincount(AliasMethod(p.clone()).draw(4000),
                                 minlength=n).double() / 4000
        tol = 6 * (p.double() * (1 - p.double()) / 4000).sqrt() + 2e-3
        ctx.event('alias')
        ctx.check(bool(((cnt - p).abs() <= tol).all()), 'crd:alias',
                  lambda: f'{cnt} drawn for {p}')


def connectors(ctx):
    """Connectors against plain torch."""
    from mmrazor.registry import MODELS
    rng = ctx.rng
    n, c, o = rng.choice([2, 3]), rng.choice([2, 4]), rng.choice([2, 3, 6])
    h = rng.choice([4, 8])
    x = layout(rng, values(rng, (n, c, h, h), None).float())
    keep = x.clone()

    def rand(conn):
        for p in conn.parameters():
            p.data.normal_(0, .4)
        return conn

    def same(got, want, what, x_=None):
        ctx.event('connectors')
        ctx.key('conn', what)
        x_ = x if x_ is None else x_
        ctx.check(got.shape == want.shape and float(
            (got - want).abs().max()) < 2e-5 * max(1, float(
                want.abs().max())), f'connector:{what}', lambda:
            f'{got.shape} {want.shape}')
        ctx.check(torch.equal(x, keep), f'connector:{what}:input',
                  'the connector changed its input')
    which = rng.choice(['conv', 'conv', 'norm', 'crd', 'mgd', 'mgd', 'para',
                        'trans', 'ofd', 'func', 'module', 'byot', 'reject'])
    if which == 'conv':
        order = list(('conv', 'norm', 'act'))
        rng.shuffle(order)
        order = tuple(order)
        norm = rng.choice([None, dict(type='BN')])
        act = rng.choice([None, dict(type='ReLU'), dict(type='LeakyReLU')])
        k, s, p, dl = (rng.choice([1, 3]), rng.choice([1, 2]),
                       rng.choice([0, 1]), rng.choice([1, h // 4]))
        g = rng.choice([1, 2]) if o % 2 == 0 else 1
        pm = rng.choice(['zeros', 'zeros', 'reflect'])
        inplace = order[0] == 'conv' or order.index('conv') < \
            order.index('act') or (norm and order[0] == 'norm')
        with ctx.sut('build'):
            m = rand(MODELS.build(dict(
                type='ConvModuleConnector', in_channel=c, out_channel=o,
                kernel_size=k, stride=s, padding=p, dilation=dl, groups=g,
                norm_cfg=norm, act_cfg=act, order=order, padding_mode=pm,
                inplace=bool(inplace))))
        conv = next(q for q in m.modules() if isinstance(q, nn.Conv2d))
        bns = [q for q in m.modules() if isinstance(q, nn.BatchNorm2d)]
        with ctx.sut('conv'):
            got = m(x)
        y = x
        for layer in order:
            if layer == 'conv':
                if pm == 'reflect' and p:
                    y = F.pad(y, (p, ) * 4, mode='reflect')
                y = F.conv2d(y, conv.weight, conv.bias, s,
                             0 if pm == 'reflect' else p, dl, g)
            elif layer == 'norm' and norm:
                y = F.batch_norm(y, None, None, bns[0].weight, bns[0].bias,
                                 True)
            elif layer == 'act' and act:
                y = F.relu(y) if act['type'] == 'ReLU' else \
                    F.leaky_relu(y, .01)
        same(got, y, 'conv')
    elif which == 'norm':
        with ctx.sut('build'):
            m = rand(MODELS.build(dict(type='NormConnector', in_channels=c,
                                       norm_cfg=dict(type='BN'))))
        bn = next(q for q in m.modules() if isinstance(q, nn.BatchNorm2d))
        same(m(x), F.batch_norm(x, None, None, bn.weight, bn.bias, True),
             'norm')
    elif which == 'crd':
        with ctx.sut('build'):
            m = rand(MODELS.build(dict(
                type='CRDConnector', dim_in=c * h * h, dim_out=o)))
        y = F.linear(x.flatten(1), m.linear.weight, m.linear.bias)
        with ctx.sut('crd connector'):
            got = m(x.contiguous())
        same(got, y / y.norm(dim=1, keepdim=True), 'crd')
    elif which == 'mgd':
        lam = rng.choice([.65, .3, 0., 1.])
        chan = rng.random() < .5
        with ctx.sut('build'):
            m = rand(MODELS.build(dict(
                type='MGDConnector', student_channels=c, teacher_channels=o,
                lambda_mgd=lam, mask_on_channel=chan)))
        seen = []
        hk = m.generation.register_forward_pre_hook(
            lambda mod, i: seen.append(i[0].detach().clone()))
        with ctx.sut('mgd'):
            got = m(x)
        hk.remove()
        convs = [q for q in m.generation if isinstance(q, nn.Conv2d)]
        ctx.check((m.align is None) == (c == o), 'connector:mgd:align',
                  'align layer')
        base = x if m.align is None else F.conv2d(
            x, m.align.weight, m.align.bias)
        masked = seen[0]
        zero = masked == 0
        ctx.check(bool(((masked == base.detach()) | zero).all()),
                  'connector:mgd:masked', 'neither kept nor masked')
        # whole positions (or channels) are masked
        z = zero.flatten(2).all(2) if chan else zero.all(1).flatten(1)
        part = zero.flatten(2).any(2) if chan else zero.any(1).flatten(1)
        ctx.check(torch.equal(z, part), 'connector:mgd:unit',
                  'partly masked')
        q = float(z.float().mean())
        if lam in (0., 1.):
            ctx.check(q == lam, 'connector:mgd:ratio', lambda: f'{q} {lam}')
        elif not chan and z.numel() >= 100:
            ctx.check(abs(q - lam) < 6 * math.sqrt(.25 / z.numel()),
                      'connector:mgd:ratio', lambda: f'{q} for {lam}')
        want = F.conv2d(F.relu(F.conv2d(
            masked, convs[0].weight, convs[0].bias, padding=1)),
            convs[1].weight, convs[1].bias, padding=1)
        same(got, want, 'mgd')
    elif which in ('para', 'trans'):
        bn = rng.random() < .5
        phase = rng.choice(['pretrain', 'train'])
        with ctx.sut('build'):
            cfg = dict(type='Translator', in_channel=c, out_channel=o,
                       use_bn=bn)
            if which == 'para':
                cfg.update(type='Paraphraser', phase=phase)
            m = rand(MODELS.build(cfg))

        def chain(seq, y):
            for q in seq:
                if isinstance(q, nn.Conv2d):
                    y = F.conv2d(y, q.weight, q.bias, padding=1)
                elif isinstance(q, nn.ConvTranspose2d):
                    y = F.conv_transpose2d(y, q.weight, q.bias, padding=1)
                elif isinstance(q, nn.BatchNorm2d):
                    y = F.batch_norm(y, None, None, q.weight, q.bias, True)
                elif isinstance(q, nn.LeakyReLU):
                    y = F.leaky_relu(y, .1)
            return y
        with ctx.sut(which):
            got = m(x)
        want = chain(m.encoder, x)
        if which == 'para' and phase == 'pretrain':
            want = chain(m.decoder, want)
        ctx.check(got.requires_grad == (which == 'trans' or
                                        phase == 'pretrain'),
                  f'connector:{which}:grad', 'who is trained')
        same(got, want, which)
    elif which == 'ofd':
        m = MODELS.build(dict(type='OFDTeacherConnector'))
        with ctx.rejects('ofd-no-margin', AssertionError):
            m(x)
        mar = values(rng, (1, c, 1, 1), None).float()
        m.init_margin(mar)
        y = x.clone().requires_grad_()
        with ctx.sut('ofd'):
            got = m(y)
        ctx.check(not got.requires_grad, 'connector:ofd:grad',
                  'the teacher feature is not detached')
        same(got, torch.where(x > mar, x, mar.expand_as(x)), 'ofd')
    elif which == 'func':
        f, a = rng.choice([
            ('adaptive_avg_pool2d', dict(output_size=2)),
            ('adaptive_max_pool2d', dict(output_size=2)),
            ('avg_pool2d', dict(kernel_size=2)),
            ('max_pool2d', dict(kernel_size=2, stride=1)),
            ('normalize', dict(p=2, dim=1)), ('relu', {}),
            ('softmax', dict(dim=1)), ('interpolate', dict(scale_factor=2)),
            ('dropout', dict(p=0.)), ('dropout2d', dict(p=0.))])
        with ctx.sut('build'):
            m = MODELS.build(dict(type='TorchFunctionalConnector',
                                  function_name=f, func_args=a))
            got = m(x)
        same(got, getattr(F, f)(x, **a), f)
    elif which == 'module':
        f, a = rng.choice([
            ('AdaptiveAvgPool2d', dict(output_size=2)),
            ('AdaptiveMaxPool2d', dict(output_size=2)),
            ('AvgPool2d', dict(kernel_size=2)), ('ReLU', {}),
            ('MaxPool2d', dict(kernel_size=2)), ('Softmax', dict(dim=1)),
            ('BatchNorm2d', dict(num_features=c)),
            ('Conv2d', dict(in_channels=c, out_channels=o, kernel_size=3)),
            ('Linear', dict(in_features=h, out_features=3))])
        with ctx.sut('build'):
            m = MODELS.build(dict(type='TorchNNConnector', module_name=f,
                                  module_args=a))
        twin = getattr(nn, f)(**a)
        ctx.check(len(m.state_dict()) == len(twin.state_dict()),
                  'connector:module:state', 'other parameters')
        twin.load_state_dict({k.split('.', 1)[1]: v
                              for k, v in m.state_dict().items()})
        with ctx.sut('module'):
            got = m(x)
        same(got, twin(x), f)
    elif which == 'byot':
        x8 = values(rng, (n, 8, 8, 8), None).float()
        k2 = x8.clone()
        with ctx.sut('build'):
            m = MODELS.build(dict(
                type='BYOTConnector', in_channel=2, out_channel=8,
                expansion=4, kernel_size=3, stride=2, pool_size=2,
                num_classes=o))
            m.eval()
            feat, logit = m(x8)
        y = m.attention(x8) * x8
        y = m.scala(y).flatten(1)
        same(feat, y, 'byot')
        same(logit, F.linear(y, m.fc.weight, m.fc.bias), 'byot')
        ctx.check(torch.equal(x8, k2), 'connector:byot:input', 'changed')
    else:
        for cfg, exc in (
            (dict(type='TorchFunctionalConnector', function_name='conv2d'),
             ValueError),
            (dict(type='TorchFunctionalConnector'), AssertionError),
            (dict(type='TorchNNConnector', module_name='LSTM'), ValueError),
            (dict(type='TorchNNConnector'), AssertionError),
            (dict(type='Paraphraser', in_channel=2, out_channel=2,
                  phase='test'), AssertionError),
            (dict(type='BYOTConnector', in_channel=2, out_channel=6,
                  num_classes=2), AssertionError),
            (dict(type='KLDivergence', reduction='avg'), AssertionError),
            (dict(type='DKDLoss', reduction='avg'), AssertionError),
            (dict(type='KDSoftCELoss', reduction='avg'), AssertionError),
            (dict(type='L1Loss', reduction='avg'), AssertionError),
            (dict(type='ActivationLoss', norm_type='avg'), AssertionError)):
            with ctx.rejects(f'setting:{cfg["type"]}', exc):
                MODELS.build(cfg)
        s, t = torch.rand(1, 2, 3, 3), torch.rand(1, 2, 3, 4)
        with ctx.rejects('shape:MGDLoss', AssertionError):
            MODELS.build(dict(type='MGDLoss'))(s, t)
        with ctx.rejects('shape:CWD', AssertionError):
            MODELS.build(dict(type='ChannelWiseDivergence'))(s, t)


SECTIONS = {
    'logits': (logits, 400, 6000),
    'features': (features, 400, 6000),
    'fbkd': (fbkd, 60, 1200),
    'crd': (crd, 120, 2400),
    'connectors': (connectors, 500, 8000),
}
