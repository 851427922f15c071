"""C02: a dynamic operator computes, trains and exports exactly as the ordinary
operator built from the channels / kernel / heads it is currently set to."""
import copy
import math

import torch
import torch.nn as nn
import torch.nn.functional as F

from rv.prune import close

ID = 'C02'
RULE = (
    'random operator shapes and random channel masks, kernel sizes, depths, '
    'heads and sizes, through every way a channel choice can be attached '
    '(direct mask, prefix width, candidates, container of several pieces, '
    'expanded); non-trivial: the choice differs from the full operator')
ASSUMPTIONS = [
    'CPU, float32; synchronized batch norm needs a GPU and is not driven',
    'depthwise and grouped convolutions have both sides attached, as the '
    'channel units do',
]
REQUIRED_EVENTS = {
    'forwards': 100, 'grads': 50, 'exports': 100, 'bn_stats': 20}


def piece(rng, n, mask=None):
    """A channel mutable over n channels with a random choice."""
    from mmrazor.models.mutables import (OneShotMutableChannel,
                                         SimpleMutableChannel,
                                         SquentialMutableChannel)
    kind = rng.choice(['simple', 'seq', 'seqratio', 'oneshot', 'oneshotratio'])
    if mask is not None or kind == 'simple':
        m = SimpleMutableChannel(n)
        if mask is None:
            mask = torch.tensor([rng.random() < .6 for _ in range(n)])
            if not mask.any():
                mask[rng.randrange(n)] = True
        m.current_choice = mask
        m.want = mask.clone()
        return m
    k = rng.randint(1, n)
    if kind == 'seq':
        m = SquentialMutableChannel(n)
        m.current_choice = k
    elif kind == 'seqratio':
        m = SquentialMutableChannel(n, choice_mode='ratio')
        m.current_choice = (k + .25) / n if k < n else 1.0
    elif kind == 'oneshot':
        m = OneShotMutableChannel(n, sorted({k, n}))
        m.current_choice = k
    else:
        r = (k + .25) / n if k < n else 1.0
        m = OneShotMutableChannel(n, sorted({r, 1.0}), choice_mode='ratio')
        m.current_choice = r
    want = torch.zeros(n).bool()
    want[:k] = True
    m.want = want
    return m


def channel(rng, n, allow_expand=True):
    """(mutable, wanted mask, list of mutables to fix)."""
    from mmrazor.models.mutables import MutableChannelContainer
    r = rng.random()
    if r < .5 or n < 2:
        m = piece(rng, n)
        return m, m.want, [m]
    if allow_expand and r < .7 and n % 2 == 0:
        k = rng.choice([d for d in range(2, n + 1) if n % d == 0])
        src = piece(rng, n // k)
        if not hasattr(src, 'expand_mutable_channel'):
            return src, src.want, [src]
        return (src.expand_mutable_channel(k),
                src.want.repeat_interleave(k), [src])
    c = MutableChannelContainer(n)
    cut = sorted(rng.sample(range(1, n), min(n - 1, rng.randint(1, 2))))
    cuts = [0] + cut + [n]
    spans = list(zip(cuts[:-1], cuts[1:]))
    want = torch.ones(n).bool()
    fixes = []
    order = list(spans)
    rng.shuffle(order)
    for a, b in order:
        if rng.random() < .25:
            continue  # an unregistered range stays on
        m = piece(rng, b - a)
        c.register_mutable(m, a, b)
        want[a:b] = m.want
        fixes.append(m)
    return c, want, fixes


def fix(ms):
    for m in ms:
        if not m.is_fixed:
            m.fix_chosen(m.current_choice)


def snapshot(mod):
    return {k: v.clone() for k, v in mod.state_dict().items()}


def same_state(ctx, mod, snap, mech):
    now = mod.state_dict()
    for k, v in snap.items():
        ctx.check(torch.equal(now[k], v), mech, k)


def cmp_out(ctx, y, r, mech, msg=''):
    ctx.check(close(y, r), mech,
              lambda: f'{tuple(y.shape)} {tuple(r.shape)} '
              f'{(y - r).abs().max() if y.shape == r.shape else ""} {msg}')


def static_checks(ctx, dyn, ref, inputs, desc):
    """Export once the choice is fixed: an ordinary module, equal function."""
    snap = snapshot(dyn)
    with ctx.sut('to_static'):
        st = dyn.to_static_op()
    same_state(ctx, dyn, snap, 'to_static:changed-dynamic-op')
    from mmrazor.models.architectures.dynamic_ops import DynamicMixin
    for m in st.modules():
        ctx.check(not isinstance(m, DynamicMixin), 'to_static:still-dynamic',
                  desc)
    st.eval()
    ref.eval()
    dyn.eval()
    with torch.no_grad():
        with ctx.sut('static-forward'):
            y = st(*inputs)
        cmp_out(ctx, y, ref(*inputs), 'to_static:forward-differs', desc)
        with ctx.sut('forward-after-export'):
            y2 = dyn(*inputs)
        cmp_out(ctx, y2, ref(*inputs), 'to_static:dynamic-differs-after',
                desc)
    a = {k: tuple(v.shape) for k, v in st.named_parameters()}
    b = {k: tuple(v.shape) for k, v in ref.named_parameters()}
    ctx.check(a == b, 'to_static:parameter-shapes', f'{a} {b} {desc}')
    # the exported operator is independent of the supernet
    own = snapshot(st)
    with torch.no_grad():
        for p in st.parameters():
            p.add_(1.)
    same_state(ctx, dyn, snap, 'to_static:shares-memory')
    st.load_state_dict(own)
    ctx.event('exports')
    return st


def grads(ctx, dyn, ref, inputs, maps, desc):
    """Training the dynamic operator trains exactly the selected slice."""
    ins = [i.clone().requires_grad_() if i.is_floating_point() else i
           for i in inputs]
    refs = [i.detach().clone().requires_grad_() if i.is_floating_point()
            else i for i in inputs]
    dyn.zero_grad()
    ref.zero_grad()
    with ctx.sut('forward'):
        y = dyn(*ins)
    r = ref(*refs)
    cmp_out(ctx, y, r, 'forward:differs', desc)
    w = torch.randn_like(r)
    (y * w).sum().backward()
    (r * w).sum().backward()
    for a, b in zip(ins, refs):
        if a.is_floating_point():
            cmp_out(ctx, a.grad, b.grad, 'grad:input', desc)
    for p, q, place in maps:
        if q is None:
            continue
        full = torch.zeros_like(p)
        place(full, q.grad)
        g = p.grad if p.grad is not None else torch.zeros_like(p)
        cmp_out(ctx, g, full, 'grad:parameter', desc)
    ctx.event('grads')
    ctx.event('forwards')


def conv_case(ctx):
    from mmrazor.models.architectures.dynamic_ops import (
        BigNasConv2d, DynamicConv2d, FuseConv2d, OFAConv2d)
    from mmrazor.models.architectures.dynamic_ops.bricks.dynamic_conv import \
        DynamicConv2dAdaptivePadding
    from mmrazor.models.mutables import OneShotMutableValue
    rng = ctx.rng
    cls = rng.choice([DynamicConv2d, BigNasConv2d, OFAConv2d, FuseConv2d,
                      DynamicConv2dAdaptivePadding])
    kind = rng.choice(['normal', 'normal', 'dw', 'group'])
    kernel = cls in (BigNasConv2d, OFAConv2d) and rng.random() < .8
    if kind == 'normal':
        cin, cout, g = rng.randint(1, 7), rng.randint(1, 7), 1
    elif kind == 'dw':
        cin = cout = g = rng.randint(2, 6)
    else:
        g = rng.choice([2, 3])
        cin, cout = g * rng.randint(1, 3), g * rng.randint(2, 3)
    k = rng.choice([3, 5, 7]) if kernel else rng.choice([1, 2, 3, 5])
    s, d, bias = rng.choice([1, 2, 3]), rng.choice([1, 2]), rng.random() < .6
    p = k // 2 if kernel else rng.choice([0, 1, k // 2])
    pm = 'zeros'
    if cls not in (DynamicConv2dAdaptivePadding, ) and p <= 2 and p > 0 \
            and rng.random() < .25:
        pm = rng.choice(['reflect', 'circular', 'replicate'])
    if cls is DynamicConv2dAdaptivePadding:
        p = 0
    base_cls = nn.Conv2d
    if cls is DynamicConv2dAdaptivePadding:
        from mmcv.cnn.bricks import Conv2dAdaptivePadding as base_cls
    kw = {} if pm == 'zeros' else dict(padding_mode=pm)
    base = base_cls(cin, cout, k, s, p, d, g, bias, **kw)
    if pm != 'zeros':  # not supported: must be refused, never ignored
        with ctx.rejects(f'padding_mode={pm}'):
            cls.convert_from(base)
        return
    with ctx.sut('convert_from'):
        dyn = cls.convert_from(base)
    dyn.load_state_dict(base.state_dict())
    h = (k - 1) * d + 1 + rng.randint(0, 4)
    desc = f'{cls.__name__} {kind} {cin}>{cout} k{k} s{s} p{p} d{d} g{g} ' \
           f'bias={bias} {pm}'
    ctx.sample(desc)
    # before anything is attached it is the ordinary operator
    x = torch.randn(2, cin, h, h)
    with ctx.sut('forward-plain'), torch.no_grad():
        cmp_out(ctx, dyn(x), base(x), 'plain:differs', desc)
    im, om = torch.ones(cin).bool(), torch.ones(cout).bool()
    fixes = []
    if kind == 'normal':
        which = rng.choice(['in', 'out', 'both', 'both'])
        if which != 'out':
            m, im, f = channel(rng, cin)
            dyn.register_mutable_attr('in_channels', m)
            fixes += f
        if which != 'in':
            m, om, f = channel(rng, cout)
            dyn.register_mutable_attr('out_channels', m)
            fixes += f
    elif kind == 'dw':
        m, im, f = channel(rng, cin)
        om = im
        dyn.register_mutable_attr('in_channels', m)
        dyn.register_mutable_attr('out_channels', m)
        fixes += f
    else:
        for attr, n in (('in_channels', cin), ('out_channels', cout)):
            per = n // g
            keep = rng.randint(1, per)
            msk = torch.zeros(g, per).bool()
            for row in msk:
                row[rng.sample(range(per), keep)] = True
            m = piece(rng, n, msk.flatten())
            dyn.register_mutable_attr(attr, m)
            fixes.append(m)
            if attr == 'in_channels':
                im = msk.flatten()
            else:
                om = msk.flatten()
    ks = k
    if kernel:
        cand = sorted(rng.sample([c for c in (1, 3, 5, 7) if c < k],
                                 rng.randint(1, (k - 1) // 2))) + [k]
        ks = rng.choice(cand)
        order = list(cand)
        rng.shuffle(order)
        mk = OneShotMutableValue(alias='k', value_list=order)
        dyn.register_mutable_attr('kernel_size', mk)
        mk.current_choice = ks
        fixes.append(mk)
        if cls is OFAConv2d:
            for n, prm in dyn.named_parameters():
                if 'trans' in n:
                    prm.data = torch.eye(prm.size(0)) + \
                        .3 * torch.randn_like(prm)
    with torch.no_grad():
        w = base.weight.detach().clone()
        if kernel and ks != k:
            if cls is OFAConv2d:
                for a, b in zip(cand[::-1], cand[::-1][1:]):
                    if a <= ks:
                        break
                    o = (a - b) // 2
                    t = w[:, :, o:o + b, o:o + b].reshape(-1, b * b)
                    w = (t @ getattr(dyn, f'trans_matrix_{a}to{b}').t()
                         ).reshape(cout, -1, b, b)
            else:
                o = (k - ks) // 2
                w = w[:, :, o:o + ks, o:o + ks]
        rows = om.nonzero().flatten().tolist()
        gg = g
        if kind == 'normal':
            w = w[rows][:, im.nonzero().flatten()]
        elif kind == 'dw':
            w = w[rows]
            gg = len(rows)
        else:
            pi, po = cin // g, cout // g
            w = torch.stack([
                w[r][im[(r // po) * pi:(r // po + 1) * pi]] for r in rows])
        nin, nout = int(im.sum()), int(om.sum())
        pad = ks // 2 if kernel else p
        ref = base_cls(nin, nout, ks, s, pad, d, gg, bias, **kw)
        ref.weight.copy_(w)
        if bias:
            ref.bias.copy_(base.bias[om])
    x = torch.randn(2, nin, h + 3, h + 3)
    maps = []
    if not (kernel and ks != k):
        def place_w(full, gr):
            if kind == 'normal':
                full[om.nonzero().flatten()[:, None],
                     im.nonzero().flatten()[None]] = gr
            elif kind == 'dw':
                full[om] = gr
            else:
                for j, r in enumerate(rows):
                    sel = im[(r // po) * pi:(r // po + 1) * pi]
                    full[r, sel] = gr[j]
        maps.append((dyn.weight, ref.weight, place_w))
    if bias:
        def place_b(full, gr):
            full[om] = gr
        maps.append((dyn.bias, ref.bias, place_b))
    grads(ctx, dyn, ref, [x], maps, desc)
    if ks != k or not bool(im.all()) or not bool(om.all()):
        ctx.key(desc, im.tolist(), om.tolist(), ks)
    if not fixes:
        return
    # an unfixed choice must not be exported
    direct = [m for m in dyn.mutable_attrs.values()
              if any(m is f for f in fixes)]
    if direct:
        with ctx.rejects('to_static-unfixed', (RuntimeError, )):
            dyn.to_static_op()
    fix(fixes)
    static_checks(ctx, dyn, ref, [x], desc)


def linear_case(ctx):
    from mmrazor.models.architectures.dynamic_ops import DynamicLinear
    rng = ctx.rng
    cin, cout, bias = rng.randint(1, 9), rng.randint(1, 9), rng.random() < .6
    base = nn.Linear(cin, cout, bias)
    with ctx.sut('convert_from'):
        dyn = DynamicLinear.convert_from(base)
    dyn.load_state_dict(base.state_dict())
    im, om, fixes = torch.ones(cin).bool(), torch.ones(cout).bool(), []
    which = rng.choice(['in', 'out', 'both', 'both'])
    if which != 'out':
        m, im, f = channel(rng, cin)
        dyn.register_mutable_attr('in_channels', m)
        fixes += f
    if which != 'in':
        m, om, f = channel(rng, cout)
        dyn.register_mutable_attr('out_channels', m)
        fixes += f
    ref = nn.Linear(int(im.sum()), int(om.sum()), bias)
    with torch.no_grad():
        ref.weight.copy_(base.weight[om][:, im])
        if bias:
            ref.bias.copy_(base.bias[om])
    desc = f'linear {cin}>{cout} bias={bias}'
    ctx.sample(desc)
    x = torch.randn(*[rng.randint(1, 3) for _ in range(rng.randint(1, 2))],
                    int(im.sum()))

    def place_w(full, g):
        full[om.nonzero().flatten()[:, None], im.nonzero().flatten()] = g

    def place_b(full, g):
        full[om] = g

    maps = [(dyn.weight, ref.weight, place_w)]
    if bias:
        maps.append((dyn.bias, ref.bias, place_b))
    grads(ctx, dyn, ref, [x], maps, desc)
    ctx.key(desc, im.tolist(), om.tolist())
    fix(fixes)
    static_checks(ctx, dyn, ref, [x], desc)


def bn_case(ctx):
    from mmengine.model.utils import _BatchNormXd

    from mmrazor.models.architectures.dynamic_ops import (
        DMCPBatchNorm2d, DynamicBatchNorm1d, DynamicBatchNorm2d,
        DynamicBatchNorm3d, DynamicBatchNormXd)
    rng = ctx.rng
    cls, base_cls, dims = rng.choice([
        (DynamicBatchNorm1d, nn.BatchNorm1d, rng.choice([0, 1])),
        (DynamicBatchNorm2d, nn.BatchNorm2d, 2),
        (DMCPBatchNorm2d, nn.BatchNorm2d, 2),
        (DynamicBatchNorm3d, nn.BatchNorm3d, 3),
        (DynamicBatchNormXd, _BatchNormXd, 2)])
    n = rng.randint(1, 8)
    affine, track = rng.choice([(True, True), (True, True), (True, False),
                                (False, True)])
    mom = rng.choice([.1, .5, None, 0.])
    eps = rng.choice([1e-5, 1e-2])
    base = base_cls(n, eps, mom, affine, track)
    with torch.no_grad():
        if affine:
            base.weight.copy_(torch.rand(n) + .5)
            base.bias.normal_()
        if track:
            base.running_mean.normal_()
            base.running_var.copy_(torch.rand(n) + .5)
            base.num_batches_tracked.fill_(rng.choice([0, 3]))
    with ctx.sut('convert_from'):
        dyn = cls.convert_from(base)
    dyn.load_state_dict(base.state_dict())
    m, om, fixes = channel(rng, n)
    dyn.register_mutable_attr(
        rng.choice(['in_channels', 'out_channels', 'num_features']), m)
    k = int(om.sum())
    ref = base_cls(k, eps, mom, affine, track)
    with torch.no_grad():
        if affine:
            ref.weight.copy_(base.weight[om])
            ref.bias.copy_(base.bias[om])
        if track:
            ref.running_mean.copy_(base.running_mean[om])
            ref.running_var.copy_(base.running_var[om])
            ref.num_batches_tracked.copy_(base.num_batches_tracked)
    desc = f'{cls.__name__} {n} affine={affine} track={track} mom={mom}'
    ctx.sample(desc)
    ctx.key(desc, om.tolist())

    def place(full, g):
        full[om] = g

    for step in range(rng.randint(1, 4)):
        train = rng.random() < .7
        dyn.train(train)
        ref.train(train)
        x = torch.randn(rng.randint(2, 4), k, *[3] * dims) * 2 + 1
        maps = [(dyn.weight, ref.weight, place), (dyn.bias, ref.bias, place)
                ] if affine else []
        grads(ctx, dyn, ref, [x], maps, desc)
        if track:
            for a in ('running_mean', 'running_var'):
                want = getattr(base, a).clone()
                want[om] = getattr(ref, a)
                cmp_out(ctx, getattr(dyn, a), want, f'bn:{a}', desc)
            ctx.check(
                int(dyn.num_batches_tracked) == int(ref.num_batches_tracked),
                'bn:num_batches_tracked', desc)
            ctx.event('bn_stats')
        if train and track and rng.random() < .3:
            # a loaded checkpoint keeps working (buffers are real buffers)
            dyn.load_state_dict(snapshot(dyn))
    fix(fixes)
    st = static_checks(ctx, dyn, ref, [x], desc)
    if track:
        ctx.check(
            int(st.num_batches_tracked) == int(ref.num_batches_tracked),
            'to_static:num_batches_tracked', desc)
        for a in ('running_mean', 'running_var'):
            cmp_out(ctx, getattr(st, a), getattr(ref, a), f'to_static:{a}',
                    desc)
    # the subnet may be trained further
    st.train()
    ref.train()
    x = torch.randn(3, k, *[3] * dims) * 2 + 1
    cmp_out(ctx, st(x), ref(x), 'to_static:training-forward', desc)
    if track:
        for a in ('running_mean', 'running_var'):
            cmp_out(ctx, getattr(st, a), getattr(ref, a),
                    f'to_static:training-{a}', desc)


def ln_case(ctx):
    from mmrazor.models.architectures.dynamic_ops import DynamicLayerNorm
    rng = ctx.rng
    n = rng.randint(1, 9)
    eps = rng.choice([1e-5, 1e-2])
    base = nn.LayerNorm(n, eps)
    with torch.no_grad():
        base.weight.copy_(torch.rand(n) + .5)
        base.bias.normal_()
    dyn = DynamicLayerNorm.convert_from(base)
    dyn.load_state_dict(base.state_dict())
    x = torch.randn(2, 3, n)
    with ctx.sut('forward-plain'):
        cmp_out(ctx, dyn(x), base(x), 'plain:differs', 'ln')
    m, _, fixes = channel(rng, n, allow_expand=False)
    dyn.register_mutable_attr('num_features', m)
    for _ in range(3):  # the choice changes between forwards
        for f in fixes:
            if hasattr(f, 'candidate_choices'):
                f.current_choice = rng.choice(f.candidate_choices)
            elif isinstance(f.current_choice, int):
                f.current_choice = rng.randint(1, f.num_channels)
        om = m.current_mask.clone()
        ref = nn.LayerNorm(int(om.sum()), eps)
        with torch.no_grad():
            ref.weight.copy_(base.weight[om])
            ref.bias.copy_(base.bias[om])
        x = torch.randn(2, 3, int(om.sum()))

        def place(full, g):
            full[om] = g

        grads(ctx, dyn, ref, [x], [(dyn.weight, ref.weight, place),
                                   (dyn.bias, ref.bias, place)], 'ln')
        ctx.key('ln', n, om.tolist())
    ctx.check(m.current_mask.shape[0] == n and tuple(
        dyn.state_dict()['weight'].shape) == (n, ), 'ln:width-changed')
    # it can still be attached to / described at its full width
    with ctx.sut('ln-num_features'):
        ctx.check(dyn.num_features == n, 'ln:normalized-shape-overwritten',
                  f'{dyn.num_features} != {n}')
    fix(fixes)
    static_checks(ctx, dyn, ref, [x], 'ln')


def seq_case(ctx):
    from mmengine.model import Sequential

    from mmrazor.models.architectures.dynamic_ops import DynamicSequential
    from mmrazor.models.mutables import OneShotMutableValue
    rng = ctx.rng
    n = rng.randint(1, 5)
    mods = [nn.Linear(4, 4) for _ in range(n)]
    dyn = DynamicSequential(*mods)
    if rng.random() < .4:
        # layers added later come after the container's own bookkeeping
        dyn = DynamicSequential()
        for i, m in enumerate(mods):
            dyn.add_module(f'layer{i}', m)
    x = torch.randn(2, 4)
    with ctx.sut('forward-plain'):
        cmp_out(ctx, dyn(x), Sequential(*mods)(x), 'plain:differs', 'seq')
    d = OneShotMutableValue(alias='d', value_list=sorted(rng.sample(
        range(1, n + 1), rng.randint(1, n))))
    dyn.register_mutable_attr('depth', d)
    for _ in range(3):
        d.current_choice = k = rng.choice(d.choices)
        ref = Sequential(*mods[:k])
        with ctx.sut('forward'), torch.no_grad():
            cmp_out(ctx, dyn(x), ref(x), 'forward:differs', f'depth {k}/{n}')
        ctx.event('forwards')
        ctx.key('seq', n, k)
    d.fix_chosen(k)
    with ctx.sut('to_static'):
        st = dyn.to_static_op()
    ctx.check(len(st) == k, 'to_static:depth', f'{len(st)} {k}')
    with torch.no_grad():
        cmp_out(ctx, st(x), ref(x), 'to_static:forward-differs', 'seq')
    ctx.event('exports')


def mha_case(ctx):
    from mmrazor.models.architectures.dynamic_ops import \
        DynamicMultiheadAttention
    from mmrazor.models.architectures.ops import MultiheadAttention
    from mmrazor.models.mutables import (MutableChannelContainer,
                                         OneShotMutableChannel,
                                         OneShotMutableValue)
    rng = ctx.rng
    heads = sorted(rng.sample([1, 2, 3, 4], rng.randint(1, 3)))
    embeds = sorted({rng.randint(3, 12) for _ in range(3)})
    H, E = heads[-1], embeds[-1]
    rel = rng.random() < .7
    opts = dict(relative_position=rel,
                max_relative_position=rng.choice([2, 3, 14]),
                qkv_bias=rng.random() < .8, proj_bias=rng.random() < .8)
    if rng.random() < .3:
        opts['qk_scale'] = rng.choice([.05, .3])
    dyn = DynamicMultiheadAttention(embed_dims=E, num_heads=H, **opts)
    for p in dyn.parameters():
        p.data.normal_(std=.2)
    me = OneShotMutableChannel(E, embeds)
    mh = OneShotMutableValue(alias='h', value_list=heads)
    mq = mh * 64
    ce, cq = MutableChannelContainer(E), MutableChannelContainer(64 * H)
    ce.register_mutable(me, 0, E)
    cq_mut = OneShotMutableChannel(64 * H, [64 * h for h in heads])
    cq.register_mutable(cq_mut, 0, 64 * H)
    dyn.register_mutable_attr('num_heads', mh)
    dyn.register_mutable_attr('embed_dims', ce)
    dyn.register_mutable_attr('q_embed_dims', cq)
    rm = None
    if rel:
        for r in (dyn.rel_pos_embed_k, dyn.rel_pos_embed_v):
            rm = OneShotMutableChannel(64, [64])
            r.register_mutable_attr('head_dims', rm)
            rm.fix_chosen(64)
    desc = f'mha heads={heads} embeds={embeds} {opts}'
    ctx.sample(desc)
    for _ in range(3):
        h, e = rng.choice(heads), rng.choice(embeds)
        mh.current_choice, me.current_choice = h, e
        cq_mut.current_choice = 64 * h
        ctx.check(mq.current_choice == 64 * h, 'mha:derived', desc)
        ref = MultiheadAttention(embed_dims=e, num_heads=h, **opts).eval()
        with torch.no_grad():
            for a in ('w_qs', 'w_ks', 'w_vs'):
                getattr(ref, a).weight.copy_(
                    getattr(dyn, a).weight[:64 * h, :e])
                if opts['qkv_bias']:
                    getattr(ref, a).bias.copy_(getattr(dyn, a).bias[:64 * h])
            ref.proj.weight.copy_(dyn.proj.weight[:e, :64 * h])
            if opts['proj_bias']:
                ref.proj.bias.copy_(dyn.proj.bias[:e])
            if rel:
                for a in ('rel_pos_embed_k', 'rel_pos_embed_v'):
                    for b in ('embeddings_table_v', 'embeddings_table_h'):
                        getattr(getattr(ref, a), b).copy_(
                            getattr(getattr(dyn, a), b))
        side = rng.randint(2, 4)
        x = torch.randn(2, side * side + 1, e)
        dyn.eval()
        with ctx.sut('forward'), torch.no_grad():
            y = dyn(x)
        with torch.no_grad():
            cmp_out(ctx, y, ref(x), 'forward:differs', desc)
        ctx.event('forwards')
        ctx.key(desc, h, e)
    fix([mh, me, cq_mut])
    static_checks(ctx, dyn, ref, [x], desc)


def embed_case(ctx):
    from mmcls.models.utils import PatchEmbed

    from mmrazor.models.architectures.dynamic_ops import DynamicPatchEmbed
    rng = ctx.rng
    cin = rng.choice([1, 3, 3, 4])
    E = rng.randint(2, 8)
    p = rng.choice([8, 16, 16])
    cfg = None if p == 16 else dict(kernel_size=p, stride=p)
    base = PatchEmbed(img_size=32, in_channels=cin, embed_dims=E,
                      conv_cfg=cfg)
    with ctx.sut('convert_from'):
        dyn = DynamicPatchEmbed.convert_from(base)
    desc = f'patch embed {cin}>{E} patch {p}'
    ctx.sample(desc)
    x = torch.randn(2, cin, 32, 32)
    with ctx.sut('forward-plain'), torch.no_grad():
        cmp_out(ctx, dyn(x), base(x), 'plain:differs', desc)
    m, om, fixes = channel(rng, E, allow_expand=False)
    dyn.register_mutable_attr('embed_dims', m)
    ref = PatchEmbed(img_size=32, in_channels=cin, embed_dims=int(om.sum()),
                     conv_cfg=cfg)
    with torch.no_grad():
        ref.projection.weight.copy_(base.projection.weight[om])
        ref.projection.bias.copy_(base.projection.bias[om])

    def place(full, g):
        full[om] = g

    grads(ctx, dyn, ref, [x], [
        (dyn.projection.weight, ref.projection.weight, place),
        (dyn.projection.bias, ref.projection.bias, place)], desc)
    ctx.key(desc, om.tolist())
    fix(fixes)
    static_checks(ctx, dyn, ref, [x], desc)


def relpos_case(ctx):
    from mmrazor.models.architectures.dynamic_ops import \
        DynamicRelativePosition2D
    from mmrazor.models.architectures.ops import RelativePosition2D
    from mmrazor.models.mutables import SquentialMutableChannel
    rng = ctx.rng
    n, mx = rng.randint(2, 9), rng.choice([1, 3, 14, 20])
    base = RelativePosition2D(n, mx)
    dyn = DynamicRelativePosition2D.convert_from(base)
    dyn.load_state_dict(base.state_dict())
    side = rng.randint(2, 5)
    L = side * side + 1
    desc = f'relpos {n} max {mx} len {L}'
    ctx.sample(desc)
    with ctx.sut('forward-plain'), torch.no_grad():
        cmp_out(ctx, dyn(L, L), base(L, L), 'plain:differs', desc)
    m = SquentialMutableChannel(n)
    dyn.register_mutable_attr('head_dims', m)
    m.current_choice = k = rng.randint(1, n)
    ref = RelativePosition2D(k, mx)
    with torch.no_grad():
        for a in ('embeddings_table_v', 'embeddings_table_h'):
            getattr(ref, a).copy_(getattr(base, a)[:, :k])
        with ctx.sut('forward'):
            y = dyn(L, L)
        cmp_out(ctx, y, ref(L, L), 'forward:differs', desc)
    ctx.event('forwards')
    ctx.key(desc, k)
    fix([m])
    static_checks(ctx, dyn, ref, [L, L], desc)


def resizer_case(ctx):
    from mmrazor.models.architectures.dynamic_ops import DynamicInputResizer
    from mmrazor.models.architectures.ops import InputResizer
    from mmrazor.models.mutables import OneShotMutableValue
    rng = ctx.rng
    it = rng.choice(['bicubic', 'bilinear'])
    ac = rng.random() < .5
    base = InputResizer(it, align_corners=ac)
    dyn = DynamicInputResizer.convert_from(base)
    x = torch.randn(1, 3, 9, 9)
    sizes = [(s, s) for s in rng.sample(range(3, 14), 3)]
    desc = f'resizer {it} {ac} {sizes}'
    with ctx.sut('forward-plain'):
        cmp_out(ctx, dyn(x, sizes[0]), base(x, sizes[0]), 'plain:differs',
                desc)
    m = OneShotMutableValue(alias='s', value_list=sizes)
    dyn.register_mutable_attr('shape', m)
    for s in sizes:
        m.current_choice = s
        with ctx.sut('forward'):
            y = dyn(x)
        cmp_out(ctx, y, F.interpolate(x, size=s, mode=it, align_corners=ac),
                'forward:differs', desc)
        ctx.event('forwards')
        ctx.key(desc, s)
    m.fix_chosen(s)
    with ctx.sut('to_static'):
        st = dyn.to_static_op()
        y = st(x)
    cmp_out(ctx, y, F.interpolate(x, size=s, mode=it, align_corners=ac),
            'to_static:forward-differs', desc)
    ctx.event('exports')


def sbn_case(ctx):
    from mmrazor.models.architectures.dynamic_ops import SwitchableBatchNorm2d
    from mmrazor.models.mutables import SquentialMutableChannel
    rng = ctx.rng
    n = rng.randint(2, 9)
    eps, mom = rng.choice([1e-5, 1e-2]), rng.choice([.1, .3])
    base = nn.BatchNorm2d(n, eps, mom)
    dyn = SwitchableBatchNorm2d.convert_from(base)
    cand = sorted(rng.sample(range(1, n), rng.randint(1, n - 1)))
    m = SquentialMutableChannel(n)
    dyn.register_mutable_attr('num_features', m)
    dyn.init_candidates(cand)
    refs = {k: nn.BatchNorm2d(k, eps, mom) for k in cand + [n]}
    for _ in range(6):
        k = rng.choice(cand + [n])
        m.current_choice = k
        train = rng.random() < .7
        dyn.train(train)
        for r in refs.values():
            r.train(train)
        x = torch.randn(3, k, 2, 2) * 2 + 1
        with ctx.sut('forward'):
            y = dyn(x)
        cmp_out(ctx, y, refs[k](x), 'switchable:not-private-statistics',
                f'{n} {cand} {k}')
        ctx.event('forwards')
        ctx.key('sbn', n, tuple(cand), k, train)
    m.fix_chosen(k)
    with ctx.sut('to_static'):
        st = dyn.to_static_op()
    st.eval()
    ref = refs[k].eval()
    cmp_out(ctx, st(x), ref(x), 'to_static:forward-differs', 'switchable')
    ctx.check(type(st) is nn.BatchNorm2d, 'to_static:still-dynamic')
    ctx.event('exports')


SECTIONS = {
    'conv': (conv_case, 1500, 40000),
    'linear': (linear_case, 300, 5000),
    'bn': (bn_case, 500, 10000),
    'ln': (ln_case, 150, 3000),
    'seq': (seq_case, 80, 800),
    'mha': (mha_case, 120, 3000),
    'embed': (embed_case, 80, 1500),
    'relpos': (relpos_case, 100, 1500),
    'resizer': (resizer_case, 60, 600),
    'sbn': (sbn_case, 80, 1500),
}
