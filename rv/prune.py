"""Helpers around channel mutators and the reference dependency model."""
import copy

import torch

from rv.nets import GraphNet, Reference, init_net, rand_spec


def tracer_spec(rng, tracer, **kw):
    # the autograd tracer visits a module once: networks that run the same
    # module twice are outside what it supports
    kw.setdefault('share', tracer == 'FxTracer')
    if tracer == 'FxTracer':
        return rand_spec(rng, tracer, **kw)
    # gates and nested concatenations confuse the autograd tracer (it is
    # documented to need helper tracers there): at most one concatenation
    kw['se'] = False
    for _ in range(50):
        spec = rand_spec(rng, tracer, **kw)
        if sum(n['op'] == 'cat' for n in spec['nodes']) <= 1:
            return spec
    return rand_spec(rng, tracer, **dict(kw, cats=False))


def build_net(rng, seed, tracer='FxTracer', spec=None, **kw):
    spec = spec or tracer_spec(rng, tracer, **kw)
    net = init_net(GraphNet(spec), seed).eval()
    x = torch.randn(2, spec['cin'], net.hw, net.hw)
    return spec, net, x


def make_mutator(net, tracer='FxTracer', unit='SequentialMutableChannelUnit',
                 cls=None, default_args=None, **kw):
    from mmrazor.models.mutators import ChannelMutator
    cls = cls or ChannelMutator
    cfg = dict(type=unit)
    if default_args:
        cfg['default_args'] = default_args
    return cls(
        channel_unit_cfg=cfg,
        parse_cfg=dict(
            type='ChannelAnalyzer',
            demo_input=(1, 3, net.hw, net.hw),
            tracer_type=tracer), **kw)


def load_weights(dst, src):
    """Load the weights of the network the supernet was made from."""
    res = dst.load_state_dict(src.state_dict(), strict=False)
    return res


def prepare(ctx, net, tracer='FxTracer', load=True, **kw):
    """-> (mutator, original copy); net is prepared and has its weights."""
    orig = copy.deepcopy(net)
    mut = make_mutator(net, tracer, **kw)
    with ctx.sut('prepare'):
        mut.prepare_from_supernet(net)
    if not load:  # the network keeps the weights it had
        return mut, orig
    res = load_weights(net, orig)
    ctx.check(not res.unexpected_keys, 'state-dict:unexpected-keys',
              f'{res.unexpected_keys[:4]}')
    lost = [k for k in res.missing_keys if k in orig.state_dict()]
    ctx.check(not lost, 'state-dict:missing', f'{lost[:4]}')
    net.eval()
    return mut, orig


def unit_elements(unit, ref):
    """k -> frozenset of reference elements removed with channel k."""
    out = []
    for k in range(unit.num_channels):
        s = set()
        for ch in list(unit.output_related) + list(unit.input_related):
            r = ch.num_channels // unit.num_channels
            for j in range(r):
                s.add(('o' if ch.is_output_channel else 'i', ch.name,
                       ch.start + k * r + j))
        out.append(frozenset(e for e in s if e in ref.elements))
    return out


def removed_classes(mut, ref):
    """Roots of the reference classes removed by the current choice."""
    gone = set()
    for u in mut.mutable_units:
        mask = u.mutable_channel.current_mask
        for k, es in enumerate(unit_elements(u, ref)):
            if not bool(mask[k]):
                gone.update(ref.uf.find(e) for e in es)
    return gone


def close(a, b, rtol=1e-3):
    """Same numbers up to float32 re-association noise."""
    a, b = a.detach().double(), b.detach().double()
    if a.shape != b.shape:
        return False
    if not torch.equal(torch.isnan(a), torch.isnan(b)):
        return False
    scale = max(float(b.abs().max()) if b.numel() else 0., 1.)
    return bool(((a - b).abs() <= 1e-5 * scale + rtol * b.abs()).all())


def tup(y):
    return y if isinstance(y, (tuple, list)) else (y, )


def set_all(mut, which):
    """Every unit to its full width, or to a single channel."""
    for u in mut.mutable_units:
        if which == 'max':
            u.current_choice = u.num_channels
        else:
            u.current_choice = 1
