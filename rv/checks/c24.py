"""C24: widening a network."""
import copy

import torch
import torch.nn as nn

from rv import prune
from rv.nets import GraphNet, Reference, describe, init_net

ID = 'C24'
RULE = (
    'random networks made expandable, random units widened by random numbers '
    'of channels in one or several steps, or to a multiple of a divisor, with '
    'zeroed or fresh new weights; then again')
ASSUMPTIONS = [
    'the FX tracer and 3-channel inputs, as the interface fixes them',
    'convolutions are ordinary or depthwise: others are refused',
    'channels of the outputs of the network are not to be widened',
]
REQUIRED_EVENTS = {'widened': 100, 'modules': 400, 'new_channels': 400,
                   'zero': 60, 'fresh': 40, 'divisible': 40, 'again': 30,
                   'refused': 10, 'eval': 60, 'train': 20, 'submodel': 15}
CASE_LIMIT = 120


def plain(ctx):
    rng = ctx.rng
    for _ in range(20):
        spec = prune.tracer_spec(rng, 'FxTracer', group=False)
        if all(n['args'].get('g', 1) in (1, n['args'].get('cin'))
               and (n['args'].get('g', 1) == 1 or
                    n['args']['cin'] == n['args']['cout'])
               for n in spec['nodes'] if n['op'] == 'conv'):
            break
    net = init_net(GraphNet(spec), ctx.case_seed % 1000)
    return spec, net


def layers(net):
    return {n: m for n, m in net.named_modules()
            if isinstance(m, (nn.Conv2d, nn.Linear, nn.BatchNorm2d))}


def snapshot(net):
    return {n: (copy.deepcopy(m), m.training)
            for n, m in layers(net).items()}


def layout(spec, mut, more):
    """Flags (False old, True new) of the channels of each tensor of a net.

    ``more``: new channels of each unit.
    """
    outs = {}
    for u in mut.units:
        k = more.get(u.name, 0)
        for ch in u.output_related:
            outs.setdefault(ch.name, []).append((ch.start, ch.end, k))
    flags = {-1: [False] * spec['cin']}
    of = {}
    for n in spec['nodes']:
        ins = [flags[i] for i in n['ins']]
        op = n['op']
        name = f"body.{n['mod']}"
        inner = name + '.conv' if op == 'convmodule' else name
        if op in ('conv', 'convmodule', 'linear'):
            if n['args'].get('g', 1) > 1:
                o = ins[0]
            else:
                o = []
                c = n['args']['cout']
                parts = sorted(outs.get(inner, [(0, c, 0)]))
                assert sum(e - s for s, e, _ in parts) == c, (parts, c)
                for s, e, k in parts:
                    o += [False] * (e - s) + [True] * k
            of[inner] = (ins[0], o)
            if op == 'convmodule' and n['args']['bn']:
                of[name + '.bn'] = (o, o)
        elif op == 'bn':
            o = ins[0]
            of[name] = (o, o)
        elif op == 'cat':
            o = [f for x in ins for f in x]
        elif op == 'flatten':
            src = [m for m in spec['nodes'] if m['id'] == n['ins'][0]][0]
            r = src['args']['o']**2 if src['op'] == 'gap' else 1
            o = [f for f in ins[0] for _ in range(r)]
        else:
            o = ins[0]
            if op in ('add', 'tadd', 'mul'):
                assert all(x == o for x in ins), 'branches of other layouts'
        flags[n['id']] = o
    return flags, of


def judge_layers(ctx, net, before, of, zero, spec):
    ctx.check(set(layers(net)) == set(before), 'layers',
              'layers were lost or added')
    for name, m in layers(net).items():
        old, training = before[name]
        fi, fo = of[name]
        oi = torch.tensor([not f for f in fi])
        oo = torch.tensor([not f for f in fo])
        kind = type(m).__name__
        ctx.event('modules')
        ctx.event('new_channels', sum(fo))
        ctx.check(type(m) in (nn.Conv2d, nn.Linear, nn.BatchNorm2d), 'types',
                  lambda: f'{name} became a {type(m)}')
        ctx.check(m.training == training or kind != 'BatchNorm2d', 'mode',
                  lambda: f'{name} was in '
                  f'training mode {training}, now {m.training}')
        if isinstance(m, nn.BatchNorm2d):
            ctx.check(m.num_features == len(fo) and (m.eps, m.momentum) == (
                old.eps, old.momentum), 'bn', lambda: f'{name}: {m}')
            pairs = [('weight', None), ('bias', None), ('running_mean', None),
                     ('running_var', None)]
            ctx.check(int(m.num_batches_tracked) == int(
                old.num_batches_tracked), 'tracked',
                lambda: f'{name}: {m.num_batches_tracked} batches tracked, '
                f'{old.num_batches_tracked} before')
        else:
            dw = getattr(m, 'groups', 1) > 1
            want = (len(fo), 1 if dw else len(fi))
            ctx.check(tuple(m.weight.shape[:2]) == want, 'shape',
                      lambda: f'{name}: weight {tuple(m.weight.shape)}, '
                      f'{want} expected, {describe(spec)}')
            if tuple(m.weight.shape[:2]) != want:
                return False
            if isinstance(m, nn.Conv2d):
                same = all(getattr(m, a) == getattr(old, a) for a in (
                    'kernel_size', 'stride', 'padding', 'dilation',
                    'padding_mode'))
                ctx.check(same and m.in_channels == len(fi) and
                          m.out_channels == len(fo) and
                          m.groups == (len(fi) if dw else 1), 'conv',
                          lambda: f'{name}: {m}, was {old}')
            else:
                ctx.check((m.in_features, m.out_features) == (
                    len(fi), len(fo)), 'linear', lambda: f'{name}: {m}')
            pairs = [('weight', not dw), ('bias', None)]
            ctx.check((m.bias is None) == (old.bias is None), 'bias', name)
        for leaf, matrix in pairs:
            v, w = getattr(m, leaf), getattr(old, leaf)
            if w is None:
                continue
            keep = v[oo][:, oi] if matrix else v[oo]
            ctx.check(keep.shape == w.shape and torch.equal(keep, w),
                      'kept', lambda: f'{name} ({kind}): the old {leaf} is '
                      f'not in its place, {describe(spec)}')
            new = torch.ones(v.shape, dtype=torch.bool)
            if matrix:
                new[oo.nonzero()[:, 0][:, None], oi.nonzero()[:, 0]] = False
            else:
                new[oo] = False
            if leaf == 'running_mean':
                ctx.check(bool((v[new] == 0).all()), 'stats', name)
            elif leaf == 'running_var':
                ctx.check(bool((v[new] == 1).all()), 'stats', name)
            elif zero:
                ctx.check(bool((v[new] == 0).all()), 'zeroed',
                          lambda: f'{name}.{leaf}: new values are not 0')
            elif leaf == 'weight' and kind != 'BatchNorm2d' and \
                    int(new.sum()) > 8:
                ctx.check(float(v[new].std()) > 1e-4, 'fresh',
                          lambda: f'{name}: new weights all alike')
    return True


def old_only(spec, net, flags, x):
    """What the widened net computes from its old channels alone."""
    env = {-1: x}
    mods = net.body._modules

    def mask(y, f):
        m = 1 - torch.tensor(f, dtype=y.dtype)
        return y * m.view(1, -1, *[1] * (y.dim() - 2))

    for n in spec['nodes']:
        xs = [env[i] for i in n['ins']]
        f = flags[n['id']]
        if n['op'] == 'convmodule':
            m = mods[n['mod']]
            y = mask(m.conv(xs[0]), f)
            if n['args']['bn']:
                y = m.bn(y)
            if n['args']['act']:
                y = m.activate(y)
        else:
            y = net.run_node(n, xs, mods)
        env[n['id']] = mask(y, f)
    return tuple(env[o] for o in spec['outs'])


def judge_function(ctx, net, spec, flags, y0, x, zero):
    with ctx.sut('the widened network'):
        y1 = prune.tup(net(x))
    if zero:
        ctx.event('zero')
        ctx.check(all(prune.close(a, b) for a, b in zip(y1, y0)), 'outputs',
                  lambda: f'widening by zeros changed the outputs by '
                  f'{max(float((a - b).abs().max()) for a, b in zip(y1, y0))}'
                  f', {describe(spec)}')
        return
    ctx.event('fresh')
    ref = old_only(spec, net, flags, x)
    ctx.check(all(prune.close(a, b) for a, b in zip(ref, y0)), 'old_part',
              lambda: f'the old part computes something else, '
              f'{describe(spec)}')


def expandable(ctx, net, x, y0):
    from mmrazor.models.utils.expandable_utils import to_expandable_model
    modes = {n: m.training for n, m in net.named_modules()}
    state = {k: v.clone() for k, v in net.state_dict().items()}
    with ctx.sut('to_expandable_model'):
        mut = to_expandable_model(net)
    now = net.state_dict()
    ctx.check(all(k in now and torch.equal(now[k], v)
                  for k, v in state.items()), 'expandable_state',
              'values changed by the conversion')
    bad = [n for n, m in net.named_modules() if n in modes
           and m.training != modes[n] and isinstance(m, nn.BatchNorm2d)]
    ctx.check(not bad, 'expandable_mode', lambda: f'the mode of {bad} changed')
    if not net.training:
        with ctx.sut('the expandable network'):
            y = prune.tup(net(x))
        ctx.check(all(prune.close(a, b) for a, b in zip(y, y0)),
                  'expandable', 'the conversion changed the outputs')
    return mut


def setup(ctx):
    rng = ctx.rng
    spec, net = plain(ctx)
    x = torch.randn(2, 3, net.hw, net.hw)
    for m in net.modules():
        if isinstance(m, nn.BatchNorm2d):
            m.num_batches_tracked.fill_(rng.randint(0, 9))
            if rng.random() < .2:
                m.momentum, m.eps = rng.choice([None, .3]), 1e-3
    net.eval()
    y0 = prune.tup(net(x))
    if rng.random() < .3:
        net.train()
        ctx.event('train')
    else:
        ctx.event('eval')
    return spec, net, x, y0


def sec_expand(ctx):
    """Units widened by hand."""
    from mmrazor.models.utils.expandable_utils import (
        expand_expandable_dynamic_model, expand_static_model)
    rng = ctx.rng
    spec, net, x, y0 = setup(ctx)
    before = snapshot(net)
    zero = rng.random() < .6
    static = rng.random() < .4
    twin = copy.deepcopy(net)
    mut = expandable(ctx, net, x, y0)
    units = {u.name: u for u in mut.mutable_units}
    widths = {n: u.num_channels for n, u in units.items()}
    more = {n: rng.randint(1, 5) for n in units if rng.random() < .6}
    flags, of = layout(spec, mut, more)
    if static:
        net = twin
        with ctx.sut('expand_static_model'):
            out = expand_static_model(
                net, {n: widths[n] + k for n, k in more.items()}, zero)
    else:
        for n, k in more.items():
            u = units[n]
            with ctx.sut('widening a unit'):
                if k > 1 and rng.random() < .4:
                    u.expand(1)
                    u.expand(k - 1)
                elif rng.random() < .5:
                    u.expand(k)
                else:
                    u.expand_to(widths[n] + k)
        if not net.training and zero:
            pass
        with ctx.sut('expand_expandable_dynamic_model'):
            out = expand_expandable_dynamic_model(net, zero=zero)
    ctx.check(out is net, 'inplace', 'another model was returned')
    ctx.event('widened')
    if not judge_layers(ctx, net, before, of, zero, spec):
        return
    net.eval()
    judge_function(ctx, net, spec, flags, y0, x, zero)
    ctx.key(f'{sorted(more.values())}{zero}{static}')
    # the widened model can be widened again
    if rng.random() < .5:
        y1 = prune.tup(net(x))
        with ctx.sut('to_expandable_model'):
            again = expandable(ctx, net, x, y1)
        got = sorted(u.num_channels for u in again.mutable_units)
        want = sorted(w + more.get(n, 0) for n, w in widths.items())
        ctx.check(got == want, 'again', lambda: f'units of {got} channels, '
                  f'{want} expected')
        for u in again.mutable_units:
            u.expand(2)
        with ctx.sut('widening again'):
            expand_expandable_dynamic_model(net, zero=True)
            y2 = prune.tup(net(x))
        ctx.check(all(prune.close(a, b) for a, b in zip(y2, y1)), 'again',
                  'widening by zeros again changed the outputs')
        ctx.event('again')


def sec_divisible(ctx):
    """All widths made divisible."""
    from mmrazor.models.utils.expandable_utils import make_channel_divisible
    rng = ctx.rng
    spec, net, x, y0 = setup(ctx)
    before = snapshot(net)
    probe = copy.deepcopy(net)
    mut = expandable(ctx, probe, x, y0)
    div = rng.choice([2, 3, 4, 5, 8])
    widths = {u.name: u.num_channels for u in mut.mutable_units}
    more = {n: -w % div for n, w in widths.items()}
    flags, of = layout(spec, mut, more)
    zero = rng.random() < .6
    with ctx.sut('make_channel_divisible'):
        s = make_channel_divisible(net, div, zero_weight=zero)
    ctx.event('divisible')
    ctx.check(sorted(s.values()) == sorted(w + more[n]
                                           for n, w in widths.items()),
              'structure', lambda: f'{s} after dividing {widths} by {div}')
    if not judge_layers(ctx, net, before, of, zero, spec):
        return
    net.eval()
    judge_function(ctx, net, spec, flags, y0, x, zero)
    state = {k: v.clone() for k, v in net.state_dict().items()}
    with ctx.sut('make_channel_divisible'):
        s2 = make_channel_divisible(net, div, zero_weight=zero)
    now = net.state_dict()
    ctx.check(s2 == s and set(now) == set(state) and all(
        torch.equal(now[k], state[k]) for k in state), 'idempotent',
        'a divisible model was changed')
    ctx.key(f'{div}{sorted(widths.values())}')


def sec_refuse(ctx):
    """What cannot be widened is refused, not built wrongly."""
    from mmrazor.models.utils.expandable_utils import (
        expand_expandable_dynamic_model, to_expandable_model)
    rng = ctx.rng
    g = 2
    a, b = g * rng.randint(2, 4), g * rng.randint(2, 3)
    net = nn.Sequential(nn.Conv2d(3, a, 3), nn.Conv2d(a, b, 3, groups=g),
                        nn.ReLU(), nn.Conv2d(b, 2, 1)).eval()
    with ctx.sut('to_expandable_model'):
        mut = to_expandable_model(net)
    units = list(mut.mutable_units)
    ctx.check(len(units) > 0, 'units', 'no units')
    for u in units:
        u.expand(rng.randint(1, 3))
    with ctx.rejects('widening grouped convolutions', NotImplementedError):
        expand_expandable_dynamic_model(net, zero=True)
    ctx.event('refused')
    root = nn.Sequential(nn.Conv2d(3, 4, 3), nn.Conv2d(4, 2, 1))
    to_expandable_model(root)
    with ctx.rejects('widening an operation itself', RuntimeError):
        expand_expandable_dynamic_model(root[0], zero=True)
    ctx.key(f'{a}{b}')


def sec_deploy(ctx):
    """GroupFisherDeploySubModel: pruned, loaded, then divisible."""
    from mmengine.model import BaseModel

    from mmrazor.implementations.pruning.group_fisher import \
        GroupFisherDeploySubModel
    rng = ctx.rng
    spec, inner = plain(ctx)

    class M(BaseModel):

        def __init__(self):
            super().__init__()
            self.net = inner

        def forward(self, inputs, data_samples=None, mode='tensor'):
            return self.net(inputs)

    model = M().eval()
    cfg = dict(type='ChannelAnalyzer', demo_input=(1, 3, inner.hw, inner.hw),
               tracer_type='FxTracer')
    mut = prune.make_mutator(inner)
    probe = copy.deepcopy(model)
    mut = prune.make_mutator(inner)
    mut.parse_cfg = cfg
    with ctx.sut('prepare'):
        mut.prepare_from_supernet(probe)
    choices = {u.name: rng.randint(1, u.num_channels)
               for u in mut.mutable_units}
    if not choices:
        ctx.skip('nothing to prune')
        return
    div = rng.choice([1, 2, 4])
    torch.manual_seed(0)
    with ctx.sut('GroupFisherDeploySubModel'):
        sub = GroupFisherDeploySubModel(model, dict(choices), div, cfg)
    # the reference: the mutator's own choice on the probe
    mut.set_choices(choices)
    probe.eval()
    x = torch.randn(2, 3, inner.hw, inner.hw)
    sub.eval()
    probe.load_state_dict(probe.state_dict())
    with ctx.sut('the sub model'):
        y = prune.tup(sub(x))
    sliced = all(p.numel() >= 1 for p in sub.parameters())
    ctx.check(sliced, 'empty', 'an empty layer')
    widths = {}
    for u in mut.mutable_units:
        for ch in u.output_related:
            widths.setdefault(ch.name, 0)
            r = ch.num_channels // u.num_channels
            widths[ch.name] += choices[u.name] * r
    for n, m in sub.named_modules():
        if n in widths and isinstance(m, (nn.Conv2d, nn.Linear)):
            ctx.check(m.weight.size(0) >= widths[n], 'width',
                      lambda: f'{n}: {m.weight.size(0)}, {widths[n]} chosen')
    # a checkpoint of the pruned model is loaded, then it is made divisible
    twin = copy.deepcopy(sub)
    with torch.no_grad():
        for p in twin.parameters():
            p.normal_()
    sub.load_state_dict(twin.state_dict())
    y = prune.tup(twin(x))
    ctx.check(hasattr(sub, 'post_process_for_mmdeploy') == (div != 1),
              'hook', 'the hook of mmdeploy')
    if div != 1:
        with ctx.sut('post_process_for_mmdeploy'):
            sub.post_process_for_mmdeploy()
            z = prune.tup(sub(x))
        ctx.check(all(prune.close(a, b) for a, b in zip(z, y)),
                  'deploy_outputs', lambda: f'divisor {div}: the divisible '
                  f'model computes something else, {describe(spec)}')
        fixed = Reference(spec)
        for n in spec['nodes']:
            if n['op'] not in ('conv', 'linear'):
                continue
            m = sub.get_submodule(f"net.body.{n['mod']}")
            name = f"body.{n['mod']}"
            if any(fixed.is_fixed(('o', name, j))
                   for j in range(n['args']['cout'])):
                continue
            ctx.check(m.weight.size(0) % div == 0, 'divisible',
                      lambda: f'{name}: {m.weight.size(0)} channels, '
                      f'divisor {div}, {describe(spec)}')
    ctx.event('submodel')
    ctx.key(f'{div}{sorted(choices.values())}')


SECTIONS = {
    'expand': (sec_expand, 110, 2400),
    'divisible': (sec_divisible, 60, 1300),
    'refuse': (sec_refuse, 14, 40),
    'deploy': (sec_deploy, 40, 800),
}
