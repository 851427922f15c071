"""Random supernets for neural architecture search, from a small spec.

``rand_spec`` draws a spec (plain data); ``NasNet(spec)`` builds the network
from mmrazor's searchable building blocks.  Two nets built from one spec have
the same structure.
"""
import copy

import torch
import torch.nn as nn

W = 8  # width of the trunk
HW = 8


def register_ops():
    from mmrazor.registry import MODELS
    if 'RVConv' in MODELS.module_dict:
        return

    class RVConv(nn.Module):

        def __init__(self, k=3, c=W, groups=1, bn=True):
            super().__init__()
            self.conv = nn.Conv2d(c, c, k, padding=k // 2, groups=groups)
            self.bn = nn.BatchNorm2d(c) if bn else nn.Identity()

        def forward(self, x):
            return torch.relu(self.bn(self.conv(x)))

    class RVPool(nn.Module):

        def __init__(self, k=3, avg=False):
            super().__init__()
            self.pool = (nn.AvgPool2d if avg else nn.MaxPool2d)(
                k, 1, k // 2)

        def forward(self, x):
            return self.pool(x)

    class RVId(nn.Module):

        def forward(self, x):
            return x

    for c in (RVConv, RVPool, RVId):
        MODELS.register_module(name=c.__name__, module=c)


CANDS = {
    'conv3': dict(type='RVConv', k=3),
    'conv1': dict(type='RVConv', k=1),
    'conv5g': dict(type='RVConv', k=5, groups=4),
    'dw': dict(type='RVConv', k=3, groups=W),
    'conv3b': dict(type='RVConv', k=3, bn=False),
    'max': dict(type='RVPool', k=3),
    'avg': dict(type='RVPool', k=3, avg=True),
    'id': dict(type='RVId'),
}


def _cands(rng, least=2):
    names = rng.sample(sorted(CANDS), rng.randint(least, 4))
    return names


ONESHOT = ['op', 'prob', 'depth', 'kernel', 'chan', 'expand', 'nested']
DIFF = ['diff', 'onehot', 'route', 'gumbel', 'routediff']


def rand_spec(rng, kinds=None, nblocks=None, alias_rate=.35):
    kinds = kinds or ONESHOT
    blocks, shared = [], {}
    for i in range(nblocks or rng.randint(2, 5)):
        kind = rng.choice(kinds)
        b = dict(kind=kind)
        if kind in ('op', 'prob', 'diff', 'onehot'):
            b['cands'] = _cands(rng)
            b['module'] = kind == 'op' and rng.random() < .4
        elif kind == 'depth':
            n = rng.randint(2, 4)
            b['n'] = n
            b['values'] = sorted(
                rng.sample(range(1, n + 1), rng.randint(1, n)))
            b['dynamic'] = rng.random() < .5
            b['own'] = rng.choice(['last', 'first', 'child', 'mid'])
        elif kind == 'kernel':
            b['ks'] = sorted(rng.sample([1, 3, 5, 7], rng.randint(1, 3)))
            b['groups'] = rng.choice([1, 1, W])
            b['ofa'] = rng.random() < .5
        elif kind == 'chan':
            c = rng.randint(4, 12)
            b['c'] = c
            b['ratio'] = rng.random() < .3
            b['choices'] = sorted(
                {c} | set(rng.sample(range(1, c + 1), rng.randint(1, 3))))
        elif kind == 'expand':
            b['ratios'] = sorted(rng.sample([1, 2, 3, 4], rng.randint(1, 3)))
        elif kind == 'nested':
            b['cands'] = _cands(rng)
            b['ks'] = sorted(rng.sample([1, 3, 5], rng.randint(2, 3)))
        elif kind in ('route', 'gumbel', 'routediff'):
            b['edges'] = rng.randint(2, 4)
            b['cands'] = [_cands(rng) for _ in range(b['edges'])]
            b['num_chosen'] = rng.randint(1, 2)
        b['alias'] = None
        if rng.random() < alias_rate:
            # blocks of one alias have one search space
            # (a channel element is a group of its own: unique aliases)
            if kind in shared and kind != 'chan' and rng.random() < .7:
                b = copy.deepcopy(shared[kind])
            else:
                b['alias'] = f'a_{kind}_{i}'
                shared[kind] = copy.deepcopy(b)
        # derived mutables: their several sources carry an alias
        if kind in ('expand', ) and b['alias'] is None:
            b['alias'] = f'x_{i}'
        blocks.append(b)
    return dict(blocks=blocks)


class Chan(nn.Module):

    def __init__(self, b):
        super().__init__()
        from mmrazor.models.architectures.dynamic_ops import (
            DynamicBatchNorm2d, DynamicConv2d)
        from mmrazor.models.mutables import (MutableChannelContainer,
                                             OneShotMutableChannel)
        c = b['c']
        self.c1, self.c2 = DynamicConv2d(W, c, 3, padding=1), DynamicConv2d(
            c, W, 1)
        self.bn = DynamicBatchNorm2d(c)
        if b['ratio']:
            m = OneShotMutableChannel(
                c, [k / c for k in b['choices']], choice_mode='ratio')
        else:
            m = OneShotMutableChannel(c, list(b['choices']))
        if b['alias']:
            m.alias = b['alias']
        self.m = m
        attach(self.c1, W, c)
        attach(self.c2, c, W)
        attach(self.bn, c, c)
        reg = MutableChannelContainer.register_mutable_channel_to_module
        reg(self.c1, m, True)
        reg(self.bn, m, False)
        reg(self.c2, m, False)

    def forward(self, x):
        return self.c2(torch.relu(self.bn(self.c1(x))))


def attach(op, cin, cout):
    from mmrazor.models.mutables import MutableChannelContainer
    op.register_mutable_attr('in_channels', MutableChannelContainer(cin))
    if op.get_mutable_attr('out_channels') is None:
        op.register_mutable_attr('out_channels', MutableChannelContainer(cout))


class Expand(nn.Module):
    """Inverted bottleneck: hidden width = ratio * width."""

    def __init__(self, b):
        super().__init__()
        from mmrazor.models.architectures.dynamic_ops import (
            DynamicBatchNorm2d, DynamicConv2d)
        from mmrazor.models.mutables import (MutableChannelContainer,
                                             OneShotMutableChannel,
                                             OneShotMutableValue)
        r = max(b['ratios'])
        base = OneShotMutableChannel(W, [W], alias=b['alias'] + '_w')
        ratio = OneShotMutableValue(list(b['ratios']), alias=b['alias'])
        self.hidden = ratio * base
        n = W * r
        self.c1 = DynamicConv2d(W, n, 1)
        self.bn = DynamicBatchNorm2d(n)
        self.dw = DynamicConv2d(n, n, 3, padding=1, groups=n)
        self.c2 = DynamicConv2d(n, W, 1)
        attach(self.c1, W, n)
        attach(self.bn, n, n)
        attach(self.dw, n, n)
        attach(self.c2, n, W)
        reg = MutableChannelContainer.register_mutable_channel_to_module
        reg(self.c1, self.hidden, True)
        reg(self.bn, self.hidden, False)
        reg(self.dw, self.hidden, False)
        reg(self.dw, self.hidden, True)
        reg(self.c2, self.hidden, False)

    def forward(self, x):
        return self.c2(self.dw(torch.relu(self.bn(self.c1(x)))))


class Route(nn.Module):

    def __init__(self, b):
        super().__init__()
        from mmrazor.models.mutables import DiffChoiceRoute, DiffMutableOP
        from mmrazor.models.mutables.mutable_module.diff_mutable_module \
            import GumbelChoiceRoute
        from mmrazor.registry import MODELS
        edges = nn.ModuleDict()
        for i, cs in enumerate(b['cands']):
            if b['kind'] == 'routediff':
                edges[f'e{i}'] = DiffMutableOP(
                    {c: dict(CANDS[c]) for c in cs},
                    alias=None if not b['alias'] else f'{b["alias"]}_e{i}')
            else:
                edges[f'e{i}'] = MODELS.build(dict(CANDS[cs[0]]))
        if b['kind'] == 'gumbel':
            self.route = GumbelChoiceRoute(
                edges, tau=1.0, hard=True, with_arch_param=True,
                alias=b['alias'])
        else:
            self.route = DiffChoiceRoute(
                edges, num_chosen=min(b['num_chosen'], len(edges)),
                with_arch_param=b['kind'] == 'route', alias=b['alias'])
        self.n = len(edges)

    def forward(self, x):
        # the inputs differ per edge: a mix-up of edges is visible
        xs = [x * (1 + .25 * i) - .1 * i for i in range(self.n)]
        return self.route(xs)


def make_block(b):
    from mmrazor.models.architectures.dynamic_ops import (BigNasConv2d,
                                                          DynamicConv2d,
                                                          DynamicSequential,
                                                          OFAConv2d)
    from mmrazor.models.mutables import (DiffMutableOP, OneHotMutableOP,
                                         OneShotMutableOP,
                                         OneShotMutableValue)
    from mmrazor.models.mutables.mutable_module.one_shot_mutable_module \
        import OneShotProbMutableOP
    from mmrazor.registry import MODELS
    k = b['kind']
    if k in ('op', 'prob', 'diff', 'onehot'):
        cands = {c: dict(CANDS[c]) for c in b['cands']}
        if k == 'op':
            if b['module']:
                cands = nn.ModuleDict(
                    {c: MODELS.build(v) for c, v in cands.items()})
            return OneShotMutableOP(cands, alias=b['alias'])
        if k == 'prob':
            n = len(cands)
            p = [2.**-(i + 1) for i in range(n)]
            p[-1] *= 2
            return OneShotProbMutableOP(
                cands, choice_probs=p, alias=b['alias'])
        cls = DiffMutableOP if k == 'diff' else OneHotMutableOP
        return cls(cands, alias=b['alias'])
    if k == 'depth':
        mods = []
        for i in range(b['n']):
            if b['dynamic']:
                c = DynamicConv2d(W, W, 3, padding=1)
                mods.append(c)
            else:
                mods.append(MODELS.build(dict(CANDS['conv3'])))
        depth = OneShotMutableValue(list(b['values']), alias=b['alias'])
        own = b.get('own', 'last')
        # the searchable element may itself be a child, at any place
        if own == 'child':
            s = DynamicSequential(depth, *mods)
        elif own == 'mid':
            s = DynamicSequential(mods[0], depth, *mods[1:])
        elif own == 'first':
            s = DynamicSequential()
            for i, q in enumerate(mods):
                s.add_module(f'layer{i}', q)
        else:
            s = DynamicSequential(*mods)
        s.register_mutable_attr('depth', depth)
        return s
    if k == 'kernel':
        m = max(b['ks'])
        cls = OFAConv2d if b['ofa'] else BigNasConv2d
        c = cls(W, W, m, padding=m // 2, groups=b['groups'])
        c.register_mutable_attr(
            'kernel_size', OneShotMutableValue(list(b['ks']),
                                               alias=b['alias']))
        return c
    if k == 'chan':
        return Chan(b)
    if k == 'expand':
        return Expand(b)
    if k == 'nested':
        m = max(b['ks'])
        c = BigNasConv2d(W, W, m, padding=m // 2)
        c.register_mutable_attr('kernel_size',
                                OneShotMutableValue(list(b['ks'])))
        d = nn.ModuleDict(
            {n: MODELS.build(dict(CANDS[n])) for n in b['cands']})
        d['inner'] = nn.Sequential(c, nn.BatchNorm2d(W))
        return OneShotMutableOP(d, alias=b['alias'])
    if k in ('route', 'gumbel', 'routediff'):
        return Route(b)
    raise KeyError(k)


class NasNet(nn.Module):

    def __init__(self, spec):
        super().__init__()
        register_ops()
        self.spec = spec
        self.head_stem = nn.Conv2d(3, W, 3, padding=1)
        self.blocks = nn.ModuleList([make_block(b) for b in spec['blocks']])
        self.tail = nn.Linear(W, 5)
        if any(b['kind'] in ('chan', 'expand') for b in spec['blocks']):
            # as the searchable backbones do
            from mmrazor.models.mutables import (MutableChannelContainer,
                                                 OneShotMutableChannelUnit)
            OneShotMutableChannelUnit._register_channel_container(
                self, MutableChannelContainer)

    def features(self, x):
        outs = []
        x = self.head_stem(x)
        for b in self.blocks:
            x = b(x) * .5 + x * .5
            outs.append(x)
        return outs

    def forward(self, x, *a, **k):
        x = self.features(x)[-1]
        return self.tail(x.mean((2, 3)))


def build(spec, seed):
    torch.manual_seed(seed)
    net = NasNet(spec)
    g = torch.Generator().manual_seed(seed)
    for m in net.modules():
        if isinstance(m, nn.modules.batchnorm._BatchNorm):
            m.running_mean.normal_(0, .3, generator=g)
            m.running_var.uniform_(.5, 1.5, generator=g)
            m.weight.data.uniform_(.5, 1.5, generator=g)
            m.bias.data.normal_(0, .3, generator=g)
    return net.eval()


def describe(spec):
    return ' '.join(
        b['kind'] + ('' if not b['alias'] else f'@{b["alias"]}') +
        str({k: v
             for k, v in b.items() if k not in ('kind', 'alias')})
        for b in spec['blocks'])
