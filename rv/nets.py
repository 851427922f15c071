"""Random convolutional networks with an independent channel-dependency model.

``rand_spec`` draws a network as a list of nodes, ``GraphNet`` is the ordinary
torch module of it, and ``Reference`` computes, from the spec alone, which
channels have to be kept or removed together, and what the network computes
when some of them are removed (the removed channels are zero everywhere).
"""
import torch
import torch.nn as nn
import torch.nn.functional as F
from mmcv.cnn import ConvModule

POINTWISE = ('relu', 'relu6', 'sigmoid', 'maxpool', 'avgpool', 'dropout',
             'frelu', 'scale2', 'up')


class GraphNet(nn.Module):
    """Interpreter of a spec. Traceable: control flow is on static data."""

    def __init__(self, spec):
        super().__init__()
        self.spec = spec
        self.hw = spec['hw']
        self.body = nn.Module()
        for n in spec['nodes']:
            m = self.make(n)
            if m is not None and not hasattr(self.body, n['mod']):
                setattr(self.body, n['mod'], m)

    @staticmethod
    def make(n):
        op, a = n['op'], n['args']
        if op == 'conv':
            k, p = (tuple(v) if isinstance(v, list) else v
                    for v in (a['k'], a['p']))
            return nn.Conv2d(a['cin'], a['cout'], k, a['s'], p, dilation=a['d'], groups=a['g'],
                             bias=a['b'])
        if op == 'convmodule':
            return ConvModule(a['cin'], a['cout'], a['k'], stride=a['s'],
                              padding=a['p'],
                              norm_cfg=dict(type='BN') if a['bn'] else None,
                              act_cfg=dict(type='ReLU') if a['act'] else None)
        if op == 'bn':
            return nn.BatchNorm2d(a['c'])
        if op == 'gn':
            return nn.GroupNorm(a['groups'], a['c'])
        if op == 'linear':
            return nn.Linear(a['cin'], a['cout'], bias=a['b'])
        if op == 'relu':
            return nn.ReLU()
        if op == 'relu6':
            return nn.ReLU6()
        if op == 'sigmoid':
            return nn.Sigmoid()
        if op == 'dropout':
            return nn.Dropout(0.5)
        if op == 'maxpool':
            return nn.MaxPool2d(a['k'], a['s'], a['k'] // 2)
        if op == 'avgpool':
            return nn.AvgPool2d(a['k'], a['s'], a['k'] // 2)
        if op == 'gap':
            return nn.AdaptiveAvgPool2d(a['o'])
        return None

    def run_node(self, n, xs, mods):
        op, a = n['op'], n['args']
        if n['mod'] is not None and n['mod'] in mods:
            return mods[n['mod']](*xs)
        if op == 'add':
            y = xs[0]
            for x in xs[1:]:
                y = y + x
            return y
        if op == 'tadd':
            return torch.add(xs[0], xs[1])
        if op == 'mul':
            return xs[0] * xs[1]
        if op == 'cat':
            return torch.cat(xs, dim=1)
        if op == 'frelu':
            return F.relu(xs[0])
        if op == 'scale2':
            return xs[0] * 0.5
        if op == 'up':
            return F.interpolate(xs[0], scale_factor=2, mode='nearest')
        if op == 'flatten':
            if a['how'] == 'flatten':
                return xs[0].flatten(1)
            if a['how'] == 'tflatten':
                return torch.flatten(xs[0], 1)
            return xs[0].reshape(xs[0].shape[0], -1)
        raise NotImplementedError(op)

    def forward(self, x):
        env = {-1: x}
        mods = self.body._modules
        for n in self.spec['nodes']:
            env[n['id']] = self.run_node(n, [env[i] for i in n['ins']], mods)
        outs = tuple(env[o] for o in self.spec['outs'])
        return outs[0] if len(outs) == 1 else outs


class Spec:
    """Builder of a random spec."""

    def __init__(self, rng, hw, cin=3):
        self.rng = rng
        self.nodes = []
        self.ch = {-1: cin}
        self.size = {-1: hw}
        self.hw = hw
        self.cin = cin
        self.feats = [-1]

    def add(self, op, ins, cout, size, args=None, mod='auto'):
        i = len(self.nodes)
        has_mod = op in ('conv', 'convmodule', 'bn', 'gn', 'linear', 'relu',
                         'relu6', 'sigmoid', 'dropout', 'maxpool', 'avgpool',
                         'gap')
        if mod == 'auto':
            mod = f'{op}{i}' if has_mod else None
        self.nodes.append(
            dict(id=i, op=op, ins=list(ins), mod=mod, args=args or {}))
        self.ch[i] = cout
        self.size[i] = size
        return i

    def conv(self, x, cout, k=3, s=1, d=1, g=1, b=None, mod='auto'):
        b = self.rng.random() < 0.5 if b is None else b
        p = d * (k // 2)
        size = (self.size[x] + 2 * p - d * (k - 1) - 1) // s + 1
        return self.add('conv', [x], cout, size,
                        dict(cin=self.ch[x], cout=cout, k=k, s=s, p=p, d=d,
                             g=g, b=b), mod=mod)

    def bn(self, x):
        return self.add('bn', [x], self.ch[x], self.size[x],
                        dict(c=self.ch[x]))

    def pw(self, op, x):
        size = self.size[x]
        a = {}
        if op in ('maxpool', 'avgpool'):
            s = self.rng.choice([1, 2]) if size >= 4 else 1
            a = dict(k=3, s=s)
            size = (size + 2 - 3) // s + 1
        if op == 'up':
            size *= 2
        return self.add(op, [x], self.ch[x], size, a)

    def finish(self, outs):
        return dict(nodes=self.nodes, outs=outs, hw=self.hw, cin=self.cin)


def stretch(rng, spec):
    """Some kernels are not square."""
    if rng.random() < .5:
        return spec
    for mod in sorted({n['mod'] for n in spec['nodes'] if n['op'] == 'conv'}):
        kernel, pad = rng.choice([((3, 1), (1, 0)), ((1, 3), (0, 1)),
                                  (3, 1), (3, 1)])
        for n in spec['nodes']:
            a = n['args']
            if n['mod'] == mod and a['k'] == 3 and a['p'] == 1 and \
                    a['d'] == 1:
                a['k'], a['p'] = kernel, pad
    return spec


def rand_spec(rng, tracer='fx', max_blocks=5, dets=False, group=True,
              expand=True, gn=False, multi=False, share=True, se=True,
              cats=None, hw=None, num_classes=4,
              chans=(2, 3, 4, 5, 6, 8)):
    """A random network. Every op is one the docs list as supported."""
    s = Spec(rng, hw or rng.choice([6, 8]))
    C = lambda: rng.choice(chans)  # noqa: E731
    x = s.conv(-1, C(), rng.choice([1, 3]), rng.choice([1, 2]))
    if rng.random() < 0.7:
        x = s.bn(x)
    side = []
    kinds = ['conv', 'conv', 'res', 'cat', 'dw', 'addcat', 'dense']
    if cats is False:
        kinds = ['conv', 'conv', 'res', 'dw']
    if group:
        kinds.append('group')
    if se:
        kinds += ['se', 'mul']
    if share:
        kinds.append('share')
    for _ in range(rng.randint(1, max_blocks)):
        kind = rng.choice(kinds)
        if kind == 'conv':
            if rng.random() < 0.3:
                c = C()
                k = rng.choice([1, 3])
                x = s.add('convmodule', [x], c, s.size[x],
                          dict(cin=s.ch[x], cout=c, k=k, s=1, p=k // 2,
                               bn=rng.random() < .7, act=rng.random() < .7))
            else:
                st = 2 if s.size[x] >= 6 and rng.random() < 0.3 else 1
                x = s.conv(x, C(), rng.choice([1, 3, 5]), st,
                           d=rng.choice([1, 1, 2]))
        elif kind == 'res':
            y = x
            for j in range(rng.randint(1, 3)):
                last = C()
                y = s.conv(y, last, rng.choice([1, 3]))
                if rng.random() < .6:
                    y = s.bn(y)
                if rng.random() < .5:
                    y = s.pw(rng.choice(['relu', 'relu6', 'frelu']), y)
            if s.ch[y] != s.ch[x]:
                if rng.random() < .5:
                    y = s.conv(y, s.ch[x], 1)
                else:
                    x = s.conv(x, s.ch[y], 1)
            x = s.add(rng.choice(['add', 'tadd']), [x, y] if
                      rng.random() < .5 else [y, x], s.ch[x], s.size[x])
        elif kind == 'cat':
            ys = [s.conv(x, C(), rng.choice([1, 3]))
                  for _ in range(rng.randint(1, 3))]
            ys = [s.bn(y) if rng.random() < .4 else y for y in ys]
            if rng.random() < .5:
                ys.insert(rng.randrange(len(ys) + 1), x)
            if len(ys) > 1:
                x = s.add('cat', ys, sum(s.ch[y] for y in ys), s.size[x])
            else:
                x = ys[0]
            if rng.random() < .5:
                x = s.bn(x)
        elif kind == 'dw':
            x = s.conv(x, s.ch[x], 3, 1, g=s.ch[x])
            if rng.random() < .5:
                x = s.bn(x)
            if rng.random() < .5:
                x = s.conv(x, C(), 1)
        elif kind == 'addcat':
            a, b, c = C(), C(), C()
            l1, l2 = s.conv(x, a, 1), s.conv(x, b + c, 3)
            r1, r2 = s.conv(x, a + b, 3), s.conv(x, c, 1)
            u = s.add('cat', [l1, l2], a + b + c, s.size[x])
            v = s.add('cat', [r1, r2], a + b + c, s.size[x])
            x = s.add('add', [u, v], a + b + c, s.size[x])
        elif kind == 'dense':
            for _ in range(2):
                y = s.conv(x, C(), 3)
                x = s.add('cat', [x, y], s.ch[x] + s.ch[y], s.size[x])
                if s.ch[x] > 24:
                    x = s.conv(x, C(), 1)
        elif kind == 'group':
            g = rng.choice([2, 3])
            x = s.conv(x, g * rng.choice([2, 3, 4]), 1)
            if rng.random() < .4:
                x = s.bn(x)
            x = s.conv(x, g * rng.choice([2, 3]), 3, g=g)
        elif kind == 'se':
            p = s.add('gap', [x], s.ch[x], 1, dict(o=1))
            p = s.conv(p, C(), 1)
            p = s.pw('relu', p)
            p = s.conv(p, s.ch[x], 1)
            p = s.pw('sigmoid', p)
            x = s.add('mul', [x, p], s.ch[x], s.size[x])
        elif kind == 'mul':
            y = s.conv(x, s.ch[x], rng.choice([1, 3]))
            x = s.add('mul', [x, y], s.ch[x], s.size[x])
        elif kind == 'share':
            c = C()
            if s.ch[x] != c:
                x = s.conv(x, c, 1)
            y = s.conv(x, c, 3)
            mod = s.nodes[-1]['mod']
            args = s.nodes[-1]['args']
            if rng.random() < .5:
                y = s.pw('relu', y)
            y2 = s.add('conv', [y], c, s.size[y], dict(args), mod=mod)
            x = y2
        if rng.random() < .4:
            ops = ['relu', 'relu6', 'maxpool', 'avgpool', 'dropout', 'frelu',
                   'scale2']
            if s.size[x] <= 4:
                ops.append('up')
            x = s.pw(rng.choice(ops), x)
        if gn and rng.random() < .3:
            x = s.conv(x, rng.choice([4, 6, 8]), 1)
            gs = [g for g in (1, 2, 3) if s.ch[x] % g == 0]
            x = s.add('gn', [x], s.ch[x], s.size[x],
                      dict(groups=rng.choice(gs), c=s.ch[x]))
        if s.ch[x] > 24:
            x = s.conv(x, C(), 1)
        if rng.random() < .3:
            side.append(x)
    # head
    outs = []
    o = rng.choice([1, 2]) if expand else 1
    if rng.random() < .85 or not multi:
        y = s.add('gap', [x], s.ch[x], o, dict(o=o))
        y = s.add('flatten', [y], s.ch[x] * o * o, 1, dict(
            how=rng.choice(['flatten', 'tflatten', 'reshape'])))
        s.size[y] = 1
        if rng.random() < .4:
            hid = C()
            y = s.add('linear', [y], hid, 1, dict(
                cin=s.ch[y], cout=hid, b=rng.random() < .7))
            y = s.add('relu', [y], hid, 1)
        y = s.add('linear', [y], num_classes, 1, dict(
            cin=s.ch[y], cout=num_classes, b=rng.random() < .7))
        outs.append(y)
    else:
        outs.append(s.conv(x, num_classes, 1))
    if multi and side:
        outs.append(s.conv(rng.choice(side), num_classes, 1))
    return stretch(rng, s.finish(outs))


def init_net(net, gen_seed=0):
    """Non-degenerate weights and batch-norm statistics."""
    g = torch.Generator().manual_seed(gen_seed)
    for m in net.modules():
        if isinstance(m, (nn.Conv2d, nn.Linear)):
            fan = m.weight[0].numel()
            m.weight.data = torch.randn(
                m.weight.shape, generator=g) / max(fan, 1)**.5
            if m.bias is not None:
                m.bias.data = torch.randn(m.bias.shape, generator=g) * .3
        elif isinstance(m, (nn.modules.batchnorm._BatchNorm, nn.GroupNorm)):
            n = m.weight.shape
            m.weight.data = torch.rand(n, generator=g) + .5
            m.bias.data = torch.randn(n, generator=g) * .3
            if getattr(m, 'running_mean', None) is not None:
                m.running_mean.copy_(torch.randn(n, generator=g) * .3)
                m.running_var.copy_(torch.rand(n, generator=g) + .5)
    return net


class UnionFind:

    def __init__(self):
        self.p = {}

    def find(self, x):
        self.p.setdefault(x, x)
        r = x
        while self.p[r] != r:
            r = self.p[r]
        while self.p[x] != r:
            self.p[x], x = r, self.p[x]
        return r

    def union(self, a, b):
        self.p[self.find(a)] = self.find(b)


class Reference:
    """Independent channel-dependency analysis of a spec, element by element.

    An element is ('o'|'i', module, channel).  Two elements are equivalent if
    their channels have to be removed together.
    """

    def __init__(self, spec):
        self.spec = spec
        uf = self.uf = UnionFind()
        self.out = {}  # node id -> list of elements
        FIXED = self.FIXED = ('fixed', )
        uf.find(FIXED)
        self.out[-1] = [('in', i) for i in range(spec['cin'])]
        for e in self.out[-1]:
            uf.union(e, FIXED)
        self.elements = set()
        self.sub = {}
        for n in spec['nodes']:
            ins = [self.out[i] for i in n['ins']]
            op, a = n['op'], n['args']
            name = f"body.{n['mod']}"
            if op == 'convmodule':
                o = self.conv(name + '.conv', ins[0], a['cin'], a['cout'], 1)
                if a['bn']:
                    o = self.norm(name + '.bn', o)
            elif op == 'conv':
                o = self.conv(name, ins[0], a['cin'], a['cout'], a['g'])
            elif op == 'linear':
                o = self.conv(name, ins[0], a['cin'], a['cout'], 1)
            elif op == 'bn':
                o = self.norm(name, ins[0])
            elif op == 'gn':
                o = self.norm(name, ins[0])
                for e in o:  # not a dynamic operator: nothing can be removed
                    uf.union(e, FIXED)
            elif op in ('add', 'tadd', 'mul'):
                for x in ins[1:]:
                    for p, q in zip(ins[0], x):
                        uf.union(p, q)
                o = ins[0]
            elif op == 'cat':
                o = [e for x in ins for e in x]
            elif op == 'flatten':
                c = len(ins[0])
                src = [m for m in spec['nodes'] if m['id'] == n['ins'][0]][0]
                r = src['args']['o']**2 if src['op'] == 'gap' else 1
                o = [e for e in ins[0] for _ in range(r)]
                assert len(o) == c * r
            else:
                o = ins[0]
            self.out[n['id']] = o
        for i in spec['outs']:
            for e in self.out[i]:
                uf.union(e, FIXED)

    def conv(self, name, x, cin, cout, g):
        uf = self.uf
        assert len(x) == cin, (name, len(x), cin)
        ie = [('i', name, j) for j in range(cin)]
        oe = [('o', name, j) for j in range(cout)]
        self.elements.update(ie + oe)
        for p, q in zip(ie, x):
            uf.union(p, q)
        for e in oe:
            uf.find(e)
        if g > 1:
            if cin == cout == g:
                for p, q in zip(ie, oe):
                    uf.union(p, q)
            else:
                for es in (ie, oe):
                    per = len(es) // g
                    for j, e in enumerate(es):
                        uf.union(e, es[j % per])
        return oe

    def norm(self, name, x):
        ie = [('i', name, j) for j in range(len(x))]
        oe = [('o', name, j) for j in range(len(x))]
        self.elements.update(ie + oe)
        for p, q, r in zip(ie, oe, x):
            self.uf.union(p, r)
            self.uf.union(q, r)
        return oe

    def is_fixed(self, e):
        return self.uf.find(e) == self.uf.find(self.FIXED)

    def classes(self):
        """class root -> frozenset of elements."""
        out = {}
        for e in self.elements:
            out.setdefault(self.uf.find(e), set()).add(e)
        return {r: frozenset(v) for r, v in out.items()}

    # what the network computes when classes are removed

    def masked_forward(self, net, x, keep):
        """keep(element) -> bool. Removed channels are zero everywhere."""

        def mask(y, elems):
            m = torch.tensor([float(keep(e)) for e in elems])
            return y * m.view(1, -1, *[1] * (y.dim() - 2))

        env = {-1: x}
        mods = net.body._modules
        for n in self.spec['nodes']:
            xs = [env[i] for i in n['ins']]
            if n['op'] == 'convmodule':
                m = mods[n['mod']]
                y = mask(m.conv(xs[0]), self.out[n['id']])
                if n['args']['bn']:
                    y = m.bn(y)
                if n['args']['act']:
                    y = m.activate(y)
            else:
                y = net.run_node(n, xs, mods)
            env[n['id']] = mask(y, self.out[n['id']])
        return tuple(env[o] for o in self.spec['outs'])


def describe(spec):
    """Readable one-line form of a spec."""
    out = []
    for n in spec['nodes']:
        a = n['args']
        t = f"{n['id']}={n['op']}({','.join(map(str, n['ins']))}"
        if 'cout' in a:
            t += f";{a['cin']}>{a['cout']}"
            if a.get('g', 1) > 1:
                t += f",g{a['g']}"
        out.append(t + ')' + (f"@{n['mod']}" if n['mod'] and not n[
            'mod'].endswith(str(n['id'])) else ''))
    return ' '.join(out) + f" -> {spec['outs']}"
