"""Models for quantization: traceable bodies, heads in plain python."""
import torch
import torch.nn as nn
from mmengine.model import BaseModel


class Block(nn.Module):

    def __init__(self, kind, cin, cout, k=3):
        super().__init__()
        self.kind = kind
        self.conv = nn.Conv2d(cin, cout, k, padding=k // 2,
                              groups=cin if kind == 'dw' else 1,
                              bias=kind in ('plain', 'twice'))
        self.bn = nn.BatchNorm2d(cout)
        self.act = nn.ReLU()
        if kind == 'res':
            self.down = nn.Conv2d(cin, cout, 1)

    def forward(self, x):
        y = self.conv(x) if self.kind == 'plain' else self.bn(self.conv(x))
        if self.kind == 'twice':
            y = self.bn(self.act(y))
        if self.kind == 'res':
            y = y + self.down(x)
        if self.kind == 'cat':
            return torch.cat([self.act(y), x], 1)
        return self.act(y)

    def width(self, cin, cout):
        return cin + cout if self.kind == 'cat' else cout


class HeadA(nn.Module):
    """One level or more, the same layers for each."""

    def __init__(self, cin, n, levels, shared):
        super().__init__()
        self.fc = nn.Linear(cin, n)
        self.tower = nn.ModuleList(
            [nn.Linear(n, n) for _ in range(1 if shared else levels)])
        self.levels = levels
        self.scale = nn.Parameter(torch.ones(1))

    def forward(self, feats):
        return [self.tower[i % len(self.tower)](self.fc(f)).sigmoid()
                for i, f in enumerate(feats)]

    def loss(self, feats, data_samples):
        return self._score(self(feats), data_samples)

    def predict(self, feats, data_samples=None):
        return self._choose(self(feats), data_samples)

    def _score(self, outs, data_samples):
        total = 0
        for o in outs:  # not to be traced
            if float(o.detach().abs().mean()) > .1:
                total = total + (o * self.scale).pow(2).mean()
            else:
                total = total + o.abs().mean()
        if data_samples is not None and len(data_samples) > 1:
            total = total * 2
        return dict(loss=total)

    def _choose(self, outs, data_samples):
        best = max(range(len(outs)), key=lambda i: float(outs[i].sum()))
        return outs[best] * self.scale if data_samples is None else \
            outs[best] * self.scale + len(data_samples)


class HeadB(nn.Module):
    """The same names, another class."""

    def __init__(self, cin, n, levels, shared):
        super().__init__()
        self.fc = nn.Linear(cin, n)
        self.norm = nn.LayerNorm(n)

    def forward(self, feats):
        return [self.norm(self.fc(feats[-1]))]

    def loss(self, feats, data_samples):
        return self._score(self(feats), data_samples)

    def predict(self, feats, data_samples=None):
        return self._choose(self(feats), data_samples)

    def _score(self, outs, data_samples):
        o = outs[0]
        if float(o.detach().max()) > float(o.detach().mean()) * 1.5:
            return dict(loss=o.max() - o.mean())
        return dict(loss=o.mean())

    def _choose(self, outs, data_samples):
        o = outs[0]
        return o if float(o.detach().sum()) > 0 else -o


class Wrap(nn.Module):
    """A head below the top level."""

    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def forward(self, feats):
        return self.inner(feats)

    def loss(self, feats, data_samples):
        return self.inner.loss(feats, data_samples)

    def predict(self, feats, data_samples=None):
        return self.inner.predict(feats, data_samples)


class Net(BaseModel):

    def __init__(self, spec, data_preprocessor=None):
        super().__init__(data_preprocessor=data_preprocessor)
        self.blocks = nn.ModuleList()
        c = 3
        for kind, w in spec['blocks']:
            if kind == 'dw':
                w = c
            b = Block(kind, c, w)
            self.blocks.append(b)
            c = b.width(c, w)
        if spec['reuse']:
            self.again = Block('res', c, c)
        self.pool = nn.AdaptiveAvgPool2d(1)
        self.heads = nn.ModuleList()
        for cls, levels, shared, deep in spec['heads']:
            h = dict(A=HeadA, B=HeadB)[cls](c, spec['n'], levels, shared)
            for _ in range(deep):
                h = Wrap(h)
            self.heads.append(h)
        self.spec = spec
        self.levels = max(h[1] for h in spec['heads'])

    def feats(self, x):
        for b in self.blocks:
            x = b(x)
        out = []
        for _ in range(self.levels):
            if self.spec['reuse']:
                x = self.again(x)
            out.append(torch.flatten(self.pool(x), 1))
        return out

    def forward(self, inputs, data_samples=None, mode='tensor'):
        feats = self.feats(inputs)
        outs = []
        for (_, levels, _, _), h in zip(self.spec['heads'], self.heads):
            f = feats[:levels]
            if mode == 'tensor':
                outs.append(h(f))
            elif mode == 'loss':
                outs.append(h.loss(f, data_samples))
            else:
                outs.append(h.predict(f, data_samples))
        if mode == 'loss' and len(outs) > 1:
            return tuple(outs)
        return outs[0] if len(outs) == 1 else tuple(outs)


def spec(rng):
    heads = [(rng.choice('AB'), rng.randint(1, 3), rng.random() < .5,
              rng.choice([0, 0, 1, 2])) for _ in range(rng.choice([1, 1, 2]))]
    return dict(
        blocks=[(rng.choice(['plain', 'bn', 'bn', 'res', 'cat', 'dw',
                             'twice']), rng.choice([2, 4, 5]))
                for _ in range(rng.randint(1, 3))],
        reuse=rng.random() < .4, n=rng.choice([2, 3, 5]), heads=heads)


SKIPPED = [f'rv.qtoy.{c}.{m}' for c in ('HeadA', 'HeadB')
           for m in ('_score', '_choose')]


def flatten(out):
    if isinstance(out, torch.Tensor):
        return [out]
    if isinstance(out, dict):
        return [t for k in sorted(out) for t in flatten(out[k])]
    return [t for o in out for t in flatten(o)]
