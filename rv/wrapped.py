"""Networks whose functions and methods depend on data: not traceable."""
import torch
import torch.nn as nn


def branchy(x):
    if x.max() > 1e9:
        x = x * 0
    return torch.relu(x)


def looped(x, k=1):
    for _ in range(int(x.abs().max() > 1e9) + k):
        x = x * .5
    return x


def joined(x, y):
    if x.sum() > 1e9 and y.sum() > 1e9:
        return x
    return x + 2 * y


def plain(x):
    """Traceable: seen through."""
    return torch.tanh(x)


class Block(nn.Module):

    def __init__(self, cin, cout):
        super().__init__()
        self.conv = nn.Conv2d(cin, cout, 3, padding=1)
        self.bn = nn.BatchNorm2d(cout)

    def dyn(self, x):
        if float(x.mean()) > 1e9:
            return x * 0
        return x - .1

    def forward(self, x):
        return self.bn(self.conv(x))


class Dyn(Block):

    def forward(self, x):
        return self.dyn(self.bn(self.conv(x)))


class Net(nn.Module):
    """ops: list of (kind, inputs); the values are numbered from 0 (input)."""
    hw = 8

    def __init__(self, ops, width):
        super().__init__()
        self.ops = ops
        self.first = nn.Conv2d(3, width, 3, padding=1)
        for i, (kind, src) in enumerate(ops):
            if kind in ('block', 'dyn'):
                setattr(self, f'm{i}', (Dyn if kind == 'dyn' else Block)(
                    width, width))
        self.last = nn.Conv2d(width, 5, 1)

    def forward(self, x):
        vals = [self.first(x)]
        for i, (kind, src) in enumerate(self.ops):
            a = [vals[s] for s in src]
            if kind in ('block', 'dyn'):
                vals.append(getattr(self, f'm{i}')(*a))
            elif kind == 'branchy':
                vals.append(branchy(*a))
            elif kind == 'looped':
                vals.append(looped(*a, k=2))
            elif kind == 'joined':
                vals.append(joined(*a))
            elif kind == 'plain':
                vals.append(plain(*a))
            elif kind == 'fails':
                raise KeyError('by the user')
            else:
                vals.append(a[0] + a[1])
        return self.last(vals[-1])
