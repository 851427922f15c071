"""Layer-wise compression: calibration data, least squares references."""
import contextlib

import torch
import torch.nn as nn
import torch.nn.functional as F


@contextlib.contextmanager
def logged():
    """What the compressors print."""
    import mmrazor.implementations.pruning.sparse_gpt.compressor as a
    import mmrazor.implementations.quantization.gptq.compressor as b
    lines = []
    old = [(m, m.print_log) for m in (a, b)]
    for m, _ in old:
        m.print_log = lambda msg, *x, **k: lines.append(str(msg))
    try:
        yield lines
    finally:
        for m, f in old:
            m.print_log = f


def rand_layer(rng, mult=1, big=40):
    """(module, input maker); the number of columns is a multiple of mult."""
    if rng.random() < .5:
        cin = mult * rng.randint(1, max(1, big // mult))
        m = nn.Linear(cin, rng.randint(cin, cin + 12) if rng.random() < .8
                      else rng.randint(1, 20), bias=rng.random() < .5)
        shape = rng.choice(['2', '3'])

        def make(n):
            if shape == '2':
                return torch.randn(n * 4, cin)
            return torch.randn(n, 4, cin)
    else:
        k = rng.choice([1, 2, 3, (1, 3), (3, 2)])
        area = k * k if isinstance(k, int) else k[0] * k[1]
        g = rng.choice([1, 1, 1, 2])
        c = rng.randint(1, max(1, 36 // area))
        while c * area % mult:
            c += 1
        if rng.random() < .12:
            cin, g = 4 * rng.randint(1, 2), 0  # depth-wise
            if area % mult:
                g = 1
                while cin * area % mult:
                    cin += 1
        else:
            cin = c * g
        g = g or cin
        pad = rng.choice([0, 1, 2, (1, 0), 'same'])
        m = nn.Conv2d(
            cin, g * rng.randint(1, 10), k,
            stride=1 if pad == 'same' else rng.choice([1, 2, (1, 2)]),
            padding=pad, dilation=rng.choice([1, 1, 2]), groups=g,
            bias=rng.random() < .5)

        def make(n):
            return torch.randn(n, cin, 7, 6)
    return m, make


def columns(m, x):
    """Own im2col: (positions, columns) of one batch, and its batch size."""
    x = x.double()
    if isinstance(m, nn.Linear):
        return x.reshape(-1, x.shape[-1]), 1 if x.ndim == 2 else x.shape[0]
    w = m.weight
    K = w.shape[1] * w.shape[2] * w.shape[3]
    eye = torch.eye(K, dtype=x.dtype).reshape(K, *w.shape[1:])
    out = []
    for part in x.chunk(m.groups, 1):
        y = F.conv2d(part, eye, None, m.stride, m.padding, m.dilation)
        out.append(y.permute(0, 2, 3, 1).reshape(-1, K))
    return torch.cat(out), x.shape[0]


class Calibration:

    def __init__(self, rng, m, make, n=None):
        self.batches = []
        self.dead = rng.random() < .3
        cin = m.in_features if isinstance(m, nn.Linear) else m.in_channels
        mix = None
        zero = torch.tensor([rng.random() < .2 for _ in range(cin)])
        for _ in range(n or rng.randint(1, 4)):
            x = make(rng.randint(1, 5))
            if isinstance(m, nn.Linear):
                if mix is None:
                    mix = torch.eye(cin) + .3 * torch.randn(cin, cin)
                x = x @ mix
                if self.dead:
                    x = x.masked_fill(zero, 0)
            elif self.dead:
                x = x * (~zero).float()[:, None, None]
            self.batches.append(x)

    def hessian(self, m):
        H, n = 0, 0
        for x in self.batches:
            X, b = columns(m, x)
            H = H + 2 * X.T @ X
            n += b
        return H / n


def moment(ctx, got, H):
    d = (got.double() - H).abs().max()
    ctx.check(tuple(got.shape) == tuple(H.shape) and
              float(d) <= 1e-3 * float(H.abs().max()) + 1e-6, 'moment',
              'what was collected is not the second moment of the inputs: '
              f'off by {float(d):.3g} of {float(H.abs().max()):.3g}')


def damped(H, percdamp):
    H = H.clone()
    dead = H.diagonal() == 0
    H[dead, dead] = 1
    H.diagonal().add_(percdamp * H.diagonal().mean())
    return H, dead


def inverses(H):
    """First row of the inverse of every trailing block."""
    return [torch.linalg.inv(H[i:, i:])[0] for i in range(len(H))]
