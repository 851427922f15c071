"""Networks for distillation, importable so that recorders and deliveries can
name their functions and methods."""
import torch
import torch.nn as nn

TRACE = []  # (kind, who, payload): the truth about what happened
TRACING = [None]  # name of the network whose forward runs
FEED = []  # delivered values of a reference run


def noise(x):
    """A random function that both networks use."""
    if FEED:
        return FEED.pop(0)
    out = torch.randn(x.shape[0], 1, 1, 1)
    TRACE.append(('noise', TRACING[0], out))
    return out


class Aug:

    def __call__(self, x):
        if FEED:
            return FEED.pop(0)
        out = torch.rand(x.shape[0], 1, 1, 1) + .5
        TRACE.append(('aug', TRACING[0], out))
        return out


def register():
    from mmcv.cnn import ConvModule
    from mmengine.model import BaseModel

    from mmrazor.registry import MODELS
    if MODELS.get('RvNet') is not None:
        return MODELS.get('RvNet')

    @MODELS.register_module()
    class RvNet(BaseModel):
        """spec: list of ('cm'|'conv'|'bn'|'two'|'drop', width, times)"""

        def __init__(self, who, spec, noisy=(), seed=0, init_cfg=None,
                     data_preprocessor=None):
            super().__init__(data_preprocessor, init_cfg=init_cfg)
            torch.manual_seed(seed)
            self.who, self.spec, self.noisy = who, spec, noisy
            self.aug = Aug()
            self.blocks = nn.ModuleList()
            c = 3
            for kind, w, times in spec:
                if kind == 'cm':
                    m = ConvModule(c, w, 1, norm_cfg=dict(type='BN'))
                    c = w
                elif kind == 'same':
                    m = nn.Sequential(nn.Conv2d(c, c, 3, padding=1),
                                      nn.ReLU(inplace=True))
                elif kind == 'bn':
                    m = nn.BatchNorm2d(c)
                elif kind == 'drop':
                    m = nn.Dropout(.3)
                else:
                    m = Two(c)
                self.blocks.append(m)
            self.head = nn.Linear(c, 4)
            for m in self.modules():
                if isinstance(m, nn.BatchNorm2d):
                    m.weight.data.uniform_(.5, 1.5)
                    m.bias.data.normal_(0, .5)
                    m.running_mean.normal_(0, .1)
                    m.running_var.uniform_(.5, 1.5)

        def extract_feat(self, x):
            if 'noise' in self.noisy:
                x = x + noise(x)
            if 'aug' in self.noisy:
                x = x * self.aug(x)
            for (kind, _, times), m in zip(self.spec, self.blocks):
                for _ in range(times):
                    x = m(x)
                    if isinstance(x, tuple):
                        x = x[0] + .5 * x[1]
                    if kind == 'same':
                        x = x * .9
            return x

        def pool(self, x):
            out = x.mean((2, 3))
            TRACE.append(('pool', self.who, out))
            return out

        def forward(self, inputs, data_samples=None, mode='tensor'):
            old, TRACING[0] = TRACING[0], self.who
            try:
                logit = self.head(self.pool(self.extract_feat(inputs)))
            finally:
                TRACING[0] = old
            if mode == 'loss':
                return dict(
                    loss_a=logit.square().mean(),
                    loss_b=[logit.abs().mean(), logit[:, 0].mean() * .1],
                    acc=logit.detach().argmax(1).float().mean())
            if mode == 'predict':
                return logit.argmax(1)
            return logit

    class Two(nn.Module):

        def __init__(self, c):
            super().__init__()
            self.a = nn.Conv2d(c, c, 1)

        def forward(self, x):
            y = self.a(x)
            return y, torch.tanh(y)

    @MODELS.register_module()
    class RvLoss(nn.Module):
        """Depends on every element of every argument, asymmetrically."""
        LOG = []

        def __init__(self, name, w=1., detach=()):
            super().__init__()
            self.name, self.w = name, w

        def forward(self, a, b, c=None):
            RvLoss.LOG.append((self.name, dict(a=a, b=b, c=c)))
            return self.value(a, b, c)

        def value(self, a, b, c=None):
            out = self.w * (mix(a, 1.) - .7 * mix(b, 2.)).square()
            if c is not None:
                out = out + .3 * mix(c, 3.)
            return out

    @MODELS.register_module()
    class RvGen(BaseModel):

        def __init__(self, latent_dim=5, hw=4, seed=0):
            super().__init__()
            torch.manual_seed(seed)
            self.latent_dim, self.hw = latent_dim, hw
            self.fc = nn.Linear(latent_dim, 3 * hw * hw)
            self.calls = []

        def forward(self, data=None, batch_size=1):
            out = torch.tanh(self.fc(data)).view(-1, 3, self.hw, self.hw)
            self.calls.append((data.detach().clone(), batch_size))
            return out

    return RvNet


def mix(x, k):
    if isinstance(x, (list, tuple)):
        return sum(mix(v, k + i) for i, v in enumerate(x))
    v = x.reshape(-1)
    n = torch.arange(1, v.numel() + 1, dtype=v.dtype)
    return (v * torch.cos(n * k)).mean() + .1 * v.square().mean()
