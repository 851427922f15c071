"""Common pieces to drive real search loops: a model around a random supernet,
a runner stand-in and an evaluator that observes what is evaluated."""
import copy

import torch
import torch.nn as nn

from rv import nas


def make_arch(spec, seed):
    from mmengine.model import BaseModel

    class Arch(BaseModel):

        def __init__(self):
            super().__init__()
            self.net = nas.build(spec, seed)

        def forward(self, inputs, data_samples=None, mode='tensor'):
            y = self.net(inputs)
            if mode == 'loss':
                return dict(loss=y.square().mean())
            return y

    torch.manual_seed(seed)
    return Arch()


def make_spos(spec, seed, **kw):
    from mmrazor.models.algorithms import SPOS
    from mmrazor.models.mutators import NasMutator
    m = SPOS(make_arch(spec, seed), NasMutator(), **kw)
    m.eval()  # returns nothing
    return m


class Data(torch.utils.data.Dataset):
    METAINFO = dict(rv=1)

    def __init__(self, n=3, hw=nas.HW, seed=0):
        g = torch.Generator().manual_seed(seed)
        self.x = torch.randn(n, 3, hw, hw, generator=g)

    @property
    def metainfo(self):
        return self.METAINFO

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        return self.x[i]


def collate(items):
    return dict(inputs=torch.stack(items))


def loader(n=3, batch=2, hw=nas.HW, seed=0):
    return torch.utils.data.DataLoader(
        Data(n, hw, seed), batch_size=batch, collate_fn=collate)


class Log:

    def __getattr__(self, name):
        return lambda *a, **k: None


class Runner:
    """What the loops use of a runner."""

    def __init__(self, model, work_dir, train=None, rank=0, distributed=False):
        self.model, self.work_dir = model, str(work_dir)
        self.rank, self.distributed = rank, distributed
        self.logger = Log()
        self.train_dataloader = train
        self.hooks = []
        self.visualizer = Log()
        self.epoch = self.iter = 0

    def call_hook(self, name, **kw):
        self.hooks.append(name)


class Evaluator:
    """Scores a candidate from the outputs; records what was evaluated."""

    def __init__(self, model, key, levels=None, empty=False, trend=0):
        self.model, self.key, self.levels = model, key, levels
        self.seen, self.outs = [], []
        self.empty = empty
        self.trend = trend  # scores fall or rise during the search

    def process(self, data_samples=None, data_batch=None):
        self.outs.append(data_samples.detach().clone())
        self.choices = copy.deepcopy(self.model.mutator.current_choices)

    def evaluate(self, n):
        y = torch.cat(self.outs)
        assert len(y) == n, (len(y), n)
        self.outs = []
        s = score_of(y, self.levels)
        if self.trend:
            s = 1000. + self.trend * len(self.seen) + s / 400
        self.seen.append((self.choices, s, y))
        return {} if self.empty else {self.key: s, 'other': -s}


def score_of(y, levels=None):
    v = float((y.double() * torch.arange(
        1, y.numel() + 1).reshape(y.shape)).sum()) * 7.3
    s = v % 97.
    if levels:
        s = float(int(s * levels / 97.))
    return s


def key_of(subnet):
    return tuple(sorted((k, repr(v)) for k, v in subnet.items()))


def state(model):
    return {k: v.detach().clone() for k, v in model.state_dict().items()}


def same_state(a, b):
    return set(a) == set(b) and all(torch.equal(a[k], b[k]) for k in a)


def mm_evaluator(*args, **kw):
    """The same as an mmengine evaluator, where a loop insists on one."""
    from mmengine import evaluator

    class E(Evaluator, evaluator.Evaluator):

        def __init__(self):
            evaluator.Evaluator.__init__(self, [])
            Evaluator.__init__(self, *args, **kw)

    return E()
