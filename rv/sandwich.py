"""Twins of supernet training algorithms and a reference driver."""
import contextlib
import copy
import os
import shutil
import tempfile

import torch
import torch.nn as nn
import torch.nn.functional as F

from rv import nas
from rv.nets import GraphNet, init_net


def arch_class():
    from mmengine.model import BaseModel

    class Arch(BaseModel):
        """A network with a loss and a named head for recorders."""

        def __init__(self, net):
            super().__init__()
            self.net = net
            self.head = nn.Identity()
            with torch.no_grad():
                y = net.eval()(torch.zeros(2, 3, 8, 8))
            # static, for the tracers
            self.many = isinstance(y, tuple)
            self.spatial = (y[0] if self.many else y).dim() == 4

        def forward(self, inputs, data_samples=None, mode='tensor'):
            y = self.net(inputs)
            if self.many:
                y = y[0]
            if self.spatial:
                y = y.mean((2, 3))
            y = self.head(y)
            if mode == 'loss':
                return dict(
                    loss_ce=F.cross_entropy(y, data_samples % y.shape[1]),
                    loss_reg=y.square().mean() * .1, acc=y.detach().mean())
            return y
    return Arch


def graph_arch(spec, seed):
    torch.manual_seed(seed)
    return arch_class()(init_net(GraphNet(spec), seed))


def nas_arch(spec, seed):
    return arch_class()(nas.build(spec, seed))


def distiller(loss):
    return dict(
        type='ConfigurableDistiller',
        teacher_recorders=dict(o=dict(type='ModuleOutputs', source='head')),
        student_recorders=dict(o=dict(type='ModuleOutputs', source='head')),
        distill_losses=dict(loss_kd=loss),
        loss_forward_mappings=dict(
            loss_kd=dict(preds_S=dict(recorder='o', from_student=True),
                    preds_T=dict(recorder='o', from_student=False))
            if loss['type'] == 'KLDivergence' else
            dict(logits_S=dict(recorder='o', from_student=True),
                 logits_T=dict(recorder='o', from_student=False))))


def soft(loss, s, t):
    """Own soft loss."""
    from rv.checks.c14 import ref_dist, ref_kl
    a = {k: v for k, v in loss.items() if k != 'type'}
    if loss['type'] == 'KLDivergence':
        return ref_kl(dict(dict(tau=1., reduction='batchmean',
                                loss_weight=1.), **a), s, t.detach())
    return ref_dist(dict(dict(inter_loss_weight=1., intra_loss_weight=1.,
                              tau=1., loss_weight=1.), **a), s, t.detach())


@contextlib.contextmanager
def one_rank():
    """A process group of one."""
    import torch.distributed as dist
    d = tempfile.mkdtemp(prefix='rv-dist-')
    dist.init_process_group('gloo', init_method=f'file://{d}/store', rank=0,
                            world_size=1)
    try:
        yield
    finally:
        dist.destroy_process_group()
        shutil.rmtree(d, ignore_errors=True)


class Hub:

    def __init__(self, it, total):
        self.runtime_info = dict(iter=it, max_iters=total)


def optim(rng, model, acc, seed_cfg=None, **hub):
    """(wrapper, own optimizer factory)"""
    from mmengine.optim import OptimWrapper
    kind, kw = seed_cfg

    def make(params):
        return getattr(torch.optim, kind)(params, **kw)
    w = OptimWrapper(make(model.parameters()), accumulative_counts=acc)
    w.message_hub = Hub(**hub)
    return w, make


class Watch:
    """What the architecture executes, and a fixed randomness per execution."""

    def __init__(self, arch, choices, seed):
        self.arch, self.choices, self.seed = arch, choices, seed
        self.seen, self.heads, self.on = [], [], True
        self.handles = [
            arch.register_forward_pre_hook(self.pre, with_kwargs=True)]

    def pre(self, mod, args, kw):
        if self.on:
            torch.manual_seed(self.seed + len(self.seen))
            self.seen.append(dict(
                choice=copy.deepcopy(self.choices()),
                x=args[0] if args else kw.get('inputs'),
                train=mod.training,
                drop={n: m.drop_path_rate for n, m in mod.named_modules()
                      if isinstance(getattr(m, 'drop_path_rate', None),
                                    (int, float))}))

    def close(self):
        for h in self.handles:
            h.remove()


def near(a, b, tol=1e-6):
    a, b = a.detach().double(), b.detach().double()
    if a.shape != b.shape:
        return False
    if not a.numel():
        return True
    return float((a - b).abs().max()) <= tol * max(1., float(b.abs().max()))


def state_diff(a, b, tol=1e-6):
    a, b = a.state_dict(), b.state_dict()
    if set(a) != set(b):
        return sorted(set(a) ^ set(b))[:3]
    return [f'{k} off by {float((a[k] - b[k]).abs().max()):.2g} of '
            f'{float(b[k].abs().max()):.2g}' for k in a
            if torch.is_tensor(a[k]) and not near(
                a[k], b[k], tol)]


def tidy():
    os.environ.pop('LOCAL_RANK', None)
