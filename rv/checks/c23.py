"""C23: what quantization traces, prunes, deploys, syncs and trains."""
import copy
import math
import os
import shutil
import tempfile
import types
import warnings

import torch
import torch.nn as nn

from rv import qtoy, ranks, search

ID = 'C23'
RULE = (
    'random models with reused layers and untraceable methods traced and '
    'rebuilt; fake quantizers put at random places of their graphs and '
    'deleted by pattern and by the rules of back ends; symbolic ONNX graphs '
    'exported and evaluated; random QAT layers post-processed for deployment; '
    'parameters of fake quantizers synchronised between graphs; real runners '
    'training, resuming, validating and calibrating with monitors of every '
    'switch, scale and observer')
ASSUMPTIONS = [
    'graphs are prepared by hand: torch 2.2 is newer than the backend '
    'configurations of the repository know (prepare() works in no test)',
    'skipped methods stay registered for later tracers until the registry is '
    'emptied',
    'fake quantizers before a target are those reached through plain '
    'arguments, not through lists',
    'torch 2.2 exports no symbolic graph for OpenVINO: the graphs given to '
    'the exporters are built as torch 1.13 writes them, and evaluated by the '
    'reference evaluator of onnx with the fake quantizers of the back ends '
    'added by their definition',
]
REQUIRED_EVENTS = {'traced': 150, 'skipped_methods': 60, 'reused': 40,
                   'deleted': 100, 'kept': 100, 'graphs': 80,
                   'redundant': 150, 'needed': 100, 'exported': 80,
                   'ranges': 150,
                   'deployed': 60, 'kept_fq': 25, 'synced': 50, 'resized': 15,
                   'converted_bn': 20, 'epochs': 40, 'train_iters': 100,
                   'resumes': 3, 'first_batches': 6, 'validations': 15,
                   'calibrated': 10, 'saved': 10, 'rank_runs': 2}
CASE_LIMIT = 200


def fresh_registry():
    from mmrazor.models.task_modules.tracer import UntracedMethodRegistry
    UntracedMethodRegistry.method_dict = dict()


def trace(ctx, model, mode, order, others=0):
    from mmrazor.models.task_modules.tracer import (CustomTracer,
                                                    build_graphmodule)
    fresh_registry()
    with ctx.sut('building the tracer'):
        tracer = CustomTracer(skipped_methods=list(order))
        for _ in range(others):
            CustomTracer(skipped_methods=list(order))
    with ctx.sut(f'tracing in mode {mode}'):
        graph = tracer.trace(model, concrete_args=dict(mode=mode))
        return build_graphmodule(model, graph)


def same(a, b, tol=1e-5):
    a, b = qtoy.flatten(a), qtoy.flatten(b)
    return len(a) == len(b) and all(
        p.shape == q.shape and torch.allclose(p, q, tol, tol)
        for p, q in zip(a, b))


def heat(model):
    """Statistics away from their start."""
    with torch.no_grad():
        for m in model.modules():
            if isinstance(m, (nn.BatchNorm1d, nn.BatchNorm2d)):
                m.weight.uniform_(.5, 1.5)
                m.bias.normal_()
                m.running_mean.normal_()
                m.running_var.uniform_(.3, 2)


def sec_trace(ctx):
    """A graph computes what the model does, for every mode."""
    rng = ctx.rng
    s = qtoy.spec(rng)
    model = qtoy.Net(s)
    heat(model)
    model.eval()
    order = list(qtoy.SKIPPED)
    rng.shuffle(order)
    x = torch.randn(rng.randint(1, 3), 3, 6, 6)
    data = rng.choice([[1], [1, 2], [1, 2, 3]])
    want = {m: model(x, data, m) for m in ('tensor', 'loss', 'predict')}
    names = {n for n, _ in model.named_modules()}
    for mode in ('tensor', 'loss', 'predict'):
        gm = trace(ctx, model, mode, order, rng.choice([0, 0, 1]))
        ctx.check(not any(m.training for m in gm.modules() if isinstance(
            m, nn.BatchNorm2d)), 'mode', 'the graph is in training mode')
        for _ in range(2):
            with ctx.sut(f'the graph of mode {mode}'):
                got = gm(x, data, mode)
            ctx.check(same(got, want[mode]), 'outputs',
                      lambda: f'mode {mode}: another result, {s}')
        y = torch.randn(2, 3, 6, 6)
        with ctx.sut(f'the graph of mode {mode}'):
            got = gm(y, [3], mode)
        ctx.check(same(got, model(y, [3], mode)), 'other_inputs',
                  lambda: f'mode {mode}: another result for another input')
        ctx.event('traced')
        called = [n.target for n in gm.graph.nodes if n.op == 'call_module']
        ctx.check(len(called) == len(set(called)), 'reused',
                  lambda: f'a module is called twice: {called}')
        ctx.event('reused', sum('_dup' in c for c in called))
        methods = sum(n.op == 'call_method' and n.target in (
            '_score', '_choose') for n in gm.graph.nodes)
        ctx.check(methods == (0 if mode == 'tensor' else len(s['heads'])),
                  'skipped', lambda: f'{methods} skipped methods in mode '
                  f'{mode}')
        ctx.event('skipped_methods', methods)
        # what is done to the graph is not to change the model
        for n in gm.graph.nodes:
            if n.op == 'call_module' and rng.random() < .5:
                parent, _, leaf = n.target.rpartition('.')
                setattr(gm.get_submodule(parent), leaf, nn.Identity())
        ctx.check(names == {n for n, _ in model.named_modules()}
                  and all(same(model(x, data, m), want[m]) for m in want),
                  'model', 'editing the graph changed the model')
        # nothing stays patched
        ctx.check(nn.Module.__call__.__name__ != 'module_call_wrapper'
                  and qtoy.HeadA._score.__code__.co_name == '_score',
                  'patched', 'tracing left something patched')
    ctx.key(str(s['blocks']) + str(s['heads']))
    fresh_registry()


# ------------------------------------------------------------------- graphs


def make_fq(rng, bits=3):
    from torch.ao.quantization import FakeQuantize, MinMaxObserver
    fq = FakeQuantize(MinMaxObserver, 0, 2**bits - 1, dtype=torch.quint8,
                      qscheme=torch.per_tensor_affine)
    fq(torch.tensor([-1.3, 2.1]) * rng.uniform(.5, 2))
    from torch.ao.quantization import disable_observer
    fq.apply(disable_observer)
    return fq


def insert_fqs(rng, gm, p, mode):
    """Fake quantizers after random tensors of the graph."""
    tensors = set()

    class Run(torch.fx.Interpreter):

        def run_node(self, n):
            out = super().run_node(n)
            if isinstance(out, torch.Tensor) and out.is_floating_point():
                tensors.add(n.name)
            return out

    Run(gm).run(torch.randn(2, 3, 6, 6), [1, 2], mode)
    k = 0
    for node in list(gm.graph.nodes):
        if node.op in ('output', 'get_attr') or node.name not in tensors or \
                node.target in ('_score', '_choose') or rng.random() > p:
            continue
        name = f'activation_post_process_{k}'
        k += 1
        setattr(gm, name, make_fq(rng))
        users = list(node.users)
        with gm.graph.inserting_after(node):
            new = gm.graph.call_module(name, (node, ))
        for u in users:
            u.replace_input_with(node, new)
    gm.graph.lint()
    gm.recompile()
    return k


def is_fq(gm, node):
    return node.op == 'call_module' and \
        node.target.startswith('activation_post_process')


def nearest(gm, node, seen):
    """Names of the closest fake quantizers above."""
    from torch.fx import Node
    out = set()
    for a in list(node.args) + list(node.kwargs.values()):
        if not isinstance(a, Node) or a in seen:
            continue
        seen.add(a)
        out |= {a.target} if is_fq(gm, a) else nearest(gm, a, seen)
    return out


def sec_graph(ctx):
    """Deleting fake quantizers by pattern."""
    from mmrazor.models.task_modules.tracer.fx import graph_utils as gu
    from torch.ao.quantization import disable_fake_quant
    rng = ctx.rng
    s = qtoy.spec(rng)
    model = qtoy.Net(s).eval()
    mode = rng.choice(['tensor', 'loss', 'predict'])
    gm = trace(ctx, model, mode, qtoy.SKIPPED)
    fresh_registry()
    n = insert_fqs(rng, gm, rng.choice([.4, .7, 1.]), mode)
    if not n:
        ctx.skip('no place for a fake quantizer')
        return
    x = torch.randn(2, 3, 6, 6)
    nodes = list(gm.graph.nodes)
    where = rng.choice(['before', 'after'])
    what = rng.choice(['op', 'method', 'function', 'module'])
    if what == 'op':
        pattern = tuple(rng.sample(['output', 'call_module', 'call_function',
                                    'placeholder'], rng.randint(1, 2)))
        hit = [m for m in nodes if m.op in pattern and not (
            where == 'after' and is_fq(gm, m))]
        if 'call_module' in pattern and where == 'before':
            # the fake quantizers are modules themselves
            hit = [m for m in nodes if m.op in pattern]
    elif what == 'method':
        pattern = tuple(rng.sample(['sigmoid', '_score', '_choose'],
                                   rng.randint(1, 3)))
        hit = [m for m in nodes if m.op == 'call_method'
               and m.target in pattern]
    elif what == 'function':
        fs = sorted({m.target for m in nodes if m.op == 'call_function'},
                    key=str)
        if not fs:
            return
        pattern = tuple(rng.sample(fs, rng.randint(1, len(fs))))
        hit = [m for m in nodes if m.op == 'call_function'
               and m.target in pattern]
    else:
        pattern = tuple(rng.sample([nn.ReLU, nn.Conv2d, nn.BatchNorm2d,
                                    nn.AdaptiveAvgPool2d, nn.Linear],
                                   rng.randint(1, 3)))
        hit = [m for m in nodes if m.op == 'call_module'
               and isinstance(gm.get_submodule(m.target), pattern)]
    fqs = {m.target for m in nodes if is_fq(gm, m)}
    if where == 'after':
        gone = {m.target for m in nodes if is_fq(gm, m) and m.args[0] in hit}
    elif what == 'module':
        gone = {m.args[0].target for m in hit if is_fq(gm, m.args[0])}
    else:
        gone = set()
        for m in hit:
            if not is_fq(gm, m):
                gone |= nearest(gm, m, set())
            else:
                gone.add(m.target)  # its own nearest is itself
    ref = copy.deepcopy(gm)
    for g in gone:
        getattr(ref, g).apply(disable_fake_quant)
    want = ref(x, [1, 2], mode)
    inplace = rng.random() < .5
    before = [(m.name, str(m.args)) for m in nodes]
    full = gm(x, [1, 2], mode)
    fn = getattr(gu, f'del_fakequant_{where}_{what}')
    with ctx.sut(fn.__name__):
        out = fn(gm, pattern, inplace=inplace)
    left = {m.target for m in out.graph.nodes if is_fq(out, m)}
    ctx.check(left == fqs - gone, 'deleted', lambda: f'{fn.__name__} '
              f'{pattern}: deleted {sorted(fqs - left)}, to be deleted '
              f'{sorted(gone)}, {s} {mode}')
    if left != fqs - gone:
        return
    ctx.check({k for k, _ in out.named_children()
               if k.startswith('activation_post')} == left, 'modules',
              'the modules do not match the graph')
    with ctx.sut('the model after the deletion'):
        got = out(x, [1, 2], mode)
    ctx.check(same(got, want), 'outputs', lambda: f'{fn.__name__} {pattern} '
              f'changed more than it should')
    ctx.check((out is gm) == inplace, 'inplace', 'inplace was not respected')
    if not inplace:
        ctx.check([(m.name, str(m.args)) for m in gm.graph.nodes] == before
                  and same(gm(x, [1, 2], mode), full), 'original',
                  'the original graph was changed')
    ctx.event('graphs')
    ctx.event('deleted', len(gone))
    ctx.event('kept', len(left))
    ctx.key(f'{fn.__name__}{min(len(gone), 3)}')


class Redundant(nn.Module):
    """Sequence and branches of what back ends treat on their own."""

    def __init__(self, rng):
        super().__init__()
        self.steps = [rng.choice([
            'conv', 'relu', 'relu6', 'identity', 'pool', 'sigmoid', 'method',
            'add', 'clamp', 'branch']) for _ in range(rng.randint(4, 12))]
        make = dict(conv=lambda: nn.Conv2d(3, 3, 1), relu=nn.ReLU,
                    relu6=nn.ReLU6, identity=nn.Identity,
                    pool=lambda: nn.MaxPool2d(2, 1, 1),
                    branch=nn.ReLU6, sigmoid=nn.Sigmoid)
        self.ms = nn.ModuleList(make.get(s, nn.Identity)()
                                for s in self.steps)
        self.end = rng.choice(['flatten', 'torch', 'both', 'none'])

    def forward(self, x):
        keep = x
        for s, m in zip(self.steps, self.ms):
            if s == 'method':
                x = x.sigmoid()
            elif s == 'clamp':
                x = torch.clamp(x, -1, 1)
            elif s == 'add':
                # the two need not be as large
                x, keep = torch.add(x.mean((2, 3), keepdim=True), keep), x
            elif s == 'branch':
                x = torch.cat([m(x)[:, :2], m(x * 2)[:, :1]], 1)
            else:
                x = m(x)
        if self.end == 'none':
            return x
        if self.end == 'torch':
            return torch.flatten(x, 1)
        if self.end == 'both':
            return x.flatten(1), torch.mean(x, (1, 2, 3))
        return x.flatten(1)


PLAN = [('module', 'prev'), ('module', 'next'), ('function', 'prev'),
        ('function', 'next'), ('method', 'prev'), ('method', 'next'),
        ('op', 'prev'), ('op', 'next')]


def remove(gm, what, where, pattern):
    """Without what is redundant, one rule after the other."""
    nodes = list(gm.graph.nodes)
    if what == 'module':
        hit = [m for m in nodes if m.op == 'call_module' and isinstance(
            gm.get_submodule(m.target), tuple(pattern))]
    elif what == 'op':
        hit = [m for m in nodes if m.op in pattern]
    else:
        hit = [m for m in nodes if m.op == f'call_{what}'
               and m.target in pattern]
    if where == 'next':
        gone = [m for m in nodes if is_fq(gm, m) and m.args[0] in hit]
    elif what == 'module':
        gone = [m.args[0] for m in hit if is_fq(gm, m.args[0])]
    else:
        names = set().union(*(nearest(gm, m, set()) for m in hit)) \
            if hit else set()
        gone = [m for m in nodes if is_fq(gm, m) and m.target in names]
    for m in dict.fromkeys(gone):
        m.replace_all_uses_with(m.args[0])
        gm.graph.erase_node(m)
        delattr(gm, m.target)
    gm.recompile()
    return len(set(gone))


def sec_redundant(ctx):
    """A quantizer deletes what its back end and its user call redundant."""
    import operator

    from mmrazor.models.quantizers import (OpenVINOQuantizer,
                                           TensorRTQuantizer,
                                           TorchNativeQuantizer)
    register()
    rng = ctx.rng
    net = Redundant(rng).eval()
    gm = torch.fx.symbolic_trace(net)
    x = torch.randn(2, 3, 5, 5)
    p = rng.choice([.5, .8, 1.])
    k = 0
    for node in list(gm.graph.nodes):
        if node.op == 'output' or rng.random() > p:
            continue
        name = f'activation_post_process_{k}'
        k += 1
        setattr(gm, name, make_fq(rng))
        users = list(node.users)
        with gm.graph.inserting_after(node):
            new = gm.graph.call_module(name, (node, ))
        for u in users:
            u.replace_input_with(node, new)
    gm.recompile()
    gm.eval()
    pools = dict(
        module=[nn.ReLU, nn.Conv2d, nn.Sigmoid, nn.MaxPool2d, nn.Identity],
        function=[torch.cat, torch.add, torch.clamp, torch.flatten,
                  operator.mul, operator.getitem, torch.mean],
        method=['sigmoid', 'mean', 'flatten'],
        op=['placeholder', 'call_method', 'call_function'])
    extra = {}
    for what, where in PLAN:
        if rng.random() < .3:
            extra[f'extra_{what}_{where}_wo_fakequant'] = tuple(
                rng.sample(pools[what], rng.randint(1, 2)))
        elif rng.random() < .5:
            extra[f'extra_{what}_{where}_wo_fakequant'] = tuple()
    cls = rng.choice([TorchNativeQuantizer, OpenVINOQuantizer,
                      TensorRTQuantizer])
    base = {} if cls is TorchNativeQuantizer else {
        ('module', 'prev'): (nn.ReLU6, nn.Identity),
        ('module', 'next'): (nn.MaxPool2d, ),
        ('method', 'next'): ('flatten', ), ('op', 'prev'): ('output', )}
    cfg, *_ = rand_qconfig(rng)
    kw = {} if rng.random() < .2 else dict(extra_redundant_fakequants=extra)
    with ctx.sut('building the quantizer'):
        quantizer = cls(cfg, **copy.deepcopy(kw))
    used = kw.get('extra_redundant_fakequants', {})
    want = copy.deepcopy(gm)
    n = sum(remove(want, *key, base.get(key, ()) + used.get(
        'extra_{}_{}_wo_fakequant'.format(*key), ())) for key in PLAN)
    with ctx.sut(f'del_redundant_fakequant of {cls.__name__}'):
        got = quantizer.del_redundant_fakequant(gm)

    def left(g):
        return {m.target for m in g.graph.nodes if is_fq(g, m)}
    ctx.check(left(got) == left(want), 'redundant', lambda: f'{cls.__name__} '
              f'{used} of {net.steps} {net.end}: left {sorted(left(got))}, '
              f'{sorted(left(want))} expected')
    with ctx.sut('the graph without redundant ones'):
        y = got(x)
    ctx.check(same(y, want(x)), 'redundant:outputs', lambda: f'{cls.__name__} '
              f'{used}: the outputs are others')
    ctx.event('redundant', n)
    ctx.event('needed', len(left(want)))
    ctx.key('redundant', cls.__name__, tuple(sorted(used)), tuple(net.steps))


# ------------------------------------------------------------------- export
class Symbolic:
    """A graph with symbolic fake quantizers, as torch exports it."""

    def __init__(self, rng, g, tensorrt):
        import numpy as np
        from onnx import TensorProto, helper, numpy_helper
        self.rng, self.g, self.np = rng, g, np
        self.helper, self.to = helper, numpy_helper.from_array
        self.tensorrt = tensorrt
        self.nodes, self.inits, self.fqs = [], [], {}
        self.shared = {}
        x, c = self.quant('x', 'act'), 3
        for i in range(rng.randint(1, 4)):
            x, c = self.layer(i, x, c)
        x = self.node('GlobalAveragePool', [x])
        x = self.node('Flatten', [x], axis=1)
        if rng.random() < .7:
            w = self.weight((4, c))
            x = self.quant(self.node('Gemm', [x, w, self.init(
                g.normal(size=4))], transB=1), 'act')
        out = self.node('Tanh', [x], out='y')
        # torch need not write nodes in an order of its own
        graph = helper.make_graph(
            self.nodes, 'g', [helper.make_tensor_value_info(
                'x', TensorProto.FLOAT, [2, 3, 5, 5])],
            [helper.make_tensor_value_info(out, TensorProto.FLOAT, None)],
            self.inits)
        self.model = helper.make_model(graph, opset_imports=[
            helper.make_opsetid('', 13), helper.make_opsetid('mmrazor', 1)])

    def init(self, v, dtype='float32'):
        t = self.to(self.np.asarray(v, dtype))
        t.name = f'init{len(self.inits)}'
        self.inits.append(t)
        return t.name

    def node(self, op, inputs, out=None, domain='', **kw):
        name = f'/{op}_{len(self.nodes)}'
        out = out or name + '_output_0'
        self.nodes.append(self.helper.make_node(
            op, inputs, [out], name=name, domain=domain, **kw))
        return out

    def constant(self, v):
        key = int(v)
        if key in self.shared and self.rng.random() < .5:
            return self.shared[key]
        self.shared[key] = self.node('Constant', [], value=self.to(
            self.np.asarray(v, 'int64')))
        return self.shared[key]

    def quant(self, x, what, shape=None):
        rng, np = self.rng, self.np
        if what == 'act' and rng.random() < .25:
            return x
        if self.tensorrt:
            lo, hi = -128, 127
        else:
            lo, hi = rng.choice([(-128, 127), (-127, 127), (0, 255),
                                 (0, 15), (-8, 7)])
        n = shape[0] if what == 'weight' and rng.random() < .6 else 1
        scale = np.float32(self.g.uniform(.3, 1, n) * 6 / (hi - lo))
        zero = 0 if self.tensorrt or rng.random() < .5 else \
            rng.randint(lo, hi)
        names = [self.init(scale), self.init([zero] * n, 'int32')]
        if rng.random() < .2:
            names[1] = self.node('Identity', [names[1]])
        limits = [self.constant(lo), self.constant(hi)]
        if n > 1:
            y = self.node('FixedPerChannelAffine', [
                x, *names, self.constant(0), *limits], domain='mmrazor')
        else:
            y = self.node('FixedPerTensorAffine', [x, *names, *limits],
                          domain='mmrazor')
        self.fqs[y] = (x, scale.astype('float64'), zero, lo, hi)
        return y

    def weight(self, shape):
        w = self.init(self.g.normal(size=shape))
        return self.quant(w, 'weight', shape)

    def layer(self, i, x, c):
        rng = self.rng
        keep = x
        if rng.random() < .3:
            pads = [0] * 8
            if rng.random() < .5:
                pads[rng.choice([2, 3, 6, 7])] = 1
            x = self.node('Pad', [x, self.init(pads, 'int64') if
                                  rng.random() < .5 else self.node(
                'Constant', [], value=self.to(self.np.asarray(
                    pads, 'int64')))])
            keep = x
        w = c if rng.random() < .5 else rng.choice([2, 4])
        k = rng.choice([1, 3])
        args = [x, self.weight((w, c, k, k))]
        if rng.random() < .5:
            args.append(self.init(self.g.normal(size=w)))
        y = self.node('Conv', args, pads=[k // 2] * 4)
        if rng.random() < .5:
            y = self.quant(self.node('Relu', [y]), 'act')
        if w == c and rng.random() < .6:
            y = self.node('Add', [y, keep])
        return self.quant(y, 'act'), w


def numeric(np, ops, model, x):
    """What a graph computes, judged by the definitions of its operators."""
    from onnx.reference import ReferenceEvaluator
    return ReferenceEvaluator(model, new_ops=ops).run(None, {'x': x})[0]


def onnx_ops(np):
    from onnx.reference.op_run import OpRun

    def along(v, x, axis=0):
        v = np.asarray(v, 'float64').reshape(-1)
        return v if v.size == 1 else v.reshape(
            [-1 if i == axis else 1 for i in range(x.ndim)])

    class FixedPerTensorAffine(OpRun):
        op_domain = 'mmrazor'

        def _run(self, x, s, z, *rest):
            s, z = along(s, x), along(z, x)
            q = np.clip(np.rint(x / s + z), *rest[-2:])
            return (((q - z) * s).astype('float32'), )

    class FixedPerChannelAffine(FixedPerTensorAffine):
        pass

    class FakeQuantize(OpRun):
        op_domain = 'org.openvinotoolkit'

        def _run(self, x, il, ih, ol, oh, levels=None):
            il, ih, ol, oh = (np.asarray(v, 'float64') for v in
                              (il, ih, ol, oh))
            q = np.rint((np.clip(x, il, ih) - il) / (ih - il) * (levels - 1))
            return ((q / (levels - 1) * (oh - ol) + ol).astype('float32'), )

    class QuantizeLinear(OpRun):

        def _run(self, x, s, z=None, axis=1, **kw):
            return (np.clip(np.rint(x / along(s, x, axis)), -128,
                            127).astype('float32'), )

    class DequantizeLinear(OpRun):

        def _run(self, x, s, z=None, axis=1, **kw):
            return ((x * along(s, x, axis)).astype('float32'), )
    return [FixedPerTensorAffine, FixedPerChannelAffine, FakeQuantize,
            QuantizeLinear, DequantizeLinear]


def sec_export(ctx):
    """What is exported for a back end computes the quantized graph."""
    import numpy as np
    import onnx
    from onnx import numpy_helper

    from mmrazor.models.quantizers.exporters import (
        OpenVinoQuantizeExportor, TensorRTExplicitExporter)
    rng = ctx.rng
    trt = rng.random() < .4
    g = np.random.default_rng(ctx.case_seed)
    sym = Symbolic(rng, g, trt)
    ops = onnx_ops(np)
    x = g.normal(size=(2, 3, 5, 5)).astype('float32')
    model = copy.deepcopy(sym.model)
    want = numeric(np, ops, sym.model, x)
    work = tempfile.mkdtemp()
    try:
        path = os.path.join(work, 'out.onnx')
        if rng.random() < .5:
            onnx.save(model, os.path.join(work, 'in.onnx'))
            model = os.path.join(work, 'in.onnx')
        cls = TensorRTExplicitExporter if trt else OpenVinoQuantizeExportor
        with ctx.sut(cls.__name__):
            cls(model, path).export()
            out = onnx.load(path)
    finally:
        shutil.rmtree(work)
    kinds = [n.op_type for n in out.graph.node]
    ctx.check(not any(k.startswith('Fixed') for k in kinds), 'export:left',
              'symbolic fake quantizers are left')
    known = {'x', ''} | {i.name for i in out.graph.initializer}
    bad = []
    for n in out.graph.node:
        bad += [i for i in n.input if i not in known]
        known |= set(n.output)
    ctx.check(not bad, 'export:order', lambda: f'{bad[:3]} come too late')
    before = [n.op_type for n in sym.nodes if n.op_type not in (
        'Constant', 'Identity', 'Pad') and not n.op_type.startswith('Fixed')]
    after = [k for k in kinds if k not in ('Constant', 'Identity', 'Pad',
                                           'FakeQuantize', 'QuantizeLinear',
                                           'DequantizeLinear')]
    ctx.check(sorted(before) == sorted(after), 'export:nodes',
              lambda: f'{sorted(after)} of {sorted(before)}')
    ctx.check(kinds.count('DequantizeLinear' if trt else 'FakeQuantize') ==
              len(sym.fqs), 'export:quantizers', lambda:
              f'{kinds} for {len(sym.fqs)} fake quantizers')
    if not trt:
        vals = {i.name: numpy_helper.to_array(i)
                for i in out.graph.initializer}
        for n in out.graph.node:
            if n.op_type != 'FakeQuantize':
                continue
            _, s, z, lo, hi = sym.fqs[n.output[0]]
            levels = n.attribute[0].i
            got = [vals[i].reshape(-1) for i in n.input[1:]]
            ref = [(lo - z) * s, (hi - z) * s] * 2
            ctx.check(levels == hi - lo + 1 and all(
                a.size == b.size and np.allclose(a, b, 1e-5, 1e-7)
                for a, b in zip(got, ref)), 'export:range', lambda:
                f'{levels} levels in {got[:2]} for {lo}..{hi} at {z}, {s}')
            ctx.event('ranges')
    if bad:
        return
    # the importer of the back end needs no such entry
    out.opset_import.append(onnx.helper.make_opsetid(
        'org.openvinotoolkit', 1))
    with ctx.sut('the exported graph'):
        y = numeric(np, ops, out, x)
    ctx.check(y.shape == want.shape and float(np.median(np.abs(
        y - want))) < 1e-4, 'export:outputs',
        lambda: f'{cls.__name__}: off by {np.abs(y - want).max():.3g}')
    ctx.event('exported')
    ctx.key('export', cls.__name__, tuple(kinds))


# ------------------------------------------------------------------- deploy


def rand_qconfig(rng, lsq=None):
    lsq = rng.random() < .4 if lsq is None else lsq
    per_channel = rng.random() < .6
    w = ('LSQPerChannelObserver' if per_channel else 'LSQObserver') if lsq \
        else ('PerChannelMinMaxObserver' if per_channel else 'MinMaxObserver')
    fq = 'mmrazor.' + ('LearnableFakeQuantize' if lsq else 'FakeQuantize')
    a = 'LSQObserver' if lsq else rng.choice(['MinMaxObserver',
                                              'MovingAverageMinMaxObserver'])
    return dict(
        w_observer=dict(type='mmrazor.' + w), a_observer=dict(
            type='mmrazor.' + a),
        w_fake_quant=dict(type=fq), a_fake_quant=dict(type=fq),
        w_qscheme=dict(qdtype='qint8', bit=rng.choice([4, 8]),
                       is_symmetry=True,
                       is_symmetric_range=rng.random() < .6),
        a_qscheme=dict(qdtype='quint8', bit=rng.choice([4, 8]),
                       is_symmetry=rng.random() < .5)), lsq, per_channel


def register():
    from mmrazor.models import (register_torch_fake_quants,
                                register_torch_observers)
    register_torch_fake_quants()
    register_torch_observers()


def qat_layer(rng, kind, cin, cout, qc):
    import torch.ao.nn.intrinsic.qat as iq
    import torch.ao.nn.qat as q
    bias = rng.random() < .5
    if 'lin' in kind:
        if kind == 'lin':
            return q.Linear(cin, cout, bias, qconfig=qc)
        if kind == 'lin_relu':
            return iq.LinearReLU(cin, cout, bias, qconfig=qc)
        return iq.LinearBn1d(cin, cout, bias, qconfig=qc)
    cls = {'conv': q.Conv2d, 'conv_relu': iq.ConvReLU2d,
           'conv_bn': iq.ConvBn2d, 'conv_bn_relu': iq.ConvBnReLU2d}[kind]
    k = rng.choice([1, 3])
    g = rng.choice([1, 1, 2]) if cin % 2 == 0 and cout % 2 == 0 else 1
    return cls(cin, cout, k, padding=k // 2, groups=g, bias=bias, qconfig=qc)


class Chain(nn.Module):
    """QAT layers in nested containers, fake quantizers between them."""

    def __init__(self, rng, handler):
        super().__init__()
        qc = handler.convert()
        c = 3
        self.activation_post_process_0 = qc.activation()
        body = []
        for i in range(rng.randint(1, 3)):
            w = rng.choice([2, 4, 5])
            layer = qat_layer(rng, rng.choice(
                ['conv', 'conv_relu', 'conv_bn', 'conv_bn', 'conv_bn_relu']),
                c, w, qc)
            if rng.random() < .4:
                layer = nn.Sequential(nn.Sequential(layer), nn.Tanh())
            body += [layer, qc.activation()]
            c = w
        self.body = nn.Sequential(*body)
        self.pool = nn.AdaptiveAvgPool2d(1)
        self.head = nn.ModuleDict({'fc': qat_layer(
            rng, rng.choice(['lin', 'lin', 'lin_relu', 'lin_bn']), c, 3, qc)})
        if self.head['fc'].bias is not None:  # torch forgets one
            nn.init.normal_(self.head['fc'].bias)
        self.activation_post_process_1 = qc.activation()
        self.nothing = nn.Identity()
        if rng.random() < .5:
            self.body.register_module('absent', None)
            self.body._modules.pop('absent')
            self.register_module('absent', None)

    def forward(self, x, *args):
        x = self.body(self.activation_post_process_0(x))
        x = self.pool(x).flatten(1)
        return self.activation_post_process_1(self.head['fc'](x))


def fqs_of(model):
    from torch.ao.quantization import FakeQuantizeBase
    return {n: m for n, m in model.named_modules()
            if isinstance(m, FakeQuantizeBase)}


def fold(m):
    """Weight (before rounding) and bias of a QAT layer, by own formulas."""
    w = m.weight.detach().double()
    b = m.bias.detach().double() if m.bias is not None else \
        torch.zeros(w.size(0)).double()
    bn = getattr(m, 'bn', None)
    if bn is not None:
        f = bn.weight.detach().double() / (
            bn.running_var.double() + bn.eps).sqrt()
        w = w * f.reshape([-1] + [1] * (w.dim() - 1))
        b = (b - bn.running_mean.double()) * f + bn.bias.detach().double()
    return w, b


def on_grid(v, scale, zp, lo, hi):
    """Rounded v, and where it is a tie."""
    shape = [-1] + [1] * (v.dim() - 1)
    s = scale.detach().double().clamp(min=1e-30)
    z = zp.detach().double().round()
    if s.numel() > 1:
        s, z = s.reshape(shape), z.reshape(shape)
    q = v / s
    tie = ((q - q.floor()) - .5).abs() < 1e-4 * (1 + q.abs())
    return ((q.round() + z).clamp(lo, hi) - z) * s, tie, s.expand_as(v)


def sec_deploy(ctx):
    """Post-processing makes plain layers computing the quantized model."""
    import torch.ao.nn.intrinsic as nni
    from torch.ao.quantization import disable_observer

    from mmrazor.models.quantizers import (OpenVINOQuantizer,
                                           TensorRTQuantizer,
                                           TorchNativeQuantizer)
    from mmrazor.models.quantizers.native_quantizer import SUPPORT_QAT_MODULES
    register()
    rng = ctx.rng
    cfg, lsq, per_channel = rand_qconfig(rng)
    cls = rng.choice([TorchNativeQuantizer, OpenVINOQuantizer,
                      TensorRTQuantizer])
    with ctx.sut('building the quantizer'):
        quantizer = cls(copy.deepcopy(cfg))
    model = Chain(rng, quantizer.qconfig)
    heat(model)
    for _ in range(2):
        model(torch.randn(4, 3, 6, 6))
    heat(model)
    model.eval()
    model(torch.randn(4, 3, 6, 6))
    if lsq:
        for m in fqs_of(model).values():
            m.enable_val()
            m.scale.data.mul_(rng.uniform(.6, 1.4))
    model.apply(disable_observer)
    x = torch.randn(3, 3, 6, 6)
    with torch.no_grad():
        y0 = model(x)
    update, keep = rng.random() < .8, rng.random() < .5
    layers = {n: m for n, m in model.named_modules()
              if isinstance(m, SUPPORT_QAT_MODULES)}
    want = {}
    for n, m in layers.items():
        w, b = fold(m)
        fq = m.weight_fake_quant
        q, tie, step = on_grid(w, fq.scale, fq.zero_point, fq.quant_min,
                               fq.quant_max)
        want[n] = (w, q, tie, step, b, type(m).__name__)
    acts = {n: m for n, m in fqs_of(model).items()
            if not n.endswith('weight_fake_quant')}
    with ctx.sut('post_process_for_deploy'):
        quantizer.post_process_for_deploy(
            model, device='cpu', update_weight_with_fakequant=update,
            keep_w_fake_quant=keep)
    ctx.event('deployed')
    ctx.event('kept_fq', keep)
    exact = True
    for n, (w, q, tie, step, b, kind) in want.items():
        m = model.get_submodule(n)
        core = m if hasattr(m, 'weight') else m[0]
        names = {c.__class__.__name__ for c in m.modules()}
        ctx.check(not any('Bn' in c or 'BatchNorm' in c for c in names),
                  'merged', lambda: f'{n}: {names} left of {kind}')
        ctx.check((isinstance(m, SUPPORT_QAT_MODULES)) == keep, 'types',
                  lambda: f'{n}: {type(m)} of {kind}, keep={keep}')
        relu = 'ReLU' in kind
        ctx.check(('ReLU' in type(m).__name__) == relu, 'relu',
                  lambda: f'{n}: {type(m)} of {kind}')
        got = core.weight.detach().double()
        ref = q if update else w
        gap = (got - ref).abs()
        room = 1e-4 * step + 1e-5 * ref.abs() + (tie * step if update else 0)
        ctx.check(bool((gap <= room).all()), 'weights', lambda: f'{n} {kind} '
                  f'{cfg}: weights differ by {float((gap / step).max())} '
                  'steps')
        exact &= bool((gap <= 1e-4 * step + 1e-5 * ref.abs()).all())
        bias = core.bias
        gb = torch.zeros_like(b) if bias is None else bias.detach().double()
        ctx.check(torch.allclose(gb, b, 1e-4, 1e-5), 'bias',
                  lambda: f'{n} {kind}: bias {gb}, {b} expected')
        if keep:
            fq = m.weight_fake_quant
            o = fq.activation_post_process
            ctx.check(type(fq).__name__ == 'FakeQuantize' and
                      type(o).__name__ == ('PerChannelMinMaxObserver' if
                                           per_channel else 'MinMaxObserver'),
                      'base', lambda: f'{n}: {type(fq)} {type(o)}')
            ctx.check(int(fq.fake_quant_enabled) == 1
                      and int(fq.observer_enabled) == 0, 'switches',
                      lambda: f'{n}: fake quant {fq.fake_quant_enabled}, '
                      f'observer {fq.observer_enabled}')
            r = fq.scale.double().reshape(
                [-1] + [1] * (got.dim() - 1)) if per_channel else \
                fq.scale.double()
            with torch.no_grad():
                again = fq(core.weight).double()
            # idempotent where the top level is reached
            reach = got.abs().flatten(1).max(1)[0] if per_channel else \
                got.abs().max()[None]
            full = bool((reach >= fq.quant_max * .9999 * step.flatten(1)[
                :len(reach), 0]).all())
            limit = 1e-4 if cfg['w_qscheme']['is_symmetric_range'] and \
                full and update else .501
            # the unsymmetric range loses the top level
            top = 0 if cfg['w_qscheme']['is_symmetric_range'] else .5
            ctx.check(bool(((again - got).abs() <= (limit + top) * r).all()),
                      'requantized', lambda: f'{n}: off by '
                      f'{float(((again - got).abs() / r).max())} steps')
            exact &= bool(((again - got).abs() <= 1e-5 * got.abs() +
                           1e-4 * r).all())
    ctx.check(not any(isinstance(m, SUPPORT_QAT_MODULES) and not keep
                      for m in model.modules()), 'left', 'QAT layers are left')
    now = {n: m for n, m in fqs_of(model).items()
           if 'weight_fake_quant' not in n}
    ctx.check(set(now) == set(acts) and all(now[n] is acts[n] for n in now),
              'activations', 'the activations lost fake quantizers')
    if update and exact:
        model.eval()
        for m in fqs_of(model).values():
            m.disable_observer()
        with torch.no_grad():
            with ctx.sut('the deployed model'):
                y1 = model(x)
        # a different rounding of one activation moves the others
        step = float(model.activation_post_process_1.scale.abs().max())
        err = (y1 - y0).abs()
        ctx.check(float((err > .01 * step).double().mean()) <= .4 or
                  float(err.mean()) <= .7 * step, 'outputs',
                  lambda: f'the deployed model differs by '
                  f'{float(err.max()) / step} steps')
    ctx.key(f'{sorted(v[5] for v in want.values())}{lsq}{keep}')


def sec_sync(ctx):
    """The fake quantizers of all graphs get the values of one."""
    from mmrazor.models.algorithms.quantization import MMArchitectureQuant
    from mmrazor.structures import QConfigHandler
    register()
    rng = ctx.rng
    cfg, lsq, _ = rand_qconfig(rng)
    handler = QConfigHandler(cfg)
    first = Chain(rng, handler)
    modes = ['tensor', 'predict', 'loss']
    qmodels = nn.ModuleDict({m: copy.deepcopy(first) for m in modes})
    stub = types.SimpleNamespace(qmodels=qmodels, forward_modes=tuple(modes))
    src = rng.choice(modes)
    for m in modes:  # every graph in its own state
        if m == src or rng.random() < .6:
            for _ in range(rng.randint(1, 2)):
                qmodels[m](torch.randn(3, 3, 6, 6) * rng.choice([.1, 1, 9]))
        with torch.no_grad():
            for p in qmodels[m].parameters():
                p.add_(torch.randn_like(p) * .1)
        if rng.random() < .5:
            from torch.ao.quantization import disable_observer
            qmodels[m].apply(disable_observer)
        if lsq:
            for f in fqs_of(qmodels[m]).values():
                f.scale.requires_grad = rng.random() < .5
    ids = {(m, n): (id(p), p.requires_grad) for m in modes
           for n, p in qmodels[m].named_parameters()}
    state = {m: {k: v.clone() for k, v in qmodels[m].state_dict().items()}
             for m in modes}
    resized = sum(state[m][k].shape != state[src][k].shape
                  for m in modes for k in state[m])
    for _ in range(rng.randint(1, 2)):
        with ctx.sut('sync_qparams'):
            MMArchitectureQuant.sync_qparams(stub, src)
    inside = set(fqs_of(first))
    for m in modes:
        now = qmodels[m].state_dict()
        ctx.check(set(now) == set(state[m]), 'keys', 'the state changed keys')
        for k, v in now.items():
            fq = any(k.startswith(n + '.') for n in inside)
            ref = state[src if fq else m][k]
            ctx.check(v.shape == ref.shape and torch.equal(v, ref),
                      'values' if fq else 'others',
                      lambda: f'{m} {k}: {v}, not {ref} (from {src})')
            if fq and m != src and v.numel():
                ctx.check(v.data_ptr() != qmodels[src].state_dict()[k]
                          .data_ptr(), 'aliased', f'{k} is shared')
        ctx.check(all(ids[m, n] == (id(p), p.requires_grad)
                      for n, p in qmodels[m].named_parameters()),
                  'parameters', 'parameters were replaced or switched')
    with torch.no_grad():
        for m in modes:
            with ctx.sut('a synchronised graph'):
                qmodels[m].eval()(torch.randn(2, 3, 6, 6))
    ctx.event('synced')
    ctx.event('resized', resized)
    # statistics reset
    with ctx.sut('reset_observer_and_fakequant_statistics'):
        MMArchitectureQuant.reset_observer_and_fakequant_statistics(
            stub, qmodels)
    for m in modes:
        for n, f in fqs_of(qmodels[m]).items():
            ctx.check(bool((f.scale == 1).all())
                      and bool((f.zero_point == 0).all()), 'reset',
                      lambda: f'{n}: {f.scale} {f.zero_point}')
            o = f.activation_post_process
            ctx.check(o.min_val.numel() == 0 or bool(
                torch.isinf(o.min_val).all()), 'reset_range',
                lambda: f'{n}: {o.min_val}')
    ctx.key(f'{cfg["w_observer"]}{src}')


def sec_bn(ctx):
    """Other batch norms become BatchNorm2d with the same function."""
    from mmengine.model.utils import revert_sync_batchnorm

    from mmrazor.models.quantizers import TorchNativeQuantizer
    register()
    rng = ctx.rng
    c = rng.randint(1, 5)

    def bn():
        kw = dict(eps=rng.choice([1e-5, 1e-2]),
                  momentum=rng.choice([.1, .3, None]),
                  affine=rng.random() < .8,
                  track_running_stats=rng.random() < .8)
        return rng.choice([nn.SyncBatchNorm, nn.SyncBatchNorm,
                           nn.BatchNorm2d])(c, **kw)

    model = nn.Sequential(nn.Conv2d(3, c, 3), bn(), nn.Sequential(
        nn.ReLU(), bn(), nn.ModuleDict({'x': bn()})['x']), bn())
    if rng.random() < .5:  # what reverting leaves behind
        for n in ('1', '3'):
            if isinstance(model.get_submodule(n), nn.SyncBatchNorm):
                setattr(model, n, revert_sync_batchnorm(
                    nn.Sequential(model.get_submodule(n)))[0])
    with torch.no_grad():
        for m in model.modules():
            if getattr(m, 'running_var', None) is not None:
                m.running_mean.normal_()
                m.running_var.uniform_(.3, 2)
                m.num_batches_tracked.fill_(rng.randint(0, 9))
            if not isinstance(m, nn.Conv2d) and \
                    getattr(m, 'weight', None) is not None:
                m.weight.uniform_(.5, 2)
                m.bias.normal_()
    model.train(rng.random() < .5)
    state = {k: v.clone() for k, v in model.state_dict().items()}
    modes = [m.training for m in model.modules()]
    opts = [(m.eps, m.momentum, m.affine, m.track_running_stats)
            for m in model.modules() if hasattr(m, 'eps')]
    with ctx.sut('convert_batchnorm2d'):
        TorchNativeQuantizer.convert_batchnorm2d(model)
    bns = [m for m in model.modules() if hasattr(m, 'eps')]
    ctx.check(all(type(m) is nn.BatchNorm2d for m in bns), 'converted',
              lambda: f'{[type(m) for m in bns]}')
    ctx.check([(m.eps, m.momentum, m.affine, m.track_running_stats)
               for m in bns] == opts, 'options', 'options changed')
    now = model.state_dict()
    ctx.check(set(now) == set(state) and all(
        torch.equal(now[k], state[k]) for k in state), 'state',
        'the trained values of batch norms were lost')
    ctx.check([m.training for m in model.modules()] == modes, 'training',
              'the mode of batch norms changed')
    ctx.event('converted_bn', len(bns))


# -------------------------------------------------------------------- loops


class Data(torch.utils.data.Dataset):

    def __init__(self, n, seed):
        g = torch.Generator().manual_seed(seed)
        self.x = torch.randn(n, 3, 6, 6, generator=g)
        self.y = torch.randint(0, 3, (n, ), generator=g)
        self.metainfo = {}

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        return dict(inputs=self.x[i], data_samples=self.y[i])


def make_model(rng, cfg):
    """(quantized algorithm, fake quantizers of it)."""
    from mmengine.model import BaseModel

    from mmrazor.structures import QConfigHandler
    handler = QConfigHandler(cfg)

    class Float(BaseModel):

        def __init__(self):
            super().__init__()
            self.conv = nn.Conv2d(3, 4, 3)
            self.fc = nn.Linear(4, 3)

        def forward(self, inputs, data_samples=None, mode='tensor'):
            if isinstance(inputs, (list, tuple)):
                inputs = torch.stack(list(inputs))
            y = self.fc(self.conv(inputs).relu().mean((2, 3)))
            return LOSS(y, data_samples, mode)

    class Quant(BaseModel):

        def __init__(self):
            super().__init__()
            self.architecture = Float()
            self.qmodels = nn.ModuleDict({m: Chain(rng, handler) for m in
                                          ['loss']})
            for m in ('tensor', 'predict'):
                self.qmodels[m] = copy.deepcopy(self.qmodels['loss'])
            self.log = []

        def sync_qparams(self, src_mode):
            self.log.append(('sync', src_mode))
            from mmrazor.models.algorithms.quantization import \
                MMArchitectureQuant
            self.forward_modes = ('tensor', 'predict', 'loss')
            MMArchitectureQuant.sync_qparams(self, src_mode)

        def calibrate_step(self, data):
            data = self.data_preprocessor(data, False)
            self.log.append(('calibrate', switches(self)))
            return self._run_forward(data, mode='predict')

        def forward(self, inputs, data_samples=None, mode='tensor'):
            if isinstance(inputs, (list, tuple)):
                inputs = torch.stack(list(inputs))
            self.log.append((mode, switches(self), self.training))
            return LOSS(self.qmodels[mode](inputs), data_samples, mode)

    return Quant()


def LOSS(y, data_samples, mode):
    if mode == 'loss':
        t = torch.as_tensor([int(d) for d in data_samples])
        return dict(loss=nn.functional.cross_entropy(y, t))
    return list(y.unbind(0)) if mode == 'predict' else y


def switches(model):
    """(fake quant, observer, learning) of all fake quantizers."""
    out = set()
    for f in fqs_of(model).values():
        lsq = hasattr(f, 'static_enabled')
        out.add((int(f.fake_quant_enabled),
                 int(f.static_enabled if lsq else f.observer_enabled),
                 int(f.learning_enabled) if lsq else None,
                 f.scale.requires_grad if lsq else None))
    return out


def make_runner(work, model, data, bs, train_cfg, val_cfg, hooks=(), lr=.005,
                test=None, **kw):
    import mmengine.runner.runner as mr
    from mmengine.evaluator import BaseMetric, Evaluator
    from mmengine.hooks import CheckpointHook
    from mmengine.runner import Runner

    class Acc(BaseMetric):

        def process(self, data_batch, data_samples):
            for y, t in zip(data_samples, data_batch['data_samples']):
                self.results.append((float(y.sum()), int(t)))

        def compute_metrics(self, results):
            return dict(total=sum(r[0] for r in results), n=len(results))

    mr.collect_env = lambda: {}

    def loader():
        return torch.utils.data.DataLoader(
            data, bs, collate_fn=lambda b: dict(
                inputs=[d['inputs'] for d in b],
                data_samples=[d['data_samples'] for d in b]))

    args = dict(
        model=model, work_dir=work, log_level='CRITICAL',
        train_dataloader=loader(), train_cfg=train_cfg,
        optim_wrapper=dict(type='OptimWrapper',
                           optimizer=dict(type='SGD', lr=lr)),
        default_hooks=dict(
            timer=dict(type='IterTimerHook'), logger=None,
            param_scheduler=None, sampler_seed=None,
            checkpoint=dict(type='CheckpointHook', interval=1,
                            save_optimizer=True)),
        visualizer=dict(type='Visualizer', vis_backends=[]),
        custom_hooks=list(hooks), default_scope='mmrazor',
        experiment_name=os.path.basename(work) + str(kw.pop('tag', '')),
        **kw)
    if val_cfg is not None:
        args.update(val_dataloader=loader(), val_cfg=val_cfg,
                    val_evaluator=Evaluator(Acc()))
    if test is not None:
        args.update(test_dataloader=loader(), test_evaluator=Evaluator(Acc()),
                    test_cfg=dict(test, calibrate_dataloader=loader()))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return Runner(**args), loader


class Watch:
    """A hook that records what holds at each point of a run."""

    def __new__(cls, *args):
        from mmengine.hooks import Hook

        class W(Hook):
            priority = 'VERY_LOW'

            def __init__(self):
                self.events = []

            def note(self, runner, what, **kw):
                m = runner.model
                m = getattr(m, 'module', m)
                self.events.append(dict(
                    what=what, epoch=runner.epoch, iter=runner.iter,
                    switches=switches(m), **kw))

            def before_train_iter(self, runner, **kw):
                m = runner.model
                m = getattr(m, 'module', m)
                m = m.qmodels['loss']
                self.note(runner, 'before_iter', frozen=frozen(m),
                          scales=scales(m), obs=observed(m))

            def after_train_iter(self, runner, **kw):
                m = runner.model
                m = getattr(m, 'module', m)
                m = m.qmodels['loss']
                self.note(runner, 'after_iter', scales=scales(m),
                          obs=observed(m))

            def before_val_epoch(self, runner):
                self.note(runner, 'val', training=runner.model.training)

            def after_val_epoch(self, runner, metrics=None):
                self.note(runner, 'metrics', metrics=dict(metrics))

            def after_train_epoch(self, runner):
                self.note(runner, 'end', log=len(runner.model.log) if hasattr(
                    runner.model, 'log') else 0)

            def after_test_epoch(self, runner, metrics=None):
                self.note(runner, 'tested', metrics=dict(metrics))

        return W()


def frozen(m):
    return {c.freeze_bn and not c.bn.training for c in m.modules()
            if hasattr(c, 'freeze_bn') and 'Linear' not in type(c).__name__}


def scales(m):
    return {n: f.scale.detach().clone() for n, f in fqs_of(m).items()}


def zeros_of(m):
    return {n: f.zero_point.detach().clone() for n, f in fqs_of(m).items()}


def observed(m):
    return {n: (f.activation_post_process.min_val.clone(),
                f.activation_post_process.max_val.clone())
            for n, f in fqs_of(m).items()}


def equal(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, tuple):
        return all(equal(p, q) for p, q in zip(a, b))
    return a.shape == b.shape and torch.equal(a, b)


def judge_train(ctx, events, lsq, cfg, begin, end, n_iter):
    """The trace of a run from epoch ``begin`` to ``end``."""
    its = [e for e in events if e['what'] == 'before_iter']
    ctx.check([(e['epoch'], e['iter']) for e in its] == [
        (k, k * n_iter + i) for k in range(begin, end)
        for i in range(n_iter)], 'iterations', lambda: 'trained '
        f'{[(e["epoch"], e["iter"]) for e in its]}, {begin}-{end} x {n_iter}')
    after = [e for e in events if e['what'] == 'after_iter']
    for k, (e, a) in enumerate(zip(its, after)):
        ctx.event('train_iters')
        epoch = e['epoch'] + 1
        fz = cfg.get('freeze_bn_begin', -1)
        want = fz > 0 and epoch >= fz
        ctx.check(not e['frozen'] or e['frozen'] == {want}, 'frozen',
                  lambda: f'batch norm frozen {e["frozen"]} in epoch {epoch}, '
                  f'from {fz}')
        if lsq:
            first = begin == 0 and k == 0
            ctx.event('first_batches', first)
            want = {(1, 1, 0, False)} if first else {(1, 0, 1, True)}
            # the switch is thrown after the hooks before the iteration
            got = a['switches']
            ctx.check(got == want, 'lsq_switches', lambda: f'iteration {k} '
                      f'(run from {begin}): switches {got}, not {want}')
            if not first:
                ctx.check(equal(e['obs'], a['obs']), 'lsq_observed',
                          'observers were fed after the first batch')
                if k and its[k - 1]['epoch'] == e['epoch']:
                    ctx.check(equal(after[k - 1]['scales'], e['scales'])
                              or k == 1 and begin == 0, 'lsq_scales',
                              'a scale changed between iterations')
        else:
            dis = cfg.get('disable_observer_begin', -1)
            on = not (dis > 0 and epoch >= dis)
            got = {s[:2] for s in a['switches']}
            ctx.check(got == {(1, int(on))}, 'qat_switches', lambda: f'epoch '
                      f'{epoch}: switches {got}, observers on: {on}')
            ctx.check(on or equal(e['obs'], a['obs']), 'qat_observed',
                      'disabled observers were fed')
    for e in events:
        if e['what'] in ('val', 'end'):
            got = {s[:3] for s in e['switches']}
            want = {(1, 0, 0)} if lsq else {(1, 0, None)}
            ctx.check(got == want, 'val_switches', lambda: f'{e["what"]}: '
                      f'switches {got}, not {want}')
            ctx.event('epochs', e['what'] == 'end')
    vals = sorted({e['epoch'] for e in events if e['what'] == 'val'})
    vb, vi = cfg.get('val_begin', 1), cfg.get('val_interval', 1)
    dyn = cfg.get('dynamic_intervals') or []

    def every(k):
        return ([vi] + [i for at, i in dyn if k + 1 >= at])[-1]
    # (mmengine decides after an epoch for the one that comes)
    want = [k for k in range(begin + 1, end + 1)
            if k >= vb and k % every(k) == 0]
    ctx.check(vals == want, 'val_epochs', lambda: f'validated after {vals}, '
              f'to be {want}')


def forward_sums(model, data, which):
    with torch.no_grad():
        net = model.qmodels['predict'] if which == 'qat' else \
            model.architecture
        y = net(data.x)
    return float(y.sum())


def sec_loops(ctx):
    """QAT and LSQ training in real runners, interrupted or not."""
    from mmengine.logging import MMLogger
    register()
    rng = ctx.rng
    cfg, lsq, _ = rand_qconfig(rng)
    work = tempfile.mkdtemp(prefix='rv-qat-')
    try:
        model = make_model(rng, cfg)
        model.qmodels['loss'](torch.randn(4, 3, 6, 6))  # shapes of the scales
        model.sync_qparams('loss')
        n, bs = rng.randint(4, 9), rng.choice([2, 3])
        data = Data(n, ctx.case_seed)
        n_iter = math.ceil(n / bs)
        if n % bs == 1:  # batch norm of one sample
            data = Data(n + 1, ctx.case_seed)
            n_iter = math.ceil((n + 1) / bs)
        epochs = rng.randint(1, 4)
        tcfg = dict(type='mmrazor.LSQEpochBasedLoop' if lsq else
                    'mmrazor.QATEpochBasedLoop', max_epochs=epochs,
                    val_begin=rng.randint(1, 2),
                    val_interval=rng.randint(1, 2),
                    freeze_bn_begin=rng.choice([-1, -1, 1, 2, 3]))
        if not lsq:
            tcfg['disable_observer_begin'] = rng.choice([-1, 1, 2, 3])
        if rng.random() < .4:
            # from an epoch on it is validated at other intervals
            at = rng.randint(2, 3)
            tcfg['dynamic_intervals'] = [(at, 3 - tcfg['val_interval'])]
        val = dict(type='mmrazor.QATValLoop')
        stop = rng.randint(1, epochs - 1) if epochs > 1 and \
            rng.random() < .6 else None
        watch = Watch()
        start = copy.deepcopy(model)
        model.log.clear()
        with ctx.sut('training'):
            first = dict(tcfg, max_epochs=stop or epochs)
            runner, _ = make_runner(work, model, data, bs, first, val,
                                    [watch], tag='a')
            runner.train()
        judge_train(ctx, watch.events, lsq, tcfg, 0, stop or epochs, n_iter)
        judge_metrics(ctx, watch.events)
        syncs = [e for e in model.log if e[0] == 'sync']
        ctx.check(syncs == [('sync', 'loss')] * (stop or epochs), 'synced',
                  lambda: f'{syncs}')
        if lsq:
            ev = [e for e in watch.events if e['what'] == 'after_iter'][0]
            # the observers decide the first scales
            twin = copy.deepcopy(start)
            for f in fqs_of(twin).values():
                f.enable_static_estimate()
            if tcfg['freeze_bn_begin'] == 1:
                from torch.ao.nn.intrinsic.qat import freeze_bn_stats
                twin.apply(freeze_bn_stats)
            twin.train()
            if tcfg['freeze_bn_begin'] == 1:
                twin.apply(freeze_bn_stats)
            twin(data.x[:bs], data.y[:bs], 'loss')
            ctx.check(all(torch.allclose(v, scales(twin.qmodels['loss'])[k],
                                         1e-3, 1e-7)
                          for k, v in ev['scales'].items()), 'lsq_first',
                      'the first scales are not those of the observers')
        ck = torch.load(os.path.join(work, f'epoch_{stop or epochs}.pth'))
        judge_saved(ctx, ck['state_dict'], lsq)
        judge_saved_modes(ctx, ck['state_dict'])
        if stop:
            other = copy.deepcopy(start)
            w2 = Watch()
            MMLogger._instance_dict.clear()
            runner2, _ = make_runner(work, other, data, bs, tcfg, val, [w2],
                                     tag='b', resume=True)
            with ctx.sut('resumed training'):
                runner2.train()
            ctx.event('resumes')
            judge_train(ctx, w2.events, lsq, tcfg, stop, epochs, n_iter)
            judge_metrics(ctx, w2.events)
            # and the uninterrupted run comes to the same
            third = copy.deepcopy(start)
            w3 = Watch()
            MMLogger._instance_dict.clear()
            runner3, _ = make_runner(
                os.path.join(work, 'whole'), third, data, bs, tcfg, val, [w3],
                tag='c')
            with ctx.sut('training'):
                runner3.train()
            a, b = other.state_dict(), third.state_dict()
            bad = [k for k in a if a[k].shape != b[k].shape or
                   not torch.allclose(a[k].double(), b[k].double(), 1e-4,
                                      1e-6)]
            ctx.check(not bad, 'resumed', lambda: f'the resumed run differs '
                      f'from the uninterrupted one in {bad[:4]}')
    finally:
        MMLogger._instance_dict.clear()
        shutil.rmtree(work, ignore_errors=True)
    ctx.key(f'{cfg["w_observer"]}{tcfg["freeze_bn_begin"]}{bool(stop)}')


def judge_saved(ctx, state, lsq):
    ctx.event('saved')
    for k, v in state.items():
        leaf = k.split('.')[-1]
        if leaf == 'observer_enabled' and \
                k.replace('observer_', 'static_') in state:
            continue  # the learnable ones have their own switch
        if leaf in ('static_enabled', 'observer_enabled',
                    'learning_enabled'):
            ctx.check(int(v) == 0, 'saved_switches', f'{k} is on in the '
                      'checkpoint')
        elif leaf == 'fake_quant_enabled':
            ctx.check(int(v) == 1, 'saved_switches', f'{k} is off in the '
                      'checkpoint')


def judge_saved_modes(ctx, state):
    """The fake quantizers of all modes are saved alike."""
    tail = '.fake_quant_enabled'
    for k in [k for k in state if k.startswith('qmodels.loss.') and
              k.endswith(tail)]:
        of = k[:-len(tail) + 1]
        for q in [q for q in state if q.startswith(of)]:
            for mode in ('tensor', 'predict'):
                o = q.replace('qmodels.loss.', f'qmodels.{mode}.', 1)
                ctx.check(o in state and torch.equal(state[o], state[q]),
                          'saved_modes', f'{o} of the checkpoint is not that '
                          'of the mode trained')
                ctx.event('saved_modes')


def judge_metrics(ctx, events):
    """Each validation reports the quantized and the float model."""
    ms = [e['metrics'] for e in events if e['what'] == 'metrics']
    for a, b in zip(ms[::2], ms[1::2]):
        ctx.event('validations')
        ctx.check(set(a) == {'qat.total', 'qat.n'}
                  and set(b) == {'original.total', 'original.n'}, 'metrics',
                  lambda: f'{a} {b}')
    ctx.check(len(ms) % 2 == 0, 'metrics', 'a validation misses one model')


def sec_ptq(ctx):
    """Validation and post training quantization in a real runner."""
    from mmengine.logging import MMLogger
    register()
    rng = ctx.rng
    cfg, lsq, _ = rand_qconfig(rng, lsq=False)
    work = tempfile.mkdtemp(prefix='rv-ptq-')
    try:
        model = make_model(rng, cfg)
        heat(model)
        n, bs = rng.randint(3, 9), rng.choice([1, 2, 3])
        data = Data(n, ctx.case_seed)
        n_iter = math.ceil(n / bs)
        steps = rng.choice([1, 2, n_iter, 32])
        only = rng.random() < .25
        if rng.random() < .5 or only:
            for m in model.qmodels.values():
                m.eval()(torch.randn(2, 3, 6, 6))
        watch = Watch()
        MMLogger._instance_dict.clear()
        runner, loader = make_runner(
            work, model, data, bs, dict(by_epoch=True, max_epochs=1),
            dict(type='mmrazor.QATValLoop'), [watch], test=dict(
                type='mmrazor.PTQLoop', calibrate_steps=steps, only_val=only))
        twin = copy.deepcopy(model)
        model.log.clear()
        with ctx.sut('PTQ'):
            metrics = runner.test()
        calls = [e for e in model.log if e[0] == 'calibrate']
        k = 0 if only else min(steps, n_iter)
        ctx.check(len(calls) == k, 'calibrated', lambda: f'{len(calls)} '
                  f'batches calibrated, {k} asked for')
        ctx.event('calibrated', k > 0)
        ctx.check(all({s[:2] for s in e[1]} == {(1, 1)} for e in calls),
                  'calibrate_switches', lambda: f'{calls}')
        preds = [e for e in model.log if e[0] == 'predict'][k:]
        ctx.check(len(preds) == n_iter and all(
            {s[:2] for s in e[1]} == {(1, 0)} and not e[2] for e in preds),
            'val_switches', lambda: f'evaluated with {preds}')
        # the same calibration by hand
        from torch.ao.quantization import (disable_observer,
                                           enable_fake_quant,
                                           enable_observer)
        twin.eval()
        twin.apply(enable_fake_quant)
        twin.apply(enable_observer)
        with torch.no_grad():
            for i in range(k):
                twin.qmodels['predict'](data.x[i * bs:(i + 1) * bs])
        twin.apply(disable_observer)
        now, ref = search.state(model), search.state(twin)
        ctx.check(search.same_state(now, ref), 'calibration',
                  'the calibrated model is another one')
        want = {f'{p}.total': 0. for p in ('qat', 'original')}
        with torch.no_grad():
            for i in range(n_iter):
                x = data.x[i * bs:(i + 1) * bs]
                want['qat.total'] += float(twin.qmodels['predict'](x).sum())
                want['original.total'] += float(twin.architecture(x).sum())
        ms = {}
        for e in watch.events:
            if e['what'] == 'metrics':
                ms.update(e['metrics'])
        judge_metrics(ctx, watch.events)
        for where, got in (('reported', ms), ('returned', metrics)):
            ctx.check(all(abs(got.get(q, 1e9) - v) <= 1e-3 * (1 + abs(v))
                          for q, v in want.items()), where,
                      lambda: f'{got}, {want} expected')
            ctx.check(got.get('qat.n') == n, where + '_n',
                      lambda: f'{got} of {n} samples')
        saved = os.path.join(work, runner.timestamp, 'model_ptq.pth')
        ctx.check(os.path.exists(saved) == (not only), 'saved',
                  'the quantized model was not saved')
        if not only and os.path.exists(saved):
            st = torch.load(saved)['state_dict']
            judge_saved(ctx, st, False)
            ctx.check(all(torch.equal(v, ref[q]) for q, v in st.items()
                          if q in ref), 'saved_values',
                      'the saved model is not the calibrated one')
    finally:
        MMLogger._instance_dict.clear()
        shutil.rmtree(work, ignore_errors=True)
    ctx.key(f'{cfg["a_observer"]}{steps}{only}')


def sec_ranks(ctx):
    """All ranks train LSQ with the same quantization parameters."""
    register()
    rng = ctx.rng
    cfg, _, _ = rand_qconfig(rng, lsq=True)
    cfg['a_qscheme']['is_symmetry'] = rng.random() < .3
    world = 2
    seed = ctx.case_seed
    base = make_model(rng, cfg)
    base.qmodels['loss'](torch.randn(4, 3, 6, 6))
    base.sync_qparams('loss')

    def job(rank):
        from mmengine.model import MMDistributedDataParallel

        from mmrazor.engine import LSQEpochBasedLoop
        torch.set_num_threads(1)

        class DDP(MMDistributedDataParallel):

            def sync_qparams(self, src_mode):
                self.module.sync_qparams(src_mode)

        model = DDP(base, find_unused_parameters=True)
        r = search.Runner(model, '.')
        data = Data(8, seed + 1 + rank)
        data.x *= 1 + rank
        data.x += rank * .5
        ld = torch.utils.data.DataLoader(data, 2, collate_fn=lambda b: dict(
            inputs=[d['inputs'] for d in b],
            data_samples=[d['data_samples'] for d in b]))
        from mmengine.optim import OptimWrapper
        r.optim_wrapper = OptimWrapper(torch.optim.SGD(
            model.parameters(), lr=.05))
        r.val_loop = None
        loop = LSQEpochBasedLoop(r, ld, max_epochs=1)
        loop.run()
        m = base.qmodels['loss']
        return ({k: v.tolist() for k, v in scales(m).items()},
                {k: v.tolist() for k, v in zeros_of(m).items()})

    with ctx.sut('training on two ranks'):
        res = ranks.run(world, job, 120)
    ctx.event('rank_runs')
    for i, what in ((0, 'scales'), (1, 'zero_points')):
        bad = [k for k in res[0][i] if res[0][i][k] != res[1][i][k]]
        ctx.check(not bad, f'rank_{what}', lambda: f'ranks disagree: '
                  f'{bad[0]} {res[0][i][bad[0]]} {res[1][i][bad[0]]}')


SECTIONS = {
    'trace': (sec_trace, 60, 1200),
    'graph': (sec_graph, 140, 3000),
    'redundant': (sec_redundant, 100, 2500),
    'export': (sec_export, 100, 2500),
    'deploy': (sec_deploy, 120, 2500),
    'sync': (sec_sync, 80, 1600),
    'bn': (sec_bn, 40, 800),
    'loops': (sec_loops, 24, 240),
    'ptq': (sec_ptq, 24, 240),
    'ranks': (sec_ranks, 3, 16),
}
