"""C27: graphs, channel sets and traced data flow."""
import copy

import torch

from rv.nets import GraphNet, describe, init_net
from rv.prune import close, tracer_spec, tup

ID = 'C27'
RULE = (
    'random sequences of operations on graphs, channel sets and range '
    'dictionaries, each step against a plain model; random networks pushed '
    'through both tracers, the resulting graphs against the data flow of the '
    'definition of the network')
ASSUMPTIONS = [
    'graphs stay acyclic',
    'networks stay inside the operators the pruning docs list as supported',
]
REQUIRED_EVENTS = {'steps': 2000, 'orders': 40, 'unions': 1000, 'ranges': 400,
                   'edges': 300, 'copies': 20, 'overlaps': 40,
                   'graphs_run': 20, 'wrapped_calls': 50}


# ------------------------------------------------------------------- ranges

def ranges(ctx):
    from mmrazor.utils import IndexDict
    rng = ctx.rng
    d, ref = IndexDict(), {}
    top = rng.choice([6, 12, 30])
    ctx.key('ranges', top)
    for _ in range(40):
        a, b = rng.randint(0, top), rng.randint(0, top)
        ctx.event('ranges')
        op = rng.random()
        hit = any(s < b and a < e for s, e in ref)
        if a < b and op < .35:
            with ctx.sut('in'):
                c = (a, b) in d
            ctx.check(c == hit, 'range-contains', lambda:
                      f'{(a, b)} in {sorted(ref)} is {c}')
        if op < .6 and a < b and (a, b) not in ref:
            v = object()
            if hit:
                ctx.event('overlaps')
                with ctx.rejects('range-overlap', AssertionError):
                    d[(a, b)] = v
            else:
                with ctx.sut('set'):
                    d[(a, b)] = v
                ref[(a, b)] = v
        elif op < .7 and a >= b:
            with ctx.rejects('range-empty', AssertionError):
                d[(a, b)] = 1
        elif op < .85 and ref:
            k = rng.choice(sorted(ref))
            with ctx.sut('pop'):
                if rng.random() < .5:
                    v = d.pop(k)
                else:
                    v = d[k]
                    del d[k]
            ctx.check(v is ref.pop(k), 'range-value', f'{k}')
        elif op > .97:
            d, ref = copy.copy(d), dict(ref)
        ctx.check(list(d.keys()) == sorted(ref) and all(
            d[k] is v for k, v in ref.items()) and len(d) == len(ref),
            'range-content', lambda: f'{list(d)}, want {sorted(ref)}')


# ------------------------------------------------------------------- graphs

def graph_ops(ctx):
    from mmrazor.structures.graph.base_graph import BaseGraph, BaseNode
    rng = ctx.rng
    g = BaseGraph()
    vals, prev, nxt, nodes = {}, {}, {}, {}
    names = [f'n{i}' for i in range(rng.randint(3, 12))]
    rank = {n: i for i, n in enumerate(rng.sample(names, len(names)))}
    ctx.key('graph', len(names))

    def judge(h, where):
        ctx.event('steps')
        ctx.check(list(h.nodes) == list(vals) or where == 'copy' and
                  set(h.nodes) == set(vals), f'{where}:nodes', lambda:
                  f'{list(h.nodes)}, want {list(vals)}')
        ctx.check(len(h) == len(vals) and
                  [x.name for x in h] == list(h.nodes), f'{where}:nodes',
                  'iteration')
        for x in h:
            ctx.check(x.val is vals[x.name], f'{where}:value', x.name)
            p = [y.name for y in x.prev_nodes]
            q = [y.name for y in x.next_nodes]
            ctx.check(sorted(p) == sorted(prev[x.name]) and
                      sorted(q) == sorted(nxt[x.name]), f'{where}:edges',
                      lambda: f'{x.name}: {p} -> {q}, want {prev[x.name]} '
                      f'-> {nxt[x.name]}')
            for y in list(x.prev_nodes) + list(x.next_nodes):
                ctx.check(y is h.nodes.get(y.name), f'{where}:foreign',
                          f'{y.name} is not of this graph')
    for _ in range(30):
        op = rng.random()
        if op < .35 or not vals:
            n = rng.choice(names)
            v = vals.get(n) if rng.random() < .7 else None
            v = v or object()
            node = BaseNode(n, v)
            if n not in vals:
                with ctx.sut('add'):
                    if rng.random() < .5:
                        g.add_node(node)
                        got = node
                    else:
                        got = g.add_or_find_node(node)
                ctx.check(got is g.nodes.get(n), 'add', n)
                vals[n], prev[n], nxt[n], nodes[n] = v, [], [], got
            elif v is vals[n]:
                with ctx.sut('find'):
                    got = g.add_or_find_node(node)
                    f = g.find_node(node)
                ctx.check(got is nodes[n] and f is nodes[n], 'find', n)
                with ctx.rejects('add-twice'):
                    g.add_node(node)
            else:
                ctx.check(g.find_node(node) is None, 'find-other-value', n)
                with ctx.rejects('add-other-value'):
                    g.add_or_find_node(node)
            ctx.check((node in g) == (n in vals), 'contains', n)
        elif op < .75:
            a, b = sorted(rng.choices(list(vals), k=2), key=rank.get)
            if a == b:
                continue
            x, y = nodes[a], nodes[b]
            if rng.random() < .3:  # by an equal node
                x = BaseNode(a, vals[a])
            how = rng.random()
            if how < .7:
                with ctx.sut('connect'):
                    if how < .4 or x is not nodes[a]:
                        g.connect(x, y)
                    elif how < .55:
                        x.add_next_node(y)
                    else:
                        y.add_prev_node(x)
                if b not in nxt[a]:
                    nxt[a].append(b)
                    prev[b].append(a)
            else:
                with ctx.sut('disconnect'):
                    g.disconnect(x, y)
                if b in nxt[a]:
                    nxt[a].remove(b)
                    prev[b].remove(a)
        elif op < .85:
            n = rng.choice(list(vals))
            p, q = list(prev[n]), list(nxt[n])
            if len(p) > 1 and len(q) > 1:
                with ctx.rejects('delete-many'):
                    g.delete_node(nodes[n])
            else:
                with ctx.sut('delete'):
                    g.delete_node(nodes[n])
                for a in p:
                    nxt[a].remove(n)
                for b in q:
                    prev[b].remove(n)
                for a in p:
                    for b in q:
                        if b not in nxt[a]:
                            nxt[a].append(b)
                            prev[b].append(a)
                for m in (vals, prev, nxt, nodes):
                    m.pop(n)
        elif op < .93:
            with ctx.sut('topo'):
                order = [x.name for x in g.topo_traverse()]
            ctx.event('orders')
            at = {n: i for i, n in enumerate(order)}
            ctx.check(sorted(order) == sorted(vals) and all(
                at[a] < at[b] for a in nxt for b in nxt[a]), 'topo-order',
                lambda: f'{order} for {nxt}')
            if rng.random() < .5:
                with ctx.sut('sort'):
                    g.topo_sort()
                ctx.check(sorted(g.nodes) == sorted(vals), 'topo-sort', 'lost')
                at = {n: i for i, n in enumerate(g.nodes)}
                ctx.check(all(at[a] < at[b] for a in nxt for b in nxt[a]),
                          'topo-sort', lambda: f'{list(g.nodes)} for {nxt}')
                for m in (vals, prev, nxt):
                    m.update({k: m.pop(k) for k in g.nodes})
        else:
            with ctx.sut('copy'):
                h = BaseGraph.copy_from(g)
            ctx.event('copies')
            judge(h, 'copy')
            ctx.check(not any(a is b for a in h for b in g), 'copy:shared',
                      'nodes are shared')
            with ctx.sut('copy-change'):
                for x in list(h):
                    for y in list(x.next_nodes):
                        h.disconnect(x, y)
        judge(g, 'graph')


# ----------------------------------------------------------------- channels

class UF:

    def __init__(self):
        self.p = {}

    def find(self, x):
        self.p.setdefault(x, x)
        while self.p[x] != x:
            x = self.p[x]
        return x

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        self.p[b] = a


def channels(ctx):
    from mmrazor.structures.graph.channel_flow import (ChannelElem,
                                                       ChannelTensor)
    rng = ctx.rng
    uf = UF()
    tensors = []  # (tensor, ids of its elements)
    ident = {}  # id of elem -> elem

    def fresh(t):
        # the elements a new tensor owns itself
        out = []
        for e in t.elems:
            k = next((i for i, x in ident.items() if x is e), None)
            if k is None:
                k = len(ident)
                ident[k] = e
                uf.find(k)
            out.append(k)
        return out

    def add(t):
        tensors.append((t, fresh(t)))

    for _ in range(rng.randint(2, 4)):
        add(ChannelTensor(rng.randint(1, 8)))
    ctx.key('channels', len(tensors))
    for _ in range(rng.randint(5, 25)):
        op = rng.random()
        t, ids = rng.choice(tensors)
        if op < .3:
            same = [x for x in tensors if len(x[1]) == len(ids)]
            u, ids2 = rng.choice(same)
            with ctx.sut('union'):
                if rng.random() < .5:
                    t.union(u)
                else:
                    ChannelTensor.union_two(t, u)
            for a, b in zip(ids, ids2):
                uf.union(a, b)
                ctx.event('unions')
            other = [x for x in tensors if len(x[1]) != len(ids)]
            if other and rng.random() < .3:
                with ctx.rejects('union-length', AssertionError):
                    t.union(rng.choice(other)[0])
        elif op < .5:
            i, j = rng.randrange(len(ids)), rng.choice(sorted(ident))
            with ctx.sut('union-elem'):
                if rng.random() < .5:
                    t[i].union(ident[j])
                else:
                    ChannelElem.union_two(t[i], ident[j])
            uf.union(ids[i], j)
            ctx.event('unions')
        elif op < .65:
            parts = [rng.choice(tensors) for _ in range(rng.randint(1, 3))]
            with ctx.sut('cat'):
                c = parts[0][0] + parts[1][0] if len(parts) == 2 \
                    else ChannelTensor.cat([p[0] for p in parts])
            want = [k for p in parts for k in p[1]]
            ctx.check(fresh(c) == want and len(c) == len(want), 'cat',
                      'other elements')
            if len(want) <= 40:
                add(c)
        elif op < .8:
            a = rng.randint(0, len(ids) - 1)
            b = rng.randint(a + 1, len(ids))
            with ctx.sut('slice'):
                c = t[a:b]
            ctx.check(fresh(c) == ids[a:b], 'slice', 'other elements')
            add(c)
        elif len(ids) < 12:
            r = rng.randint(1, 3)
            with ctx.sut('expand'):
                c = t.expand(r)
            ctx.check(len(c) == r * len(ids), 'expand', f'{len(c)}')
            add(c)
            new = tensors[-1][1]
            ctx.check(not set(new) & set(ids), 'expand', 'shares elements')
            for i, k in enumerate(ids):
                for j in range(r):
                    uf.union(k, new[i * r + j])
                    ctx.event('unions')
        # the sets
        groups = {}
        for k in ident:
            groups.setdefault(uf.find(k), set()).add(k)
        back = {id(e): k for k, e in ident.items()}
        roots = {}
        for g in groups.values():
            k = rng.choice(sorted(g))
            with ctx.sut('set'):
                own = ident[k].owing_elem_set
                rs = {id(ident[i].root) for i in g}
            ctx.event('steps')
            ctx.check({back.get(id(e)) for e in own} == g, 'channel-set',
                      lambda: f'{len(own)} elements, want {len(g)}')
            ctx.check(len(rs) == 1 and back.get(min(rs)) in g,
                      'channel-root', f'{len(rs)} roots of one set')
            roots.update(dict.fromkeys(rs))
        ctx.check(len(roots) == len(groups), 'channel-root', 'shared')
        for t, ids in tensors:
            ctx.check([back.get(id(e)) for e in t] == ids, 'tensor-elems',
                      'changed')
    # ranges of channels that are in the same tensors
    sets = {}
    for k, e in ident.items():
        sets.setdefault(uf.find(k), set()).add(id(e.owing_tensor))
    for t, ids in tensors:
        with ctx.sut('hash'):
            d = t.elems_hash_dict
        ctx.event('ranges')
        at = 0
        for (a, b), h in d.items():
            ctx.check(a == at and b > a, 'channel-ranges', lambda:
                      f'{list(d)} of {len(ids)}')
            at = b
            ctx.check(len({frozenset(sets[uf.find(k)])
                           for k in ids[a:b]}) == 1, 'channel-ranges',
                      'channels of other tensors in one range')
            ctx.check(all(e.elem_set_hash == h for e in t.elems[a:b]),
                      'channel-ranges', 'another hash')
        ctx.check(at == len(ids), 'channel-ranges', lambda:
                  f'{list(d)} of {len(ids)}')


# ------------------------------------------------------------------ tracers

def flow(spec, kinds):
    """module -> nearest modules (of these kinds) its input comes from."""
    src, edges = {-1: {'input'}}, {}

    def visit(name, ins):
        edges.setdefault(name, set()).update(ins)
        return {name}
    for n in spec['nodes']:
        ins = set().union(*[src[i] for i in n['ins']])
        if n['op'] == 'convmodule':
            a = n['args']
            p = f'body.{n["mod"]}.'
            out = visit(p + 'conv', ins)
            if a['bn']:
                out = visit(p + 'bn', out)
            if a['act'] and 'act' in kinds:
                out = visit(p + 'activate', out)
        elif n['mod'] and (n['op'] in kinds or 'act' in kinds):
            out = visit(f'body.{n["mod"]}', ins)
        else:
            out = ins
        src[n['id']] = out
    outs = set().union(*[src[o] for o in spec['outs']])
    return edges, outs


def contract(graph, model, keep):
    """The same from a module graph: only modules for which keep is true."""
    name = {id(m): n for n, m in model.named_modules()}
    src, edges, outs = {}, {}, set()
    order = list(graph.topo_traverse())
    for x in order:
        ins = set().union(set(), *[src[y.name] for y in x.prev_nodes])
        if isinstance(x.val, torch.nn.Module) and keep(x.val):
            n = name[id(x.val)]
            edges.setdefault(n, set()).update(ins)
            src[x.name] = {n}
        elif x.is_input():
            src[x.name] = {'input'}
        else:
            src[x.name] = ins
        if x.is_output():
            outs |= ins
    return edges, outs


MAIN = (torch.nn.Conv2d, torch.nn.Linear,
        torch.nn.modules.batchnorm._BatchNorm)


def compare(ctx, got, want, spec, mech):
    (e1, o1), (e2, o2) = got, want
    ctx.check(set(e1) == set(e2), f'{mech}:modules', lambda:
              f'{sorted(set(e1) ^ set(e2))} of {describe(spec)}')
    for n in e2:
        ctx.event('edges', len(e2[n]))
        ctx.check(e1[n] == e2[n], f'{mech}:edges', lambda:
                  f'{n} gets {sorted(e1[n])}, want {sorted(e2[n])} in '
                  f'{describe(spec)}')
    ctx.check(o1 == o2, f'{mech}:outputs', lambda:
              f'{sorted(o1)}, want {sorted(o2)} in {describe(spec)}')


def fx(ctx):
    from mmrazor.models.task_modules.tracer import ChannelAnalyzer
    from mmrazor.structures.graph.module_graph import FxTracerToGraphConverter
    from mmrazor.structures.graph.pseudo_fx_graph import parse_torch_graph
    rng = ctx.rng
    spec = tracer_spec(rng, 'FxTracer', multi=rng.random() < .3)
    net = init_net(GraphNet(spec), ctx.case_seed).eval()
    x = torch.randn(2, spec['cin'], net.hw, net.hw)
    ctx.key('fx', describe(spec))
    with torch.no_grad():
        y = tup(net(x))
    before = copy.deepcopy(net.state_dict())
    an = ChannelAnalyzer((1, 3, net.hw, net.hw), 'FxTracer')
    with ctx.sut('trace'):
        graph = an._fx_trace(net)
        gm = torch.fx.GraphModule(net, graph)
    with torch.no_grad(), ctx.sut('run-graph'):
        y2 = tup(gm(x))
    ctx.event('graphs_run')
    ctx.check(len(y) == len(y2) and all(close(a, b) for a, b in zip(y, y2)),
              'fx:output', 'the traced graph computes something else')
    ctx.check(all(torch.equal(v, net.state_dict()[k])
                  for k, v in before.items()), 'fx:state', 'changed')
    ctx.check(not net.training, 'fx:mode', 'changed')
    graph.owning_module = net
    with ctx.sut('convert'):
        base = parse_torch_graph(graph)
        g = FxTracerToGraphConverter(base, net).graph
        g._model = net
        g.refresh_module_name()
    for node in g:
        if isinstance(node.val, torch.nn.Module):
            ctx.check(dict(net.named_modules())[node.module_name] is node.val,
                      'fx:module-name', node.module_name)
    # order of the inputs of every call
    for node in graph.nodes:
        have = [p.name for p in g.nodes[node.name].prev_nodes]
        ctx.check(have == [p.name for p in node.all_input_nodes],
                  'fx:input-order', lambda: f'{node}: {have}')
    compare(ctx, contract(g, net, lambda m: isinstance(m, MAIN)),
            flow(spec, ('conv', 'bn', 'linear')), spec, 'fx')
    n0 = len(g)
    with ctx.sut('check'):
        g.check(fix=True)
        g.check()
    ctx.check(len(g) - n0 <= 2, 'fx:fixed', 'added nodes')


def backward(ctx):
    from mmrazor.models.task_modules.tracer import ChannelAnalyzer
    from mmrazor.structures.graph.module_graph import PathToGraphConverter
    rng = ctx.rng
    spec = tracer_spec(rng, 'BackwardTracer', group=True, multi=False)
    net = init_net(GraphNet(spec), ctx.case_seed).eval()
    ctx.key('backward', describe(spec))
    an = ChannelAnalyzer((1, 3, net.hw, net.hw), 'BackwardTracer')
    net.train(rng.random() < .5)
    for p in net.parameters():
        p.requires_grad = rng.random() < .8
    grads = [p.requires_grad for p in net.parameters()]
    before = copy.deepcopy(net.state_dict())
    with ctx.sut('trace'):
        paths = an.tracer.trace(net)
        g = PathToGraphConverter(paths, net).graph
        g.refresh_module_name()
    ctx.check(all(torch.equal(v, net.state_dict()[k])
                  for k, v in before.items()), 'backward:state', 'changed')
    ctx.check(all(p.grad is None or not p.grad.any()
                  for p in net.parameters()), 'backward:grad', 'left behind')
    ctx.check(grads == [p.requires_grad for p in net.parameters()],
              'backward:flags', 'requires_grad changed')
    ctx.check(not any(m._forward_hooks or hasattr(m, '_cnt')
                      for m in net.modules()), 'backward:hooks', 'left behind')
    with ctx.sut('check'):
        g.check(fix=True)
        g.check()
    for x in g:
        if isinstance(x.val, MAIN):
            ctx.check(len(x.prev_nodes) == 1, 'backward:bound', lambda:
                      f'{x} has {len(x.prev_nodes)} inputs')
    compare(ctx, contract(g, net, lambda m: isinstance(m, MAIN)),
            flow(spec, ('conv', 'bn', 'linear')), spec, 'backward')


def patched():
    """Everything the tracer wraps while it traces."""
    import math

    import torch.nn.functional as F

    from rv import wrapped as W
    out = {}
    for n, v in list(W.__dict__.items()):
        if callable(v):
            out['wrapped', n] = v
    for cls in (W.Block, W.Dyn, W.Net, torch.nn.Conv2d, torch.nn.Module,
                torch.nn.BatchNorm2d):
        for n, v in list(cls.__dict__.items()):
            out[cls.__name__, n] = v
    for mod in (torch, F, torch.Tensor, math):
        for n, v in list(mod.__dict__.items()):
            if callable(v):
                out[mod.__name__, n] = v
    return out


def untraceable(ctx):
    """Functions that depend on data become calls; nothing stays patched."""
    from mmrazor.models.task_modules.tracer import ChannelAnalyzer
    from rv import wrapped as W
    from rv.prune import make_mutator
    rng = ctx.rng
    ops = []
    for i in range(rng.randint(2, 6)):
        kind = rng.choice(['block', 'dyn', 'branchy', 'looped', 'joined',
                           'plain', 'add'])
        k = 2 if kind in ('joined', 'add') else 1
        src = [len(ops) if rng.random() < .7 else rng.randint(0, len(ops))
               for _ in range(k)]
        ops.append((kind, src))
    ctx.key('untraceable', str(ops))
    ctx.sample(dict(ops=ops))
    net = init_net(W.Net(ops, rng.choice([4, 8])), ctx.case_seed).eval()
    x = torch.randn(2, 3, 8, 8)
    want = net(x)
    before = patched()
    with ctx.sut('trace'):
        graph = ChannelAnalyzer((1, 3, 8, 8), 'FxTracer')._fx_trace(net)

    def clean(when):
        after = patched()
        off = [k for k in before if after.get(k) is not before[k]]
        ctx.check(not off and set(after) == set(before), 'fx:left-patched',
                  lambda: f'{when}: {off[:4]}')
    clean('trace')
    fns = {W.branchy: 'branchy', W.looped: 'looped', W.joined: 'joined'}
    got = [fns[n.target] for n in graph.nodes if n.op == 'call_function' and
           n.target in fns] + ['dyn' for n in graph.nodes if n.op ==
                               'call_method' and n.target == 'dyn']
    # a value that nothing uses is computed all the same
    wrapped = [k for k, _ in ops if k in ('branchy', 'looped', 'joined')] + [
        'dyn' for k, _ in ops if k == 'dyn']
    ctx.check(got == wrapped, 'fx:wrapped-calls', lambda: f'{got}: {wrapped}')
    ctx.event('wrapped_calls', len(got))
    with ctx.sut('run-graph'):
        y = torch.fx.GraphModule(net, graph)(x)
    ctx.check(close(want, y), 'fx:output', lambda: f'{ops}')
    weights = {k: v.clone() for k, v in net.state_dict().items()}
    mut = make_mutator(net, 'FxTracer')
    with ctx.sut('prepare'):
        mut.prepare_from_supernet(net)
    clean('prepare')
    # the dynamic modules have weights of their own
    net.load_state_dict(weights, strict=False)
    with ctx.sut('forward'):
        ctx.check(close(want, net(x)), 'fx:prepared-output', lambda: f'{ops}')
    for _ in range(2):
        with ctx.sut('forward'):
            mut.set_choices(mut.sample_choices())
            y = net(x)
        ctx.check(y.shape == want.shape, 'fx:output', 'shape')
        # the kept channels, by the same network
        for u in mut.mutable_units:
            ctx.event('units_pruned')
    # tracing fails cleanly
    if rng.random() < .3:
        bad = W.Net(ops + [('fails', [0])], 4)
        with ctx.rejects('trace-fails', (KeyError, )):
            ChannelAnalyzer((1, 3, 8, 8), 'FxTracer')._fx_trace(bad)
        clean('failed trace')


SECTIONS = {
    'ranges': (ranges, 100, 4000),
    'graph_ops': (graph_ops, 400, 15000),
    'channels': (channels, 250, 10000),
    'fx': (fx, 120, 4000),
    'backward': (backward, 120, 4000),
    'untraceable': (untraceable, 60, 1500),
}
