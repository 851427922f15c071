"""C03: an exported subnet computes what the supernet computes with that
choice, survives a round trip through a file, and exporting changes nothing in
the supernet."""
import copy
import os
import tempfile

import torch
import torch.nn as nn

from rv import nas
from rv.nets import Reference, describe
from rv.prune import (build_net, close, load_weights, make_mutator, prepare,
                      set_all, tup)

ID = 'C03'
RULE = (
    'random one-shot and differentiable supernets (choice blocks, depth, '
    'kernel, channel, expansion, nested, routes; with and without aliases) '
    'and random pruned networks; non-trivial: at least one searchable element')
ASSUMPTIONS = [
    'several searchable elements behind one derived element carry aliases, as '
    'in all supernets of the repository',
]
REQUIRED_EVENTS = {'exports': 50, 'roundtrips': 50, 'prune_exports': 20,
                   'backbones': 20}


def snapshot(model, x):
    """Everything of a model that exporting must leave alone."""
    from mmrazor.models.architectures.dynamic_ops import DynamicMixin
    from mmrazor.models.mutables import DerivedMutable
    from mmrazor.models.mutables.base_mutable import BaseMutable
    s = {}
    for k, v in model.state_dict().items():
        s['sd:' + k] = v.clone()
    for n, m in model.named_modules():
        s['mod:' + n] = (type(m).__name__, id(m), m.training,
                         isinstance(m, DynamicMixin))
        if isinstance(m, BaseMutable):
            c = m.current_choice
            s['choice:' + n] = c.clone() if torch.is_tensor(c) else c
            s['fixed:' + n] = m.is_fixed
            if isinstance(m, DerivedMutable):
                s['src:' + n] = sorted(
                    (id(q), q.is_fixed) for q in m.source_mutables)
            elif hasattr(m, 'choices'):
                try:
                    s['choices:' + n] = list(m.choices)
                except TypeError:
                    pass
    with torch.no_grad():
        s['out'] = model(x)
    return s


def same(a, b):
    if set(a) != set(b):
        return f'keys {sorted(set(a) ^ set(b))[:4]}'
    for k in a:
        u, v = a[k], b[k]
        if torch.is_tensor(u) != torch.is_tensor(v):
            return k
        if torch.is_tensor(u):
            if u.shape != v.shape or not torch.equal(u, v):
                return k
        elif u != v:
            return f'{k}: {u} -> {v}'
    return None


def roundtrip(ctx, fix):
    """The exported description through a file."""
    from mmengine import fileio
    from mmrazor.structures import convert_fix_subnet
    fmt = ctx.rng.choice(['yaml', 'json'])
    f = tempfile.mktemp(suffix='.' + fmt, dir=os.getcwd())
    try:
        with ctx.sut(f'dump-{fmt}'):
            fileio.dump(convert_fix_subnet(fix), f)
        if ctx.rng.random() < .5:
            with ctx.sut(f'load-{fmt}'):
                return fileio.load(f), None
        return None, f
    except BaseException:
        if os.path.exists(f):
            os.remove(f)
        raise


def leftovers(model):
    """Names of what is still searchable."""
    from mmrazor.models.architectures.dynamic_ops import DynamicMixin
    from mmrazor.models.mutables import MutableChannelContainer
    from mmrazor.models.mutables.base_mutable import BaseMutable
    return [
        n for n, m in model.named_modules() if isinstance(m, DynamicMixin) or
        (isinstance(m, BaseMutable) and not isinstance(
            m, MutableChannelContainer) and not m.is_fixed)
    ]


def nas_case(ctx, kinds):
    from mmrazor.models.mutators import NasMutator
    from mmrazor.structures import export_fix_subnet, load_fix_subnet
    spec = nas.rand_spec(ctx.rng, kinds)
    d = nas.describe(spec)
    ctx.sample(d)
    ctx.key(d)
    net = nas.build(spec, ctx.case_seed)
    mut = NasMutator()
    with ctx.sut('prepare'):
        mut.prepare_from_supernet(net)
        if any(b['kind'] in nas.DIFF for b in spec['blocks']):
            mut.prepare_arch_params()
            for p in mut.arch_params.values():
                p.data.normal_()
    x = torch.randn(2, 3, nas.HW, nas.HW)
    diff = any(b['kind'] in nas.DIFF for b in spec['blocks'])
    for _ in range(2):
        with ctx.sut('set_choices'):
            choices = mut.sample_choices()
            mut.set_choices(choices)
        if diff:
            for g, ms in mut.search_groups.items():
                for m in ms:
                    if hasattr(m, 'arch_weights'):
                        del m.arch_weights
        torch.manual_seed(ctx.case_seed)
        before = snapshot(net, x)
        want = before['out']
        for m in net.modules():
            if hasattr(m, 'arch_weights'):
                del m.arch_weights
        with ctx.sut('export'):
            fix, static = export_fix_subnet(net, slice_weight=True)
            fix2, none = export_fix_subnet(net)
        ctx.event('exports')
        ctx.check(none is None and fix == fix2, 'export:not-repeatable', d)
        torch.manual_seed(ctx.case_seed)
        diffs = same(before, snapshot(net, x))
        ctx.check(diffs is None, 'export:changed-the-supernet',
                  f'{diffs} {d}')
        left = leftovers(static)
        ctx.check(not left, 'export:still-searchable', f'{left[:4]} {d}')
        ctx.check(
            not any(
                hasattr(m, 'mutable_attrs') for m in static.modules()),
            'export:mutables-left', d)
        with torch.no_grad(), ctx.sut('static-forward'):
            got = static(x)
        if not diff:
            ctx.check(close(got, want), 'export:output-differs', d)
        # what a differentiable supernet exports: the sampled candidates only
        check_selected(ctx, spec, net, static, x, d)
        # nothing that is not selected is left in the exported weights
        n_par = sum(p.numel() for p in static.parameters())
        ctx.check(
            n_par == expected_params(spec, net),
            'export:parameters', lambda: f'{n_par} expected '
            f'{expected_params(spec, net)} {d}')
        # round trip through a file into a fresh supernet
        sub, path = roundtrip(ctx, fix)
        fresh = nas.build(spec, ctx.case_seed + 1)
        for turn in range(2):  # the description can be used again
            with ctx.sut('load'):
                load_fix_subnet(fresh, path or sub)
            left = leftovers(fresh)
            ctx.check(not left, 'load:still-searchable', f'{left[:4]} {d}')
            a = {k: v.shape for k, v in static.state_dict().items()}
            b = {k: v.shape for k, v in fresh.state_dict().items()}
            ctx.check(
                a == b, 'load:weights-do-not-match', lambda:
                f'{sorted(set(a.items()) ^ set(b.items()), key=str)[:4]} {d}')
            fresh.load_state_dict(static.state_dict())
            fresh.eval()
            with torch.no_grad():
                y = fresh(x)
            ctx.check(torch.equal(y, got), 'load:output-differs', d)
            ctx.event('roundtrips')
            if turn == 0:
                fresh = nas.build(spec, ctx.case_seed + 2)
        if path:
            os.remove(path)


def choice_of(net, i):
    """Current choices of block i, read from its own mutables."""
    b = net.blocks[i]
    k = net.spec['blocks'][i]['kind']
    if k in ('op', 'prob', 'nested', 'diff', 'onehot'):
        return b.current_choice
    if k in ('route', 'gumbel', 'routediff'):
        return b.route.current_choice
    if k == 'depth':
        return b.mutable_depth.current_choice
    if k == 'kernel':
        return b.mutable_attrs['kernel_size'].current_choice
    if k == 'chan':
        return int(b.m.current_mask.sum())
    if k == 'expand':
        return int(b.hidden.current_mask.sum()) // nas.W


def expected_params(spec, net):
    W = nas.W

    def conv(cin, cout, k, g=1):
        return cin * cout * k * k // g + cout

    def cand(name):
        c = nas.CANDS[name]
        if c['type'] != 'RVConv':
            return 0
        return conv(W, W, c['k'], c.get('groups', 1)) + \
            (2 * W if c.get('bn', True) else 0)

    total = conv(3, W, 3) + W * 5 + 5
    for i, b in enumerate(spec['blocks']):
        c = choice_of(net, i)
        k = b['kind']
        if k in ('op', 'prob', 'diff', 'onehot'):
            total += cand(c)
        elif k == 'nested':
            if c == 'inner':
                ks = net.blocks[i]._candidates['inner'][0].mutable_attrs[
                    'kernel_size'].current_choice
                total += conv(W, W, ks) + 2 * W
            else:
                total += cand(c)
        elif k == 'depth':
            total += c * (conv(W, W, 3) + (0 if b['dynamic'] else 2 * W))
        elif k == 'kernel':
            total += conv(W, W, c, b['groups'])
        elif k == 'chan':
            total += conv(W, c, 3) + 2 * c + conv(c, W, 1)
        elif k == 'expand':
            n = W * c
            total += conv(W, n, 1) + 2 * n + conv(n, n, 3, n) + conv(n, W, 1)
        elif k in ('route', 'gumbel'):
            total += sum(
                cand(cs[0]) for e, cs in enumerate(b['cands'])
                if f'e{e}' in c)
        elif k == 'routediff':
            for e in range(b['edges']):
                if f'e{e}' in c:
                    total += cand(
                        net.blocks[i].route._candidates[f'e{e}']
                        .current_choice)
    return total


def check_selected(ctx, spec, net, static, x, d):
    """Block by block: the exported block equals the selected candidates of
    the supernet, fed with the right inputs."""
    x = torch.randn(2, nas.W, nas.HW, nas.HW)
    for i, b in enumerate(spec['blocks']):
        k, blk, out = b['kind'], net.blocks[i], static.blocks[i]
        c = choice_of(net, i)
        with torch.no_grad():
            got = out(x)
            if k in ('op', 'prob', 'nested', 'diff', 'onehot'):
                want = blk._candidates[c](x)
            elif k in ('route', 'gumbel', 'routediff'):
                want = 0
                for e in range(b['edges']):
                    if f'e{e}' not in c:
                        continue
                    op = blk.route._candidates[f'e{e}']
                    if k == 'routediff':
                        op = op._candidates[op.current_choice]
                    want = want + op(x * (1 + .25 * e) - .1 * e)
            else:
                want = blk(x)
        ctx.check(close(got, want), f'export:block-{k}', f'{c} {d}')
        ctx.event('blocks_compared')


def oneshot(ctx):
    nas_case(ctx, nas.ONESHOT)


def differentiable(ctx):
    nas_case(ctx, nas.DIFF if ctx.rng.random() < .5 else nas.DIFF + [
             "depth", "kernel", "chan", "expand"])


def prefixes(ctx):
    """Exported from one level of a model, loaded at another one."""
    from mmrazor.models.mutators import NasMutator
    from mmrazor.structures import export_fix_subnet, load_fix_subnet

    name = ctx.rng.choice(['architecture', 'backbone', 'head', 'bl', 'model'])

    class Outer(nn.Module):

        def __init__(self, inner):
            super().__init__()
            setattr(self, name, inner)

        def forward(self, x):
            return getattr(self, name)(x)

    spec = nas.rand_spec(ctx.rng)
    d = f'{name} {nas.describe(spec)}'
    ctx.key(d)
    inner = nas.build(spec, ctx.case_seed)
    outer = Outer(inner)
    mut = NasMutator()
    mut.prepare_from_supernet(outer)
    mut.set_choices(mut.sample_choices())
    x = torch.randn(2, 3, nas.HW, nas.HW)
    with torch.no_grad():
        want = outer(x)
    with ctx.sut('export'):
        fo, so = export_fix_subnet(outer, slice_weight=True)
        fi, si = export_fix_subnet(inner, slice_weight=True)
    fresh = nas.build(spec, ctx.case_seed)
    with ctx.sut('load-prefix'):
        o = Outer(fresh)
        load_fix_subnet(o, fi, prefix=name + '.')
    fresh2 = nas.build(spec, ctx.case_seed)
    with ctx.sut('load-extra-prefix'):
        load_fix_subnet(fresh2, fo, extra_prefix=name + '.')
    o.load_state_dict(so.state_dict())
    fresh2.load_state_dict(si.state_dict())
    with torch.no_grad():
        for what, y in dict(
                prefix=o.eval()(x), extra=fresh2.eval()(x),
                static=so(x)).items():
            ctx.check(close(y, want), f'prefix:{what}', d)
            ctx.event('roundtrips')
    with ctx.rejects('both-prefixes', (RuntimeError, )):
        load_fix_subnet(nas.build(spec, 1), fo, prefix='a.', extra_prefix='b')
    # a description that misses an element is refused, not half applied
    if fi:
        broken = dict(fi)
        # (the elements inside a dropped candidate are not needed)
        gone = ctx.rng.choice([k for k in sorted(broken) if 'inner' not in k]
                              or sorted(broken))
        broken.pop(gone)
        with ctx.rejects('missing-element'):
            load_fix_subnet(nas.build(spec, 1), broken)
    with ctx.rejects('bad-mode', (ValueError, )):
        load_fix_subnet(nas.build(spec, 1), fi, load_subnet_mode='x')


class Algo(nn.Module):
    """What the export functions need of a pruning algorithm."""

    def __init__(self, net, mut):
        super().__init__()
        self.architecture = net
        self.mutator = mut

    def forward(self, x):
        return self.architecture(x)


def prune(ctx):
    from mmengine import fileio
    from mmrazor.structures import export_fix_subnet, load_fix_subnet
    spec, net, x = build_net(ctx.rng, ctx.case_seed, 'FxTracer')
    unit = ctx.rng.choice(
        ['SequentialMutableChannelUnit', 'L1MutableChannelUnit'])
    args = dict(choice_mode=ctx.rng.choice(['number', 'ratio']))
    mut, orig = prepare(ctx, net, 'FxTracer', unit=unit, default_args=args)
    if not mut.mutable_units:
        ctx.skip('no prunable unit')
        return
    d = f'{unit} {args} {describe(spec)}'
    ctx.sample(d)
    algo = Algo(net, mut).eval()
    for _ in range(2):
        with ctx.sut('set_choices'):
            mut.set_choices(mut.sample_choices())
        ctx.key(d, sorted(mut.current_choices.items()))
        with torch.no_grad():
            want = tup(algo(x))
        sd = {k: v.clone() for k, v in algo.state_dict().items()}
        ch = dict(mut.current_choices)
        mods = [(n, id(m)) for n, m in algo.named_modules()]
        channel = ctx.rng.random() < .5
        with ctx.sut('export'):
            fix, static = export_fix_subnet(
                algo, export_subnet_mode='mutator', slice_weight=True,
                export_channel=channel)
        ctx.event('prune_exports')
        static = getattr(static, 'architecture', static).eval()
        # the supernet is as it was
        ctx.check(mods == [(n, id(m)) for n, m in algo.named_modules()],
                  'prune:changed-modules', d)
        ctx.check(dict(mut.current_choices) == ch, 'prune:changed-choices',
                  d)
        for k, v in algo.state_dict().items():
            ctx.check(torch.equal(v, sd[k]), 'prune:changed-state',
                      f'{k} {d}')
        with torch.no_grad(), ctx.sut('static-forward'):
            got = tup(static(x))
            again = tup(algo(x))
        for a, b, c in zip(got, want, again):
            ctx.check(close(a, b), 'prune:output-differs', d)
            ctx.check(torch.equal(b, c), 'prune:supernet-output-changed', d)
        ctx.check(not leftovers(static), 'prune:still-dynamic', d)
        # widths of the exported network
        for u in mut.mutable_units:
            for chn in u.output_related:
                if not hasattr(dict(net.named_modules()).get(chn.name),
                               'get_mutable_attr'):
                    continue
                m = static.get_submodule(chn.name)
                n = getattr(m, 'out_channels',
                            getattr(m, 'out_features', None))
                if n is None:
                    n = getattr(m, 'num_features', None)
                dyn = net.get_submodule(chn.name)
                full = int(dyn.get_mutable_attr(
                    'out_channels').current_mask.sum())
                ctx.check(n == full, 'prune:width', f'{chn.name} {n} {full}')
        # through a file (json and yaml as the tools use)
        f = tempfile.mktemp(
            suffix=ctx.rng.choice(['.json', '.yaml']), dir=os.getcwd())
        with ctx.sut('prune-dump'):
            fileio.dump(fix, f)
            sub = fileio.load(f)
        os.remove(f)
        if 'demo_input' in sub['parse_cfg']:
            sub['parse_cfg']['demo_input'] = tuple(
                sub['parse_cfg']['demo_input'])
        for turn in range(2):
            fresh = copy.deepcopy(orig)
            with ctx.sut('prune-load'):
                load_fix_subnet(
                    fresh, sub if turn == 0 else copy.deepcopy(fix),
                    load_subnet_mode='mutator')
            a = {k: v.shape for k, v in static.state_dict().items()}
            b = {k: v.shape for k, v in fresh.state_dict().items()}
            ctx.check(
                a == b, 'prune-load:weights-do-not-match', lambda:
                f'{sorted(set(a.items()) ^ set(b.items()), key=str)[:4]} '
                f'channels={channel} {d}')
            fresh.load_state_dict(static.state_dict())
            with torch.no_grad():
                y = tup(fresh.eval()(x))
            for p, q in zip(y, got):
                ctx.check(close(p, q), 'prune-load:output-differs', d)
            ctx.event('roundtrips')


def backbones(ctx):
    """The searchable backbones: stages, freezing, and their subnets."""
    from mmrazor.models.mutables import OneShotMutableModule
    from mmrazor.models.mutators import NasMutator
    from mmrazor.registry import MODELS
    from mmrazor.structures import export_fix_subnet, load_fix_subnet
    rng = ctx.rng
    mobile = rng.random() < .5
    if mobile:
        pool = {f'mb_k{k}e{e}': dict(type='MBBlock', kernel_size=k,
                                     expand_ratio=e)
                for k in (3, 5) for e in (1, 3)}
        pool['identity'] = dict(type='Identity')
    else:
        pool = {f'shuffle_{k}': dict(type='ShuffleBlock', kernel_size=k)
                for k in (3, 5)}
        pool['xception'] = dict(type='ShuffleXception')
    stages = []
    for _ in range(7 if mobile else 4):
        names = rng.sample(sorted(pool), rng.randint(1, 3))
        cand = dict(_scope_='mmrazor', type='OneShotMutableOP',
                    candidates={n: pool[n] for n in names})
        width, n = rng.choice([8, 16, 24]), rng.randint(1, 2)
        if mobile:
            stages.append([width, n, rng.choice([1, 1, 2]), cand])
        else:
            stages.append([width, n, cand])
    last = len(stages)
    cfg = dict(type='mmrazor.SearchableMobileNetV2' if mobile else
               'mmrazor.SearchableShuffleNetV2',
               arch_setting=stages, norm_eval=rng.random() < .4,
               frozen_stages=rng.choice([-1, -1, 0, rng.randint(1, last)]),
               out_indices=sorted(rng.sample(range(last + 1),
                                             rng.randint(1, 3))))
    if mobile:
        cfg.update(first_channels=8, last_channels=32)
    elif rng.random() < .3:
        # nothing comes after the last stage
        cfg['with_last_layer'] = False
        cfg['out_indices'] = sorted({min(i, 3) for i in cfg['out_indices']})
        cfg['frozen_stages'] = min(cfg['frozen_stages'], 3)
    d = f'{cfg}'
    ctx.key(cfg['type'], str([(s[0], s[1]) for s in stages]),
            str(cfg['out_indices']), cfg['frozen_stages'], cfg['norm_eval'])

    def make(seed):
        torch.manual_seed(seed)
        with ctx.sut('building the backbone'):
            return MODELS.build(copy.deepcopy(cfg))
    net = make(ctx.case_seed)
    parts = [net.conv1] + ([getattr(net, n) for n in net.layers] if mobile
                           else list(net.layers))
    found = [[m for m in p.modules() if isinstance(m, OneShotMutableModule)]
             for p in parts]
    want = [[]] + [[sorted(s[-1]['candidates'])] * s[1] for s in stages]
    want += [[]] * (len(parts) - len(want))
    ctx.check([[sorted(m.choices) for m in ms] for ms in found] == want,
              'backbone:elements', d)
    # freezing and norms while training
    net.train(False)
    net.train()
    k = cfg['frozen_stages']
    for i, p in enumerate(parts):
        frozen = i <= k
        ctx.check(all(q.requires_grad != frozen for q in p.parameters()),
                  'backbone:frozen', lambda: f'part {i} of {d}')
        for m in p.modules():
            if isinstance(m, nn.BatchNorm2d) and (i or cfg['norm_eval']):
                ctx.check(m.training == (not (frozen or cfg['norm_eval'])),
                          'backbone:norms', lambda: f'part {i} of {d}')
    x = torch.randn(2, 3, 32, 32)
    mut = NasMutator()
    with ctx.sut('prepare'):
        mut.prepare_from_supernet(net)
    net.eval()
    for m in net.modules():
        if isinstance(m, nn.BatchNorm2d):
            m.running_mean.normal_(0, .2)
            m.running_var.uniform_(.5, 1.5)
    with ctx.sut('set_choices'):
        mut.set_choices(mut.sample_choices())
    with torch.no_grad(), ctx.sut('forward'):
        out = net(x)
    size, widths = 16, [s[0] for s in stages]
    if mobile:
        widths.append(32)
    elif cfg.get('with_last_layer', True):
        widths.append(1024)
    shapes = []
    for i, w in enumerate(widths):
        if i < len(stages) and (not mobile or stages[i][2] == 2):
            size = (size + 1) // 2
        if i in cfg['out_indices']:
            shapes.append((2, w, size, size))
    ctx.check([tuple(o.shape) for o in out] == shapes, 'backbone:shapes',
              lambda: f'{[tuple(o.shape) for o in out]}, {shapes} of {d}')
    with ctx.sut('export'):
        fix, static = export_fix_subnet(net, slice_weight=True)
    ctx.event('exports')
    with torch.no_grad(), ctx.sut('static-forward'):
        got = static(x)
    ctx.check(len(got) == len(out) and all(
        close(a, b) for a, b in zip(got, out)), 'export:output-differs', d)
    ctx.check(not leftovers(static), 'export:still-searchable', d)
    sub, path = roundtrip(ctx, fix)
    fresh = make(ctx.case_seed + 1)
    with ctx.sut('load'):
        load_fix_subnet(fresh, path or sub)
    if path:
        os.remove(path)
    with ctx.sut('load:weights'):
        fresh.load_state_dict(static.state_dict())
    fresh.eval()
    with torch.no_grad():
        y = fresh(x)
    ctx.check(all(torch.equal(a, b) for a, b in zip(y, got)),
              'load:output-differs', d)
    ctx.event('backbones')


SECTIONS = {
    'backbones': (backbones, 40, 800),
    'oneshot': (oneshot, 300, 12000),
    'differentiable': (differentiable, 200, 8000),
    'prefixes': (prefixes, 100, 3000),
    'prune': (prune, 250, 8000),
}
