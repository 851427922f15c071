"""C07: choices of channel units are legal, take effect in every member and
survive being recorded."""
import copy

import torch
import torch.nn as nn

from rv.nets import Reference, describe
from rv.prune import (build_net, close, load_weights, make_mutator, prepare,
                      removed_classes, tup)

ID = 'C07'
RULE = ('random channel units (kind, width, divisor, minimum, candidates, '
        'mode) and mutators over random networks; non-trivial: a unit of '
        'width > 1 with a choice set')
ASSUMPTIONS = [
    'the minimal value of a unit is a multiple of its divisor or smaller',
    'choices asked for lie between 1 and the width (ratio in (0, 1])',
]
REQUIRED_EVENTS = {
    'choices_set': 500, 'masks_compared': 500, 'l1_rankings': 50,
    'rebuilt': 50, 'slim_subnets': 30,
}


def units_cls():
    from mmrazor.models.mutables import (L1MutableChannelUnit,
                                         OneShotMutableChannelUnit,
                                         SequentialMutableChannelUnit,
                                         SlimmableChannelUnit)
    return dict(
        seq=SequentialMutableChannelUnit, l1=L1MutableChannelUnit,
        oneshot=OneShotMutableChannelUnit, slim=SlimmableChannelUnit)


def legal(ctx, n, N, div, minv, asked, ratio, d):
    """Is n channels a legal answer when `asked` channels are wanted."""
    ctx.check(isinstance(n, int) and 1 <= n <= N, 'choice:out-of-range',
              f'{n} of {N} ({d})')
    ctx.check(n == N or n % div == 0, 'choice:not-divisible', f'{n} {d}')
    ctx.check(n >= min(N, max(minv, min(div, N))), 'choice:below-minimum',
              f'{n} {d}')
    if asked is not None:
        ctx.check(n == N or n >= ratio * asked, 'choice:below-ratio',
                  f'{asked}->{n} {d}')
        ctx.check(n < asked + div + 1 or n == min(
            N, max(minv, div)),
                  'choice:too-large', f'{asked}->{n} {d}')
        if asked % div == 0 and asked >= max(minv, div):
            ctx.check(n == asked, 'choice:legal-one-changed',
                      f'{asked}->{n} {d}')


def as_num(c, N):
    return c if isinstance(c, int) else int(round(c * N))


def unit(ctx):
    r = ctx.rng
    C = units_cls()
    for _ in range(10):
        kind = r.choice(['seq', 'oneshot', 'slim'])
        N = r.choice([1, 2, 3, 5, 7, 8, 10, 12, 16, 17, 24, 31, 32, 48, 64,
                      96, 100])
        div = r.choice([1, 1, 2, 3, 4, 8, 16])
        minv = r.choice([1, 1, div, 2 * div])
        ratio = r.choice([.9, .9, .5, 1.])
        mode = r.choice(['number', 'ratio']) if kind != 'slim' else 'number'
        kw = dict(choice_mode=mode, divisor=div, min_value=minv,
                  min_ratio=ratio)
        cands = None
        if kind != 'seq':
            cands = [r.randint(1, N) for _ in range(r.randint(0, 4))]
            if mode == 'ratio':
                cands = [
                    r.choice([c / N, max(.02, round(c / N, 2))])
                    for c in cands
                ]
            kw['candidate_choices'] = cands
        given = copy.deepcopy(cands)
        d = f'{kind} {N} {kw}'
        ctx.key(d)
        ctx.sample(d)
        with ctx.sut('init'):
            u = C[kind](N, **kw)
        ctx.check(cands == given, 'init:changed-candidates', d)
        asked = []
        if cands is not None:
            cc = u.candidate_choices
            ctx.check(len(cc) == max(1, len(given)), 'candidates:number', d)
            ctx.check(list(cc) == sorted(cc), 'candidates:not-sorted', d)
            for c in cc:
                legal(ctx, as_num(c, N), N, div, minv, None, ratio, d)
                ctx.check(
                    isinstance(c, int if mode == 'number' else float),
                    'candidates:type', d)
            if not given:
                legal(ctx, as_num(cc[0], N), N, div, minv, N, ratio, d)
            # the i-th smallest candidate is the i-th smallest given, rounded
            for a, c in zip(sorted(given), cc):
                na = a if isinstance(a, int) else max(1, int(
                    a * N + 1e-6))
                legal(ctx, as_num(c, N), N, div, minv, na, ratio, d)
            ctx.check(u.min_choice == cc[0] and u.max_choice == cc[-1],
                      'candidates:min-max', d)
            with ctx.rejects('not-a-candidate', (AssertionError, )):
                bad = [
                    x for x in range(1, N + 1)
                    if all(as_num(c, N) != x for c in cc)
                ]
                if not bad:
                    raise AssertionError
                x = r.choice(bad)
                u.current_choice = x if mode == 'number' else x / N
        for _ in range(8):
            if cands is not None:
                c = r.choice([u.sample_choice(), r.choice(cc), u.min_choice,
                              u.max_choice])
                ctx.check(c in cc, 'sample:not-a-candidate', f'{c} {d}')
                want = as_num(c, N)
            elif r.random() < .5:
                with ctx.sut('sample'):
                    c = u.sample_choice()
                want = as_num(c, N)
                ctx.check(
                    isinstance(c, int if mode == 'number' else float) and
                    (isinstance(c, int) or 0 < c <= 1), 'sample:type',
                    f'{c} {d}')
                legal(ctx, want, N, div, minv, None, ratio, d)
            else:
                n = r.randint(1, N)
                c = n if r.random() < .5 else n / N
                want = None
                asked = n
            with ctx.sut('set'):
                u.current_choice = c
            got = u.current_choice
            ctx.event('choices_set')
            num = as_num(got, N)
            ctx.check(
                isinstance(got, int if mode == 'number' else float),
                'current:type', f'{got} {d}')
            legal(ctx, num, N, div, minv, asked if want is None else None,
                  ratio, d)
            if want is not None:
                ctx.check(num == want, 'current:not-what-was-set',
                          f'{c} -> {got} {d}')
            mask = u.mutable_channel.current_mask
            ctx.check(
                mask.tolist() == [True] * num + [False] * (N - num),
                'mask:differs', f'{c} {mask} {d}')
            # what it reports can be set again
            with ctx.sut('set-again'):
                u.current_choice = got
            ctx.check(u.current_choice == got, 'current:not-idempotent',
                      f'{got} -> {u.current_choice} {d}')


def members(ctx, u, d):
    """All members of the unit carry the mask of the unit."""
    from mmrazor.models.architectures.dynamic_ops import DynamicChannelMixin
    um = u.mutable_channel.current_mask.bool()
    N = u.num_channels
    for ch in list(u.output_related) + list(u.input_related):
        if not isinstance(ch.module, DynamicChannelMixin):
            continue
        attr = 'out_channels' if ch.is_output_channel else 'in_channels'
        cont = ch.module.get_mutable_attr(attr)
        m = cont.current_mask.bool()[ch.start:ch.end]
        rep = ch.num_channels // N
        ctx.check(
            torch.equal(m, um.repeat_interleave(rep)), 'member:mask',
            f'{ch.name} {attr} {ch.start}:{ch.end} {d}')
        ctx.event('masks_compared')


def l1_scores(u, net):
    """Average over convolutions and linears of the mean |w| per channel."""
    tot, n = 0., 0
    for ch in u.output_related:
        m = dict(net.named_modules()).get(ch.name)
        if not isinstance(m, (nn.Conv2d, nn.Linear)):
            continue
        w = m.weight.detach().double().abs().flatten(1).mean(1)
        w = w[ch.start:ch.end]
        rep = (ch.end - ch.start) // u.num_channels
        if rep > 1:
            w = w.view(u.num_channels, rep).mean(1)
        tot = tot + w
        n += 1
    return tot / n


def graph(ctx):
    from mmrazor.models.mutators import ChannelMutator
    r = ctx.rng
    tracer = r.choice(['FxTracer', 'BackwardTracer'])
    spec, net, x = build_net(r, ctx.case_seed, tracer)
    cls = r.choice(['SequentialMutableChannelUnit', 'L1MutableChannelUnit',
                    'OneShotMutableChannelUnit'])
    args = dict(
        choice_mode=r.choice(['number', 'ratio']),
        divisor=r.choice([1, 1, 2, 4]))
    if cls.startswith('OneShot'):
        args['choice_mode'] = 'ratio'
        args['candidate_choices'] = sorted(
            r.sample([.25, .3, .5, .6, .75, .8, 1.0], r.randint(1, 4)))
    given = copy.deepcopy(args)
    d = f'{cls} {args} {describe(spec)}'
    ctx.sample(d)
    mut, orig = prepare(ctx, net, tracer, unit=cls, default_args=args)
    ctx.check(args == given, 'prepare:changed-arguments', f'{args} {given}')
    if not mut.mutable_units:
        ctx.skip('no mutable unit')
        return
    for u in mut.units:
        ctx.check(
            u.divisor == args['divisor'] and
            u.choice_mode == args['choice_mode'], 'prepare:arguments-lost', d)
    for u in mut.mutable_units:
        members(ctx, u, d)
    for step in range(3):
        with ctx.sut('sample'):
            ch = mut.sample_choices()
        ctx.check(set(ch) == {u.name for u in mut.mutable_units},
                  'sample:units', d)
        if r.random() < .3:  # only some of the units
            ch = {k: v for k, v in ch.items() if r.random() < .5}
        before = dict(mut.current_choices)
        if cls.startswith('L1') and r.random() < .5:
            # weights change while training: the ranking has to follow
            for p in net.parameters():
                p.data.copy_(torch.randn_like(p))
        with ctx.sut('set_choices'):
            mut.set_choices(ch)
        now = dict(mut.current_choices)
        ctx.key(d, sorted(now.items()))
        for u in mut.mutable_units:
            c = now[u.name]
            N = u.num_channels
            ctx.event('choices_set')
            if u.name in ch:
                ctx.check(as_num(c, N) == as_num(ch[u.name], N),
                          'set:not-what-was-asked',
                          f'{u.name} {ch[u.name]} {c} {d}')
            else:
                ctx.check(c == before[u.name], 'set:other-unit-changed',
                          f'{u.name} {d}')
            legal(ctx, as_num(c, N), N, args['divisor'], 1, None, .9, d)
            m = u.mutable_channel.current_mask.bool()
            ctx.check(int(m.sum()) == as_num(c, N), 'set:mask-count', d)
            if cls.startswith('L1') and u.name in ch:
                s = l1_scores(u, net)
                kept, gone = s[m], s[~m]
                if len(gone):
                    ctx.check(
                        float(kept.min()) >= float(gone.max()) - 1e-6,
                        'l1:not-the-largest', lambda:
                        f'{u.name} kept {kept.tolist()} removed '
                        f'{gone.tolist()} {d}')
                ctx.event('l1_rankings')
            elif not cls.startswith('L1'):
                k = int(m.sum())
                ctx.check(bool(m[:k].all()), 'set:not-the-first-channels', d)
            members(ctx, u, d)
    rebuild(ctx, mut, net, orig, tracer, cls, d, x)


def rebuild(ctx, mut, net, orig, tracer, cls, d, x):
    """The recorded configuration in a fresh network."""
    from mmrazor.models.mutators import ChannelMutator
    r = ctx.rng
    with_channels = r.random() < .5
    with ctx.sut('config_template'):
        cfg = mut.config_template(
            only_mutable_units=r.random() < .5,
            with_unit_init_args=True,
            with_channels=with_channels)
    cfg = copy.deepcopy(cfg)
    if with_channels:
        cfg['parse_cfg'] = dict(type='Config')
    else:
        cfg['parse_cfg']['from_cfg'] = True
    given = copy.deepcopy(cfg)
    name = cfg.pop('type')
    ctx.check(name == type(mut).__name__, 'config:type', name)
    for turn in range(2):  # a configuration can be used again
        fresh = copy.deepcopy(orig)
        with ctx.sut(f'rebuild-{"channels" if with_channels else "tracer"}'):
            m2 = type(mut)(**cfg)
            m2.prepare_from_supernet(fresh)
        ctx.event('rebuilt')
        a = {u.name: (u.num_channels, as_num(u.current_choice,
                                             u.num_channels))
             for u in mut.mutable_units}
        b = {u.name: (u.num_channels, as_num(u.current_choice,
                                             u.num_channels))
             for u in m2.mutable_units}
        ctx.check(a == b, 'rebuild:choices-differ',
                  lambda: f'channels={with_channels} '
                  f'{sorted(set(a.items()) ^ set(b.items()))[:6]} {d}')
        n2u = {u.name: u for u in m2.units}
        for u in mut.mutable_units:
            v = n2u[u.name]
            for f in ('input_related', 'output_related'):
                p = {(c.name, c.start, c.end) for c in getattr(u, f)}
                q = {(c.name, c.start, c.end) for c in getattr(v, f)}
                ctx.check(p == q, 'rebuild:members-differ',
                          f'{u.name} {sorted(p ^ q)[:4]} {d}')
            ctx.check(
                (u.divisor, u.choice_mode, u.min_value, u.min_ratio) ==
                (v.divisor, v.choice_mode, v.min_value, v.min_ratio),
                'rebuild:arguments-differ', d)
            if hasattr(u, 'candidate_choices'):
                ctx.check(
                    list(u.candidate_choices) == list(v.candidate_choices),
                    'rebuild:candidates-differ', d)
        for v in m2.mutable_units:
            members(ctx, v, d)
        if 'L1' not in cls:
            # with the same weights it is the same network
            load_weights(fresh, net)
            with torch.no_grad():
                for p, q in zip(tup(fresh.eval()(x)), tup(net.eval()(x))):
                    ctx.check(close(p, q), 'rebuild:output-differs', d)
    cfg['type'] = name
    ctx.check(cfg == given, 'rebuild:changed-the-configuration', d)


def slimmable(ctx):
    """A slimmable network is several networks with shared weights and
    normalization statistics of their own."""
    from mmrazor.models.mutators import SlimmableChannelMutator
    r = ctx.rng
    tracer = r.choice(['FxTracer', 'BackwardTracer'])
    from rv.nets import init_net
    spec, net, x = build_net(r, ctx.case_seed, tracer, cats=False,
                             share=False)
    orig = copy.deepcopy(net)
    probe = copy.deepcopy(net)
    m0 = make_mutator(probe, tracer)
    m0.prepare_from_supernet(probe)
    if not m0.mutable_units:
        ctx.skip('no mutable unit')
        return
    k = r.randint(2, 3)
    units = {}
    for u in m0.mutable_units:
        N = u.num_channels
        units[u.name] = dict(init_args=dict(
            num_channels=N, divisor=1, min_value=1, min_ratio=.9,
            choice_mode='number',
            candidate_choices=[r.randint(1, N) for _ in range(k)]))
    given = copy.deepcopy(units)
    d = (f"{[u['init_args']['candidate_choices'] for u in units.values()]} "
         f'{describe(spec)}')
    ctx.sample(d)
    ctx.key(d)
    mut = SlimmableChannelMutator(
        channel_unit_cfg=dict(type='SlimmableChannelUnit', units=units),
        parse_cfg=dict(type='ChannelAnalyzer', tracer_type=tracer,
                       demo_input=(1, 3, net.hw, net.hw)))
    with ctx.sut('slim-prepare'):
        mut.prepare_from_supernet(net)
    ctx.check(units == given, 'slim:changed-the-configuration', d)
    want = [{n: c['init_args']['candidate_choices'][i]
             for n, c in units.items()} for i in range(k)]
    ctx.check(mut.subnets == want, 'slim:subnets', f'{mut.subnets} {d}')
    load_weights(net, orig)
    bns = {
        n: m for n, m in orig.named_modules()
        if isinstance(m, nn.BatchNorm2d)
    }
    g = torch.Generator().manual_seed(ctx.case_seed)
    for n in bns:
        for b in net.get_submodule(n).candidate_bn.values():
            b.weight.data = torch.rand(b.weight.shape, generator=g) + .5
            b.bias.data = torch.randn(b.bias.shape, generator=g) * .3
    ref = Reference(spec)

    def stats():
        out = {}
        for n in bns:
            m = net.get_submodule(n)
            out[n, m.num_features] = m.running_mean.clone()
            for q, b in m.candidate_bn.items():
                if int(q) != m.num_features:
                    out[n, int(q)] = b.running_mean.clone()
        return out

    for turn in range(2):
        for i in r.sample(range(k), k):
            with ctx.sut('slim-set'):
                mut.set_choices(mut.subnets[i])
            for u in mut.mutable_units:
                ctx.check(u.current_choice == want[i][u.name],
                          'slim:not-what-was-set', d)
                members(ctx, u, d)
            masks = {
                n: net.get_submodule(n).get_mutable_attr(
                    'num_features').current_mask.bool() for n in bns
            }
            width = {n: int(m.sum()) for n, m in masks.items()}
            before = stats()
            net.train()
            with ctx.sut('slim-train-forward'), torch.no_grad():
                net(x)
            after = stats()
            for (n, w), v in after.items():
                changed = not torch.equal(v, before[n, w])
                ctx.check(not changed or w == width[n],
                          'slim:other-statistics-changed',
                          f'{n} width {w}, set {width[n]} {d}')
            net.eval()
            # the reference: the original network without the other channels,
            # with the statistics of this width
            std = copy.deepcopy(orig)
            for n in bns:
                m = net.get_submodule(n)
                w = width[n]
                b = m if w == m.num_features else m.candidate_bn[str(w)]
                o = std.get_submodule(n)
                for p in ('weight', 'bias', 'running_mean', 'running_var'):
                    getattr(o, p).data[masks[n]] = getattr(b, p).data
            gone = removed_classes(mut, ref)
            with torch.no_grad(), ctx.sut('slim-forward'):
                got = tup(net(x))
            with torch.no_grad():
                exp = ref.masked_forward(
                    std, x, lambda e: ref.uf.find(e) not in gone)
            for a, b in zip(got, exp):
                ctx.check(close(a, b), 'slim:output', d)
            ctx.event('slim_subnets')
    # a different number of candidates per unit is refused
    if len(units) > 1:
        bad = copy.deepcopy(units)
        bad[r.choice(sorted(bad))]['init_args']['candidate_choices'].append(1)
        with ctx.rejects('slim:uneven', (AssertionError, )):
            SlimmableChannelMutator(channel_unit_cfg=dict(
                type='SlimmableChannelUnit', units=bad))


def predefined(ctx):
    """Networks whose author has put the channel choices in already."""
    from mmrazor.models.architectures.dynamic_ops import (
        DynamicBatchNorm2d, DynamicConv2d, DynamicLinear)
    from mmrazor.models.mutables import (MutableChannelContainer,
                                         MutableChannelUnit,
                                         OneShotMutableChannel)
    from mmrazor.models.mutators import ChannelMutator
    r = ctx.rng
    n = r.randint(1, 4)
    shared = r.choice([4, 6, 8])
    plan = []
    for i in range(n):
        plan.append(dict(
            stem=r.random() < .4, w=r.choice([2, 3, 4, 6, 8]),
            bn=r.random() < .6, res=r.random() < .4,
            expand=r.choice([1, 1, 2]), direct=r.random() < .5))
    d = f'{shared} {plan}'
    ctx.key(d)
    ctx.sample(d)
    reg = MutableChannelContainer.register_mutable_channel_to_module

    class Net(nn.Module):

        def __init__(self):
            super().__init__()
            cands = lambda c: sorted(r.sample(  # noqa: E731
                range(1, c + 1), min(c, 3)))
            m0 = OneShotMutableChannel(shared, cands(shared))
            self.ms = [m0]
            self.stem = DynamicConv2d(3, shared, 3, padding=1)
            self.blocks = nn.ModuleList()
            self.members = {0: {('stem', True)}}
            for i, p in enumerate(plan):
                w = p['w'] * p['expand']
                b = nn.Module()
                b.c1 = DynamicConv2d(shared, w, 1)
                if p['bn']:
                    b.bn = DynamicBatchNorm2d(w)
                b.c2 = DynamicConv2d(w, shared, 3, padding=1)
                self.blocks.append(b)
                self.ms.append(OneShotMutableChannel(p['w'], cands(p['w'])))
            self.fc = DynamicLinear(shared, 5)
            MutableChannelUnit._register_channel_container(
                self, MutableChannelContainer)
            reg(self.stem, m0, True)
            for i, p in enumerate(plan):
                b, m = self.blocks[i], self.ms[i + 1]
                w = p['w'] * p['expand']
                e = m if p['expand'] == 1 else m.expand_mutable_channel(
                    p['expand'])
                reg(b.c1, m0, False)
                reg(b.c1, e, True, 0, w)
                self.members[i + 1] = {(f'blocks.{i}.c1', True),
                                       (f'blocks.{i}.c2', False)}
                if p['bn']:
                    reg(b.bn, e, True, 0, w)
                    self.members[i + 1].add((f'blocks.{i}.bn', True))
                reg(b.c2, e, False, 0, w)
                reg(b.c2, m0, True)
                self.members[0] |= {(f'blocks.{i}.c1', False),
                                    (f'blocks.{i}.c2', True)}
            reg(self.fc, m0, False)
            self.members[0].add(('fc', False))

        def forward(self, x):
            x = self.stem(x)
            for b, p in zip(self.blocks, plan):
                y = b.c1(x)
                if p['bn']:
                    y = b.bn(y)
                y = b.c2(y.relu())
                x = x + y if p['res'] else y
            return self.fc(x.mean((2, 3)))

    torch.manual_seed(ctx.case_seed)
    net = Net().eval()
    pre = r.random() < .5
    cfg = dict(type='OneShotMutableChannelUnit',
               default_args=dict(unit_predefined=True) if pre else {})
    given = copy.deepcopy(cfg)
    with ctx.sut('predefined-prepare'):
        mut = ChannelMutator(channel_unit_cfg=cfg,
                             parse_cfg=dict(type='Predefined'))
        mut.prepare_from_supernet(net)
    ctx.check(cfg == given, 'predefined:changed-the-configuration', d)
    by_mut = {id(u.mutable_channel): u for u in mut.units}
    ctx.check(len(by_mut) == len(mut.units), 'predefined:unit-twice', d)
    for i, m in enumerate(net.ms):
        ctx.check(id(m) in by_mut, 'predefined:no-unit', f'{i} {d}')
        u = by_mut[id(m)]
        ctx.check(u.num_channels == m.num_channels, 'predefined:width', d)
        ctx.check(list(u.candidate_choices) == list(m.candidate_choices),
                  'predefined:candidates', d)
        # (a batch norm is listed on both sides)
        got = {(c.name, c.is_output_channel) for c in list(u.output_related) +
               list(u.input_related)}
        want = net.members[i]
        bn = {(c, False) for c, o in want if c.endswith('bn')}
        ctx.check(got - bn == want, 'predefined:members',
                  f'{sorted(got ^ want)} {d}')
        ctx.check(u.is_mutable, 'predefined:not-mutable', d)
    x = torch.randn(2, 3, 5, 5)
    for _ in range(4):
        with ctx.sut('predefined-set'):
            ch = mut.sample_choices()
            mut.set_choices(ch)
        ctx.check(mut.current_choices == ch, 'predefined:not-what-was-set',
                  d)
        ks = []
        for m in net.ms:
            u = by_mut[id(m)]
            ctx.check(u.current_choice in u.candidate_choices,
                      'predefined:not-a-candidate', d)
            ctx.check(m.current_choice == ch[u.name],
                      'predefined:mutable-differs', d)
            ks.append(ch[u.name])
            ctx.event('choices_set')
        with torch.no_grad(), ctx.sut('predefined-forward'):
            y = net(x)
        # reference with plain weights
        F = torch.nn.functional
        s = ks[0]
        h = F.conv2d(x, net.stem.weight[:s], net.stem.bias[:s], padding=1)
        for i, (b, p) in enumerate(zip(net.blocks, plan)):
            w = ks[i + 1] * p['expand']
            t = F.conv2d(h, b.c1.weight[:w, :s], b.c1.bias[:w])
            if p['bn']:
                t = F.batch_norm(t, b.bn.running_mean[:w],
                                 b.bn.running_var[:w], b.bn.weight[:w],
                                 b.bn.bias[:w])
            t = F.conv2d(t.relu(), b.c2.weight[:s, :w], b.c2.bias[:s],
                         padding=1)
            h = h + t if p['res'] else t
        exp = F.linear(h.mean((2, 3)), net.fc.weight[:, :s], net.fc.bias)
        ctx.check(close(y, exp), 'predefined:output', d)


def oneshot_mutator(ctx):
    """Largest, smallest and random choices of all units at once."""
    from mmrazor.models.mutators import OneShotChannelMutator
    r = ctx.rng
    spec, net, x = build_net(r, ctx.case_seed, 'FxTracer')
    orig = copy.deepcopy(net)
    mode = r.choice(['default', 'ratio'])
    kw = {}
    if mode == 'ratio':
        kw['channel_unit_cfg'] = dict(
            type='OneShotMutableChannelUnit', default_args=dict(
                candidate_choices=[.25, .5, .8][:r.randint(1, 3)],
                divisor=r.choice([1, 2])))
    d = f'{kw} {describe(spec)}'
    ctx.key(d)
    with ctx.sut('oneshot-prepare'):
        mut = OneShotChannelMutator(parse_cfg=dict(
            type='ChannelAnalyzer', tracer_type='FxTracer',
            demo_input=(1, 3, net.hw, net.hw)), **kw)
        mut.prepare_from_supernet(net)
    units = {u.name: u for u in mut.mutable_units}
    big = {n: u.candidate_choices[-1] for n, u in units.items()}
    small = {n: u.candidate_choices[0] for n, u in units.items()}
    ctx.check(mut.current_choices == big, 'oneshot:starts-not-at-largest', d)
    ctx.check(mut.max_choices == big and mut.sample_choices('max') == big,
              'oneshot:max', d)
    ctx.check(mut.min_choices == small and
              mut.sample_choices('min') == small, 'oneshot:min', d)
    ctx.check(mut.current_choices == big, 'oneshot:asking-changed-it', d)
    for _ in range(3):
        w = r.choice(['max', 'min', 'random'])
        with ctx.sut('oneshot-set'):
            if w == 'max':
                mut.set_max_choices()
                want = big
            elif w == 'min':
                mut.set_min_choices()
                want = small
            else:
                want = mut.sample_choices()
                mut.set_choices(want)
        ctx.check(mut.current_choices == want, f'oneshot:set-{w}', d)
        for n, u in units.items():
            ctx.check(want[n] in u.candidate_choices, 'oneshot:candidate', d)
            members(ctx, u, d)
            ctx.event('choices_set')
    if units:
        rebuild(ctx, mut, net, orig, 'FxTracer', 'OneShot', d, x)
    with ctx.rejects('oneshot:kind', (NotImplementedError, )):
        if not units:
            raise NotImplementedError
        mut.sample_choices('largest')


SECTIONS = {
    'unit': (unit, 150, 6000),
    'graph': (graph, 200, 6000),
    'slimmable': (slimmable, 80, 3000),
    'predefined': (predefined, 80, 3000),
    'oneshot': (oneshot_mutator, 60, 2000),
}
