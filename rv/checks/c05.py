"""C05: derived elements follow their sources."""

import copy
import math

import torch

ID = 'C05'
RULE = (
    'random expressions (expansion, division, concatenation, product, custom '
    'functions, nesting) over searchable channel counts and values, observed '
    'through random histories of source changes')
ASSUMPTIONS = [
    'channel sources choose by number; divided elements keep at least one '
    'multiple of the divisor',
]
REQUIRED_EVENTS = {'source_changes': 2000, 'reads': 5000, 'illegal': 500,
                   'choices_listed': 100, 'copies': 100}


def divisible(v, d):
    """make_divisible as documented: nearest multiple, never below 90 %."""
    n = max(d, int(v + d / 2) // d * d)
    if n < .9 * v:
        n += d
    return n


class Node:
    """A derived (or source) element with its independent model."""

    def __init__(self, m, choice, mask, sources, depth):
        self.m = m
        self.choice = choice  # () -> value
        self.mask = mask  # () -> list of 0/1, or None
        self.sources = sources
        self.depth = depth


def channel_source(rng):
    from mmrazor.models.mutables import (OneShotMutableChannel,
                                         SquentialMutableChannel)
    n = rng.choice([2, 3, 4, 6, 8, 10, 16, 32, 48])
    if rng.random() < .5:
        m = SquentialMutableChannel(n)
        choices = list(range(1, n + 1))
    else:
        choices = sorted({n} | {rng.randint(1, n) for _ in range(3)})
        m = OneShotMutableChannel(n, list(choices))
    s = dict(m=m, choices=choices, cur=n, n=n, listed='choices' if hasattr(
        m, 'choices') else None)
    return s, Node(m, lambda: s['cur'],
                   lambda: [1] * s['cur'] + [0] * (n - s['cur']), {id(m)}, 0)


def value_source(rng, kind=None):
    from mmrazor.models.mutables import MutableValue, OneShotMutableValue
    kind = kind or rng.choice(['int', 'float'])
    if kind == 'int':
        vals = rng.sample([1, 2, 3, 4, 5, 6, 8], rng.randint(1, 4))
    else:
        vals = rng.sample([1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0],
                          rng.randint(1, 4))
    one = rng.random() < .7
    m = (OneShotMutableValue if one else MutableValue)(list(vals))
    s = dict(m=m, choices=vals, cur=max(vals) if one else vals[0], n=None,
             one=one)
    return s, Node(m, lambda: s['cur'], None, {id(m)}, 0)


def prefix(k, n):
    return [1] * k + [0] * (n - k)


def width(node):
    return len(node.mask())


def derive(ctx, rng, nodes, srcs):
    """One random derivation over existing nodes; None if not applicable."""
    from mmrazor.models.mutables import DerivedMutable, OneShotMutableValue
    a = rng.choice(nodes)
    ops = ['same', 'expand_i', 'expand_f', 'expand_m', 'div', 'custom', 'div',
           'div_m']
    if a.mask is not None:
        ops += ['concat', 'concat', 'product']
    op = rng.choice(ops)
    ctx.event('op_' + op)
    N = Node
    if op == 'same':
        m = a.m.derive_same_mutable()
        return N(m, lambda: int(a.choice()),
                 a.mask and (lambda: prefix(int(a.choice()), width(a))),
                 a.sources, a.depth + 1)
    if op in ('expand_i', 'expand_f'):
        r = rng.randint(1, 4) if op == 'expand_i' else rng.choice(
            [.5, 1., 1.5, 2., 2.5])
        if a.depth == 0 and rng.random() < .6:
            m = a.m * r if rng.random() < .5 else r * a.m
        else:
            m = a.m.derive_expand_mutable(r)
        return N(
            m, lambda: int(a.choice() * r),
            a.mask and
            (lambda: prefix(int(a.choice() * r), int(width(a) * r))),
            a.sources, a.depth + 1)
    if op in ('expand_m', 'product'):
        s, v = value_source(rng)
        if op == 'product':
            if not (a.depth == 0 and isinstance(v.m, OneShotMutableValue)):
                return None
            m = a.m * v.m if rng.random() < .5 else v.m * a.m
        else:
            m = a.m.derive_expand_mutable(v.m)
        srcs.append(s)
        top = max(s['choices'])
        return N(
            m, lambda: int(a.choice() * s['cur']),
            a.mask and (lambda: prefix(
                int(a.choice() * s['cur']), int(width(a) * top))),
            a.sources | v.sources, a.depth + 1)
    if op in ('div', 'div_m'):
        d = rng.choice([1, 2, 4, 8])
        if op == 'div':
            r = rng.randint(1, 4)
            how = rng.choice(['call', 'tuple', 'int', 'float', 'callf'])
            if a.depth > 0 and how in ('tuple', 'int', 'float'):
                how = 'call'
            if how == 'call':
                m = a.m.derive_divide_mutable(r, d)
            elif how == 'callf':
                m = a.m.derive_divide_mutable(float(r), d)
            elif how == 'tuple':
                m = a.m // (r, d)
            elif how == 'int':
                m, d = a.m // r, 8
            else:
                m, d = a.m // float(r), 8
            cur, low, more = (lambda: r), r, set()
        else:
            s, v = value_source(rng, 'int')
            if a.depth == 0 and a.mask and s['one'] and rng.random() < .5:
                m, d = a.m // v.m, 8
            else:
                m = a.m.derive_divide_mutable(v.m, d)
            srcs.append(s)
            cur, low, more = (lambda: s['cur']), min(s['choices']), v.sources
        return N(
            m, lambda: divisible(int(a.choice()) // cur()
                                 if float(a.choice()).is_integer() else
                                 a.choice() // cur(), d),
            a.mask and (lambda: prefix(
                divisible(int(a.choice()) // cur(), d),
                divisible(width(a) // low, d))), a.sources | more,
            a.depth + 1)
    if op == 'concat':
        pool = [n for n in nodes if n.mask is not None]
        parts = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
        ms = [p.m for p in parts]
        if rng.random() < .3:
            ms = rng.choice([tuple, iter])(ms)
        m = DerivedMutable.derive_concat_mutable(ms)
        src = set().union(*[p.sources for p in parts])
        return N(m, lambda: sum(p.choice() for p in parts),
                 lambda: sum((p.mask() for p in parts), []), src,
                 1 + max(p.depth for p in parts))
    # custom functions over several mutables, hidden in containers
    parts = [rng.choice(nodes) for _ in range(rng.randint(1, 3))]
    box = rng.choice([
        lambda ms: ms, lambda ms: {i: m for i, m in enumerate(ms)},
        lambda ms: {m: 1 for m in ms}, lambda ms: [tuple(ms)],
        lambda ms: {'x': list(ms)}
    ])([p.m for p in parts])
    keys = [p.m for p in parts]

    def flat(b):
        if isinstance(b, dict):
            return [m for k, v in b.items() for m in flat(k) + flat(v)]
        if isinstance(b, (list, tuple)):
            return [m for v in b for m in flat(v)]
        return [b] if hasattr(b, 'current_choice') else []

    def choice_fn():
        return sum(m.current_choice for m in flat(box))

    uniq = isinstance(box, dict) and len(box) < len(keys)
    if uniq:
        return None
    m = DerivedMutable(choice_fn=choice_fn)
    return N(m, lambda: sum(p.choice() for p in parts), None,
             set().union(*[p.sources for p in parts]),
             1 + max(p.depth for p in parts))


def observe(ctx, node):
    ctx.event('reads')
    got, want = node.m.current_choice, node.choice()
    ctx.check(abs(got - want) < 1e-9, 'choice',
              lambda: f'{got} != {want} ({node.m.choice_fn})')
    if node.mask is None:
        with ctx.rejects('mask-without', (RuntimeError, )):
            node.m.current_mask
        return
    mask = node.m.current_mask
    want = node.mask()
    ctx.check(
        mask.dtype == torch.bool and mask.int().tolist() == want, 'mask',
        lambda: f'{mask.int().tolist()} != {want}')


def copied(ctx, rng, srcs, derived):
    """A copy of everything leads a life of its own."""
    both = torch.nn.ModuleList([s['m'] for s in srcs] +
                               [d.m for d in derived])
    with ctx.sut('deepcopy'):
        twin = copy.deepcopy(both)
    new = list(twin)
    real = [s['m'] for s in srcs], [d.m for d in derived]

    def swap(on):
        for s, a, b in zip(srcs, real[0], new):
            s['m'] = b if on else a
        for d, a, b in zip(derived, real[1], new[len(srcs):]):
            d.m = b if on else a
    for d, m in zip(derived, new[len(srcs):]):
        known = {id(m) for m in new[:len(srcs)]}
        ctx.check({id(x) for x in m.source_mutables} <= known,
                  'copy:sources', 'sources of the copy are not copied')
    here = [s['cur'] for s in srcs]
    there = list(here)
    for _ in range(rng.randint(1, 4)):
        on = rng.random() < .5
        cur = there if on else here
        swap(on)
        i = rng.randrange(len(srcs))
        cur[i] = rng.choice(srcs[i]['choices'])
        with ctx.sut('set-source'):
            srcs[i]['m'].current_choice = cur[i]
        for side in (True, False):
            swap(side)
            for s, c in zip(srcs, there if side else here):
                s['cur'] = c
            for d in derived:
                observe(ctx, d)
        ctx.event('copies')
    swap(False)
    for s, c in zip(srcs, here):
        s['cur'] = c


def case(ctx):
    from mmrazor.models.mutables import DerivedMutable
    rng = ctx.rng
    srcs, leaves = [], []
    for _ in range(rng.randint(1, 4)):
        s, n = channel_source(rng) if rng.random() < .65 else \
            value_source(rng)
        srcs.append(s)
        leaves.append(n)
    nodes = list(leaves)
    derived = []
    for _ in range(rng.randint(1, 7)):
        a = None
        with ctx.sut('derive'):
            a = derive(ctx, rng, nodes, srcs)
        if a is None:
            continue
        if a.mask is not None and width(a) > 4000:
            continue
        derived.append(a)
        if a.mask is not None or rng.random() < .5:
            nodes.append(a)
    if not derived:
        ctx.skip('nothing derived')
        return
    ctx.key(len(srcs), [d.depth for d in derived],
            [sorted(map(str, s['choices'])) for s in srcs])
    ctx.sample(dict(sources=[s['choices'][:6] for s in srcs],
                    derived=len(derived)))
    byid = {id(s['m']): s for s in srcs}
    for d in derived:
        ctx.check({id(m) for m in d.m.source_mutables} == d.sources,
                  'sources', lambda: f'{d.m.source_mutables}')
        ctx.check(not d.m.is_fixed, 'fresh-fixed', '')
        observe(ctx, d)
    for _ in range(rng.randint(4, 12)):
        s = rng.choice(srcs)
        s['cur'] = rng.choice(s['choices'])
        with ctx.sut('set-source'):
            s['m'].current_choice = s['cur']
        ctx.event('source_changes')
        for d in rng.sample(derived, min(len(derived), 3)):
            observe(ctx, d)
        d = rng.choice(derived)
        before = {k: v['m'].current_choice for k, v in byid.items()}
        act = rng.choice(['choice', 'mask', 'fixed', 'fix', 'choices'])
        if act == 'choices':
            own = [byid[i] for i in d.sources]
            if all(hasattr(q['m'], 'choices') for q in own) and \
                    math.prod(len(q['choices']) for q in own) <= 300:
                with ctx.sut('choices'):
                    got = d.m.choices
                ctx.event('choices_listed')
                want = []
                keep = [q['cur'] for q in own]

                def rec(i):
                    if i == len(own):
                        want.append(d.choice())
                        return
                    for c in own[i]['choices']:
                        own[i]['cur'] = c
                        rec(i + 1)

                rec(0)
                for q, c in zip(own, keep):
                    q['cur'] = c
                ctx.check(sorted(got) == sorted(want), 'choices',
                          lambda: f'{sorted(got)} != {sorted(want)}')
        else:
            ctx.event('illegal')
            if act == 'choice':
                with ctx.rejects('set-choice', (RuntimeError, )):
                    d.m.current_choice = d.m.current_choice
            elif act == 'mask':
                with ctx.rejects('set-mask', (RuntimeError, )):
                    d.m.current_mask = torch.ones(3)
            elif act == 'fixed':
                with ctx.rejects('set-fixed', (RuntimeError, )):
                    d.m.is_fixed = True
            else:
                d.m.fix_chosen(1)
                ctx.check(
                    d.m.is_fixed == all(
                        byid[i]['m'].is_fixed for i in d.sources),
                    'fix-derived', 'fixing a derived element had an effect')
        after = {k: v['m'].current_choice for k, v in byid.items()}
        ctx.check(before == after, f'side-effect:{act}',
                  lambda: f'{before} {after}')
        dump = d.m.dump_chosen()
        ctx.check(dump.chosen == d.m.current_choice ==
                  d.m.export_chosen(), 'dump', '')
    for d in derived:
        observe(ctx, d)
    if rng.random() < .4:
        copied(ctx, rng, srcs, derived)
    # fixed exactly when all sources are
    order = list(srcs)
    rng.shuffle(order)
    done = set()
    for s in order:
        for d in derived:
            ctx.check(d.m.is_fixed == (d.sources <= done), 'is_fixed',
                      lambda: f'{len(d.sources & done)}/{len(d.sources)}')
        with ctx.sut('fix-source'):
            s['m'].fix_chosen(s['m'].dump_chosen().chosen)
        done.add(id(s['m']))
    for d in derived:
        ctx.check(d.m.is_fixed, 'is_fixed', 'all sources are fixed')
        observe(ctx, d)
    # illegal derivations
    values = [n for n in nodes if n.mask is None]
    chans = [n for n in nodes if n.mask is not None]
    if values:
        with ctx.rejects('concat-value', (RuntimeError, )):
            DerivedMutable.derive_concat_mutable(
                [rng.choice(nodes).m,
                 rng.choice(values).m])
    with ctx.rejects('no-source', (RuntimeError, )):
        DerivedMutable(choice_fn=lambda: 3)
    with ctx.rejects('derived-as-source', (ValueError, )):
        DerivedMutable(choice_fn=lambda: 3,
                       source_mutables=[rng.choice(derived).m])
    for bad in ('2', None, [2]):
        with ctx.rejects('mul-type', (TypeError, )):
            rng.choice(leaves).m * bad
        with ctx.rejects('div-type', (TypeError, )):
            rng.choice(leaves).m // bad
    del chans


SECTIONS = {'derived': (case, 700, 15000)}
