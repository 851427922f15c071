"""C04: a searchable element always holds a choice of its search space, computes
with it, and fixing / recording it keeps exactly that choice."""
import copy
import math

import torch
import torch.nn as nn
import torch.nn.functional as F

ID = 'C04'
RULE = (
    'random searchable values, channel counts, operator choices and routes '
    'driven through random histories of reads, sampling, legal and illegal '
    'assignments, fixing and recording')
ASSUMPTIONS = [
    'a plain sequential channel count has no declared candidates; only '
    'counts between 1 and its width are assigned',
]
REQUIRED_EVENTS = {
    'illegal_rejected': 100, 'fixed': 100, 'refix_rejected': 100,
    'samples': 2000, 'forwards': 200,
}


def same_choice(a, b):
    if torch.is_tensor(a) or torch.is_tensor(b):
        return torch.equal(a, b)
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) < 1e-9
    return a == b


def rejected(ctx, label, fn, read):
    """``fn`` must raise and leave what ``read`` reads unchanged."""
    before = read()
    try:
        fn()
    except Exception:  # noqa: BLE001
        ctx.event('illegal_rejected')
    else:
        ctx.check(False, f'{label}:accepted', f'{label}: was accepted, '
                  f'before={before} after={read()}')
    after = read()
    ctx.check(before == after, f'{label}:changed',
              f'{label} was rejected but changed {before} -> {after}')


def frequencies(ctx, label, draws, probs):
    """Draws follow the declared probabilities (6 sigma)."""
    n = len(draws)
    ctx.event('samples', n)
    for c, p in probs.items():
        k = sum(1 for d in draws if d == c)
        sd = math.sqrt(n * p * (1 - p)) + 1
        ctx.check(abs(k - n * p) <= 6 * sd, f'{label}:frequency',
                  f'{c!r}: {k} of {n} draws, declared probability {p}')
    extra = [d for d in draws if d not in probs]
    ctx.check(not extra, f'{label}:outside', f'drew {extra[:3]}')


# --------------------------------------------------------------------------
def value_case(ctx):
    from mmrazor.models.mutables import MutableValue, OneShotMutableValue
    rng = ctx.rng
    kind = rng.choice(['int', 'float', 'str', 'tuple'])
    n = rng.randint(1, 7)
    pool = {
        'int': lambda: rng.randint(-5, 300),
        'float': lambda: rng.randint(-20, 90) / 8,
        'str': lambda: rng.choice('abcdefgh') * rng.randint(1, 4),
        'tuple': lambda: (rng.randint(1, 9) * 16, rng.randint(1, 9) * 16),
    }[kind]
    vals = []
    while len(vals) < n:
        v = pool()
        if v not in vals:
            vals.append(v)
    given = list(vals)
    one = rng.random() < .7
    cls = OneShotMutableValue if one else MutableValue
    default = rng.choice(vals) if rng.random() < .4 else None
    alias = rng.choice([None, 'x'])
    ctx.key(cls.__name__, vals, default)
    ctx.sample(dict(kind=cls.__name__, values=vals, default=default))

    def make():
        return cls(list(given), default_value=default, alias=alias)

    with ctx.sut('build'):
        m = cls(vals, default_value=default, alias=alias)
    ctx.check(vals == given, 'value:given-list', 'the given list was changed')
    want = sorted(given) if one else given
    ctx.check(list(m.choices) == want, 'value:choices',
              lambda: f'{m.choices} of {given}')
    ctx.check(m.num_choices == n, 'value:num_choices', '')
    ctx.check(m.alias == alias and not m.is_fixed, 'value:fresh', '')
    ctx.check(
        m.current_choice == (default if default is not None else
                             (max(given) if one else given[0])),
        'value:default', lambda: f'{m.current_choice}')
    if one:
        ctx.check(m.max_choice == max(given) and m.min_choice == min(given),
                  'value:extremes', lambda: f'{m.min_choice} {m.max_choice}')
        draws = [m.sample_choice() for _ in range(60 * n)]
        frequencies(ctx, 'value:sample', draws, {v: 1 / n for v in given})
    cur = m.current_choice
    for _ in range(rng.randint(3, 12)):
        if rng.random() < .6:
            v = rng.choice(given)
            with ctx.sut('set'):
                m.current_choice = v
            cur = v
        else:
            bad = pool()
            if bad in given:
                continue
            rejected(ctx, 'value:set-illegal',
                     lambda: setattr(m, 'current_choice', bad),
                     lambda: (m.current_choice, m.is_fixed))
        ctx.check(m.current_choice == cur, 'value:current',
                  lambda: f'{m.current_choice} != {cur}')
        d = m.dump_chosen()
        ctx.check(d.chosen == cur and list(d.meta['all_choices']) == want and
                  m.export_chosen() == cur, 'value:dump', lambda: f'{d}')
    bad = next((b for b in (pool() for _ in range(20)) if b not in given),
               None)
    if bad is not None:
        rejected(ctx, 'value:fix-illegal', lambda: m.fix_chosen(bad),
                 lambda: (m.current_choice, m.is_fixed))
    twin = make()
    rec = copy.deepcopy(m.dump_chosen().chosen)
    with ctx.sut('fix'):
        twin.fix_chosen(rec)
        if rng.random() < .5:
            v = rng.choice(given)
            m.fix_chosen(v)
        else:
            v = rec
            m.fix_chosen(rec)
    ctx.event('fixed', 2)
    ctx.check(twin.current_choice == cur and twin.is_fixed and
              twin.dump_chosen().chosen == cur, 'value:roundtrip',
              lambda: f'{twin} vs {cur}')
    ctx.check(m.current_choice == v and m.is_fixed, 'value:fix', '')
    other = rng.choice(given)
    rejected(ctx, 'value:refix', lambda: m.fix_chosen(other),
             lambda: (m.current_choice, m.is_fixed))
    ctx.event('refix_rejected')
    with ctx.rejects('value:mixed-types'):
        cls([1, 2.5])
    with ctx.rejects('value:default-outside'):
        cls(list(given), default_value=bad if bad is not None else object())


# --------------------------------------------------------------------------
def channel_case(ctx):
    from mmrazor.models.mutables import (OneShotMutableChannel,
                                         SimpleMutableChannel,
                                         SquentialMutableChannel)
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 7, 8, 10, 16, 24, 33, 64, 97])
    mode = rng.choice(['number', 'ratio'])
    kind = rng.choice(['seq', 'oneshot', 'oneshot', 'simple'])
    if kind == 'simple':
        m = SimpleMutableChannel(n)
        ctx.check(bool(m.current_mask.all()) and m.activated_channels == n,
                  'simple:default', '')
        mask = torch.ones(n).bool()
        for _ in range(4):
            mask = torch.rand(n) < .5
            m.current_choice = rng.choice([mask.clone(), mask.float()])
            ctx.check(
                torch.equal(m.current_choice, mask) and torch.equal(
                    m.current_mask, mask) and
                m.activated_channels == int(mask.sum()) and
                m.current_mask.dtype == torch.bool, 'simple:set',
                lambda: f'{mask} {m.current_mask}')
        with ctx.sut('fix'):
            how = rng.choice(['none', 'own', 'other'])
            if how == 'other':
                mask = torch.rand(n) < .5
            m.fix_chosen(None if how == 'none' else mask.clone())
        ctx.check(torch.equal(m.current_mask, mask), 'simple:fix', how)
        ctx.event('fixed')
        rejected(ctx, 'simple:refix', lambda: m.fix_chosen(~mask),
                 lambda: (m.current_mask.tolist(), m.is_fixed))
        ctx.event('refix_rejected')
        ctx.key(kind, n)
        return
    cand = None
    if kind == 'oneshot':
        k = rng.randint(1, 5)
        nums = sorted({rng.randint(1, n) for _ in range(k)})
        if rng.random() < .2:
            nums = []
        cand = nums if mode == 'number' else [c / n for c in nums]
        given = rng.sample(cand, len(cand))
        if not nums:
            nums = [n]
        keep = list(given)

        def make():
            return OneShotMutableChannel(n, given, choice_mode=mode)
    else:
        nums = list(range(1, n + 1))

        def make():
            return SquentialMutableChannel(n, choice_mode=mode)

    with ctx.sut('build'):
        m, twin = make(), make()
    ctx.key(kind, mode, n, tuple(nums))
    ctx.sample(dict(kind=kind, mode=mode, channels=n, counts=nums[:8]))
    if kind == 'oneshot':
        ctx.check(given == keep, 'channel:given-list', 'changed')
        ctx.check(
            [m._ratio2num(c) for c in m.candidate_choices] == nums,
            'channel:candidates',
            lambda: f'{m.candidate_choices} for {nums} of {n}')

    def state():
        return (m.current_mask.tolist(), m.is_fixed)

    def expect(k, mm=m):
        mask = torch.arange(n) < k
        ctx.check(
            torch.equal(mm.current_mask, mask) and
            mm.activated_channels == k, 'channel:mask',
            lambda: f'{k} of {n}: {mm.current_mask.int().tolist()}')
        ctx.check(
            same_choice(mm.current_choice,
                        k if mode == 'number' else k / n), 'channel:current',
            lambda: f'{mm.current_choice} for {k} of {n} ({mode})')
        d = mm.dump_chosen()
        ctx.check(d.chosen == k and d.meta['max_channels'] == n and
                  mm.export_chosen() == k, 'channel:dump', lambda: f'{d}')

    if kind == 'seq' or nums[-1] == n:
        expect(n)
    cur = None
    for _ in range(rng.randint(3, 10)):
        r = rng.random()
        if r < .7:
            cur = rng.choice(nums)
            with ctx.sut('set'):
                m.current_choice = cur if rng.random() < .5 or (
                    mode == 'number' and kind == 'oneshot') else cur / n
        elif r < .85 and cur is not None:
            with ctx.sut('set-own'):
                m.current_choice = m.current_choice
        elif kind == 'oneshot':
            bad = rng.randint(1, n + 3)
            if bad in nums:
                continue
            rejected(ctx, 'channel:set-illegal',
                     lambda: setattr(m, 'current_choice', bad), state)
        if cur is not None:
            expect(cur)
    if cur is None:
        cur = rng.choice(nums)
        m.current_choice = cur
    rec = m.dump_chosen().chosen
    if kind == 'oneshot':
        bad = next((b for b in range(1, n + 3) if b not in nums))
        rejected(ctx, 'channel:fix-illegal', lambda: m.fix_chosen(bad), state)
    with ctx.sut('fix-recorded'):
        twin.fix_chosen(rec)
    with ctx.sut('fix'):
        how = rng.choice(['none', 'own', 'rec', 'other'])
        fix = cur
        if how == 'none':
            m.fix_chosen()
        elif how == 'other':
            fix = rng.choice(nums)
            m.fix_chosen(fix)
        else:
            m.fix_chosen(m.current_choice if how == 'own' else rec)
    ctx.event('fixed', 2)
    expect(cur, twin)
    expect(fix)
    ctx.check(m.is_fixed and twin.is_fixed, 'channel:is_fixed', '')
    rejected(ctx, 'channel:refix', lambda: m.fix_chosen(rng.choice(nums)),
             state)
    ctx.event('refix_rejected')
    with ctx.rejects('is_fixed-twice'):
        m.is_fixed = True


# --------------------------------------------------------------------------
class Aff(nn.Module):
    """x * a + b with own a, b: distinct candidates, order visible."""

    def __init__(self, a, b):
        super().__init__()
        self.a = nn.Parameter(torch.tensor(a))
        self.b = nn.Parameter(torch.tensor(b))

    def forward(self, x):
        return torch.sin(x * self.a) + self.b


def reg():
    from mmrazor.registry import MODELS
    if 'RVAff' not in MODELS.module_dict:
        MODELS.register_module(name='RVAff', module=Aff)


def params(rng, k):
    names = rng.sample(['a', 'b', 'c', 'dd', 'e1', 'f_x', 'g', 'h'], k)
    return {m: (rng.uniform(.5, 2), rng.uniform(-2, 2)) for m in names}


def ref(p, x):
    return torch.sin(x * p[0]) + p[1]


def alike(a, b):
    return torch.is_tensor(a) and a.shape == b.shape and torch.allclose(
        a, b, atol=1e-5, rtol=1e-5)


def build_cands(ps, module):
    reg()
    if module:
        return nn.ModuleDict({k: Aff(*v) for k, v in ps.items()})
    return {k: dict(type='RVAff', a=v[0], b=v[1]) for k, v in ps.items()}


def oneshot_op_case(ctx):
    from mmrazor.models.mutables import OneShotMutableOP
    from mmrazor.models.mutables.mutable_module.one_shot_mutable_module \
        import OneShotProbMutableOP
    rng = ctx.rng
    k = rng.randint(1, 6)
    ps = params(rng, k)
    names = list(ps)
    prob = rng.random() < .4
    probs = {c: 1 / k for c in names}
    if prob:
        w = [rng.choice([1, 2, 3, 8]) for _ in names]
        p = [v / sum(w) for v in w]
        p[-1] = 1 - sum(p[:-1])
        probs = dict(zip(names, p))

    module = rng.random() < .3

    def make():
        c = build_cands(ps, module)
        if prob:
            return OneShotProbMutableOP(c, choice_probs=list(probs.values()))
        return OneShotMutableOP(c)

    with ctx.sut('build'):
        m, twin = make(), make()
    ctx.key('op', k, prob, module)
    ctx.sample(dict(candidates=names, probs=probs))
    x = torch.randn(3, 4)
    ctx.check(list(m.choices) == names and m.num_choices == k,
              'op:choices', lambda: f'{m.choices}')
    ctx.check(m.current_choice is None and not m.is_fixed, 'op:fresh', '')
    ctx.check(alike(m(x), sum(ref(p, x) for p in ps.values())),
              'op:forward-all', 'without a choice all candidates are summed')
    n = 40 * k if not prob else 400
    frequencies(ctx, 'op:sample', [str(m.sample_choice()) for _ in range(n)],
                probs)
    cur = None
    for _ in range(4):
        cur = rng.choice(names) if rng.random() < .5 else m.sample_choice()
        with ctx.sut('set'):
            m.current_choice = cur
            y = m(x)
        ctx.event('forwards')
        ctx.check(m.current_choice == cur and alike(y, ref(ps[cur], x)),
                  'op:forward-choice', f'{cur} of {names}')
        d = m.dump_chosen()
        ctx.check(d.chosen == cur and list(d.meta['all_choices']) == names,
                  'op:dump', f'{d}')
    m.current_choice = 'nope'
    rejected(ctx, 'op:forward-illegal', lambda: m(x),
             lambda: list(m.choices))
    m.current_choice = cur

    def state():
        return list(m.choices), m.is_fixed, m(x).tolist()

    rejected(ctx, 'op:fix-illegal', lambda: m.fix_chosen('nope'), state)
    rec = m.dump_chosen().chosen
    fix = rng.choice(names)
    m.current_choice = rng.choice(names)
    with ctx.sut('fix'):
        twin.fix_chosen(rec)
        m.fix_chosen(fix)
    ctx.event('fixed', 2)
    ctx.check(alike(twin(x), ref(ps[cur], x)) and twin.choices == [cur],
              'op:roundtrip', f'{cur}')
    ctx.check(
        alike(m(x), ref(ps[fix], x)) and m.choices == [fix] and m.is_fixed and
        m.num_choices == 1, 'op:fixed', f'{fix}')
    others = [q for q in names if q != fix] or [fix]
    rejected(ctx, 'op:refix', lambda: m.fix_chosen(rng.choice(others)), state)
    ctx.event('refix_rejected')


def diff_op_case(ctx):
    """Mixed and one-hot operators under architecture parameters."""
    from mmrazor.models.mutables import DiffMutableOP, OneHotMutableOP
    rng = ctx.rng
    k = rng.randint(1, 5)
    ps = params(rng, k)
    names = list(ps)
    hot = rng.random() < .5
    thr = rng.choice([1.0, 1.0, .3, .5])
    cls = OneHotMutableOP if hot else DiffMutableOP

    def make():
        return cls(build_cands(ps, False), fix_threshold=thr)

    with ctx.sut('build'):
        m, twin = make(), make()
    ctx.key('diffop', hot, k, thr)
    ctx.sample(dict(cls=cls.__name__, candidates=names, fix_threshold=thr))
    with ctx.rejects('threshold'):
        cls(build_cands(ps, False), fix_threshold=rng.choice([-.1, 1.1]))
    x = torch.randn(3, 4)
    outs = {c: ref(p, x) for c, p in ps.items()}
    ctx.check(list(m.choices) == names and m.num_choices == k,
              'diff:choices', '')
    ctx.check(alike(m(x), sum(outs.values())), 'diff:forward-all', '')
    if rng.random() < .3:
        # saturated: one candidate has all the probability
        alpha = torch.full((k, ), -200.)
        alpha[rng.randrange(k)] = 200.
        alpha = nn.Parameter(alpha)
    else:
        alpha = nn.Parameter(torch.randn(k) * rng.choice([.001, 1, 3]))
    probs = F.softmax(alpha.detach(), -1)
    top = torch.sort(probs, descending=True)[0]
    margin = float(top[0] - (top[1] if k > 1 else 0))
    best = names[int(alpha.argmax())]
    ctx.check(m.sample_choice(alpha) == best, 'diff:sample',
              lambda: f'{m.sample_choice(alpha)} {best}')
    direct = rng.random() < .5
    if not direct:
        m.set_forward_args(alpha)
    run = (lambda: m(x, arch_param=alpha)) if direct else (lambda: m(x))
    if not hot:
        with ctx.sut('forward'):
            y = run()
        ctx.event('forwards')
        want = sum(p * o for p, o in zip(probs, outs.values()))
        ctx.check(alike(y, want), 'diff:mixture',
                  'not the softmax weighted sum of the candidates')
        r = torch.randn_like(y)
        g, = torch.autograd.grad((y * r).sum(), [alpha])
        a2 = alpha.detach().clone().requires_grad_()
        w2 = F.softmax(a2, -1)
        g2, = torch.autograd.grad(
            sum((w2[i] * o * r).sum() for i, o in enumerate(outs.values())),
            [a2])
        ctx.check(torch.allclose(g, g2, atol=1e-4, rtol=1e-4), 'diff:grad',
                  lambda: f'{g} {g2}')
    else:
        if abs(margin - thr) < 1e-4 and margin < 1:
            ctx.skip('margin at threshold')
            return
        decided = margin >= thr
        draws = []
        for _ in range(60):
            with ctx.sut('forward'):
                y = run()
            ctx.event('forwards')
            hit = [c for c, o in outs.items() if alike(y, o)]
            ctx.check(len(hit) == 1, 'onehot:one-candidate',
                      lambda: f'output is that of {hit}')
            draws.append(hit[0])
            ctx.check(m.is_fixed == decided, 'onehot:auto-fix',
                      f'margin {margin} threshold {thr} fixed {m.is_fixed}')
            if decided:
                ctx.check(hit[0] == best and m.choices == [best],
                          'onehot:auto-fix-choice',
                          f'{hit[0]} kept {m.choices}, best {best}')
                continue
            w = m.arch_weights
            ctx.check(
                float(w.sum()) == 1. and w.shape == alpha.shape and
                float(w[names.index(hit[0])]) == 1., 'onehot:arch_weights',
                lambda: f'{w} {hit}')
            # DSNAS reads the gradient of the sampled weights
            r = torch.randn_like(y)
            g, = torch.autograd.grad((y * r).sum(), [m.arch_weights])
            i = names.index(hit[0])
            ctx.check(
                abs(float(g[i]) - float((outs[hit[0]] * r).sum())) < 1e-3,
                'onehot:grad', '')
        if not decided:
            frequencies(ctx, 'onehot', draws,
                        dict(zip(names, probs.tolist())))
        else:
            ctx.event('auto_fixed')
            ctx.event('fixed')
            return

    def state():
        # (the choice that is recorded, what a fixed element computes)
        s = [list(m.choices), m.is_fixed]
        if m.is_fixed:
            s.append(m(x).tolist())
        return s

    rejected(ctx, 'diff:fix-illegal', lambda: m.fix_chosen('nope'), state)
    m.current_choice = rng.choice(names)
    cur = m.current_choice
    d = m.dump_chosen()
    ctx.check(d.chosen == cur and list(d.meta['all_choices']) == names,
              'diff:dump', f'{d}')
    with ctx.sut('fix'):
        twin.fix_chosen(d.chosen)
        fix = rng.sample(names, rng.randint(1, min(2, k))) if rng.random(
        ) < .4 else rng.choice(names)
        m.fix_chosen(copy.copy(fix))
    ctx.event('fixed', 2)
    fs = [fix] if isinstance(fix, str) else fix
    ctx.check(
        m.is_fixed and sorted(m.choices) == sorted(fs) and alike(
            m(x), sum(outs[f] for f in fs)), 'diff:fixed', f'{fs}')
    ctx.check(alike(twin(x), outs[cur]) and twin.choices == [cur],
              'diff:roundtrip', '')
    rejected(ctx, 'diff:refix', lambda: m.fix_chosen(rng.choice(names)),
             state)
    ctx.event('refix_rejected')


def route_case(ctx):
    from mmrazor.models.mutables import DiffChoiceRoute, DiffMutableOP
    from mmrazor.models.mutables.mutable_module.diff_mutable_module import \
        GumbelChoiceRoute
    rng = ctx.rng
    k = rng.randint(1, 6)
    ps = params(rng, k)
    names = list(ps)
    arch = rng.random() < .6
    gum = rng.random() < .5
    tau, hard = rng.choice([.3, 1., 5.]), rng.random() < .5
    num = rng.randint(1, k)

    def make():
        if gum:
            # tau 1 and hard are the defaults
            kw = {}
            if tau != 1.:
                kw['tau'] = tau
            if not hard:
                kw['hard'] = hard
            return GumbelChoiceRoute(build_cands(ps, True),
                                     with_arch_param=arch, **kw)
        # two edges are the default
        kw = {} if num == 2 else dict(num_chosen=num)
        return DiffChoiceRoute(build_cands(ps, True), with_arch_param=arch,
                               **kw)

    with ctx.sut('build'):
        m, twin = make(), make()
    ctx.key('route', gum, k, arch, num, tau, hard)
    ctx.sample(dict(gumbel=gum, edges=names, with_arch_param=arch))
    xs = [torch.randn(3, 4) for _ in names]
    outs = {c: ref(ps[c], x) for c, x in zip(names, xs)}
    ctx.check(list(m.choices) == names, 'route:choices', '')
    ctx.check(alike(m(xs), sum(outs.values())), 'route:forward-all', '')
    if k > 1:
        with ctx.rejects('route:inputs'):
            m(xs[:-1])
    alpha = nn.Parameter(torch.randn(k))
    m.set_forward_args(alpha)
    if gum and arch:
        n, hits = 80, []
        for _ in range(n):
            torch.manual_seed(ctx.case_seed + _)
            with ctx.sut('forward'):
                y = m(xs)
            ctx.event('forwards')
            torch.manual_seed(ctx.case_seed + _)
            w = F.gumbel_softmax(alpha, tau=tau, hard=hard, dim=-1).detach()
            want = sum(w[i] * o for i, o in enumerate(outs.values()))
            if hard:
                hit = [c for c, o in outs.items() if alike(y, o)]
                ctx.check(len(hit) == 1, 'gumbel:one-edge', lambda: f'{hit}')
                hits.append(hit[0])
            else:
                ctx.check(alike(y, want), 'gumbel:mixture', '')
        if hard:
            frequencies(
                ctx, 'gumbel', hits,
                dict(zip(names, F.softmax(alpha.detach(), -1).tolist())))
        with ctx.sut('temperature'):
            m.set_temperature(tau / 2)
        ctx.check(m.tau == tau / 2, 'gumbel:tau', '')
        m.set_temperature(tau)
        seen = []
        m.hard, keep = False, m.hard
        for t in (1e-2, 50.):
            m.set_temperature(t)
            torch.manual_seed(ctx.case_seed)
            seen.append(m(xs))
            torch.manual_seed(ctx.case_seed)
            w = F.gumbel_softmax(alpha, tau=t, hard=False, dim=-1).detach()
            ctx.check(
                alike(seen[-1],
                      sum(w[i] * o for i, o in enumerate(outs.values()))),
                'gumbel:temperature', f'tau {t} is not used')
        m.hard = keep
        m.set_temperature(tau)
    elif arch:
        with ctx.sut('forward'):
            y = m(xs)
        ctx.event('forwards')
        w = F.softmax(alpha.detach(), -1)
        ctx.check(
            alike(y, sum(w[i] * o for i, o in enumerate(outs.values()))),
            'route:mixture', '')
    else:
        ctx.check(alike(m(xs), sum(outs.values())), 'route:no-arch', '')
    with ctx.sut('sample'):
        s = m.sample_choice(alpha)
    order = [names[i] for i in torch.argsort(-alpha.detach()).tolist()]
    ctx.event('samples')
    ctx.check(list(s) == order[:2 if gum else num], 'route:sample',
              f'{s} of {order} ({m.num_chosen})')

    def state():
        s = [list(m.choices), m.is_fixed]
        if m.is_fixed:
            s.append(m(xs).tolist())
        return s

    rejected(ctx, 'route:fix-illegal',
             lambda: m.fix_chosen([names[0], 'nope']), state)
    cur = rng.sample(names, rng.randint(1, k))
    m.current_choice = list(cur)
    d = m.dump_chosen()
    ctx.check(list(d.chosen) == cur and list(d.meta['all_choices']) == names,
              'route:dump', f'{d}')
    with ctx.sut('fix'):
        twin.fix_chosen(list(d.chosen))
        fix = rng.sample(names, rng.randint(1, k))
        m.fix_chosen(list(fix))
    ctx.event('fixed', 2)
    for mm, want in ((m, fix), (twin, cur)):
        ctx.check(
            mm.is_fixed and sorted(mm.choices) == sorted(want) and alike(
                mm(xs), sum(outs[f] for f in want)), 'route:fixed',
            lambda: f'{want} of {names}: kept {mm.choices}')
    rejected(ctx, 'route:refix',
             lambda: m.fix_chosen(rng.sample(names, rng.randint(1, k))),
             state)
    ctx.event('refix_rejected')


SECTIONS = {
    'value': (value_case, 150, 3000),
    'channel': (channel_case, 300, 6000),
    'oneshot_op': (oneshot_op_case, 120, 2500),
    'diff_op': (diff_op_case, 200, 4000),
    'route': (route_case, 150, 3000),
}
