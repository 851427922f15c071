"""C06: the search space of a supernet: groups, sampling, setting choices and
what the network computes with them; architecture parameters."""
import copy

import torch
import torch.nn as nn
import torch.nn.functional as F

from rv import nas

ID = 'C06'
RULE = (
    'random supernets of searchable blocks (operators, depth, kernel, '
    'channels, expansion, nesting, routes) with random aliases and user '
    'defined groups; every choice is checked against a reference forward')
ASSUMPTIONS = [
    'searchable values behind a derived element carry aliases and there is '
    'one of them per derived element, as in all supernets of the repository',
]
REQUIRED_EVENTS = {'groups': 200, 'set': 200, 'forwards': 200,
                   'illegal_groups': 30, 'arch_groups': 100}


def close(a, b):
    return a.shape == b.shape and torch.allclose(a, b, atol=1e-4, rtol=1e-4)


def sub(module, name):
    """The candidate called ``name`` inside a choice block."""
    for n, m in module.named_modules():
        if n.split('.')[-1] == name:
            return m
    raise KeyError(name)


def bn_ref(bn, x, k):
    return F.batch_norm(x, bn.running_mean[:k], bn.running_var[:k],
                        bn.weight[:k], bn.bias[:k], bn.training, 0., bn.eps)


def kernel_ref(conv, x, k, groups):
    w = conv.weight
    s = (w.shape[-1] - k) // 2
    w = w[:, :, s:s + k, s:s + k]
    return F.conv2d(x, w, conv.bias, padding=k // 2, groups=groups)


def block_ref(b, m, x, c, w=None):
    """What block ``m`` of spec ``b`` computes with choices ``c``.

    ``c`` maps the role of a searchable element in the block to its choice,
    ``w`` maps it to weights of the candidates.
    """
    k = b['kind']
    if k in ('op', 'prob'):
        return sub(m, c['op'])(x)
    if k == 'nested':
        if c['op'] != 'inner':
            return sub(m, c['op'])(x)
        conv, bn = list(sub(m, 'inner'))
        return bn_ref(bn, kernel_ref(conv, x, c['k'], 1), None)
    if k == 'depth':
        for layer in list(m.children()):
            if type(layer).__name__.startswith('OneShot') or isinstance(
                    layer, nn.ModuleDict):
                continue
            if c['depth'] == 0:
                break
            x = layer(x)
            c = dict(c, depth=c['depth'] - 1)
        return x
    if k == 'kernel':
        return kernel_ref(m, x, c['k'], b['groups'])
    if k == 'chan':
        n = c['n']
        y = F.conv2d(x, m.c1.weight[:n], m.c1.bias[:n], padding=1)
        y = torch.relu(bn_ref(m.bn, y, n))
        return F.conv2d(y, m.c2.weight[:, :n], m.c2.bias)
    if k == 'expand':
        n = c['r'] * nas.W
        y = F.conv2d(x, m.c1.weight[:n], m.c1.bias[:n])
        y = torch.relu(bn_ref(m.bn, y, n))
        y = F.conv2d(y, m.dw.weight[:n], m.dw.bias[:n], padding=1, groups=n)
        return F.conv2d(y, m.c2.weight[:, :n], m.c2.bias)
    if k == 'diff':
        return sum(w['op'][i] * sub(m, n)(x) for i, n in enumerate(b['cands']))
    if k in ('route', 'routediff'):
        out = 0
        for i, cs in enumerate(b['cands']):
            xi = x * (1 + .25 * i) - .1 * i
            e = sub(m, f'e{i}')
            if k == 'routediff':
                y = sum(w[f'e{i}'][j] * sub(e, n)(xi)
                        for j, n in enumerate(cs))
            else:
                y = w['route'][i] * e(xi)
            out = out + y
        return out
    raise KeyError(k)


def net_ref(net, spec, cs, ws):
    def run(x):
        x = net.head_stem(x)
        for i, b in enumerate(spec['blocks']):
            x = block_ref(b, net.blocks[i], x, cs.get(i, {}),
                          ws.get(i, {})) * .5 + x * .5
        return net.tail(x.mean((2, 3)))

    return run


def elements(net, spec):
    """(block, role, element) of everything searchable, found by walking the
    blocks, not by asking the mutator."""
    from mmrazor.models.mutables import (DiffChoiceRoute, DiffMutableOP,
                                         MutableValue, OneShotMutableOP)
    out = []
    for i, b in enumerate(spec['blocks']):
        m, k = net.blocks[i], b['kind']
        if k == 'chan':
            out.append((i, 'n', m.m))
        elif k == 'expand':
            for s in m.hidden.source_mutables:
                if isinstance(s, MutableValue):
                    out.append((i, 'r', s))
        else:
            for n, q in m.named_modules():
                if isinstance(q, (OneShotMutableOP, )) or (isinstance(
                        q, DiffMutableOP) and k != 'routediff'):
                    out.append((i, 'op', q))
                elif isinstance(q, DiffChoiceRoute):
                    out.append((i, 'route', q))
                elif isinstance(q, DiffMutableOP):
                    out.append((i, n.split('.')[-1], q))
                elif isinstance(q, MutableValue):
                    out.append((i, {'depth': 'depth'}.get(k, 'k'), q))
    return out


def members(group):
    """Elements of a group; a channel unit stands for its channel element."""
    return [getattr(m, 'mutable_channel', m) for m in group]


def check_groups(ctx, mut, els, custom_sets, d):
    groups = {n: members(g) for n, g in mut.search_groups.items()}
    ctx.event('groups', len(groups))
    seen = {}
    for n, g in groups.items():
        ctx.check(len(g) > 0, 'groups:empty', n)
        for m in g:
            ctx.check(id(m) not in seen or seen[id(m)] == n, 'groups:twice',
                      lambda: f'an element is in {seen[id(m)]} and {n}: {d}')
            seen[id(m)] = n
    searchable = {id(m) for _, _, m in els}
    # an element without alternatives may be left out, nothing else
    for i, role, m in els:
        if id(m) not in seen:
            ctx.check(
                role == 'n' and len(m.candidate_choices) == 1, 'groups:lost',
                lambda: f'block {i} {role} is in no group: {d}')
    extra = set(seen) - searchable
    extra -= {
        i
        for n, g in groups.items() for i in map(id, g)
        if len(getattr(g[0], 'candidate_choices', [0, 0])) == 1
    }
    ctx.check(not extra, 'groups:extra', d)
    for n, g in groups.items():
        kind = 'channel' if hasattr(g[0], 'current_mask') else (
            'value' if hasattr(g[0], 'num_choices') and
            'Value' in type(g[0]).__name__ else 'module')
        ctx.check(n.split('_')[0] == kind, 'groups:name', f'{n} holds {kind}')
    by = {}
    for i, role, m in els:
        if m.alias is not None:
            if not any(id(m) in s for s in custom_sets):
                by.setdefault(m.alias, set()).add(seen.get(id(m)))
    for a, names in by.items():
        ctx.check(len(names) <= 1, 'groups:alias',
                  lambda: f'alias {a} is spread over {names}: {d}')
    # what is neither aliased alike nor in one user group is apart
    key = {}
    for i, role, m in els:
        k = next((('c', j) for j, s in enumerate(custom_sets) if id(m) in s),
                 ('a', m.alias) if m.alias is not None else ('i', id(m)))
        key[id(m)] = k
    inv = {}
    for i, role, m in els:
        if id(m) in seen:
            inv.setdefault(seen[id(m)], set()).add(key[id(m)])
    for n, ks in inv.items():
        ctx.check(len(ks) == 1, 'groups:merged', lambda: f'{n}: {ks} {d}')
    for j, s in enumerate(custom_sets):
        ns = {seen[i] for i in s}
        ctx.check(len(ns) == 1, 'groups:custom', lambda: f'{ns} {d}')
    return seen


def customs(ctx, rng, net, spec, els, diff):
    """A random legal user grouping: alike elements, by alias or by name."""
    names = {id(m): n for n, m in net.named_modules()}
    alike = {}
    for i, role, m in els:
        if role in ('n', 'r') or id(m) not in names:
            continue
        alike.setdefault((role, type(m).__name__, tuple(m.choices),
                          getattr(m, 'num_chosen', 0)),
                         []).append(m)
    pools = [v for v in alike.values() if len(v) >= 1]
    rng.shuffle(pools)
    groups, sets, used, byname = [], [], set(), set()
    for pool in pools[:2]:
        pick = rng.sample(pool, rng.randint(1, len(pool)))
        items, ids = [], set()
        for m in pick:
            if m.alias is not None:
                if m.alias in used:
                    continue
                if m.alias in byname or rng.random() < .4:
                    # one element of the alias, by its name: the others stay
                    # together
                    byname.add(m.alias)
                    items.append(names[id(m)])
                    ids.add(id(m))
                    continue
                used.add(m.alias)
                items.append(m.alias)
                ids |= {id(q) for _, _, q in els if q.alias == m.alias}
            else:
                items.append(names[id(m)])
                ids.add(id(m))
        if items and not any(ids & s for s in sets):
            groups.append(items)
            sets.append(ids)
    return groups, sets


def legal(b, role, i, net):
    """The legal choices of an element, from the spec."""
    k = b['kind']
    if role == 'op':
        return list(b['cands']) + (['inner'] if k == 'nested' else [])
    if role == 'k':
        return b['ks']
    if role == 'depth':
        return b['values']
    if role == 'r':
        return b['ratios']
    if role == 'n':
        return b['choices']
    raise KeyError(role)


def oneshot_case(ctx):
    from mmrazor.models.mutators import NasMutator
    rng = ctx.rng
    if rng.random() < .3:
        # many elements of few aliases
        spec = nas.rand_spec(rng, [rng.choice(['op', 'depth', 'kernel'])],
                             rng.randint(3, 5), .95)
    else:
        spec = nas.rand_spec(rng)
    net = nas.build(spec, ctx.case_seed)
    d = nas.describe(spec)
    els = elements(net, spec)
    groups, sets = ([], []) if rng.random() < .4 else customs(
        ctx, rng, net, spec, els, False)
    ctx.key(d, groups)
    ctx.sample(dict(net=d, custom_groups=groups))
    given = copy.deepcopy(groups)
    with ctx.sut('prepare'):
        mut = NasMutator(custom_groups=groups or None)
        with ctx.rejects('groups-before-prepare', (RuntimeError, )):
            mut.search_groups
        mut.prepare_from_supernet(net)
    ctx.check(groups == given, 'groups:given-list', 'was changed')
    seen = check_groups(ctx, mut, els, sets, d)
    gs = mut.search_groups

    # the same network again gives the same groups
    net2 = nas.build(spec, ctx.case_seed + 1)
    mut2 = NasMutator(custom_groups=copy.deepcopy(groups) or None)
    mut2.prepare_from_supernet(net2)
    els2 = elements(net2, spec)
    pos = {id(m): (i, r) for i, r, m in els}
    pos2 = {id(m): (i, r) for i, r, m in els2}

    def layout(mu, p):
        # per group: where its elements are
        return {
            n: sorted({p[id(m)]
                       for m in members(g) if id(m) in p})
            for n, g in mu.search_groups.items()
        }

    la, lb = layout(mut, pos), layout(mut2, pos2)
    ctx.check(la == lb, 'groups:rebuild', lambda: f'{la} {lb} {d}')

    x = torch.randn(2, 3, nas.HW, nas.HW)
    has_mod = any(n.startswith('module') for n in gs)
    pool = {}
    for t in range(6):
        kind = rng.choice(['random', 'random', 'max', 'min', 'set_max',
                           'set_min'])
        if has_mod and kind != 'random':
            with ctx.rejects(f'{kind}:operators', (AttributeError, )):
                if kind.startswith('set'):
                    getattr(mut, kind + '_choices')()
                else:
                    mut.sample_choices(kind)
            kind = 'random'
        with ctx.sut(kind):
            if kind.startswith('set'):
                choices = getattr(mut, kind[4:] + '_choices')
                getattr(mut, kind + '_choices')()
                kind = kind[4:]
            else:
                choices = mut.sample_choices(kind)
                keep = copy.deepcopy(choices)
                mut.set_choices(choices)
                ctx.check(keep == choices, 'set:given', '')
        ctx.event('set')
        ctx.check(set(choices) == set(gs), 'sample:groups', d)
        cur = mut.current_choices
        ctx.check(cur == choices, 'set:current',
                  lambda: f'{choices} -> {cur}: {d}')
        cs = {}
        for i, role, m in els:
            if id(m) not in seen:
                cs.setdefault(i, {})[role] = spec['blocks'][i]['choices'][0]
                continue
            v = choices[seen[id(m)]]
            b = spec['blocks'][i]
            if role == 'n' and b['ratio']:
                v = round(v * b['c'])
            ok = legal(b, role, i, net)
            ctx.check(v in ok, 'sample:illegal', lambda: f'{v} of {ok}: {d}')
            if kind == 'max':
                ctx.check(v == max(ok), 'max', lambda: f'{v} of {ok}')
            if kind == 'min':
                ctx.check(v == min(ok), 'min', lambda: f'{v} of {ok}')
            cs.setdefault(i, {})[role] = v
            if kind == 'random':
                pool.setdefault((i, role), set()).add(v)
            ctx.check(
                m.current_choice == choices[seen[id(m)]] or role == 'n',
                'set:element', lambda: f'block {i} {role}: {d}')
        # block references of dynamic containers run the real children
        with torch.no_grad():
            with ctx.sut('forward'):
                y = net(x)
            ctx.event('forwards')
            want = net_ref(net, spec, cs, {})(x)
        ctx.check(close(y, want), 'forward',
                  lambda: f'{(y - want).abs().max()} with {cs}: {d}')
    # sampling reaches everything
    if ctx.index % 4 == 0:
        draws = [mut.sample_choices() for _ in range(120)]
        for i, role, m in els:
            if id(m) in seen:
                ok = legal(spec['blocks'][i], role, i, net)
                got = {q[seen[id(m)]] for q in draws}
                if spec['blocks'][i]['kind'] == 'prob' and len(ok) > 3:
                    continue
                ctx.check(
                    len(got) == len(set(ok)), 'sample:unreachable',
                    lambda: f'{got} of {ok} in 120 draws: {d}')
    # illegal requests
    with ctx.rejects('kind', (NotImplementedError, )):
        mut.sample_choices('median')
    if gs:
        part = dict(mut.current_choices)
        part.pop(rng.choice(sorted(part)))
        with ctx.rejects('set:incomplete'):
            mut.set_choices(part)
    illegal_groups(ctx, rng, net2, els2)


def illegal_groups(ctx, rng, net, els):
    from mmrazor.models.mutators import NasMutator
    names = {id(m): n for n, m in net.named_modules()}
    named = [m for _, r, m in els if id(m) in names and r not in 'nr']
    tests = [[['no.such.module']]]
    plain = [m for m in named if m.alias is None]
    al = [m for m in named if m.alias is not None]
    if plain:
        n = names[id(rng.choice(plain))]
        tests += [[[n, n]], [[n], [n]]]
    if al:
        m = rng.choice(al)
        tests += [[[m.alias], [m.alias]], [[m.alias, names[id(m)]]],
                  [[names[id(m)]], [m.alias]]]
    ctx.event('illegal_groups')
    g = rng.choice(tests)
    with ctx.rejects(f'custom_groups={g}', (AssertionError, )):
        NasMutator(custom_groups=g).prepare_from_supernet(net)


def diff_case(ctx):
    """Architecture parameters: one per group, in effect where they belong."""
    from mmrazor.models.mutables.mutable_module import MutableModule
    from mmrazor.models.mutators import NasMutator
    rng = ctx.rng
    spec = nas.rand_spec(rng, ['diff', 'route', 'routediff'])
    if rng.random() < .3:
        # values beside differentiable operators
        extra = nas.rand_spec(rng, ['depth', 'kernel'], 1)
        spec['blocks'].insert(
            rng.randint(0, len(spec['blocks'])), extra['blocks'][0])
    net = nas.build(spec, ctx.case_seed)
    d = nas.describe(spec)
    els = elements(net, spec)
    groups, sets = ([], []) if rng.random() < .4 else customs(
        ctx, rng, net, spec, els, True)
    ctx.key(d, groups)
    ctx.sample(dict(net=d, custom_groups=groups))
    with ctx.sut('prepare'):
        mut = NasMutator(custom_groups=groups or None)
        mut.prepare_from_supernet(net)
        seen = check_groups(ctx, mut, els, sets, d)
        mut.prepare_arch_params()
    mods = {n for n, g in mut.search_groups.items()
            if isinstance(g[0], MutableModule)}
    ctx.check(set(mut.arch_params.keys()) == mods, 'arch:groups',
              lambda: f'{set(mut.arch_params.keys())} {mods} {d}')
    ids = [id(p) for p in mut.arch_params.values()]
    ctx.check(len(set(ids)) == len(ids), 'arch:shared', d)
    owned = {id(p) for p in mut.parameters()}
    netp = {id(p) for p in net.parameters()}
    for n, p in mut.arch_params.items():
        ctx.event('arch_groups')
        g = mut.search_groups[n]
        ctx.check(
            isinstance(p, nn.Parameter) and p.requires_grad and
            p.shape == (len(g[0].choices), ), 'arch:shape',
            lambda: f'{p.shape} for {g[0].choices}')
        ctx.check(id(p) in owned and id(p) not in netp, 'arch:owner', n)
        ctx.check(float(p.abs().max()) < .1, 'arch:start',
                  lambda: f'not close to uniform: {p}')
        p.data = torch.randn(p.shape)
    x = torch.randn(2, 3, nas.HW, nas.HW)

    def cs_ws(choices):
        cs, ws = {}, {}
        for i, role, m in els:
            n = seen[id(m)]
            if n in mods:
                b = spec['blocks'][i]
                w = F.softmax(mut.arch_params[n], -1)
                if role == 'route' and b['kind'] == 'routediff':
                    continue
                ws.setdefault(i, {})[role] = w
            else:
                cs.setdefault(i, {})[role] = choices[n]
        return cs, ws

    for _ in range(3):
        with ctx.sut('sample'):
            choices = mut.sample_choices()
            mut.set_choices(choices)
        ctx.event('set')
        ctx.check(mut.current_choices == choices, 'set:current', d)
        for i, role, m in els:
            n = seen[id(m)]
            if n not in mods:
                continue
            c, p = choices[n], mut.arch_params[n]
            order = [m.choices[j] for j in torch.argsort(-p).tolist()]
            want = order[:m.num_chosen] if isinstance(c, list) else order[0]
            ctx.check(c == want, 'arch:sample', lambda: f'{c} {order}')
        with ctx.sut('forward'):
            y = net(x)
        ctx.event('forwards')
        r = torch.randn_like(y)
        want = net_ref(net, spec, *cs_ws(choices))(x)
        ctx.check(close(y, want), 'arch:forward',
                  lambda: f'{(y - want).abs().max()} {d}')
        ps = list(mut.arch_params.values())
        if ps:
            ga = torch.autograd.grad((y * r).sum(), ps, allow_unused=True)
            gb = torch.autograd.grad((want * r).sum(), ps, allow_unused=True)
            for n, a, b in zip(mut.arch_params, ga, gb):
                za = torch.zeros(1) if a is None else a
                zb = torch.zeros(1) if b is None else b
                ctx.check(
                    torch.allclose(za, zb, atol=1e-3, rtol=1e-3), 'arch:grad',
                    lambda: f'{n}: {a} {b} {d}')
        for p in ps:
            p.data = torch.randn(p.shape)


SECTIONS = {
    'oneshot': (oneshot_case, 250, 5000),
    'differentiable': (diff_case, 200, 4000),
}
