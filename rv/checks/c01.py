"""C01: the channel-dependency analysis groups exactly the coupled channels,
and every choice the units admit leaves a network that computes what the
original does with the removed channels forced to zero."""
import torch
import torch.nn as nn

from rv.nets import Reference, describe
from rv.prune import (build_net, close, make_mutator, prepare,
                      removed_classes, set_all, tracer_spec, tup, unit_elements)

ID = 'C01'
RULE = (
    'random convolutional networks (chains, residual sums, concatenations '
    'incl. re-split sums, depthwise and grouped convolutions, gates, shared '
    'modules, flatten heads) pushed through the real tracer, analyzer and '
    'mutator; non-trivial: at least one prunable unit; distinct by network '
    'and by choice')
ASSUMPTIONS = [
    'networks stay inside the operators the pruning docs list as supported',
    'networks that call one module several times only with the fx tracer',
]
REQUIRED_EVENTS = {'nets': 5, 'forwards_compared': 20, 'units': 10}


def compare_partition(ctx, mut, ref, spec, complete=True):
    got = {}
    for u in mut.mutable_units:
        for k, es in enumerate(unit_elements(u, ref)):
            ctx.check(es not in got, 'partition:channel-in-two-units',
                      lambda: f'{u.name}[{k}] {sorted(es)[:4]}')
            got[es] = u.name
            ctx.event('unit_channels')
        ctx.event('units')
    want = {v for r, v in ref.classes().items() if not ref.is_fixed(r)}
    g = set(got)
    if not complete:
        want = want & g  # the analysis may leave more units alone
    if g != want:
        miss = sorted(sorted(s)[:6] for s in want - g)[:2]
        extra = sorted(sorted(s)[:6] for s in g - want)[:2]
        ctx.check(False, 'partition:differs-from-dependencies',
                  f'expected only in reference {miss}, only in analysis '
                  f'{extra}; {describe(spec)}')
    ctx.check(True, 'partition')


def run(ctx, tracer, **kw):
    spec, net, x = build_net(ctx.rng, ctx.case_seed, tracer, **kw)
    ctx.sample(dict(net=describe(spec), tracer=tracer))
    unit = ctx.rng.choice(
        ['SequentialMutableChannelUnit', 'L1MutableChannelUnit'])
    mut, orig = prepare(ctx, net, tracer, unit=unit,
                        load=ctx.rng.random() < .5)
    ctx.event('nets')
    ref = Reference(spec)
    with torch.no_grad():
        y0 = tup(orig(x))
        with ctx.sut('forward-full'):
            y1 = tup(net(x))
        for a, b in zip(y0, y1):
            ctx.check(close(b, a), 'full-width:output-differs',
                      describe(spec))
        # the autograd tracer may give up (keep at full width) what a
        # concatenation couples; it must never split what is coupled
        cats = sum(n['op'] == 'cat' for n in spec['nodes'])
        compare_partition(ctx, mut, ref, spec,
                          complete=tracer == 'FxTracer' or not cats)
        n = len(mut.mutable_units)
        if n:
            ctx.key(describe(spec))
        for trial in range(6 if ctx.thorough else 4):
            if not n:
                break
            with ctx.sut('set_choices'):
                if trial == 0:
                    set_all(mut, 'min')
                elif trial == 1:  # a single unit pruned
                    set_all(mut, 'max')
                    u = ctx.rng.choice(mut.mutable_units)
                    u.current_choice = ctx.rng.randint(1, u.num_channels)
                else:
                    mut.set_choices(mut.sample_choices())
            if trial >= 3 and unit[:2] == 'L1':  # any set of channels, not only the leading ones
                for u in mut.mutable_units:
                    m = torch.rand(u.num_channels) < .6
                    if not m.any():
                        m[ctx.rng.randrange(u.num_channels)] = True
                    u.mutable_channel.current_choice = m
                ctx.event('arbitrary_masks')
            with ctx.sut('forward-pruned'):
                y2 = tup(net(x))
            gone = removed_classes(mut, ref)
            y3 = ref.masked_forward(
                orig, x, lambda e: ref.uf.find(e) not in gone)
            for a, b in zip(y2, y3):
                ctx.check(a.shape == b.shape, 'pruned:output-shape',
                          f'{a.shape} {b.shape} {describe(spec)}')
                ctx.check(close(a, b), 'pruned:not-the-masked-network',
                          lambda: f'{(a - b).abs().max():.3g} '
                          f'{describe(spec)}')
            ctx.event('forwards_compared')
            if gone:
                ctx.key(describe(spec), sorted(map(str, gone)))
        set_all(mut, 'max')
        for a, b in zip(y0, tup(net(x))):
            ctx.check(close(b, a), 'restored:output-differs', describe(spec))


def fx(ctx):
    run(ctx, 'FxTracer')


def fx_multi(ctx):
    run(ctx, 'FxTracer', multi=True, gn=True)


def backward(ctx):
    spec = tracer_spec(ctx.rng, 'BackwardTracer')
    run(ctx, 'BackwardTracer', spec=spec)


class Misaligned(nn.Module):
    """A group norm whose groups straddle those of another one."""
    hw = 6

    def __init__(self):
        super().__init__()
        self.c1, self.c2 = nn.Conv2d(3, 6, 1), nn.Conv2d(3, 20, 1)
        self.g1, self.g2 = nn.GroupNorm(5, 20), nn.GroupNorm(2, 26)
        self.c3 = nn.Conv2d(26, 4, 1)

    def forward(self, x):
        return self.c3(
            self.g2(torch.cat([self.c1(x), self.g1(self.c2(x))], 1)))


def misaligned(ctx):
    net = Misaligned()
    ctx.event('nets')
    try:
        make_mutator(net).prepare_from_supernet(net)
        ok, why = True, ''
    except Exception as e:  # noqa: BLE001
        ok, why = False, repr(e)[:200]
    ctx.probe(ok, 'probe:groupnorm-groups-straddle', why)


SECTIONS = {
    'fx': (fx, 500, 20000),
    'fx_multi': (fx_multi, 250, 8000),
    'backward': (backward, 250, 8000),
    'misaligned': (misaligned, 1, 1),
}
