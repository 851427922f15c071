"""C22: fake quantizers quantize as configured and learn as documented."""
import copy
import math

import torch
import torch.nn as nn

ID = 'C22'
RULE = (
    'random histories of tensors, modes, optimizer steps and state-dict '
    'reloads through the LSQ observers and the learnable fake quantizer, '
    'compared with a float64 reference of scale, zero point, output and '
    'gradients; random qconfigs built by QConfigHandler and their '
    'replacement by base fake quantizers')
ASSUMPTIONS = [
    'values within 1e-4 of a rounding tie may go either way',
    'gradients are followed for nonnegative zero points (torch itself rounds '
    'negative ones differently backward)',
    'an LSQ observer has seen a non-empty tensor before it is asked',
    'CPU tensors: the synchronisation over GPUs is not exercised',
]
REQUIRED_EVENTS = {'observed': 500, 'qparams': 300, 'forwards': 900,
                   'static': 150, 'learned': 150, 'gradients': 250,
                   'passed': 60, 'reloads': 60, 'per_channel': 200,
                   'configs': 80, 'levels': 150, 'replaced': 60,
                   'refused': 20, 'empty': 20}


def rand_tensor(rng, shape, dtype=torch.float32):
    x = torch.randn(shape) * 10**rng.uniform(-3, 2)
    how = rng.choice(['any', 'any', 'any', 'positive', 'negative', 'shift',
                      'zero', 'outlier', 'half'])
    if how == 'positive':
        x = x.abs()
    elif how == 'negative':
        x = -x.abs()
    elif how == 'shift':
        x = x + rng.choice([-3, 3]) * x.abs().max()
    elif how == 'zero':
        x = x * 0
    elif how == 'outlier':
        x.view(-1)[rng.randrange(x.numel())] *= 1000
    elif how == 'half':
        x = x.relu()
    return x.to(dtype)


def rand_bits(rng):
    signed = rng.random() < .5
    bit = rng.choice([2, 3, 4, 8, 8])
    if signed:
        lo = -2**(bit - 1) + (rng.random() < .5)
        return torch.qint8, lo, 2**(bit - 1) - 1
    return torch.quint8, 0, 2**bit - 1


def rand_scheme(rng, per_channel):
    sym = rng.random() < .5
    return {(0, 0): torch.per_tensor_affine, (0, 1): torch.per_tensor_symmetric,
            (1, 0): torch.per_channel_affine,
            (1, 1): torch.per_channel_symmetric}[(per_channel, sym)], sym


def rows(x, axis):
    """[channels, others] (one row without an axis), in float64."""
    x = x.detach().double()
    return x.reshape(1, -1) if axis is None else \
        x.transpose(0, axis).flatten(1) if x.dim() > 1 else x[:, None]


class Ref:
    """What an LSQ observer must know."""

    def __init__(self, dtype, lo, hi, sym, axis):
        self.dtype, self.qmin, self.qmax = dtype, lo, hi
        self.sym, self.axis = sym, axis
        self.lo = self.hi = self.norm = None

    def see(self, x):
        if x.numel() == 0:
            return
        r = rows(x.float(), self.axis)
        lo, hi = r.min(1)[0], r.max(1)[0]
        self.lo = lo if self.lo is None else torch.minimum(lo, self.lo)
        self.hi = hi if self.hi is None else torch.maximum(hi, self.hi)
        self.norm = r.abs().mean(1)

    def qparams(self):
        """scale, zero point, and where the latter is a tie."""
        scale = 2 * self.norm / math.sqrt(self.qmax)
        if self.sym:
            z = 0 if self.dtype == torch.qint8 else (self.qmin + self.qmax) // 2
            return scale, torch.full_like(scale, z), torch.zeros_like(scale)
        lo, hi = self.lo.clamp(max=0), self.hi.clamp(min=0)
        s = ((hi - lo) / (self.qmax - self.qmin)).clamp(
            min=torch.finfo(torch.float32).eps)
        z = self.qmin - lo / s
        return scale, z.round().clamp(self.qmin, self.qmax), near_tie(z)


def near_tie(v):
    return (((v - v.floor()) - .5).abs() < 1e-4 * (1 + v.abs())).double()


def close(a, b, rel=1e-5, tiny=1e-12):
    a, b = a.detach().double(), b.detach().double()
    return a.shape == b.shape and bool(
        ((a - b).abs() <= rel * b.abs() + tiny).all())


def make_observer(rng, per_channel, nd=None):
    from mmrazor.models.observers import LSQObserver, LSQPerChannelObserver
    dtype, lo, hi = rand_bits(rng)
    scheme, sym = rand_scheme(rng, per_channel)
    kw = dict(dtype=dtype, quant_min=lo, quant_max=hi, qscheme=scheme)
    axis = None
    if per_channel:
        axis = kw['ch_axis'] = rng.randrange(nd)
    cls = LSQPerChannelObserver if per_channel else LSQObserver
    return cls, kw, Ref(dtype, lo, hi, sym, axis)


def sec_observer(ctx):
    """Observers over histories of tensors."""
    rng = ctx.rng
    per_channel = rng.random() < .5
    nd = rng.choice([2, 2, 4, 4, 5])
    cls, kw, ref = make_observer(rng, per_channel, nd)
    with ctx.sut('building the observer'):
        obs = cls(**kw)
    shape = [rng.randint(1, 5) for _ in range(nd)]
    for _ in range(rng.randint(2, 7)):
        if not per_channel:
            shape = [rng.randint(1, 5) for _ in range(rng.randint(1, 4))]
        elif nd > 1:
            for d in range(nd):
                if d != ref.axis:
                    shape[d] = rng.randint(1, 5)
        act = rng.choice(['see', 'see', 'see', 'empty', 'reset', 'reload'])
        if act == 'reset' and ref.norm is not None:
            with ctx.sut('reset_min_max_vals'):
                obs.reset_min_max_vals()
            ref.lo = ref.hi = None
            act = 'see'
        elif act == 'reload' and ref.norm is not None:
            new = cls(**kw)
            with ctx.sut('loading the state of the observer'):
                new.load_state_dict(copy.deepcopy(obs.state_dict()))
            obs = new
            act = 'see'
        if act == 'empty' and ref.norm is not None and not per_channel:
            x = torch.zeros([0] + shape)
            ctx.event('empty')
        else:
            x = rand_tensor(rng, shape, rng.choice(
                [torch.float32, torch.float32, torch.float16, torch.float64]))
            x = x.clamp(-6e4, 6e4)
        keep = x.clone()
        x.requires_grad_(rng.random() < .3)
        with ctx.sut('observing'):
            out = obs(x)
        ctx.check(out is x and torch.equal(x.detach(), keep), 'input',
                  'the observer changed or replaced what it observed')
        ref.see(x)
        ctx.event('observed')
        ctx.check(close(obs.min_val.reshape(-1), ref.lo, 1e-6)
                  and close(obs.max_val.reshape(-1), ref.hi, 1e-6), 'range',
                  lambda: f'range {obs.min_val} {obs.max_val}, seen {ref.lo} '
                  f'{ref.hi}')
        if rng.random() < .7:
            with ctx.sut('calculate_qparams'):
                scale, zp = obs.calculate_qparams()
            want, z, tie = ref.qparams()
            ctx.check(close(scale.reshape(-1), want, 1e-5), 'scale',
                      lambda: f'scale {scale}, 2 mean|x| / sqrt(qmax) is '
                      f'{want}')
            gap = (zp.reshape(-1).double() - z).abs()
            ctx.check(bool((gap <= tie).all()), 'zero_point',
                      lambda: f'zero point {zp}, not {z} for '
                      f'{kw} {ref.lo} {ref.hi}')
            ctx.event('qparams')
    ctx.event('per_channel', per_channel)
    ctx.key(f'{kw["qscheme"]}{nd}')


def fake(x, s, z, lo, hi, axis):
    """Reference output, d/dx mask, d/ds, d/dz (per element), ties."""
    xd = x.detach().double()
    if axis is not None:
        view = [1] * x.dim()
        view[axis] = -1
        s, z = s.reshape(view), z.reshape(view)
    v = xd / s
    tie = near_tie(v) > 0
    # in or out of range is a tie as well when v + z is near lo - .5, hi + .5
    q = v.round() + z
    inside = (q >= lo) & (q <= hi)
    out = (q.clamp(lo, hi) - z) * s
    ds = torch.where(inside, q - z - v, q.clamp(lo, hi) - z)
    dz = torch.where(inside, torch.zeros_like(v), -s.expand_as(v))
    return out, inside, ds, dz, tie, s.expand_as(v)


def per_row(v, axis):
    return rows(v, axis).sum(1)


def sec_fakequant(ctx):
    """The learnable fake quantizer, through modes, steps and reloads."""
    from mmrazor.models.fake_quants import (enable_param_learning,
                                            enable_static_estimate,
                                            enable_val)
    from mmrazor.models.fake_quants import LearnableFakeQuantize
    rng = ctx.rng
    per_channel = rng.random() < .5
    nd = rng.choice([2, 4]) if per_channel else None
    cls, kw, ref = make_observer(rng, per_channel, nd)
    train_z = kw['dtype'] == torch.quint8 and rng.random() < .4
    scaling = rng.random() < .7
    lo, hi = kw['quant_min'], kw['quant_max']

    def build():
        with ctx.sut('building the fake quantizer'):
            return LearnableFakeQuantize(
                cls, use_grad_scaling=scaling, zero_point_trainable=train_z,
                **copy.deepcopy(kw))

    m = build()
    # a new one lets gradients through: wrappers must find its parameters
    flags = dict(static=True, learn=True, fake=True)
    ch = rng.randint(1, 5)
    scale, zp = torch.ones(1).double(), torch.zeros(1).double()
    eps = float(torch.finfo(torch.float32).eps)
    fresh = True  # nothing observed yet
    toggles = dict(
        learn=dict(static=False, learn=True, fake=True),
        static=dict(static=True, learn=False, fake=True),
        val=dict(static=False, learn=False, fake=True),
        watch=dict(static=True, learn=False, fake=False))
    for step in range(rng.randint(6, 16)):
        act = 'forward' if fresh else rng.choice(
            ['forward'] * 5 + ['mode'] * 3 + ['reload', 'copy', 'torch',
                                              'ask', 'empty'])
        if act == 'mode':
            mode = rng.choice(['learn', 'learn', 'static', 'val', 'watch'])
            whole = nn.Sequential(nn.Sequential(m), nn.ReLU())
            with ctx.sut(f'mode {mode}'):
                if mode == 'learn':
                    whole.apply(enable_param_learning) if rng.random() < .5 \
                        else m.enable_param_learning()
                elif mode == 'static':
                    whole.apply(enable_static_estimate) if rng.random() < .5 \
                        else m.enable_static_estimate()
                elif mode == 'val':
                    whole.apply(enable_val) if rng.random() < .5 \
                        else m.enable_val()
                else:
                    m.enable_static_observation()
            flags = dict(toggles[mode])
        elif act == 'torch':  # what the QAT and PTQ loops apply
            from torch.ao.quantization import (disable_fake_quant,
                                               disable_observer,
                                               enable_fake_quant,
                                               enable_observer)
            fn, change = rng.choice([
                (disable_fake_quant, dict(fake=False)),
                (enable_fake_quant, dict(fake=True)),
                (disable_observer, dict(static=False)),
                (enable_observer, dict(static=True))])
            with ctx.sut(fn.__name__):
                nn.Sequential(m).apply(fn)
            flags.update(change)
        elif act in ('reload', 'copy'):
            with ctx.sut(act):
                if act == 'copy':
                    m2 = copy.deepcopy(m)
                else:
                    m2 = build()
                    if rng.random() < .5:
                        nn.Sequential(m2).load_state_dict(
                            copy.deepcopy(nn.Sequential(m).state_dict()))
                    else:
                        m2.load_state_dict(copy.deepcopy(m.state_dict()))
                    m2.scale.requires_grad = m.scale.requires_grad
                    m2.zero_point.requires_grad = m.zero_point.requires_grad
            with torch.no_grad():  # the old one is no longer to matter
                m.scale.add_(1)
                m.zero_point.add_(1)
            m = m2
            ctx.event('reloads')
        elif act == 'ask':
            with ctx.sut('calculate_qparams'):
                s, z = m.calculate_qparams()
            scale = scale.clamp(min=eps)
            ctx.check(close(s, scale) and bool(
                (z.double() - zp.round().clamp(lo, hi)).abs().le(
                    near_tie(zp)).all()), 'asked',
                lambda: f'qparams {s} {z}, not {scale} {zp}')
        elif act == 'empty':
            if per_channel or flags['static']:
                continue
            x = torch.zeros(0, 3, requires_grad=True)
            with ctx.sut('an empty batch'):
                out = m(x)
            ctx.check(out.shape == x.shape, 'empty', 'an empty batch grew')
            scale = scale.clamp(min=eps)
            ctx.event('empty')
        if act != 'forward':
            continue
        fresh = False
        shape = [rng.randint(1, 5) for _ in range(nd or rng.randint(1, 4))]
        if per_channel:
            shape[ref.axis] = ch
        x = rand_tensor(rng, shape)
        x.requires_grad_(True)
        m.zero_grad(set_to_none=True)
        if not m.scale.requires_grad and m.scale.grad is not None:
            m.scale.grad = None
        with ctx.sut('forward'):
            out = m(x)
        if flags['static']:
            ref.see(x)
            scale, zp, ztie = ref.qparams()
            ctx.event('static')
            got = m.zero_point.detach().double().reshape(-1)
            ok = got.shape == zp.shape and bool(
                ((got - zp).abs() <= ztie).all())
            ctx.check(ok, 'static_zero',
                      lambda: f'zero point {got}, observed {zp}')
            if ok:
                zp = got
        else:
            scale = scale.clamp(min=eps)
            # the observer is not to see it
            ob = m.activation_post_process
            ctx.check(close(ob.min_val.reshape(-1), ref.lo, 1e-6)
                      and close(ob.max_val.reshape(-1), ref.hi, 1e-6),
                      'peeked', 'the observer was fed although disabled')
        ctx.check(close(m.scale, scale), 'scale',
                  lambda: f'{flags}: scale {m.scale.tolist()}, not '
                  f'{scale.tolist()}')
        if not close(m.scale, scale):
            return
        scale = m.scale.detach().double()
        ctx.event('forwards')
        ctx.event('per_channel', per_channel)
        if not flags['fake']:
            ctx.check(torch.equal(out, x), 'passed',
                      'the input was not passed through')
            ctx.event('passed')
            continue
        if bool((scale == 0).any()):
            ctx.check(bool((out == 0).all() | (scale != 0).any()), 'zeros',
                      'zeros became something else')
            continue
        zr = (zp + .5).floor().clamp(lo, hi)
        want, inside, ds, dz, tie, s_el = fake(x, scale, zr, lo, hi, ref.axis)
        gap = (out.detach().double() - want).abs()
        room = 1e-5 * want.abs() + 1e-5 * s_el + tie * s_el * 1.0001
        ctx.check(bool((gap <= room).all()), 'output',
                  lambda: f'{kw} {flags}: off by '
                  f'{float((gap / s_el).max())} steps')
        g = torch.randn_like(out)
        learn = flags['learn']
        with ctx.sut('backward'):
            out.backward(g)
        if bool((zr < 0).any()):
            continue
        bad = (x.grad.double() - g.double() * inside).abs() > 1e-6
        ctx.check(not bool((bad & ~tie).any()), 'straight_through',
                  'the gradient of the input is not passed inside the range '
                  'and stopped outside')
        ctx.check(learn or m.scale.grad is None, 'learned_off',
                  'the scale learns although it was not to')
        ctx.check(learn or m.zero_point.grad is None, 'learned_off',
                  'the zero point learns although it was not to')
        factor = 1 / math.sqrt(x.numel() * hi) if scaling else 1.
        gd = g.double()
        if learn:
            wantg = per_row(gd * ds, ref.axis) * factor
            room = (per_row(gd.abs() * ((tie * (hi - lo + 1))
                                        + 1e-4 * (1 + ds.abs())
                                        + 2e-6 * (x.detach().double()
                                                  / s_el).abs()),
                            ref.axis)) * factor
            ctx.check(m.scale.grad is not None and bool(
                ((m.scale.grad.double() - wantg).abs() <= room).all()),
                'scale_grad', lambda: f'{kw}: gradient of the scale '
                f'{m.scale.grad}, not {wantg} (factor {factor})')
            ctx.event('gradients')
            ctx.event('learned')
        if train_z and learn:
            wantz = per_row(gd * dz, ref.axis) * factor
            room = per_row(gd.abs() * s_el * (tie + 1e-4), ref.axis) * factor
            ctx.check(m.zero_point.grad is not None and bool(
                ((m.zero_point.grad.double() - wantz).abs() <= room).all()),
                'zero_grad', lambda: f'gradient of the zero point '
                f'{m.zero_point.grad}, not {wantz}')
        if learn and rng.random() < .6:
            with torch.no_grad():
                for p in m.parameters():
                    if p.grad is None:
                        continue
                    if p is m.scale:
                        p.sub_(p.grad * rng.choice([1e-3, 1e-2]))
                        if rng.random() < .1:
                            p.neg_()
                    else:
                        p.add_(torch.rand_like(p) * 3 - 1).clamp_(0, hi)
            scale = m.scale.detach().double()
            zp = m.zero_point.detach().double()
    ctx.key(f'{kw["qscheme"]}{train_z}{scaling}')


W_OBS = ['MinMaxObserver', 'PerChannelMinMaxObserver', 'LSQObserver',
         'LSQPerChannelObserver', 'MovingAverageMinMaxObserver',
         'MovingAveragePerChannelMinMaxObserver']
A_OBS = ['MinMaxObserver', 'LSQObserver', 'MovingAverageMinMaxObserver',
         'HistogramObserver']


def rand_qconfig(rng):
    def scheme():
        s = dict(qdtype=rng.choice(['qint8', 'quint8']),
                 bit=rng.choice([2, 4, 6, 8]),
                 is_symmetry=rng.random() < .5)
        if rng.random() < .5:
            s['is_symmetric_range'] = rng.random() < .6
        return s
    cfg = dict(w_observer=dict(type='mmrazor.' + rng.choice(W_OBS)),
               a_observer=dict(type='mmrazor.' + rng.choice(A_OBS)),
               w_qscheme=scheme(), a_qscheme=scheme())
    for k in 'wa':
        o = cfg[f'{k}_observer']['type']
        cfg[f'{k}_fake_quant'] = dict(
            type='mmrazor.' + ('LearnableFakeQuantize' if 'LSQ' in o
                               else 'FakeQuantize'))
        if 'MovingAverage' in o and rng.random() < .5:
            cfg[f'{k}_qscheme']['averaging_constant'] = \
                rng.choice([.01, .1, .5])
        if cfg[f'{k}_qscheme']['qdtype'] == 'quint8' and 'LSQ' in o and \
                rng.random() < .5:
            cfg[f'{k}_qscheme']['zero_point_trainable'] = True
    return cfg


def expect(s, o):
    bit = s['bit']
    if s['qdtype'] == 'quint8':
        lo, hi = 0, 2**bit - 1
    else:
        hi = 2**(bit - 1) - 1
        lo = -hi if s.get('is_symmetric_range') else -hi - 1
    per_channel = 'PerChannel' in o
    scheme = {(0, 0): torch.per_tensor_affine,
              (0, 1): torch.per_tensor_symmetric,
              (1, 0): torch.per_channel_affine,
              (1, 1): torch.per_channel_symmetric}[
                  (per_channel, s['is_symmetry'])]
    return lo, hi, scheme, per_channel


def sec_qconfig(ctx):
    """What a qconfig builds, and what replaces it for deployment."""
    from mmengine.config import Config, ConfigDict

    from mmrazor.models import (register_torch_fake_quants,
                                register_torch_observers)
    from mmrazor.structures import QConfigHandler
    register_torch_fake_quants()
    register_torch_observers()
    rng = ctx.rng
    cfg = rand_qconfig(rng)
    if rng.random() < .2:
        bad = copy.deepcopy(cfg)
        k = rng.choice(sorted(bad))
        if rng.random() < .5:
            bad.pop(k)
        else:
            bad[k] = 'nothing'
        with ctx.rejects('an incomplete qconfig', ValueError):
            QConfigHandler(bad)
        ctx.event('refused')
    if rng.random() < .1:
        bad = copy.deepcopy(cfg)
        bad[rng.choice(['w_qscheme', 'a_qscheme'])]['qdtype'] = 'int8'
        with ctx.rejects('a wrong dtype', AssertionError):
            QConfigHandler(bad)
        ctx.event('refused')
    keep = copy.deepcopy(cfg)
    given = rng.choice([lambda c: c, ConfigDict, Config])(cfg)
    with ctx.sut('QConfigHandler'):
        handler = QConfigHandler(given)
        qc = handler.convert()
        repr(handler.w_qscheme), str(handler.a_qscheme)
    now = given if isinstance(given, dict) else given._cfg_dict
    ctx.check(dict(now) == keep, 'config', 'the given config was changed')
    fixed = rng.random() < .3
    if fixed:
        with ctx.sut('fixed_w_fakequant'):
            handler.fixed_w_fakequant()
            qc = handler.convert()
    from torch.ao.quantization import disable_observer
    for k, make in (('w', qc.weight), ('a', qc.activation)):
        lo, hi, scheme, per_channel = expect(keep[f'{k}_qscheme'],
                                             keep[f'{k}_observer']['type'])
        with ctx.sut('building a fake quantizer of the qconfig'):
            fq = make()
            other = make()
        ctx.check(fq is not other and fq.activation_post_process is not
                  other.activation_post_process, 'shared',
                  'two fake quantizers share their state')
        o = fq.activation_post_process
        want = keep[f'{k}_observer']['type'].split('.')[-1]
        base = fixed and k == 'w'
        if base:
            want = 'PerChannelMinMaxObserver' if per_channel else \
                'MinMaxObserver'
        ctx.check(type(o).__name__ == want and type(fq).__name__ == (
            'FakeQuantize' if base else
            keep[f'{k}_fake_quant']['type'].split('.')[-1]), 'types',
            lambda: f'{type(fq)} of {type(o)} for {keep}')
        qd = torch.quint8 if keep[f'{k}_qscheme']['qdtype'] == 'quint8' \
            else torch.qint8
        ctx.check((o.dtype, o.quant_min, o.quant_max, o.qscheme) ==
                  (qd, lo, hi, scheme) and (fq.quant_min, fq.quant_max) ==
                  (lo, hi) and not o.reduce_range
                  and (not per_channel or o.ch_axis == 0), 'scheme',
                  lambda: f'{o.dtype} {o.quant_min} {o.quant_max} {o.qscheme}'
                  f' for {keep}')
        avg = keep[f'{k}_qscheme'].get('averaging_constant')
        ctx.check(avg is None or base or o.averaging_constant == avg, 'kwargs',
                  'an option of the observer was lost')
        shape = rng.choice([(6, 3, 3, 3), (4, 17), (5, 1, 3, 3)])
        with torch.no_grad():
            for _ in range(rng.randint(1, 3)):
                x = torch.randn(shape) * rng.choice([.1, 1, 30]) + \
                    rng.choice([0, 0, 1, -2])
                with ctx.sut('fake quantizing'):
                    y = fq(x)
        for r in (rows(y, 0) if per_channel else rows(y, None)):
            ctx.check(len(r.unique()) <= hi - lo + 1, 'levels',
                      lambda: f'{len(r.unique())} values of {hi - lo + 1} '
                      f'levels')
            ctx.event('levels')
        if want in ('MinMaxObserver', 'PerChannelMinMaxObserver'):
            s = fq.scale.double()
            s = s.reshape([-1] + [1] * (x.dim() - 1)) if per_channel else s
            gap = ((y - x).double().abs() / s).max()
            ctx.check(gap <= (1. if scheme in (
                torch.per_tensor_symmetric, torch.per_channel_symmetric)
                else .75), 'error', lambda: f'{gap} steps of error in range')
        ctx.event('configs')
        if k == 'w':
            continue
        # deployment
        if want == 'LSQObserver':
            with torch.no_grad():
                fq.enable_param_learning()
                fq.scale.mul_(rng.uniform(.5, 1.5))
                if keep['a_qscheme'].get('zero_point_trainable'):
                    fq.zero_point.copy_(torch.rand(1) * hi)
                if rng.random() < .3:
                    fq.scale.mul_(-1)
            fq.enable_val()
        else:
            fq.apply(disable_observer)
        first = rng.random() < .5
        x = torch.randn(shape) * rng.choice([.1, 1, 30])
        with torch.no_grad():
            if first:
                want_y = fq(x)
            with ctx.sut('replace_fakequant'):
                new = QConfigHandler.replace_fakequant(
                    fq, handler.a_qscheme, update_qparams=True)
            new.apply(disable_observer)
            if not first:
                want_y = fq(x)
            with ctx.sut('the replacement'):
                y = new(x)
        z = float(fq.zero_point)
        if abs(z - int(z) - .5) < 1e-3:
            continue
        step = float(fq.scale)
        gap = (y - want_y).abs()
        ctx.check(type(new).__name__ == 'FakeQuantize' and bool(
            (gap <= 1e-4 * want_y.abs() + 1e-4 * step +
             step * near_tie((x / step).double()).float()).all()), 'replaced',
            lambda: f'the replacement differs by {float(gap.max()) / step} '
            f'steps: {keep["a_observer"]} {keep["a_qscheme"]} '
            f'{fq.scale} {fq.zero_point}')
        ob = new.activation_post_process
        ctx.check(torch.equal(ob.min_val.reshape(-1), fq.
                              activation_post_process.min_val.reshape(-1))
                  and torch.equal(ob.max_val.reshape(-1), fq.
                                  activation_post_process.max_val.
                                  reshape(-1)), 'replaced_range',
                  'the observed range was lost')
        ctx.event('replaced')
    ctx.key(f'{keep["w_observer"]}{keep["a_observer"]}')


SECTIONS = {
    'observer': (sec_observer, 800, 8000),
    'fakequant': (sec_fakequant, 800, 8000),
    'qconfig': (sec_qconfig, 400, 4000),
}
