"""C13: distillation feeds its losses with the right results and moves only
what it may move."""
import contextlib
import copy
import os
import tempfile

import torch
import torch.nn as nn
from torch.nn.modules.batchnorm import _BatchNorm

from rv import dtoy, search

ID = 'C13'
RULE = (
    'random student and teacher networks, recorders, connectors, mappings '
    'and flags; every intermediate result is observed by own hooks; losses '
    'and gradients are recomputed by a reference that runs the networks '
    'directly; several optimizer steps with state diffs')
ASSUMPTIONS = ['mappings name results that the networks produce']
REQUIRED_EVENTS = {'loss_inputs': 600, 'gradients': 1500, 'steps': 250,
                   'frozen_teachers': 60, 'delivered': 40, 'stopped': 20,
                   'rejections_expected': 100, 'generator_updates': 40,
                   'teacher_validated': 20, 'margins': 30}
HW = 4


def rand_spec(rng):
    spec = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(['cm', 'cm', 'same', 'bn', 'two', 'drop'])
        spec.append((k, rng.choice([3, 4, 6]),
                     rng.choice([1, 1, 2]) if k in ('same', 'bn') else 1))
    return spec


class Watch:
    """Observe all module calls of a network, with copies of the values."""

    def __init__(self, net):
        self.events = []
        self.net = net
        for name, m in net.named_modules():
            if name:
                m.register_forward_hook(self.hook(name))

    def hook(self, name):

        def fn(m, inp, out):
            self.events.append((name, inp, out, clone(inp), clone(out)))

        return fn

    def clear(self):
        self.events = []


def clone(x):
    if isinstance(x, (tuple, list)):
        return type(x)(clone(v) for v in x)
    return x.detach().clone() if isinstance(x, torch.Tensor) else x


def eq(a, b):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(
            eq(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    return a.shape == b.shape and torch.allclose(a, b, rtol=1e-4, atol=1e-6)


def sources(net):
    """What can be recorded: (type, source, how many, tuple?)"""
    out = []
    for name, m in net.named_modules():
        if not name or isinstance(m, nn.ModuleList):
            continue
        out.append(name)
    return out


def rand_recorders(rng, net, who, n, fpn=False):
    mods, pars = sources(net), [k for k, _ in net.named_parameters()]
    if fpn:
        mods = [m for m in mods if m != 'head']
    cfg = {}
    for i in range(n):
        k = rng.random()
        if k < .5:
            c = dict(type='ModuleOutputs', source=rng.choice(mods))
        elif k < .75:
            c = dict(type='ModuleInputs', source=rng.choice(mods))
        elif k < .85 or fpn:
            c = dict(type='Parameter', source=rng.choice(pars))
        elif k < .95 or who == 'self':
            c = dict(type='MethodOutputs', source='rv.dtoy.RvNet.pool')
        else:
            c = dict(type='MethodInputs', source='rv.dtoy.RvNet.pool')
        cfg[f'{who[0]}{i}'] = c
    return cfg


def recorded(c, watch, net):
    """Records of a recorder config after a run: [(object, value)]."""
    if c['type'] == 'Parameter':
        p = dict(net.named_parameters())[c['source']]
        return [(p, p.detach().clone())]
    if c['type'].startswith('Method'):
        out = []
        for k, who, o in dtoy.TRACE:
            if k == 'pool' and who == net.who:
                out.append((o, o.detach().clone()))
        if c['type'] == 'MethodInputs':
            return None  # filled from the head's path: see pool_in
        return out
    out = []
    for name, i, o, ic, oc in watch.events:
        if name == c['source']:
            out.append((o, oc) if c['type'] == 'ModuleOutputs' else (i, ic))
    return out


CONNS = ['lin', 'list', 'two']


class Conn(nn.Module):
    """Any shape to a vector of numbers, with a parameter."""


def register():
    net = dtoy.register()
    dtoy.RvNet = net
    from mmrazor.registry import MODELS
    if MODELS.get('RvConn') is None:

        @MODELS.register_module()
        class RvConn(nn.Module):

            def __init__(self, k=1., two=False):
                super().__init__()
                self.k = nn.Parameter(torch.tensor(float(k)))
                self.two = two

            def forward(self, x):
                y = x.float() * self.k + .1
                return (y, y * 2 - 1) if self.two else y
    return net


def rand_mapping(rng, s_cfg, t_cfg, probe, conns, teacher=True):
    """One record_info; ``probe`` tells the records of a trial run."""
    for _ in range(20):
        from_s = rng.random() < .5 if teacher else True
        cfg = s_cfg if from_s else t_cfg
        if not cfg:
            continue
        name = rng.choice(list(cfg))
        recs = probe[from_s].get(name)
        if not recs:
            continue
        i = rng.randrange(len(recs))
        m = dict(recorder=name, from_student=from_s)
        if i or rng.random() < .3:
            m['record_idx'] = i
        v = recs[i][0]
        if isinstance(v, (tuple, list)):
            j = rng.randrange(len(v))
            m['data_idx'] = j
            v = v[j]
        if conns and rng.random() < .5:
            c = rng.choice(list(conns))
            m['connector'] = c
            if conns[c] == 2:
                m['connector_idx'] = rng.randint(0, 1)
        return m
    return None


def expect(m, probe, connectors):
    recs = probe[m['from_student']][m['recorder']]
    obj, val = recs[m.get('record_idx', 0)]
    if 'data_idx' in m:
        obj, val = obj[m['data_idx']], val[m['data_idx']]
    plain = 'connector' not in m
    if not plain:
        with torch.no_grad():
            val = connectors[m['connector']](val)
        if 'connector_idx' in m:
            val = val[m['connector_idx']]
    return obj if plain else None, val


def make(ctx, rng, kind):
    """A random algorithm and everything the oracle needs."""
    from mmrazor.registry import MODELS
    register()
    noisy = [n for n in ('noise', 'aug') if rng.random() < .3]
    if kind == 'fpn':
        noisy = [n for n in noisy]
    s_cfg = dict(type='RvNet', who='student', spec=rand_spec(rng),
                 noisy=noisy, seed=rng.randrange(10**6))
    t_cfg = dict(type='RvNet', who='teacher', spec=rand_spec(rng),
                 noisy=noisy, seed=rng.randrange(10**6))
    s0, t0 = MODELS.build(s_cfg), MODELS.build(t_cfg)
    conns, conn_cfg = {}, {}
    for i in range(rng.randint(0, 2)):
        k = rng.choice(CONNS)
        c = dict(type='RvConn', k=rng.uniform(.5, 2))
        if k == 'list':
            conn_cfg[f'c{i}'] = [c] + [
                dict(type='RvConn', k=rng.uniform(.3, 1))
                for _ in range(rng.randint(0, 2))]
            conns[f'c{i}'] = 1
        else:
            conn_cfg[f'c{i}'] = dict(c, two=k == 'two')
            conns[f'c{i}'] = 2 if k == 'two' else 1
    sr = rand_recorders(rng, s0, 'student' if kind != 'self' else 'self',
                        rng.randint(1, 3))
    tr = rand_recorders(rng, s0 if kind == 'self' else t0,
                        'teacher' if kind != 'self' else 'self',
                        rng.randint(1, 3), kind == 'fpn')
    if kind == 'self':
        sr = {'s' + k[1:]: v for k, v in sr.items()}
        tr = {'t' + k[1:]: v for k, v in tr.items()}
    # drop what this oracle does not log
    for d in (sr, tr):
        for k in [k for k, c in d.items() if c['type'] == 'MethodInputs']:
            del d[k]
    # trial run, to know how many records there will be
    probe = {True: {}, False: {}}
    for net, cfg, key in ((s0, sr, True),
                          (s0 if kind == 'self' else t0, tr, False)):
        w = Watch(net)
        dtoy.TRACE.clear()
        with torch.no_grad():
            net(torch.randn(2, 3, HW, HW))
        for n, c in cfg.items():
            probe[key][n] = recorded(c, w, net)
    losses, maps = {}, {}
    for i in range(rng.randint(1, 3)):
        name = rng.choice(['loss_d', 'd_loss', 'stat_']) + str(i)
        m = dict(a=rand_mapping(rng, sr, tr, probe, conns),
                 b=rand_mapping(rng, sr, tr, probe, conns))
        if rng.random() < .3:
            m['c'] = rand_mapping(rng, sr, tr, probe, conns)
        if any(v is None for v in m.values()):
            continue
        losses[name] = dict(type='RvLoss', name=name, w=rng.uniform(.5, 2))
        maps[name] = m
    deliveries = {}
    if kind in ('single', 'fpn'):
        for n in noisy:
            if rng.random() < .6:
                deliveries[n] = dict(
                    type='FunctionOutputs', max_keep_data=1,
                    func_path='rv.dtoy.noise') if n == 'noise' else dict(
                        type='MethodOutputs', max_keep_data=1,
                        method_path='rv.dtoy.Aug.__call__')
    distiller = dict(
        type='ConfigurableDistiller', student_recorders=sr,
        teacher_recorders=tr, distill_losses=losses,
        loss_forward_mappings=maps, connectors=conn_cfg,
        distill_deliveries=deliveries)
    return s_cfg, t_cfg, distiller, deliveries


def flat(losses):
    out = {}
    for k, v in losses.items():
        out[k] = v if isinstance(v, torch.Tensor) else sum(v)
    return out


def total(losses):
    return sum(v for k, v in flat(losses).items() if 'loss' in k)


def reference(alg, kind, x, flags, dcfg, deliveries, seed):
    """The losses, computed with the networks of a copy directly."""
    student, dist = alg.architecture, alg.distiller
    teacher = student if kind == 'self' else alg.teacher
    sw = Watch(student)
    tw = sw if kind == 'self' else Watch(teacher)
    out = {}
    torch.manual_seed(seed)
    dtoy.TRACE.clear()
    tr_events = None
    if kind != 'self':
        with contextlib.ExitStack() as st:
            if not flags['teacher_trainable']:
                st.enter_context(torch.no_grad())
            if kind == 'fpn':
                dtoy.TRACING[0] = 'teacher'
                teacher.extract_feat(x)
                dtoy.TRACING[0] = None
            else:
                tl = teacher(x, None, mode='loss')
                if flags['teacher_trainable']:
                    out.update({'teacher.' + k: v for k, v in tl.items()})
    made = [(k, o) for k, who, o in dtoy.TRACE if k in ('noise', 'aug')]
    # what the student gets delivered; without delivery it draws its own
    with contextlib.ExitStack() as st:
        if not flags['student_trainable'] and \
                not flags['calculate_student_loss']:
            st.enter_context(torch.no_grad())
        st.enter_context(fed({k: o for k, o in made if k in deliveries}))
        sl = student(x, None, mode='loss')
    if flags['calculate_student_loss']:
        out.update({'student.' + k: v for k, v in sl.items()})
    recs = {True: {}, False: {}}
    for net, w, cfg, key in (
            (student, sw, dcfg['student_recorders'], True),
            (teacher, tw, dcfg['teacher_recorders'], False)):
        for n, c in cfg.items():
            recs[key][n] = recorded(c, w, net)
    if not flags.get('stopped'):
        for name, m in dcfg['loss_forward_mappings'].items():
            args = {}
            for a, info in m.items():
                v = recs[info['from_student']][info['recorder']][
                    info.get('record_idx', 0)][0]
                if 'data_idx' in info:
                    v = v[info['data_idx']]
                if 'connector' in info:
                    v = dist.connectors[info['connector']](v)
                if 'connector_idx' in info:
                    v = v[info['connector_idx']]
                if flags.get('byot') and not info['from_student']:
                    v = v.detach()
                args[a] = v
            out['distill.' + name] = dist.distill_losses[name].value(**args)
    return out


@contextlib.contextmanager
def fed(values):
    """Replace the random functions by given values, for a reference."""
    old_n, old_a = dtoy.noise, dtoy.Aug.__call__
    if 'noise' in values:
        dtoy.noise = lambda x: values['noise']
    if 'aug' in values:
        dtoy.Aug.__call__ = lambda self, x: values['aug']
    try:
        yield
    finally:
        dtoy.noise, dtoy.Aug.__call__ = old_n, old_a


def run_alg(ctx, kind):
    from mmrazor.models import algorithms as A
    from mmrazor.registry import MODELS
    rng = ctx.rng
    register()
    Loss = MODELS.get('RvLoss')
    s_cfg, t_cfg, dcfg, deliveries = make(ctx, rng, kind)
    flags = dict(
        student_trainable=rng.random() < .8,
        calculate_student_loss=rng.random() < .7,
        teacher_trainable=rng.random() < .3 and kind == 'single')
    norm_eval = rng.random() < .6
    byot = kind == 'self' and rng.random() < .6
    if byot:
        dcfg['type'] = 'BYOTDistiller'
    kw = {k: v for k, v in flags.items()
          if kind != 'self' or k != 'teacher_trainable'}
    flags['byot'] = byot
    tmp = tempfile.mkdtemp(prefix='rv_c13_')
    try:
        given = None
        if kind != 'self':
            kw['teacher'] = t_cfg
            kw['teacher_norm_eval'] = norm_eval
            if rng.random() < .4:
                other = MODELS.build(dict(t_cfg, seed=rng.randrange(10**6)))
                given = {k: v.clone() for k, v in other.state_dict().items()}
                path = os.path.join(tmp, 't.pth')
                torch.save(dict(state_dict=given), path)
                kw['teacher_ckpt'] = path
        cls = dict(single=A.SingleTeacherDistill, fpn=A.FpnTeacherDistill,
                   self=A.SelfDistill)[kind]
        ctx.key(kind, str(s_cfg['spec']), str(dcfg), str(flags))
        ctx.sample(dict(kind=kind, student=s_cfg['spec'], mappings=dcfg[
            'loss_forward_mappings'], flags=flags))
        with ctx.sut('build'):
            alg = cls(architecture=s_cfg, distiller=dcfg, **kw)
        x = torch.linspace(-1, 1, 5)
        for name, c in dcfg['connectors'].items():
            want = x
            for part in c if isinstance(c, list) else [c]:
                want = want * part['k'] + .1
            if not isinstance(c, list) and c['two']:
                want = torch.cat([want, want * 2 - 1])
            with ctx.sut('a connector'), torch.no_grad():
                got = alg.distiller.connectors[name](x)
            got = torch.cat(got) if isinstance(got, tuple) else got
            ctx.check(got.shape == want.shape and torch.allclose(
                got, want, atol=1e-5), 'connectors', lambda:
                f'{name}: {got.tolist()} of {c}, {want.tolist()} expected')
            ctx.event('connectors')
        if given is not None:
            with ctx.sut('init_weights'):
                alg.init_weights()
            ctx.check(search.same_state(
                given, {k: v for k, v in alg.teacher.state_dict().items()}),
                'teacher-checkpoint', 'the teacher is not the checkpoint')
        student = alg.architecture
        teacher = student if kind == 'self' else alg.teacher
        sw = Watch(student)
        tw = sw if kind == 'self' else Watch(teacher)
        # a wrapper's optimizer: everything that asks for gradients
        params = [p for p in alg.parameters() if p.requires_grad]
        opt = torch.optim.SGD(params, .05)
        with ctx.sut('train'):
            alg.train()
        for name, m in alg.named_modules():
            want = True
            if kind != 'self' and name.startswith('teacher.') and \
                    isinstance(m, _BatchNorm) and norm_eval:
                want = False
            ctx.check(m.training == want, 'mode',
                      lambda: f'{name}: training={m.training}')
        for step in range(rng.randint(1, 3)):
            if kind in ('single', 'fpn') and step and rng.random() < .3:
                stop(ctx, alg, step)
                flags['stopped'] = True
            one_step(ctx, rng, alg, kind, flags, dcfg, deliveries, sw, tw,
                     opt, Loss, student, teacher, norm_eval)
        # the other modes are those of the student
        with ctx.sut('eval'):
            alg.eval()
        ctx.check(not any(m.training for m in alg.modules()), 'mode',
                  'modules in training mode after eval()')
        x = torch.randn(3, 3, HW, HW)
        for mode in ('tensor', 'predict'):
            torch.manual_seed(5)
            with ctx.sut(mode), torch.no_grad():
                y = alg(x, mode=mode)
            torch.manual_seed(5)
            with torch.no_grad():
                ctx.check(torch.equal(y, student(x, mode=mode)),
                          'inference', f'{mode} is not the student\'s')
        with ctx.sut('train'):
            alg.train()
        if kind != 'self' and norm_eval:
            ctx.check(not any(m.training for m in teacher.modules()
                              if isinstance(m, _BatchNorm)), 'mode',
                      'norms of the teacher train again')
    finally:
        import shutil
        shutil.rmtree(tmp)


def stop(ctx, alg, step):
    """The hook stops the distillation from its epoch on."""
    from mmrazor.engine.hooks import StopDistillHook
    hook = StopDistillHook(step)
    r = search.Runner(alg, '.')
    r.epoch = step - 1
    with ctx.sut('hook'):
        hook.before_train_epoch(r)
    if not alg.distillation_stopped or True:
        r.epoch = step + ctx.rng.randint(0, 1)
        with ctx.sut('hook'):
            hook.before_train_epoch(r)
    ctx.check(alg.distillation_stopped is True, 'stop-hook',
              'the hook did not stop the distillation')


def one_step(ctx, rng, alg, kind, flags, dcfg, deliveries, sw, tw, opt, Loss,
             student, teacher, norm_eval):
    x = torch.randn(rng.randint(2, 3), 3, HW, HW)
    seed = rng.randrange(10**6)
    for man in (alg.distiller.student_recorders,
                alg.distiller.teacher_recorders):
        for r in man.recorders.values():
            r.reset_data_buffer()  # results of the last step: not copyable
    twin = copy.deepcopy(alg)
    for m in twin.modules():
        m._forward_hooks.clear()
    before = search.state(alg)
    sw.clear()
    tw.clear()
    dtoy.TRACE.clear()
    Loss.LOG.clear()
    torch.manual_seed(seed)
    with ctx.sut('loss'):
        losses = alg(x, None, mode='loss')
    got = {k: clone(v) for k, v in losses.items()}
    # 1. the losses are fed with what was recorded
    probe = {True: {}, False: {}}
    for net, w, cfg, key in (
            (student, sw, dcfg['student_recorders'], True),
            (teacher, tw, dcfg['teacher_recorders'], False)):
        for n, c in cfg.items():
            probe[key][n] = recorded(c, w, net)
    logged = list(Loss.LOG)
    want_names = [] if flags.get('stopped') else list(
        dcfg['loss_forward_mappings'])
    ctx.check([n for n, _ in logged] == want_names, 'losses-called',
              lambda: f'{[n for n, _ in logged]} instead of {want_names}')
    if flags.get('stopped'):
        ctx.event('stopped')
    for name, args in logged:
        for a, m in dcfg['loss_forward_mappings'][name].items():
            ctx.event('loss_inputs')
            obj, val = expect(m, probe, alg.distiller.connectors)
            g = args[a]
            if obj is not None and not (
                    flags['byot'] and not m['from_student']):
                ctx.check(g is obj, 'wrong-record', lambda:
                          f'{name}.{a} of {m}: another object')
            ctx.check(eq(g, val), 'wrong-value', lambda:
                      f'{name}.{a} of {m}: differs from what the network '
                      'computed there')
            if not m['from_student']:
                t_free = flags['teacher_trainable'] or \
                    'connector' in m or kind == 'self'
                if not t_free or flags['byot']:
                    ctx.check(not g.requires_grad or (
                        kind == 'self' and not flags['byot']),
                        'teacher-gradient', lambda:
                        f'{name}.{a} of {m}: a gradient to the teacher')
    # 2. deliveries: the student saw the teacher's random values
    for n in deliveries:
        lst = [w for k, w, _ in dtoy.TRACE if k == n]
        ctx.event('delivered')
        ctx.check(len(lst) == 1, 'delivery', lambda:
                  f'{n} was drawn by {lst}')
    # 3. values and gradients against a reference
    ref = reference(twin, kind, x, flags, dcfg, deliveries, seed)
    ctx.check(set(ref) == set(got), 'loss-names', lambda:
              f'{sorted(got)} instead of {sorted(ref)}')
    for k in ref:
        ctx.check(eq(got[k], clone(ref[k])), 'loss-value', lambda:
                  f'{k}: {got[k]} instead of {ref[k]}')
    a, b = total(losses), total(ref)
    opt.zero_grad()
    alg.zero_grad()
    if isinstance(b, torch.Tensor) and b.requires_grad:
        ctx.check(a.requires_grad, 'no-gradient', 'the loss has no gradient')
        a.backward()
        b.backward()
        for (n, p), (_, q) in zip(alg.named_parameters(),
                                  twin.named_parameters()):
            ctx.event('gradients')
            pg = torch.zeros_like(p) if p.grad is None else p.grad
            qg = torch.zeros_like(q) if q.grad is None else q.grad
            ctx.check(torch.allclose(pg, qg, rtol=1e-3, atol=1e-6),
                      'gradient', lambda: f'{n}: gradient differs by '
                      f'{(pg - qg).abs().max()}')
        opt.step()
    else:
        ctx.check(not isinstance(a, torch.Tensor) or not a.requires_grad,
                  'unexpected-gradient', 'a gradient where none is due')
    ctx.event('steps')
    # 4. what may move
    after = search.state(alg)
    if kind != 'self' and not flags['teacher_trainable']:
        ctx.event('frozen_teachers')
        bns = {n for n, m in alg.named_modules()
               if isinstance(m, _BatchNorm)}
        for k in after:
            if not k.startswith('teacher.'):
                continue
            is_stat = k.rsplit('.', 1)[0] in bns and \
                k.rsplit('.', 1)[1] in ('running_mean', 'running_var',
                                        'num_batches_tracked')
            if is_stat and not norm_eval:
                continue
            ctx.check(torch.equal(before[k], after[k]), 'teacher-moved',
                      lambda: f'{k} of the frozen teacher changed')
    if kind != 'self':
        ctx.check(not any(p.grad is not None for p in teacher.parameters())
                  or flags['teacher_trainable'], 'teacher-grad',
                  'the frozen teacher has gradients')


def single(ctx):
    run_alg(ctx, 'single')


def fpn(ctx):
    run_alg(ctx, 'fpn')


def self_(ctx):
    run_alg(ctx, 'self')


def ofd(ctx):
    """Margins of the overhaul distillation, and its loss."""
    import math

    from mmrazor.models import algorithms as A
    from mmrazor.registry import MODELS
    rng = ctx.rng
    register()
    w = rng.randint(2, 6)
    spec = [('cm', w, 1), ('bn', w, 1)]
    t_cfg = dict(type='RvNet', who='teacher', spec=spec, seed=ctx.case_seed)
    s_cfg = dict(type='RvNet', who='student', spec=spec,
                 seed=ctx.case_seed + 1)
    given = MODELS.build(t_cfg)
    g = torch.Generator().manual_seed(ctx.case_seed)
    for m in given.modules():
        if isinstance(m, nn.BatchNorm2d):
            m.weight.data = torch.randn(m.num_features, generator=g)
            m.weight.data[m.weight.data.abs() < .05] = .05
            # some are so positive that hardly anything is negative
            m.bias.data = torch.randn(m.num_features, generator=g) * \
                rng.choice([.5, 2., 6.])
    tmp = tempfile.mkdtemp(prefix='rv_c13_')
    try:
        path = os.path.join(tmp, 't.pth')
        torch.save(dict(state_dict=given.state_dict()), path)
        srcs = rng.sample(['blocks.0.bn', 'blocks.1'], rng.randint(1, 2))
        rec = {f'r{i}': dict(type='ModuleOutputs', source=s)
               for i, s in enumerate(srcs)}
        wts = [rng.choice([1., .5]) for _ in srcs]
        with ctx.sut('build'):
            alg = A.OverhaulFeatureDistillation(
                architecture=s_cfg, teacher=t_cfg, teacher_ckpt=path,
                calculate_student_loss=rng.random() < .5,
                distiller=dict(
                    type='OFDDistiller', student_recorders=rec,
                    teacher_recorders=rec,
                    distill_losses={
                        f'loss_{i}': dict(type='OFDLoss', loss_weight=x)
                        for i, x in enumerate(wts)},
                    connectors={f'm{i}': dict(type='OFDTeacherConnector')
                                for i in range(len(srcs))},
                    loss_forward_mappings={
                        f'loss_{i}': dict(
                            s_feature=dict(from_student=True,
                                           recorder=f'r{i}'),
                            t_feature=dict(from_student=False,
                                           recorder=f'r{i}',
                                           connector=f'm{i}'))
                        for i in range(len(srcs))}))
            alg.init_weights()
            alg.train()
        mods = dict(alg.teacher.named_modules())
        ctx.key('ofd', str(srcs), ctx.case_seed)
        margins = []
        for i, s in enumerate(srcs):
            got = alg.distiller.connectors[f'm{i}'].margin.flatten()
            bn = dict(given.named_modules())[s]
            want = []
            for sd, mu in zip(bn.weight.tolist(), bn.bias.tolist()):
                sd = abs(sd)
                # mean of the negative part of a normal distribution
                p = .5 * math.erfc(mu / sd / math.sqrt(2))
                if p > .001:
                    want.append(mu - sd * math.exp(-(mu / sd)**2 / 2) /
                                math.sqrt(2 * math.pi) / p)
                else:
                    want.append(-3 * sd)
            want = torch.tensor(want)
            margins.append(want)
            ctx.event('margins')
            ctx.check(torch.allclose(got, want, rtol=1e-3, atol=1e-4),
                      'margin', lambda: f'{s}: {got} instead of {want}')
        sw, tw = Watch(alg.architecture), Watch(alg.teacher)
        x = torch.randn(3, 3, HW, HW)
        with ctx.sut('loss'):
            losses = alg(x, None, mode='loss')
        for i, s in enumerate(srcs):
            t = [e[4] for e in tw.events if e[0] == s][0]
            u = [e[4] for e in sw.events if e[0] == s][0]
            t = torch.maximum(t, margins[i].view(1, -1, 1, 1))
            d = ((u - t)**2) * ((u > t) | (t > 0))
            want = wts[i] * d.double().sum() / len(x) / 1000
            ctx.check(abs(float(losses[f'distill.loss_{i}']) - float(want))
                      <= 1e-3 * abs(float(want)) + 1e-7, 'ofd-loss',
                      lambda: f'{s}: {losses[f"distill.loss_{i}"]} instead '
                      f'of {want}')
    finally:
        import shutil
        shutil.rmtree(tmp)


def datafree(ctx):
    """Generator and student move by their own losses only."""
    from mmengine.optim import OptimWrapper

    from mmrazor.models import algorithms as A
    rng = ctx.rng
    register()
    dafl = rng.random() < .4
    nt = rng.randint(1, 2)
    spec = [('cm', 4, 1), (rng.choice(['bn', 'same', 'two']), 4, 1)]
    t_cfgs = {f't{i}': dict(build_cfg=dict(
        type='RvNet', who=f'teacher{i}', spec=rand_no_drop(rng),
        seed=ctx.case_seed + i)) for i in range(nt)}
    tmp = tempfile.mkdtemp(prefix='rv_c13_')
    try:
        given = {}
        for k, c in t_cfgs.items():
            if rng.random() < .4:
                from mmrazor.registry import MODELS
                o = MODELS.build(dict(c['build_cfg'],
                                      seed=rng.randrange(10**6)))
                given[k] = {n: v.clone() for n, v in o.state_dict().items()}
                c['ckpt_path'] = os.path.join(tmp, k + '.pth')
                torch.save(dict(state_dict=given[k]), c['ckpt_path'])

        def dist(name, w):
            s = dict(s0=dict(type='ModuleOutputs', source='head'))
            t = {f'r{i}': dict(type='ModuleOutputs', source=f't{i}.head')
                 for i in range(nt)}
            m = dict(a=dict(recorder='s0', from_student=True),
                     b=dict(recorder=f'r{nt - 1}', from_student=False))
            if rng.random() < .5:
                m['c'] = dict(recorder='r0', from_student=False)
            if rng.random() < .3 and name == 'loss_gen':
                m['a'], m['b'] = m['b'], dict(recorder='r0',
                                              from_student=False)
            return dict(
                type='ConfigurableDistiller', student_recorders=s,
                teacher_recorders=t,
                distill_losses={name: dict(type='RvLoss', name=name, w=w)},
                loss_forward_mappings={name: m})

        d, gd = dist('loss_dis', 1.), dist('loss_gen', -1.)
        student_iter = 1 if dafl else rng.randint(1, 3)
        first = rng.random() < .5
        cls = A.DAFLDataFreeDistillation if dafl else A.DataFreeDistillation
        with ctx.sut('build'):
            alg = cls(
                architecture=dict(type='RvNet', who='student', spec=spec,
                                  seed=ctx.case_seed + 7),
                teachers=t_cfgs, generator=dict(
                    type='RvGen', hw=HW, seed=ctx.case_seed + 9),
                distiller=d, generator_distiller=gd,
                student_iter=student_iter, student_train_first=first)
            alg.init_weights()
        for k, sd in given.items():
            ctx.check(search.same_state(sd, alg.teachers[k].state_dict()),
                      'teacher-checkpoint', f'{k} is not its checkpoint')
        ctx.key('datafree', dafl, nt, student_iter, first, str(spec),
                str(d['loss_forward_mappings']), ctx.case_seed)

        # gradients are summed up over several updates by some optimizers
        acc = {k: rng.choice([1, 1, 2, 3])
               for k in ('architecture', 'generator')}
        count = dict.fromkeys(acc, 0)

        def optims(a):
            return {k: OptimWrapper(
                torch.optim.SGD(getattr(a, k).parameters(), .1, momentum=.5),
                accumulative_counts=acc[k]) for k in acc}

        ref = copy.deepcopy(alg)
        opt, ropt = optims(alg), optims(ref)
        alg.train()
        ref.train()
        start = search.state(alg.teachers)
        n = rng.randint(2, 4)
        data = dict(inputs=torch.randn(n, 3, HW, HW), data_samples=None)

        def logits(a, x):
            s = a.architecture(x)
            t = [v(x) for v in a.teachers.values()]
            return s, t

        def value(a, cfg, dist_, s, t):
            name = list(cfg['loss_forward_mappings'])[0]
            args = {}
            for k, m in cfg['loss_forward_mappings'][name].items():
                args[k] = s if m['from_student'] else t[
                    int(m['recorder'][1:])]
            return dist_.distill_losses[name].value(**args)

        def gen_loss(a, z):
            x = a.generator(z, n)
            s, t = logits(a, x)
            return x, value(a, gd, a.generator_distiller, s, t)

        def dis_loss(a, x):
            s = a.architecture(x)
            with torch.no_grad():
                t = [v(x) for v in a.teachers.values()]
            return value(a, d, a.distiller, s, t)

        def move(a, part, gr):
            for p, g in zip(getattr(a, part).parameters(), gr):
                if g is not None:
                    g = g / acc[part]
                    p.grad = g if p.grad is None else p.grad + g
            count[part] += 1
            if count[part] % acc[part] == 0:
                ropt[part].optimizer.step()
                ropt[part].optimizer.zero_grad()

        def apply(a, loss, part):
            move(a, part, torch.autograd.grad(
                loss, list(getattr(a, part).parameters()), allow_unused=True,
                retain_graph=True))

        for step in range(rng.randint(1, 3)):
            seed = rng.randrange(10**6)
            torch.manual_seed(seed)
            alg.generator.calls.clear()
            if rng.random() < .5:
                alg.train()  # must not wake the teachers
                ref.train()
            with ctx.sut('train_step'):
                logs = alg.train_step(data, opt)
            zs = [z for z, _ in alg.generator.calls]
            ctx.check(all(b == n and tuple(z.shape) == (n, 5)
                          for z, b in alg.generator.calls), 'batch',
                      'fake batches of another size')
            want_calls = 1 if dafl else 1 + student_iter
            ctx.check(len(zs) == want_calls, 'student-iter', lambda:
                      f'{len(zs)} fake batches instead of {want_calls}')
            # the reference: the same random inputs, updates by hand
            for t in ref.teachers.values():
                t.eval()
            want = {}
            if dafl:
                x, lg = gen_loss(ref, zs[0])
                ld = dis_loss(ref, x.detach())
                # both losses are those before the updates
                gg = torch.autograd.grad(
                    lg, list(ref.generator.parameters()), retain_graph=True)
                sg = torch.autograd.grad(
                    ld, list(ref.architecture.parameters()),
                    allow_unused=True)
                move(ref, 'generator', gg)
                move(ref, 'architecture', sg)
            else:
                def student(zs_):
                    for z in zs_:
                        with torch.no_grad():
                            x = ref.generator(z, n)
                        ld = dis_loss(ref, x)
                        apply(ref, ld, 'architecture')
                    return ld

                def generator(z):
                    _, lg = gen_loss(ref, z)
                    apply(ref, lg, 'generator')
                    return lg
                if first:
                    ld = student(zs[:-1])
                    lg = generator(zs[-1])
                else:
                    lg = generator(zs[0])
                    ld = student(zs[1:])
            want['distill.loss_dis'] = want['distill.loss'] = float(ld)
            want['generator.loss_gen'] = want['generator.loss'] = float(lg)
            if max(acc.values()) > 1:
                ctx.event('accumulated')
            ctx.check(set(logs) == set(want), 'log-names', lambda:
                      f'{sorted(logs)} instead of {sorted(want)}')
            for k, v in want.items():
                ctx.check(abs(float(logs[k]) - v) <= 1e-3 * abs(v) + 1e-5,
                          'log-value', lambda: f'{k}: {logs[k]} not {v}')
            for part in ('architecture', 'generator'):
                a, b = search.state(getattr(alg, part)), search.state(
                    getattr(ref, part))
                for k in a:
                    ctx.event('gradients')
                    ctx.check(torch.allclose(
                        a[k].float(), b[k].float(), rtol=1e-3, atol=1e-5),
                        f'moved:{part}', lambda: f'{part}.{k} differs by '
                        f'{(a[k] - b[k]).abs().max()} from the update by '
                        'its own loss')
            ctx.event('generator_updates')
            ctx.event('steps')
            ctx.check(search.same_state(start, search.state(alg.teachers)),
                      'teacher-moved', 'a teacher changed')
            ctx.check(not any(p.grad is not None or p.requires_grad
                              for p in alg.teachers.parameters()),
                      'teacher-grad', 'a teacher has gradients')
            ctx.event('frozen_teachers')
    finally:
        import shutil
        shutil.rmtree(tmp)


def rand_no_drop(rng):
    return [s for s in rand_spec(rng) if s[0] != 'drop'] or [('cm', 4, 1)]


def val(ctx):
    """Validation of student and teacher on the same data."""
    from mmrazor.engine.runner import (SelfDistillValLoop,
                                       SingleTeacherDistillValLoop)
    from mmrazor.models import algorithms as A
    rng = ctx.rng
    register()
    mk = dict(type='ConfigurableDistiller')
    self_d = rng.random() < .4
    s = dict(type='RvNet', who='student', spec=rand_spec(rng),
             seed=ctx.case_seed)
    if self_d:
        alg = A.SelfDistill(architecture=s, distiller=mk)
    else:
        alg = A.SingleTeacherDistill(
            architecture=s, distiller=mk, teacher=dict(
                type='RvNet', who='teacher', spec=rand_spec(rng),
                seed=ctx.case_seed + 1))

    seen = []

    class Ev(search.Evaluator):

        def process(self, data_samples=None, data_batch=None):
            self.outs.append(data_samples.float())

        def evaluate(self, n):
            y = torch.cat(self.outs)
            assert len(y) == n, (len(y), n)
            self.outs = []
            seen.append(y)
            return dict(acc=float((y * torch.arange(1, n + 1)).sum()),
                        one=float(y[0]))

    from mmengine.evaluator import Evaluator as MM

    class E(Ev, MM):

        def __init__(self):
            MM.__init__(self, [])
            self.outs = []

    n = rng.randint(1, 5)
    ld = search.loader(n, rng.randint(1, 3), HW, ctx.case_seed)
    r = search.Runner(alg, '.')
    got = {}

    def hook(name, **kw):
        if 'metrics' in kw:
            got.update(kw['metrics'])

    r.call_hook = hook
    before = search.state(alg)
    alg.train()
    with ctx.sut('val'):
        loop = (SelfDistillValLoop if self_d else
                SingleTeacherDistillValLoop)(r, ld, E())
        loop.run()
    ctx.key('val', self_d, n, str(s['spec']))
    ctx.check(search.same_state(before, search.state(alg)), 'val-state',
              'validation changed the model')
    alg.eval()
    x = ld.dataset.x
    want = {}
    with torch.no_grad():
        for name, net in [('', alg.architecture)] + (
                [] if self_d else [('teacher.', alg.teacher)]):
            y = net(x, mode='predict').float()
            if self_d:
                name = 'student.'
            want[name + 'acc'] = float((y * torch.arange(1, n + 1)).sum())
            want[name + 'one'] = float(y[0])
    ctx.event('teacher_validated', 0 if self_d else 1)
    ctx.check(got == want, 'val-metrics', lambda: f'{got} is not {want}')


def reject(ctx):
    """Wrong configurations do not pass silently."""
    from mmrazor.registry import MODELS
    rng = ctx.rng
    register()
    base = dict(
        type='ConfigurableDistiller',
        student_recorders=dict(
            r=dict(type='ModuleOutputs', source='head')),
        teacher_recorders=dict(
            q=dict(type='ModuleOutputs', source='head')),
        distill_losses=dict(loss=dict(type='RvLoss', name='x')),
        connectors=dict(c=dict(type='RvConn')),
        loss_forward_mappings=dict(loss=dict(
            a=dict(recorder='r', from_student=True),
            b=dict(recorder='q', from_student=False, connector='c'))))

    def bad(mech, exc, fn):
        cfg = copy.deepcopy(base)
        fn(cfg)
        with ctx.rejects(mech, exc):
            MODELS.build(cfg)

    def m(cfg):
        return cfg['loss_forward_mappings']['loss']

    arg = rng.choice('ab')
    bad('unknown-loss', AssertionError,
        lambda c: c['loss_forward_mappings'].update(nope=m(c)))
    bad('unknown-argument', AssertionError,
        lambda c: m(c).update(z=m(c)['a']))
    bad('unknown-recorder', AssertionError,
        lambda c: m(c)[arg].update(recorder='zz'))
    bad('recorder-of-the-other', AssertionError,
        lambda c: m(c)[arg].update(from_student=arg == 'b'))
    bad('no-recorder', AssertionError, lambda c: m(c)[arg].pop('recorder'))
    bad('no-side', AssertionError, lambda c: m(c)[arg].pop('from_student'))
    bad('side-type', TypeError, lambda c: m(c)[arg].update(from_student=1))
    bad('unknown-connector', AssertionError,
        lambda c: m(c)[arg].update(connector='zz'))
    bad('mapping-type', TypeError,
        lambda c: c['loss_forward_mappings'].update(loss=['a']))
    ctx.key('reject', arg)
    with ctx.sut('build'):
        MODELS.build(copy.deepcopy(base))
    from mmrazor.models import algorithms as A
    s = dict(type='RvNet', who='student', spec=[('cm', 3, 1)])
    with ctx.rejects('teacher-type', TypeError):
        A.SingleTeacherDistill(architecture=s, teacher=nn.Conv2d(1, 1, 1),
                               distiller=base)
    with ctx.rejects('unknown-module', AssertionError):
        c = copy.deepcopy(base)
        c[rng.choice(['student_recorders', 'teacher_recorders'])][
            'x'] = dict(type='ModuleOutputs', source='no.such')
        A.SingleTeacherDistill(architecture=s, teacher=dict(s), distiller=c)


SECTIONS = {
    'single': (single, 200, 3000),
    'fpn': (fpn, 80, 1200),
    'self': (self_, 100, 1500),
    'ofd': (ofd, 40, 500),
    'datafree': (datafree, 80, 1200),
    'val': (val, 50, 500),
    'reject': (reject, 12, 40),
}
