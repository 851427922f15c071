"""C09: evolution search: pools, constraints, scores, top-k, files, resuming,
predictors, agreement of ranks."""
import copy
import os
import shutil
import tempfile

import numpy as np
import torch

from rv import nas, search

ID = 'C09'
RULE = (
    'real searches over random supernets with random pool sizes, '
    'probabilities, constraints, ties of scores, initial candidates and '
    'crash points to resume from; the evaluator records what was evaluated')
ASSUMPTIONS = [
    'scores are kept with two decimals, as documented by the log output',
    'constraints are satisfiable',
]
REQUIRED_EVENTS = {'epochs': 40, 'evaluations': 300, 'offspring': 80,
                   'resumed': 8, 'predictions': 40, 'list_ops': 400,
                   'rank_evaluations': 10}
CASE_LIMIT = 150


def round2(x):
    return round(x, 2)


class Oracle:
    """Own resources of a subnet, from the exported network."""

    def __init__(self, spec, seed, shape):
        self.spec, self.seed, self.shape = spec, seed, shape
        self.model = search.make_spos(spec, seed)
        self.memo = {}

    def choices(self):
        return {
            n: list(g[0].candidate_choices if hasattr(
                g[0], 'candidate_choices') else g[0].choices)
            for n, g in self.model.mutator.search_groups.items()
        }

    def random(self):
        return self.model.mutator.sample_choices()

    def res(self, subnet):
        k = search.key_of(subnet)
        if k not in self.memo:
            from mmrazor.models.task_modules import ResourceEstimator
            from mmrazor.structures import export_fix_subnet
            self.model.mutator.set_choices(subnet)
            _, static = export_fix_subnet(self.model, slice_weight=True)
            r = ResourceEstimator(input_shape=self.shape).estimate(
                static.architecture)
            self.memo[k] = (r['flops'], r['params'])
        return self.memo[k]


def within(res, cons):
    if cons is None:
        return True
    for k, v in cons.items():
        lo, hi = v if isinstance(v, (list, tuple)) else (0, v)
        x = res[('flops', 'params').index(k)]
        if x < lo or x > hi:
            return False
    return True


def rand_constraints(rng, orc):
    if rng.random() < .15:
        return None, True
    if rng.random() < .2:
        return dict(flops=(0., 1e9)), True
    rs = [orc.res(orc.random()) for _ in range(6)]
    cons = {}
    for i, k in enumerate(('flops', 'params')):
        if i and rng.random() < .5:
            continue
        v = sorted(r[i] for r in rs)
        if rng.random() < .5:
            cons[k] = v[3]
        else:
            # inclusive bounds on values that occur
            cons[k] = rng.choice([tuple, list])(
                [v[rng.randint(0, 2)], v[rng.randint(3, 5)]])
    if not any(within(r, cons) for r in rs):
        cons = {'flops': (min(r[0] for r in rs), max(r[0] for r in rs))}
    return cons, False


KINDS = ['op', 'prob', 'depth', 'kernel', 'expand']


def setup(ctx, small=False):
    rng = ctx.rng
    spec = nas.rand_spec(rng, kinds=KINDS, nblocks=rng.randint(
        1, 3 if small else 4))
    return spec, ctx.case_seed % 10**6


def entries(cands):
    """[(subnet, resources)] of a Candidates list, by its public data."""
    out = []
    for item in cands.data:
        (k, v), = item.items()
        out.append((eval(k), dict(v)))
    return out


def check_pool(ctx, orc, cands, cons, what, init=None):
    choices = orc.choices()
    for subnet, r in entries(cands):
        if init and subnet in init:
            continue
        ctx.check(set(subnet) == set(choices), f'{what}:groups',
                  lambda: f'{subnet} vs groups {sorted(choices)}')
        for g, c in subnet.items():
            ctx.check(c in choices[g], f'{what}:illegal-choice',
                      lambda: f'{g}: {c} not in {choices[g]}')
        if cons is None:
            continue
        own = orc.res(subnet)
        ctx.check(within(own, cons), f'{what}:violates-constraints',
                  lambda: f'{subnet}: flops/params {own}, allowed {cons}')
        ctx.check(
            abs(r['flops'] - own[0]) <= 1e-9 and
            abs(r['params'] - own[1]) <= 1e-9, f'{what}:resources',
            lambda: f'{subnet}: recorded {r}, own {own}')


def two_parents(child, parents):
    for a in parents:
        for b in parents:
            if all(c in (a[g], b[g]) for g, c in child.items()):
                return True
    return False


def make_loop(ctx, model, runner, ev, orc, cfg):
    from mmrazor.engine import EvolutionSearchLoop
    return EvolutionSearchLoop(
        runner, search.loader(), ev,
        estimator_cfg=dict(
            type='mmrazor.ResourceEstimator', input_shape=orc.shape), **cfg)


def drive(ctx, loop, ev, orc, cfg, wide, init, work, model, saved=None):
    """Run the loop under the monitor of its epochs."""
    # pool and top-k known before the first epoch
    st = dict(pool=init, top=saved, epoch=loop._epoch, n=len(ev.seen))
    cons = cfg['constraints_range']
    given = init if saved is None else None
    real = loop.run_epoch

    def observed():
        if saved is not None and st['epoch'] == 0:
            st['epoch'] = loop._epoch
        n0 = len(ev.seen)
        before_top = entries(loop.top_k_candidates)
        before_pool = entries(loop.candidates)
        if st['pool'] is not None:
            ctx.check([s for s, _ in before_pool] == st['pool'],
                      'pool:lost-between-epochs',
                      lambda: f'{before_pool} vs {st["pool"]}')
        if st['top'] is not None:
            ctx.check(before_top == st['top'], 'topk:lost-between-epochs',
                      lambda: f'{before_top} vs {st["top"]}')
        real()
        ctx.event('epochs')
        seen = ev.seen[n0:]
        ctx.event('evaluations', len(seen))
        want_n = max(cfg['num_candidates'], len(before_pool))
        ctx.check(len(seen) == want_n, 'pool:size',
                  lambda: f'{len(seen)} evaluated, {want_n} wanted')
        for (s, _), (c, _, _) in zip(before_pool, seen):
            ctx.check(search.key_of(s) == search.key_of(c),
                      'evaluated:another-subnet',
                      lambda: f'candidate {s}, evaluated {c}')
        scored = [(c, 0. if ev.empty else round2(s)) for c, s, _ in seen]
        fresh = scored[len(before_pool):]
        for c, _ in fresh:
            ctx.check(
                cons is None or within(orc.res(c), cons),
                'sampled:violates-constraints',
                lambda: f'{c}: {orc.res(c)} allowed {cons}')
        # best k of everything evaluated so far
        allc = scored + [(s, r['score']) for s, r in before_top]
        want = sorted((s for _, s in allc), reverse=True)[:cfg['top_k']]
        top = entries(loop.top_k_candidates)
        ctx.check([r['score'] for _, r in top] == want, 'topk:not-the-best',
                  lambda: f'{[r["score"] for _, r in top]} want {want}')
        have = {(search.key_of(c), s) for c, s in allc}
        for s, r in top:
            ctx.check((search.key_of(s), r['score']) in have,
                      'topk:score-of-another',
                      lambda: f'{s} has score {r["score"]}')
        if cons is not None:
            check_pool(ctx, orc, loop.top_k_candidates, cons, 'topk', given)
        # offspring
        kids = entries(loop.candidates)
        ctx.event('offspring', len(kids))
        most = cfg['num_mutation'] + cfg['num_crossover']
        ctx.check(len(kids) <= most, 'offspring:too-many',
                  lambda: f'{len(kids)} > {most}')
        if wide:
            ctx.check(len(kids) == most, 'offspring:too-few',
                      lambda: f'{len(kids)} < {most}')
        check_pool(ctx, orc, loop.candidates, cons, 'offspring')
        parents = [s for s, _ in top]
        if cfg['mutate_prob'] == 0:
            for s, _ in kids:
                ctx.check(two_parents(s, parents), 'offspring:no-parents',
                          lambda: f'{s} from {parents}')
        if wide:
            for s, _ in kids[cfg['num_mutation']:]:
                ctx.check(two_parents(s, parents), 'crossover:no-parents',
                          lambda: f'{s} from {parents}')
            if cfg['crossover_prob'] in (0., 1.):
                for s, _ in kids[cfg['num_mutation']:]:
                    ctx.check(s in parents, 'crossover:probability',
                              lambda: f'{s} from {parents}')
        st['pool'], st['top'] = [s for s, _ in kids], top
        st['epoch'] += 1
        ctx.check(loop._epoch == st['epoch'], 'epoch:number',
                  lambda: f'{loop._epoch} want {st["epoch"]}')

    # files of the previous epochs are looked at when the next one begins
    # and at the end
    snaps = {}

    def outer():
        observed()
        snaps[loop._epoch] = (entries(loop.candidates),
                              entries(loop.top_k_candidates))

    loop.run_epoch = outer
    with ctx.sut('run'):
        loop.run()
    return snaps


def check_files(ctx, work, snaps, keep, first):
    from mmengine import fileio
    if not snaps:
        return
    last = max(snaps)
    have = sorted(
        int(f.split('_')[-1][:-4]) for f in os.listdir(work)
        if f.startswith('search_epoch_'))
    want = sorted(e for e in snaps if keep <= 0 or e > last - keep)
    ctx.check(have == want, 'files:checkpoints',
              lambda: f'{have} want {want} (keep {keep})')
    for e in have:
        d = fileio.load(os.path.join(work, f'search_epoch_{e}.pkl'))
        got = (entries(d['candidates']), entries(d['top_k_candidates']))
        ctx.check(d['_epoch'] == e and got == snaps[e], 'files:content',
                  lambda: f'epoch {e}: {got} vs {snaps[e]}')
        ctx.event('checkpoints')


def check_best(ctx, orc, work, snaps, model, ev):
    """The exported files are the best candidate's."""
    from mmengine import fileio
    from mmrazor.structures import load_fix_subnet
    best = snaps[max(snaps)][1][0][0]
    cfg = fileio.load(os.path.join(work, 'best_fix_subnet.yaml'))
    ref = search.make_spos(orc.spec, orc.seed)
    ref.mutator.set_choices(best)
    fresh = search.make_spos(orc.spec, orc.seed + 1)
    with ctx.sut('load-best'):
        load_fix_subnet(fresh, cfg)
    pth = [f for f in os.listdir(work) if f.endswith('.pth')]
    ctx.check(len(pth) == 1, 'best:checkpoint', lambda: str(pth))
    sd = torch.load(os.path.join(work, pth[0]))['state_dict']
    miss = fresh.load_state_dict(sd, strict=False)
    ctx.check(not miss.missing_keys and not miss.unexpected_keys,
              'best:checkpoint-keys', lambda: str(miss)[:300])
    x = torch.randn(2, 3, nas.HW, nas.HW)
    ref.eval(), fresh.eval()
    a, b = ref(x), fresh(x)
    ctx.check(torch.allclose(a, b, atol=1e-4, rtol=1e-4), 'best:another-net',
              lambda: f'max diff {(a - b).abs().max()}')
    ctx.event('best_checked')


def rand_cfg(rng, cons):
    nm, nc = rng.randint(0, 4), rng.randint(0, 4)
    return dict(
        max_epochs=rng.randint(1, 4),
        max_keep_ckpts=rng.choice([-1, 1, 2, 3]),
        num_candidates=max(nm + nc, 1) + rng.choice([0, 0, 2, 4]),
        top_k=rng.randint(1, 5),
        num_mutation=nm,
        num_crossover=nc,
        mutate_prob=rng.choice([0., 0., .1, .5, 1.]),
        crossover_prob=rng.choice([0., .5, .5, 1.]),
        constraints_range=cons,
        score_key=rng.choice(['accuracy/top1', 'coco/bbox_mAP']))


def sec_search(ctx):
    rng = ctx.rng
    spec, seed = setup(ctx)
    orc = Oracle(spec, seed, (1, 3, nas.HW, nas.HW))
    cons, wide = rand_constraints(rng, orc)
    cfg = rand_cfg(rng, cons)
    work = tempfile.mkdtemp()
    try:
        model = search.make_spos(spec, seed)
        runner = search.Runner(model, work)
        ev = search.Evaluator(
            model, cfg['score_key'], rng.choice([None, None, 3]),
            empty=rng.random() < .05, trend=rng.choice([0, 0, -1, 1]))
        init = None
        if rng.random() < .4:
            from mmengine import fileio
            from mmrazor.structures import Candidates
            init = [orc.random() for _ in range(
                rng.randint(1, cfg['num_candidates']))]
            path = os.path.join(work, 'init.yaml' if rng.random() < .5
                                else 'init.pkl')
            cand = Candidates()
            for s in init:
                cand.append(s)
            fileio.dump(cand, path)
            cfg['init_candidates'] = path
        ctx.key(nas.describe(spec), repr(cfg))
        ctx.sample(dict(spec=nas.describe(spec), cfg=repr(cfg)))
        before = search.state(model)
        with ctx.sut('init'):
            loop = make_loop(ctx, model, runner, ev, orc, copy.deepcopy(cfg))
        snaps = drive(ctx, loop, ev, orc, cfg, wide, init, work, model)
        ctx.check(len(snaps) == cfg['max_epochs'], 'epochs:number',
                  lambda: f'{len(snaps)} of {cfg["max_epochs"]}')
        check_files(ctx, work, snaps, cfg['max_keep_ckpts'], 1)
        check_best(ctx, orc, work, snaps, model, ev)
        ctx.check(search.same_state(before, search.state(model)),
                  'supernet:changed')
        ctx.check(not any(m._forward_hooks or m._forward_pre_hooks
                          for m in model.modules()), 'supernet:hooks')
        # the recorded score is that of the recorded subnet
        for subnet, s, y in ev.seen:
            ref = orc.model
            ref.mutator.set_choices(subnet)
            ref.eval()
            out = torch.cat([ref(b['inputs']) for b in search.loader()])
            ctx.check(torch.allclose(out, y, atol=1e-4, rtol=1e-4),
                      'evaluated:another-network',
                      lambda: f'{subnet}: {(out - y).abs().max()}')
    finally:
        shutil.rmtree(work)


def sec_resume(ctx):
    """Stop after any epoch (also between epoch and checkpoint), go on."""
    from mmengine import fileio
    rng = ctx.rng
    spec, seed = setup(ctx, small=True)
    orc = Oracle(spec, seed, (1, 3, nas.HW, nas.HW))
    cons, wide = rand_constraints(rng, orc)
    cfg = rand_cfg(rng, cons)
    cfg['max_epochs'] = total = rng.randint(2, 5)
    stop = rng.randint(1, total - 1)
    work = tempfile.mkdtemp()
    try:
        model = search.make_spos(spec, seed)
        ev = search.Evaluator(model, cfg['score_key'])
        loop = make_loop(ctx, model, search.Runner(model, work), ev, orc,
                         copy.deepcopy(cfg))

        class Crash(Exception):
            pass

        real = loop._save_searcher_ckpt
        late = rng.random() < .5

        def save():
            if late and loop._epoch == stop + 1:
                raise Crash()
            real()
            if not late and loop._epoch == stop:
                raise Crash()

        loop._save_searcher_ckpt = save
        try:
            with ctx.sut('first-run'):
                try:
                    loop.run()
                except Crash:
                    pass
        finally:
            pass
        path = os.path.join(work, f'search_epoch_{stop}.pkl')
        ctx.check(os.path.exists(path), 'files:checkpoints', path)
        d = fileio.load(path)
        ctx.key(nas.describe(spec), repr(cfg), stop)
        ctx.sample(dict(cfg=repr(cfg), stop=stop, late=late))
        model2 = search.make_spos(spec, seed)
        ev2 = search.Evaluator(model2, cfg['score_key'])
        work2 = tempfile.mkdtemp(dir=work)
        loop2 = make_loop(ctx, model2, search.Runner(model2, work2), ev2, orc,
                          dict(copy.deepcopy(cfg), resume_from=path))
        snaps = drive(ctx, loop2, ev2, orc, cfg, wide,
                      [s for s, _ in entries(d['candidates'])], work2,
                      model2, saved=entries(d['top_k_candidates']))
        ctx.event('resumed')
        final = max(snaps) if snaps else stop
        if final != total:
            ctx.probe(False, 'probe:resume-epochs'
                      if final == max(stop, total - stop) else
                      'resume:epochs',
                      f'resumed at {stop} of {total} epochs, ended at {final}')
        if snaps:
            ctx.check(min(snaps) == stop + 1, 'resume:start',
                      lambda: f'{sorted(snaps)} after {stop}')
            check_files(ctx, work2, snaps, cfg['max_keep_ckpts'], stop + 1)
            check_best(ctx, orc, work2, snaps, model2, ev2)
    finally:
        shutil.rmtree(work)


# ------------------------------------------------------------ predictor
def encode(groups, subnet, onehot):
    v = []
    for g, c in subnet.items():
        ch = list(groups[g])
        v += [int(x == c) for x in ch] if onehot else [ch.index(c)]
    return v


def sec_predictor(ctx):
    rng = ctx.rng
    from mmrazor.registry import TASK_UTILS
    from mmrazor.structures import Candidates
    spec = nas.rand_spec(rng, kinds=KINDS[:4], nblocks=rng.randint(2, 4))
    seed = ctx.case_seed % 10**6
    orc = Oracle(spec, seed, (1, 3, nas.HW, nas.HW))
    model = search.make_spos(spec, seed)
    groups = {g: list(m[0].choices)
              for g, m in model.mutator.search_groups.items()}
    kind = rng.choice(['carts', 'mlp', 'rbf', 'gp'])
    hcfg = dict(
        carts=dict(type='CartsHandler', num_trees=rng.randint(1, 12)),
        mlp=dict(type='MLPHandler', epochs=4,
                 model_cfg=dict(hidden_features=12)),
        rbf=dict(type='RBFHandler', kernel=rng.choice(['cubic', 'tps']),
                 tail='linear'),
        gp=dict(type='GaussProcessHandler', regr='constant',
                corr=rng.choice(['gauss', 'exp', 'cubic'])))[kind]
    enc = rng.choice(['normal', 'onehot'])
    # all different samples, enough of them
    n_all = 1
    for c in groups.values():
        n_all *= len(c)
    n = len(groups) + 4
    if kind == 'rbf' and n_all < n:
        kind, hcfg = 'carts', dict(type='CartsHandler', num_trees=5)
    if kind in ('gp', 'rbf'):
        # a kriging model needs different samples, every choice varied
        n = None
    pcfg = dict(
        type='MetricPredictor', handler_cfg=hcfg, encoding_type=enc,
        train_samples=len(groups) + 4)
    onehot = enc == 'onehot' and kind != 'rbf'
    ctx.key(nas.describe(spec), repr(pcfg))
    ctx.sample(dict(spec=nas.describe(spec), predictor=repr(pcfg)))
    # encoding is one to one and its own inverse
    pred = TASK_UTILS.build(dict(
        copy.deepcopy(pcfg), search_groups=model.mutator.search_groups,
        score_key='accuracy/top1'))
    seen = {}
    for _ in range(8):
        s = orc.random()
        with ctx.sut('model2vector'):
            v = pred.model2vector(s)
        ctx.check(list(v['normal_vector']) == encode(groups, s, False) and
                  [int(i) for i in v['onehot_vector']] ==
                  encode(groups, s, True), 'predictor:encoding',
                  lambda: f'{s}: {v}')
        vec = v['onehot_vector' if onehot else 'normal_vector']
        with ctx.sut('vector2model'):
            back = pred.vector2model(np.array([vec]))
        ctx.check(back == s, 'predictor:decoding', lambda: f'{s}: {back}')
        seen[tuple(vec)] = s
        ctx.event('encodings')
    if kind in ('gp', 'rbf'):
        _kriging(ctx, pred, groups, orc, model, onehot, kind)
        return
    work = tempfile.mkdtemp()
    try:
        cons, wide = rand_constraints(rng, orc)
        cfg = rand_cfg(rng, cons)
        cfg['max_epochs'] = 2
        total = {}
        for turn in ('fit', 'load'):
            model = search.make_spos(spec, seed)
            wd = os.path.join(work, turn)
            os.mkdir(wd)
            ev = search.Evaluator(model, cfg['score_key'])
            p = copy.deepcopy(pcfg)
            if turn == 'load':
                p['handler_ckpt'] = ckpt
            loop = make_loop(
                ctx, model, search.Runner(model, wd), ev, orc,
                dict(copy.deepcopy(cfg), predictor_cfg=p))
            with ctx.sut('run-predictor'):
                loop.run()
            want = p['train_samples'] if turn == 'fit' else 0
            ctx.check(len(ev.seen) == want, 'predictor:evaluations',
                      lambda: f'{turn}: {len(ev.seen)} evaluated on data, '
                      f'want {want}')
            if turn == 'fit':
                # what it was trained with
                ck = [f for f in os.listdir(wd) if f.startswith('predictor')]
                ctx.check(len(ck) == 1, 'predictor:checkpoint', str(ck))
                ckpt = os.path.join(wd, ck[0])
            handler = loop.predictor.handler
            for s, r in entries(loop.top_k_candidates):
                x = np.array([encode(groups, s, onehot)])
                v = float(np.squeeze(handler.predict(x)))
                ctx.check(abs(round2(v) - r['score']) < 1e-6,
                          'predictor:score-of-another',
                          lambda: f'{turn} {s}: {r["score"]} want {v}')
                total.setdefault(search.key_of(s), set()).add(r['score'])
                ctx.event('predictions')
            if turn == 'fit':
                h = handler
            else:
                for _ in range(5):
                    x = np.array([encode(groups, orc.random(), onehot)])
                    a, b = h.predict(x), handler.predict(x)
                    ctx.check(np.allclose(a, b, atol=1e-5),
                              'predictor:reload', lambda: f'{a} {b}')
            if kind == 'carts' and turn == 'fit':
                lab = [round2(s) for _, s, _ in ev.seen]
                for _ in range(5):
                    x = np.array([encode(groups, orc.random(), onehot)])
                    v = float(np.squeeze(handler.predict(x)))
                    ctx.check(min(lab) - 1e-9 <= v <= max(lab) + 1e-9,
                              'carts:out-of-range', lambda: f'{v} {lab}')
    finally:
        shutil.rmtree(work)


def _kriging(ctx, pred, groups, orc, model, onehot, kind):
    """Interpolating predictors reproduce their training labels."""
    pool = {}
    for _ in range(200):
        s = orc.random()
        pool.setdefault(search.key_of(s), s)
    subs = list(pool.values())[:14]
    vecs = np.array([encode(groups, s, onehot) for s in subs])
    need = vecs.shape[1] + 2
    if len(subs) < need or np.linalg.matrix_rank(
            np.c_[np.ones(len(vecs)), vecs]) < vecs.shape[1] + (not onehot):
        ctx.skip('too few different subnets for an interpolating predictor')
        return
    labels = np.array([50 + 3. * np.sin(i * 1.7) for i in range(len(subs))])
    with ctx.sut(f'fit-{kind}'):
        pred.fit(np.array([pred.model2vector(s) for s in subs]), labels)
    for s, y in zip(subs, labels):
        model.mutator.set_choices(s)
        with ctx.sut(f'predict-{kind}'):
            m = pred.predict(model)
        ctx.check(set(m) == {'accuracy/top1'} and
                  abs(m['accuracy/top1'] - y) < .05, f'{kind}:interpolation',
                  lambda: f'{s}: {m} want {y}')
        ctx.event('predictions')
    work = tempfile.mkdtemp()
    try:
        with ctx.sut(f'save-{kind}'):
            path = pred.save_checkpoint(os.path.join(work, 'p'))
        from mmrazor.registry import TASK_UTILS
        p2 = TASK_UTILS.build(dict(
            type='MetricPredictor', handler_cfg=pred.handler_cfg,
            encoding_type=pred.encoding_type, handler_ckpt=path,
            search_groups=model.mutator.search_groups,
            score_key='accuracy/top1'))
        with ctx.sut(f'load-{kind}'):
            p2.load_checkpoint()
        for s in subs[:4]:
            model.mutator.set_choices(s)
            a, b = pred.predict(model), p2.predict(model)
            ctx.check(a == b, 'predictor:reload', lambda: f'{a} {b}')
            ctx.event('predictions')
    finally:
        shutil.rmtree(work)


# ------------------------------------------------- crossover, candidates
def sec_crossover(ctx):
    from mmrazor.engine.runner.utils import crossover
    rng = ctx.rng
    n = 3000
    a = {f'g{i}': ('a', i) for i in range(n)}
    b = {f'g{i}': ('b', i) for i in range(n)}
    a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
    p = rng.choice([0., 1., .5, .1, rng.random()])
    with ctx.sut('crossover'):
        c = crossover(a, b, prob=p)
    ctx.check(a == a0 and b == b0, 'crossover:parents-changed')
    ctx.check(list(c) == list(a), 'crossover:groups')
    k = 0
    for g in a:
        ctx.check(c[g] in (a[g], b[g]), 'crossover:foreign', g)
        k += c[g] == b[g]
    sd = (p * (1 - p) * n)**.5
    ctx.check(abs(k - p * n) <= 6 * sd + 1e-9, 'crossover:share',
              lambda: f'{k} of {n} from the second parent, prob {p}')
    for bad in (-.1, 1.1):
        with ctx.rejects('crossover-probability'):
            crossover(a, b, prob=bad)
    ctx.key(p)
    ctx.event('crossovers')


IND = ('score', 'flops', 'params', 'latency')


def sec_list(ctx):
    """Candidates against a plain list of (subnet, resources)."""
    from mmengine import fileio
    from mmrazor.structures import Candidates
    rng = ctx.rng

    def subnet():
        return {f'op_{i}': rng.choice(['c1', 'c2', 3, .5, 'max'])
                for i in range(rng.randint(1, 3))}

    def item():
        """(argument, model entry)"""
        s = subnet()
        if rng.random() < .5:
            return s, (s, dict.fromkeys(IND, -1))
        r = {k: float(rng.randint(0, 50)) for k in rng.sample(
            IND, rng.randint(0, 4))}
        return {str(s): dict(r)}, (s, {**dict.fromkeys(IND, 0.), **r})

    cands, ref = Candidates(), []
    ops = []
    for _ in range(rng.randint(5, 25)):
        op = rng.choice(['append', 'extend', 'extendc', 'insert', 'set',
                         'score', 'update', 'sort', 'new', 'pop', 'file',
                         'plus', 'del', 'extend1'])
        ops.append(op)
        ctx.event('list_ops')
        with ctx.sut(op):
            if op == 'append':
                a, e = item()
                cands.append(a)
                ref.append(e)
            elif op in ('extend', 'extendc', 'plus'):
                pairs = [item() for _ in range(rng.randint(0, 3))]
                arg = [copy.deepcopy(p[0]) for p in pairs]
                if op == 'extendc':
                    cands.extend(Candidates(arg))
                elif op == 'plus':
                    cands = cands + Candidates(arg)
                else:
                    cands.extend(arg)
                ref += [p[1] for p in pairs]
            elif op == 'extend1':
                a, e = item()
                cands.extend(a)
                ref.append(e)
            elif op == 'insert':
                a, e = item()
                i = rng.randint(0, len(ref))
                cands.insert(i, a)
                ref.insert(i, e)
            elif op in ('set', 'score') and ref:
                i = rng.randrange(len(ref))
                v = rng.choice([1.005, 33.333, 0., float(rng.randint(0, 9))])
                k = 'score' if op == 'score' else rng.choice(IND)
                if op == 'score':
                    cands.set_score(i, v)
                else:
                    cands.set_resource(i, v, k)
                ref[i] = (ref[i][0], {**ref[i][1], k: v})
            elif op == 'update' and ref:
                i = rng.randrange(len(ref))
                j = rng.randint(i, len(ref))
                rs = [{k: float(rng.randint(0, 9)) for k in ('flops',
                                                             'params')}
                      for _ in range(i, j)]
                cands.update_resources(rs, start=i)
                for q, r in zip(range(i, j), rs):
                    ref[q] = (ref[q][0], {**ref[q][1], **r})
            elif op == 'sort':
                k, rev = rng.choice(IND), rng.random() < .6
                cands.sort_by(k, rev)
                ref.sort(key=lambda e: e[1][k], reverse=rev)
            elif op == 'new':
                n = rng.randint(0, len(ref))
                cands = Candidates(cands.data[:n])
                ref = ref[:n]
            elif op == 'pop' and ref:
                cands.pop()
                ref.pop()
            elif op == 'del' and ref:
                i = rng.randrange(len(ref))
                del cands[i]
                del ref[i]
            elif op == 'file':
                d = tempfile.mkdtemp()
                try:
                    p = os.path.join(d, rng.choice(['c.yaml', 'c.pkl']))
                    fileio.dump(cands, p)
                    cands = fileio.load(p)
                finally:
                    shutil.rmtree(d)
        got = entries(cands)
        ctx.check(len(cands) == len(ref) and got == ref, f'list:{op}',
                  lambda: f'after {ops}: {got} want {ref}')
        if ref:
            ctx.check(cands.subnets == [e[0] for e in ref], 'list:subnets')
            ctx.check(cands.scores == [round2(e[1]['score']) for e in ref],
                      'list:scores')
            for k in IND[1:]:
                ctx.check(cands.resources(k) == [e[1][k] for e in ref],
                          'list:resources')
    ctx.key(repr(ops), repr(ref))
    with ctx.rejects('update-beyond'):
        cands.update_resources([dict(flops=1.)] * 2, start=len(ref) - 1)
    with ctx.rejects('unknown-resource'):
        cands.resources('score')


# ---------------------------------------------------------------- ranks
def _rank(rank, init, path, spec, seed, cfg, cons, work, resume):
    import pickle

    import torch.distributed as dist
    import torch.nn as nn
    torch.set_num_threads(1)
    dist.init_process_group('gloo', init_method=f'file://{init}', rank=rank,
                            world_size=2)
    import random
    random.seed(seed + rank)
    np.random.seed(seed + rank)
    torch.manual_seed(seed + rank)

    class DP(nn.Module):

        def __init__(self, m):
            super().__init__()
            self.module = m

        def val_step(self, d):
            return self.module.val_step(d)

    model = search.make_spos(spec, seed)
    wd = os.path.join(work, f'r{rank}')
    os.makedirs(wd, exist_ok=True)
    runner = search.Runner(DP(model), wd, rank=rank, distributed=True)
    ev = search.Evaluator(model, cfg['score_key'])
    orc = Oracle(spec, seed, (1, 3, nas.HW, nas.HW))
    c = copy.deepcopy(cfg)
    if resume:
        c['resume_from'] = resume
    loop = make_loop(None, model, runner, ev, orc, c)
    loop.run()
    out = dict(
        seen=[(search.key_of(s), v) for s, v, _ in ev.seen],
        top=[(search.key_of(s), r) for s, r in entries(
            loop.top_k_candidates)],
        epoch=loop._epoch, files=sorted(os.listdir(wd)))
    with open(f'{path}.{rank}', 'wb') as f:
        pickle.dump(out, f)
    dist.barrier()
    dist.destroy_process_group()


def two_ranks(target, args, limit=90):
    """Run target(rank, *args) in two processes; False if they hang."""
    import multiprocessing as mp
    mpx = mp.get_context('fork')
    ps = [mpx.Process(target=target, args=(r, ) + args) for r in (0, 1)]
    for p in ps:
        p.start()
    import time
    end = time.time() + limit
    try:
        for p in ps:
            p.join(max(.1, end - time.time()))
        return [p.exitcode for p in ps]
    finally:
        for p in ps:
            if p.is_alive():
                p.kill()
                p.join()


def sec_ranks(ctx):
    import pickle
    rng = ctx.rng
    spec, seed = setup(ctx, small=True)
    orc = Oracle(spec, seed, (1, 3, nas.HW, nas.HW))
    cons, _ = rand_constraints(rng, orc)
    cfg = rand_cfg(rng, cons)
    cfg['max_epochs'] = 3
    ctx.key(nas.describe(spec), repr(cfg))
    work = tempfile.mkdtemp()
    try:
        resume = None
        for turn in range(2):
            path = os.path.join(work, f'out{turn}')
            codes = two_ranks(_rank, (os.path.join(work, f'init{turn}'), path,
                                      spec, seed, cfg, cons,
                                      os.path.join(work, f't{turn}'), resume))
            ctx.check(codes == [0, 0], 'ranks:failed-or-hung',
                      lambda: f'turn {turn}: exit codes {codes}')
            r = [pickle.load(open(f'{path}.{k}', 'rb')) for k in (0, 1)]
            ctx.event('rank_evaluations', len(r[0]['seen']))
            ctx.check(r[0]['seen'] == r[1]['seen'], 'ranks:other-subnets',
                      lambda: f'{r[0]["seen"][:3]} {r[1]["seen"][:3]}')
            ctx.check(r[0]['top'] == r[1]['top'] and
                      r[0]['epoch'] == r[1]['epoch'], 'ranks:other-state')
            ctx.check(not r[1]['files'] and 'best_fix_subnet.yaml' in
                      r[0]['files'], 'ranks:files', lambda: str(
                          [q['files'] for q in r]))
            pk = [f for f in r[0]['files'] if f.startswith('search_epoch')]
            resume = os.path.join(work, 't0', 'r0', pk[0])
            cfg = dict(cfg, max_epochs=8)
    finally:
        shutil.rmtree(work)


SECTIONS = dict(
    search=(sec_search, 80, 600),
    resume=(sec_resume, 16, 160),
    predictor=(sec_predictor, 24, 240),
    crossover=(sec_crossover, 10, 60),
    list=(sec_list, 60, 1500),
    ranks=(sec_ranks, 2, 20),
)
