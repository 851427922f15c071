"""C25: what the datasets and transforms hand to the models."""
import collections
import copy
import math
import pickle
import random

import numpy as np
import torch
from PIL import Image, ImageEnhance, ImageOps

ID = 'C25'
RULE = (
    'datasets of random sizes, labels and classes (unbalanced, absent, '
    'failing samples) wrapped for contrastive distillation with all options '
    'and read directly and through loaders; random images through every '
    'augmentation with random parameters and through whole policies')
ASSUMPTIONS = [
    'PIL implements what an image operation is',
    'the noise of magnitudes is switched off where results are compared',
]
REQUIRED_EVENTS = {'samples': 800, 'negatives': 5000, 'random_positive': 100,
                   'unbalanced': 40, 'percent': 30, 'pools': 10, 'packed': 400,
                   'loaders': 10, 'refetched': 5, 'refused': 10,
                   'ops': 600, 'applied': 400, 'policies': 20,
                   'fractions': 5, 'drawn': 10}
CASE_LIMIT = 120


class Flaky:
    """A pipeline some samples of which fail at first."""

    def __init__(self, bad, pack):
        self.bad, self.pack = dict(bad), pack
        self.log = []

    def __call__(self, data):
        i = int(data['sample_idx'])
        self.log.append(copy.deepcopy(
            {k: data[k] for k in data if k != 'img'}))
        if self.bad.get(i, 0) > 0:
            self.bad[i] -= 1
            return None
        return self.pack(data)


def base(labels, test_mode=False, lazy=False):
    from mmengine.dataset import BaseDataset

    class D(BaseDataset):
        METAINFO = dict(classes=('x', 'y'))

        def load_data_list(self):
            return [dict(img=np.full((2, 3, 3), i % 250, np.uint8),
                         gt_label=int(y), name=f'n{i}')
                    for i, y in enumerate(labels)]

        def get_gt_labels(self):
            return np.array([self.get_data_info(i)['gt_label']
                             for i in range(len(self))])

        @property
        def CLASSES(self):
            return self.metainfo['classes']

    return D(pipeline=[], test_mode=test_mode, lazy_init=lazy, max_refetch=50)


def rand_labels(rng):
    c = rng.randint(2, 5)
    kind = rng.choice(['balanced', 'random', 'skewed', 'absent'])
    if kind == 'balanced':
        y = [k for k in range(c) for _ in range(rng.choice([2, 5]))]
        n = rng.choice([2, 5])
        y = [k for k in range(c) for _ in range(n)]
    elif kind == 'random':
        y = [rng.randrange(c) for _ in range(rng.randint(4, 40))]
    elif kind == 'skewed':
        y = [0] * rng.randint(1, 20) + [rng.randrange(c) for _ in range(
            rng.randint(1, 6))]
    else:
        y = [rng.choice([1, c + 1]) for _ in range(rng.randint(3, 20))]
    rng.shuffle(y)
    if len(set(y)) == 1:
        y[0] = y[0] + 1
    return y


def pack(keys=('sample_idx', 'name', 'flip')):
    from mmrazor.datasets.transforms import PackCRDClsInputs
    return PackCRDClsInputs(meta_keys=keys)


def judge_contrast(ctx, got, i, y, neg, mode, pools):
    got = np.asarray(got)
    ctx.event('samples')
    ctx.event('negatives', len(got) - 1)
    ctx.check(got.shape == (neg + 1, ), 'number', lambda: f'{got.shape} '
              f'indices, 1 + {neg} asked for')
    if got.shape != (neg + 1, ):
        return
    if mode == 'exact':
        ctx.check(int(got[0]) == i, 'positive', lambda: f'the positive of '
                  f'{i} is {got[0]}')
    else:
        ctx.check(y[int(got[0])] == y[i], 'positive', lambda: f'the positive '
                  f'of {i} is of class {y[int(got[0])]}, not {y[i]}')
        ctx.event('random_positive')
    bad = [int(j) for j in got[1:] if not 0 <= j < len(y) or y[j] == y[i]]
    ctx.check(not bad, 'negative', lambda: f'{bad} are no negatives of {i} '
              f'in {y}')
    n = pools[y[i]]
    ctx.check(len(set(got[1:].tolist())) == neg or neg > n, 'repeated',
              lambda: f'negatives {got[1:]} are repeated, {n} to choose from')


def has_indices(ctx, s):
    ok = 'sample_idx' in s and 'contrast_sample_idxs' in s
    ctx.check(ok, 'indices', lambda: f'a sample with {s.keys()} only')
    return ok


def sec_crd(ctx):
    """Indices of positives and negatives."""
    from mmrazor.datasets import CRDDataset
    rng = ctx.rng
    y = rand_labels(rng)
    neg = rng.choice([1, 2, 4, 8, 16])
    percent = rng.choice([0, 1., 1., .5, .3, .8])
    mode = rng.choice(['exact', 'random'])
    lazy = rng.random() < .2
    kw = {}
    if rng.random() < .4:
        kw['num_classes'] = max(y) + 1 + rng.choice([0, 0, 2])
    counts = collections.Counter(y)
    ctx.event('unbalanced', len(set(counts.values())) > 1)
    pools = {}
    for c in counts:
        n = len(y) - counts[c]
        pools[c] = int(n * percent) if 0 < percent < 1 else n
    if not all(pools.values()):
        ctx.skip('a class without negatives')
        return
    d = base(y, lazy=lazy)
    with ctx.sut('CRDDataset'):
        w = CRDDataset(d, neg, percent, lazy_init=lazy, sample_mode=mode, **kw)
    bad = {}
    if rng.random() < .2:
        bad = {i: rng.randint(1, 2) for i in range(len(y))
               if rng.random() < .2}
    pipe = Flaky(bad, pack())
    d.pipeline = pipe
    with ctx.sut('len'):
        ctx.check(len(w) == len(y), 'len', 'another number of samples')
    ctx.check(w.metainfo == d.metainfo, 'metainfo', 'another metainfo')
    was = copy.deepcopy(d.metainfo)
    w.metainfo['mine'] = 1
    ctx.check(w.metainfo == was and d.metainfo == was, 'metainfo_own',
              'what a user does to the metainfo he got changes the dataset')
    seen = collections.defaultdict(set)
    for rep in range(4):
        for i in range(len(y)):
            pipe.log.clear()
            with ctx.sut('reading a sample'):
                out = w[i]
            ds = out['data_samples']
            if not has_indices(ctx, ds):
                return
            j = int(ds.sample_idx)
            ctx.event('refetched', len(pipe.log) > 1)
            ctx.check(len(pipe.log) > 1 or j == i, 'index',
                      lambda: f'sample {j} for {i}')
            last = pipe.log[-1]
            ctx.check(int(last['sample_idx']) == j and
                      'contrast_sample_idxs' in last, 'index',
                      'indices of another sample')
            got = ds.contrast_sample_idxs
            ctx.check(torch.is_tensor(got) and got.dtype == torch.long
                      and torch.is_tensor(ds.sample_idx) and
                      ds.sample_idx.dtype == torch.long, 'dtype',
                      lambda: f'{type(got)} {type(ds.sample_idx)}')
            ctx.check(np.array_equal(np.asarray(got), np.asarray(
                last['contrast_sample_idxs'])), 'packed_indices',
                'other indices are packed')
            judge_contrast(ctx, got, j, y, neg, mode, pools)
            seen[y[j]].update(np.asarray(got)[1:].tolist())
            ctx.check(int(ds.gt_label.label) == y[j], 'label', 'of another')
            ctx.check(set(ds.metainfo) >= {'name'} and ds.metainfo['name'] ==
                      f'n{j}', 'metainfo_of', lambda: f'metainfo '
                      f'{ds.metainfo} of sample {j}')
            ctx.check(bool((out['inputs'] == j % 250).all()) and
                      out['inputs'].shape == (3, 2, 3), 'inputs',
                      'the image of another sample')
            ctx.event('packed')
    if 0 < percent < 1:
        for c, s in seen.items():
            ctx.check(len(s) <= pools[c], 'percent', lambda: f'class {c}: '
                      f'{len(s)} negatives used, {pools[c]} are {percent} of '
                      f'{len(y) - counts[c]}')
            ctx.event('percent')
            # enough draws to have met them all
            draws = 4 * counts[c] * neg
            if not bad and neg < pools[c] and draws > 30 * pools[c] or \
                    neg >= 12 * pools[c]:
                ctx.check(len(s) == pools[c], 'percent_all', lambda: f'class '
                          f'{c}: only {len(s)} of {pools[c]} negatives used')
        c = max(pools, key=lambda q: math.comb(len(y) - counts[q], pools[q]))
        if math.comb(len(y) - counts[c], pools[c]) >= 10:
            # each dataset draws its own negatives
            got = set()
            for _ in range(10):
                with ctx.sut('CRDDataset'):
                    w = CRDDataset(base(y), pools[c], percent)
                    item = w.get_data_info(y.index(c))
                got.add(tuple(sorted(
                    int(j) for j in item['contrast_sample_idxs'][1:])))
            ctx.check(len(got) > 1, 'percent_drawn', lambda: f'always the '
                      f'same {percent} of the negatives: {got}')
            ctx.event('pools')
    ctx.key(f'{sorted(counts.values())}{neg}{percent}{mode}')


def sec_loader(ctx):
    """Through data loaders with workers, in a test, refused."""
    from mmrazor.datasets import CRDDataset
    from mmengine.dataset import pseudo_collate
    rng = ctx.rng
    y = rand_labels(rng)
    neg = rng.choice([1, 3])
    d = base(y)
    d.pipeline = pack()
    with ctx.sut('CRDDataset'):
        w = CRDDataset(d, neg, 1, sample_mode='exact')
    pools = {c: sum(k != c for k in y) for c in set(y)}
    with ctx.sut('pickling'):
        w2 = pickle.loads(pickle.dumps(copy.deepcopy(w.dataset.pipeline)))
    ctx.check(type(w2) is type(d.pipeline), 'pickle', 'another type')
    bs = rng.randint(1, 4)
    loader = torch.utils.data.DataLoader(
        w, bs, shuffle=rng.random() < .5, num_workers=rng.choice([0, 1]),
        collate_fn=pseudo_collate)
    got = []
    for _ in range(2):
        got.clear()
        with ctx.sut('the loader'):
            batches = list(loader)
        for b in batches:
            for x, s in zip(b['inputs'], b['data_samples']):
                if not has_indices(ctx, s):
                    return
                j = int(s.sample_idx)
                got.append(j)
                judge_contrast(ctx, s.contrast_sample_idxs, j, y, neg,
                               'exact', pools)
                ctx.check(s.metainfo.get('name') == f'n{j}', 'metainfo_of',
                          lambda: f'{s.metainfo}')
        ctx.check(sorted(got) == list(range(len(y))), 'once',
                  'not every sample once')
    ctx.event('loaders')
    # the pipeline still packs when it was used (as a worker would get it)
    with ctx.sut('pickling a used pipeline'):
        pickle.dumps(w.dataset.pipeline)
    t = base(y, test_mode=True)
    t.pipeline = pack()
    with ctx.sut('CRDDataset in a test'):
        wt = CRDDataset(t, neg, 1)
        s = wt[0]['data_samples']
    ctx.check('contrast_sample_idxs' not in s, 'test', 'contrasts in a test')
    for what in ('get_subset', 'get_subset_'):
        with ctx.rejects(what, NotImplementedError):
            getattr(w, what)([0])
    with ctx.rejects('an unknown mode', AssertionError):
        CRDDataset(d, neg, 1, sample_mode='any')
    ctx.event('refused', 3)
    ctx.key(f'{len(y)}{neg}{bs}')


# ----------------------------------------------------------- augmentations


FILLS = [(128, 128, 128), (10, 200, 30), (124, 116, 104)]
RESAMPLE = (Image.NEAREST, Image.BILINEAR, Image.BICUBIC)


def lut(img, f):
    return np.array([f(i) for i in range(256)], np.uint8)[img]


def variants(name, img, m, fill, samples, const=250):
    """All results the operation may have."""
    im = Image.fromarray(img)
    w, h = im.size
    out = []
    if name in ('AutoContrast', 'Equalize'):
        f = getattr(ImageOps, name.lower())
        return [np.array(f(im))]
    if name == 'Invert':
        return [255 - img]
    if name == 'Solarize':
        t = int(m / 10 * 256)
        return [lut(img, lambda i: i if i < t else 255 - i)]
    if name == 'SolarizeAdd':
        a = int(m / 10 * 110)
        return [lut(img, lambda i: min(255, i + a) if i < 128 else i)]
    if name in ('Posterize', 'Posterize2'):
        k = int(m / 10 * 4)
        k = 4 + k if name == 'Posterize' else max(4 - k, 1)
        return [img & (256 - 2**(8 - k))] if k < 8 else [img]
    if name in ('Color', 'Contrast', 'Brightness', 'Sharpness'):
        f = m / 10 * 1.8 + .1
        return [np.array(getattr(ImageEnhance, name)(im).enhance(f))]
    for s in (1, -1):
        for r in samples:
            if name == 'Rotate':
                out.append(im.rotate(s * m * 3, resample=r, fillcolor=fill))
                continue
            a = {'ShearX': (1, s * m * .03, 0, 0, 1, 0),
                 'ShearY': (1, 0, 0, s * m * .03, 1, 0),
                 'TranslateX': (1, 0, s * m / 10 * const, 0, 1, 0),
                 'TranslateY': (1, 0, 0, 0, 1, s * m / 10 * const),
                 'TranslateXRel': (1, 0, s * m / 10 * .45 * w, 0, 1, 0),
                 'TranslateYRel': (1, 0, 0, 0, 1, s * m / 10 * .45 * h),
                 }[name]
            out.append(im.transform(im.size, Image.AFFINE, a, resample=r,
                                    fillcolor=fill))
    return [np.array(o) for o in out]


V2 = {'Rotate': 'RotateV2', 'AutoContrast': 'AutoContrastV2',
      'Invert': 'InvertV2', 'Equalize': 'EqualizeV2',
      'Solarize': 'SolarizeV2', 'SolarizeAdd': 'SolarizeAddV2',
      'Posterize': 'PosterizeV2', 'Contrast': 'ContrastV2',
      'Brightness': 'BrightnessV2', 'Sharpness': 'SharpnessV2',
      'Color': 'Color', 'ShearX': 'ShearX', 'ShearY': 'ShearY',
      'TranslateX': 'TranslateX', 'TranslateY': 'TranslateY',
      'TranslateXRel': 'TranslateXRel', 'TranslateYRel': 'TranslateYRel'}


class Quiet:
    """Without the noise of magnitudes."""

    def __enter__(self):
        self.old = random.gauss
        random.gauss = lambda mu, sigma: mu

    def __exit__(self, *exc):
        random.gauss = self.old


def rand_img(rng, g):
    h, w = rng.randint(6, 14), rng.randint(6, 14)
    img = g.integers(0, 256, (h, w, 3), dtype=np.uint8)
    if rng.random() < .3:
        img[:] = np.linspace(20, 220, w, dtype=np.uint8)[None, :, None]
    return img


def sec_ops(ctx):
    """Each operation."""
    from mmrazor.datasets.transforms import auto_augment as v1
    from mmrazor.registry import TRANSFORMS
    rng = ctx.rng
    g = np.random.default_rng(ctx.case_seed)
    name = list(V2)[ctx.index % len(V2)] if rng.random() < .95 else \
        'Posterize2'
    for _ in range(6):
        second = name in V2 and rng.random() < .5
        m = rng.choice([0, 10, rng.randint(1, 9), 12, -1, 5])
        mm = min(10, max(0, m))
        extra, fill, samples, const = {}, FILLS[0], RESAMPLE, 250
        if rng.random() < .6:
            fill = rng.choice(FILLS)
            extra['img_mean'] = fill
        if rng.random() < .5:
            samples = (rng.choice(RESAMPLE), )
            extra['interpolation'] = rng.choice([samples[0], samples])
        if rng.random() < .5:
            const = rng.choice([100, 3])
            extra['translate_const'] = const
        p = rng.choice([1., 1., 0.])
        with Quiet(), ctx.sut(f'building {name}'):
            if second:
                op = TRANSFORMS.build(dict(
                    type='mmrazor.' + V2[name], prob=p, magnitude=m,
                    extra_params=extra))
            else:
                op = v1.AutoAugmentOp(name, p, m, extra)
        for _ in range(3):
            img = rand_img(rng, g)
            keep = img.copy()
            res = dict(img=img, other=3)
            keys = ['img']
            if rng.random() < .3:
                res['img2'] = rand_img(rng, g)
                keys = res['img_fields'] = rng.choice([['img', 'img2'],
                                                       ['img2'], ['img']])
            orig = {k: v.copy() for k, v in res.items()
                    if k in ('img', 'img2')}
            with ctx.sut(name):
                out = op(res)
            ctx.event('ops')
            ctx.check(out is not None and out['other'] == 3 and set(out) ==
                      set(res), 'results', 'other results')
            for k in orig:
                got = out[k]
                ctx.check(got.shape == orig[k].shape and
                          got.dtype == np.uint8, 'shape', lambda: f'{name}: '
                          f'{got.shape} {got.dtype}')
                if k not in keys or p == 0:
                    ctx.check(np.array_equal(got, orig[k]), 'untouched',
                              lambda: f'{name}: {k} changed at p={p}')
                    continue
                ctx.event('applied')
                allowed = variants(name, orig[k], mm, fill, samples, const)
                ctx.check(any(np.array_equal(got, a) for a in allowed),
                          'values', lambda: f'{name} (v{1 + second}) of '
                          f'magnitude {m}, {extra}: not the operation')
            ctx.check(np.array_equal(keep, img), 'input', 'the given image '
                      'was changed in place')
    ctx.key(name)


def sec_noise(ctx):
    """Signs, interpolations and magnitudes are drawn."""
    from mmrazor.datasets.transforms import auto_augment as v1
    from mmrazor.registry import TRANSFORMS
    rng = ctx.rng
    g = np.random.default_rng(ctx.case_seed)

    def build(name, m, extra):
        second = (ctx.index // 8) % 2
        with ctx.sut(f'building {name}'):
            if second:
                return TRANSFORMS.build(dict(
                    type='mmrazor.' + V2[name], prob=1., magnitude=m,
                    extra_params=extra))
            return v1.AutoAugmentOp(name, 1., m, extra)

    name = ['Rotate', 'ShearX', 'ShearY', 'TranslateX', 'TranslateY',
            'TranslateXRel', 'TranslateYRel', 'Brightness'][ctx.index % 8]
    N = 150
    if name == 'Brightness':
        m = rng.choice([0, 3, 5, 8, 10])
        img = np.full((2, 2, 3), 120, np.uint8)
        f = []
        for _ in range(N):
            v = build(name, m, {})(dict(img=img.copy()))['img'][0, 0, 0]
            f.append((v / 120 - .1) / .18)
        ctx.check(-.1 <= min(f) and max(f) <= 10.1, 'levels',
                  lambda: f'levels {min(f)} to {max(f)} used')
        if 3 <= m <= 8:
            ctx.check(abs(np.mean(f) - m) < 5 * .5 / N**.5 + .05 and
                      .3 < np.std(f) < .7, 'noise', lambda: f'level {m}: '
                      f'{np.mean(f)} +- {np.std(f)} used')
        ctx.check(len({round(x, 3) for x in f}) > 3, 'noise', 'no noise')
    else:
        img = g.integers(0, 256, (24, 24, 3), dtype=np.uint8)
        allowed = variants(name, img, 6, FILLS[0], RESAMPLE, 9)
        seen = collections.Counter()
        for _ in range(N):
            with Quiet():
                op = build(name, 6, dict(translate_const=9))
            got = op(dict(img=img.copy()))['img']
            seen.update(k for k, a in enumerate(allowed)
                        if np.array_equal(a, got))
        # a nearest one may coincide with another
        for k in (0, 1):
            part = sum(v for q, v in seen.items() if q // 3 == k)
            ctx.check(part > N * .25, 'signs', lambda: f'{name}: {part} of '
                      f'{N} with sign {k}')
        kinds = {q % 3 for q in seen}
        ctx.check(kinds == {0, 1, 2}, 'interpolations', lambda: f'{name}: '
                  f'only interpolations {kinds}')
    ctx.event('drawn')
    ctx.key(name)


def sec_policy(ctx):
    """Whole policies: which operations are applied how often."""
    from mmrazor.datasets.transforms import AutoAugment, AutoAugmentV2
    rng = ctx.rng
    g = np.random.default_rng(ctx.case_seed)
    if rng.random() < .5:
        with ctx.sut('AutoAugment'):
            t = AutoAugment(rng.choice(['original', 'v0']), rng.choice([
                None, dict(img_mean=FILLS[1])]))
        for _ in range(30):
            img = rand_img(rng, g)
            with ctx.sut('AutoAugment'):
                out = t(dict(img=img))
            ctx.check(out['img'].shape == img.shape and
                      out['img'].dtype == np.uint8, 'policy_shape',
                      lambda: f'{out["img"].shape}')
        ctx.check(sum(len(p) for p in t.policies) == 50, 'policies', 'others')
        with ctx.rejects('an unknown policy', KeyError):
            AutoAugment('nothing')
        ctx.event('refused')
    # two invertible operations: which were applied can be told
    n = rng.randint(1, 4)
    pols = []
    for _ in range(n):
        pols.append((rng.choice([0., 1., .3, .7]), rng.choice([0., 1., .5])))
    extra = dict(img_mean=FILLS[0])
    cfg = [[dict(type='mmrazor.InvertV2', prob=a, magnitude=1,
                 extra_params=extra),
            dict(type='mmrazor.SolarizeAddV2', prob=b, magnitude=5,
                 extra_params=extra)] for a, b in pols]
    given = copy.deepcopy(cfg)
    with Quiet(), ctx.sut('AutoAugmentV2'):
        t = AutoAugmentV2(cfg)
    img = np.full((2, 2, 3), 40, np.uint8)
    names = {40: (0, 0), 215: (1, 0), 95: (0, 1)}
    N = 1200
    seen = collections.Counter()
    for _ in range(N):
        with ctx.sut('AutoAugmentV2'):
            v = int(t(dict(img=img.copy()))['img'][0, 0, 0])
        ctx.check(v in names or v == 215, 'order', lambda: f'{v} is not an '
                  'order of the policy')
        seen[v] += 1
    inv = sum(a for a, _ in pols) / n
    add = sum((1 - a) * b for a, b in pols) / n  # inverted ones are > 128
    for v, q in ((215, inv), (95, add)):
        tol = 5 * (N * q * (1 - q))**.5 + 1e-9
        ctx.check(abs(seen[v] - N * q) <= tol, 'fraction', lambda: f'{seen} '
                  f'for {pols}: {N * q} of {v} expected')
        ctx.event('fractions')
    ctx.check(cfg == given, 'config', 'the given policies were changed')
    ctx.event('policies')
    ctx.key(str(pols))


SECTIONS = {
    'crd': (sec_crd, 90, 2000),
    'loader': (sec_loader, 16, 200),
    'ops': (sec_ops, 68, 1700),
    'noise': (sec_noise, 16, 160),
    'policy': (sec_policy, 28, 400),
}
