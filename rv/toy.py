"""Generated python modules whose calls are observed from outside.

A toy module holds functions and classes that call one another.  Every call
goes through the module's own ``CALL`` so that the harness keeps the truth
about calls: who was called, how the arguments were passed, what came out and
in which order the calls completed.
"""
import itertools
import sys
import types

import torch

_ids = itertools.count()


class Obj:
    """A value with an identity."""

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return f'Obj({self.tag})'


MISSING = object()
SHARED = Obj('shared')


def value(rng, tag):
    """Mostly a new object; also what a careless truth or equality test
    takes for nothing, or for the one before."""
    if rng.random() < .7:
        return Obj(tag)
    return rng.choice([
        None, False, 0, '', {}, dict(a=Obj(tag)), SHARED, SHARED,
        torch.zeros(3), torch.zeros(1)])


class Boom(Exception):
    pass


SIGS = ['a', 'a, b', 'a, b=0', 'a, b=0, c=1', 'b, a', 'a, *, k=0', 'a, *, k',
        'c, b, a=2', '']


def params(sig):
    pos, kwonly, req, star = [], [], set(), False
    for p in [x.strip() for x in sig.split(',') if x.strip()]:
        if p == '*':
            star = True
            continue
        name = p.split('=')[0]
        (kwonly if star else pos).append(name)
        if '=' not in p:
            req.add(name)
    return pos, kwonly, req


class Toy:
    """One generated module, registered in sys.modules."""

    def __init__(self, rng, n_func=4):
        self.rng = rng
        self.name = f'rv_toy_{next(_ids)}'
        mod = types.ModuleType(self.name)
        self.mod = mod
        sys.modules[self.name] = mod
        self.log = []  # completed calls: (key, wrappers, passed, output, ...)
        self.bodies = []  # executed bodies: (defining key, output)
        self.fail = set()
        self.sig = {}
        mod.CALL = self.call
        mod.BODY = self.body
        mod.SUPER = self.call_super
        self.table = {}  # source -> labels of what wraps it, outermost first
        self.hook = None  # prediction of deliveries (see c12)
        src = []
        names = [f'f{i}' for i in range(n_func)]
        for i, f in enumerate(names):
            src += self._def(f, f, names[i + 1:], '', False)
        # B inherits from A: m0 own of both, m1 inherited, m2 calls super
        src += ['class A:', '    CONST = 1']
        for m in ('m0', 'm1', 'm2', '__call__'):
            src += self._def(f'A.{m}', m, names, '    ', True)
        src += ['class B(A):', '    pass']
        for m in ('m0', 'm3'):
            src += self._def(f'B.{m}', m, names, '    ', True)
        src += ['    def m2(self, *args, **kw):',
                '        out = SUPER(super().m2, args, kw)',
                '        return BODY("B.m2", out)']
        self.sig['B.m2'] = self.sig['A.m2']
        src += ['class C(B):', '    pass', 'NOT_A_FUNC = 3',
                'class NotNn: pass']
        exec('\n'.join(src), mod.__dict__)
        self.objs = {c: [getattr(mod, c)() for _ in range(2)]
                     for c in 'ABC'}
        self.before = self.snapshot()

    def _def(self, key, name, callees, ind, method):
        rng = self.rng
        sig = rng.choice(SIGS)
        self.sig[key] = sig
        head = ', '.join((['self'] if method else []) +
                         ([sig] if sig else []))
        lines = [f'{ind}def {name}({head}):']
        for c in callees:
            if rng.random() < .3:
                lines.append(f'{ind}    CALL({c!r})')
        lines.append(f'{ind}    return BODY({key!r})')
        return lines

    # ----------------------------------------------------------- the truth
    def body(self, key, out=MISSING):
        if key in self.fail:
            raise Boom(key)
        if out is MISSING:
            n = self.rng.choice([0, 0, 0, 2, 3])
            vals = [value(self.rng, key) for _ in range(n)]
            out = value(self.rng, key) if not n else (
                vals if self.rng.random() < .5 else tuple(vals))
        self.bodies.append((key, out))
        return out

    MRO = {'A': 'A', 'B': 'BA', 'C': 'CBA'}

    def definer(self, key):
        """The source whose own code runs for this source."""
        if '.' not in key:
            return key
        cls, m = key.split('.')
        for c in self.MRO[cls]:
            if f'{c}.{m}' in self.sig:
                return f'{c}.{m}'

    def chain(self, key):
        """Labels of the wrappers a call of this source runs through."""
        if '.' not in key:
            return self.table.get(key, [])
        cls, m = key.split('.')
        for c in self.MRO[cls]:
            k = f'{c}.{m}'
            if k in self.table or k in self.sig:
                return self.table.get(k, [])

    def wrap(self, key, label):
        old = self.table.get(key)
        self.table[key] = [label] + self.chain(key)
        return old

    def unwrap(self, key, old):
        if old is None:
            del self.table[key]
        else:
            self.table[key] = old

    def call(self, key):
        """Call a function ("f0") or a method ("B.m1", on a B object)."""
        rng = self.rng
        if '.' in key:
            cls, m = key.split('.')
            obj = rng.choice(self.objs[cls])
            fn = getattr(obj, m)
            if m == '__call__' and rng.random() < .5:
                fn = obj
        else:
            fn = getattr(self.mod, key)
        pos, kwonly, req = params(self.sig[self.definer(key)])
        # how many go positionally, the others by keyword in random order
        n = rng.randint(0, len(pos))
        args = [value(rng, 'in') for _ in range(n)]
        rest = [p for p in pos[n:] + kwonly if p in req or rng.random() < .6]
        vals = {p: value(rng, 'in') for p in rest}
        rng.shuffle(rest)
        return self._call(key, fn, args, {p: vals[p] for p in rest})

    def call_super(self, fn, args, kw):
        return self._call('A.m2', fn, list(args), kw)

    def _call(self, key, fn, args, kw):
        pos, kwonly, _ = params(self.sig[self.definer(key)])
        chain = list(self.chain(key))
        n = len(self.bodies)
        pred = self.hook(key, chain) if self.hook else None
        out = fn(*args, **kw)
        if self.definer(key) == 'B.m2':  # takes *args, **kw
            passed = list(args) + list(kw.values())
        else:
            passed = list(args) + [kw[p] for p in pos + kwonly if p in kw]
        self.log.append((key, chain, passed, out, n, pred))
        if pred:
            pred(out, n)
        return out

    def snapshot(self):
        mod = self.mod
        snap = {'': dict(vars(mod))}
        for c in 'ABC':
            snap[c] = dict(vars(getattr(mod, c)))
        return snap

    def diff(self):
        """What differs from the state before anything was wrapped."""
        out = []
        now = self.snapshot()
        for k, d in self.before.items():
            for n in set(d) | set(now[k]):
                if n.startswith('__') and n != '__call__':
                    continue
                if now[k].get(n, None) is not d.get(n, None) or \
                        (n in d) != (n in now[k]):
                    out.append(f'{k}.{n}' if k else n)
        return sorted(out)

    def close(self):
        sys.modules.pop(self.name, None)

    FUNCS = ['f0', 'f1', 'f2', 'f3']
    METHODS = ['A.m0', 'A.m1', 'A.m2', 'A.__call__', 'B.m0', 'B.m1', 'B.m2',
               'B.m3', 'B.__call__', 'C.m0', 'C.m1', 'C.m2', 'C.m3']
