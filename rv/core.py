"""Common runner of the runtime monitors.

A check module (rv.checks.cXX) declares SECTIONS: named *workloads*.  Each
workload case drives the real mmrazor code with generated inputs while monitors
written in the module watch it.  A monitor reports through the context:

  ctx.check(cond, mech, msg)   an oracle's verdict on an observed event
  ctx.sut(label)               real code runs inside; an exception it raises on
                               an input the property covers is a violation
  ctx.event(name, n)           what a monitor actually observed (evidence)
  ctx.key(obj)                 identity of the explored case (distinctness)

Verdicts are three-valued: 0 = held, 1 = VIOLATION, 3 = inconclusive (the
harness itself failed or a monitor was never reached).
"""
import contextlib
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')


class Violation(Exception):

    def __init__(self, mech, msg):
        super().__init__(f'[{mech}] {msg}')
        self.mech, self.msg = mech, msg


class CaseTimeout(BaseException):
    pass


def repo_frames(tb):
    out = []
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(REPO + '/'):
            out.append(f'{f.filename[len(REPO) + 1:]}:{f.lineno}:{f.name}')
    return out


class Ctx:
    """Context of one case."""

    def __init__(self, prop, section, index, seed, tier):
        self.prop, self.section, self.index = prop, section, index
        self.seed, self.tier = seed, tier
        h = hashlib.sha256(f'{prop}/{section}/{index}/{seed}'.encode())
        self.case_seed = int.from_bytes(h.digest()[:4], 'big')
        self.rng = random.Random(self.case_seed)
        self.events = {}
        self.keys = []
        self.samples = []
        self.found = []  # (mech, msg) violations
        self.known = []  # known-finding probes that still fail
        self.skips = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def seed_all(self):
        import numpy as np
        import torch
        random.seed(self.case_seed)
        np.random.seed(self.case_seed % (2**32))
        torch.manual_seed(self.case_seed)

    # monitors report here
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def key(self, *parts):
        self.keys.append(
            hashlib.sha1(repr((self.section, ) + parts).encode()).hexdigest())

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def skip(self, why):
        self.skips[why] = self.skips.get(why, 0) + 1

    def check(self, cond, mech, msg=''):
        """An oracle's verdict. Stops the case when it is negative."""
        self.event('verdicts')
        if not cond:
            raise Violation(mech, msg() if callable(msg) else str(msg))

    def probe(self, cond, mech, msg=''):
        """Verdict of a probe of one specific, possibly known, finding.

        Does not stop the case: the caller goes on with other inputs.
        """
        self.event('verdicts')
        if not cond:
            self.found.append((mech, msg() if callable(msg) else str(msg)))
        return cond

    @contextlib.contextmanager
    def sut(self, label):
        """Real code is running on an input covered by the property."""
        try:
            yield
        except (Violation, CaseTimeout):
            raise
        except Exception as e:  # noqa: BLE001
            frames = repo_frames(e.__traceback__)
            where = frames[-1].rsplit(':', 1)[-1] if frames else '?'
            tail = ' < '.join(reversed(frames[-4:]))
            raise Violation(
                f'{label}:raised:{type(e).__name__}',
                f'{label} raised {type(e).__name__}: {str(e)[:400]} '
                f'(in {where}; {tail})') from e

    @contextlib.contextmanager
    def rejects(self, label, exc=(Exception, )):
        """Real code must reject what it is given inside."""
        self.event('rejections_expected')
        try:
            yield
        except exc:
            return
        raise Violation(f'{label}:accepted', f'{label}: was accepted')


def known_findings():
    """mech ids listed as known, per property."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith('known:'):
            continue
        f = dict(p.split('=', 1) for p in line.split() if '=' in p)
        desc = line.split('::', 1)[1].strip() if '::' in line else ''
        out.setdefault(f['property'], {})[f['mech']] = desc
    return out


BROKEN = (TypeError, AttributeError, LookupError, ValueError, RuntimeError,
          AssertionError, ArithmeticError, StopIteration)


def run_case(task):
    """Run one case in a worker; return a plain dict."""
    modname, section, index, seed, tier, limit = task
    import importlib
    mod = importlib.import_module(modname)
    ctx = Ctx(mod.ID, section, index, seed, tier)
    res = dict(section=section, index=index, status='ok')

    def on_alarm(signum, frame):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(limit))
    t = time.time()
    try:
        ctx.seed_all()
        with quiet():
            mod.SECTIONS[section][0](ctx)
    except Violation as v:
        ctx.found.append((v.mech, v.msg))
        if v.__cause__ is not None:
            res['trace'] = ''.join(
                traceback.format_exception(v.__cause__))[-3000:]
    except CaseTimeout as e:
        res['trace'] = ''.join(traceback.format_exception(e))[-4000:]
        frames = repo_frames(e.__traceback__)
        if frames:
            ctx.found.append(('hang', f'still running after {limit} s: '
                              f'{" < ".join(reversed(frames[-4:]))}'))
            res['hang'] = True
        else:
            res['status'] = 'timeout'
    except BaseException as e:  # noqa: BLE001
        res['trace'] = ''.join(traceback.format_exception(e))[-4000:]
        frames = repo_frames(e.__traceback__)
        if frames and isinstance(e, Exception) and not isinstance(
                e, MemoryError):
            # the code under test raised on an input the workload considers
            # valid: on the unchanged tree this never happens
            ctx.found.append((
                f'unexpected:{type(e).__name__}',
                f'unexpected {type(e).__name__}: {str(e)[:400]} '
                f'({" < ".join(reversed(frames[-4:]))})'))
        elif isinstance(e, BROKEN) and not any(
                w in str(e).lower() for w in ('memory', 'resource', 'thread')):
            # what the workload got cannot even be read: on the unchanged tree
            # this never happens
            ctx.found.append((
                f'unusable:{type(e).__name__}',
                f'the workload cannot go on with what it got: '
                f'{type(e).__name__}: {str(e)[:300]}'))
        else:
            res['status'] = 'error'
    finally:
        signal.alarm(0)
    res.update(
        found=ctx.found,
        events=ctx.events,
        keys=ctx.keys,
        samples=ctx.samples,
        skips=ctx.skips,
        wall=time.time() - t)
    return res


@contextlib.contextmanager
def quiet():
    """Silence prints and warnings of the code under test."""
    import warnings
    if os.environ.get('RV_VERBOSE'):
        yield
        return
    sys.stdout.flush()
    sys.stderr.flush()
    with open(os.devnull, 'w') as null, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(null), \
                contextlib.redirect_stderr(null):
            yield


def main(mod, argv):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument(
        '--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    p.add_argument('--case', help='section:index, replay one case')
    p.add_argument('--only', help='only these sections (comma separated)')
    p.add_argument('--jobs', type=int, default=int(
        os.environ.get('RV_JOBS', '7')))
    p.add_argument('--scale', type=float, default=1.0)
    a = p.parse_args(argv)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    modname = mod.__name__
    limit = getattr(mod, 'CASE_LIMIT', 100)

    if a.case:
        s, i = a.case.split(':')
        r = run_case((modname, s, int(i), a.seed, tier, limit))
        print(json.dumps({k: v for k, v in r.items() if k != 'keys'},
                         indent=1, default=str))
        print(r.get('trace', ''))
        return 1 if r['found'] else (0 if r['status'] == 'ok' else 3)

    tasks = []
    for name, (fn, nq, nt) in mod.SECTIONS.items():
        if a.only and name not in a.only.split(','):
            continue
        n = nt if tier == 'thorough' else nq
        n = max(1, int(n * a.scale))
        tasks += [(modname, name, i, a.seed, tier, limit) for i in range(n)]
    # interleave sections so that a deadline never starves one of them
    random.Random(0).shuffle(tasks)
    tasks.sort(key=lambda t: t[2] > 3)
    deadline = t0 + (780 if tier == 'quick' else float(
        os.environ.get('RV_THOROUGH_S', '780')))

    results = []
    dropped = 0
    if a.jobs <= 1:
        for t in tasks:
            if time.time() > deadline:
                dropped += 1
                continue
            results.append(run_case(t))
    else:
        import concurrent.futures as cf
        import multiprocessing as mp
        ctx = mp.get_context('fork')
        pend = list(reversed(tasks))
        broken = hangs = 0
        while pend:
            running = {}
            try:
                with cf.ProcessPoolExecutor(
                        a.jobs, mp_context=ctx) as ex:
                    while pend or running:
                        while pend and len(running) < a.jobs * 2:
                            if time.time() > deadline:
                                dropped += len(pend)
                                pend = []
                                break
                            t = pend.pop()
                            running[ex.submit(run_case, t)] = t
                        done, _ = cf.wait(
                            running, return_when=cf.FIRST_COMPLETED)
                        for f in done:
                            t = running[f]
                            results.append(f.result())
                            if results[-1].get('hang'):
                                hangs += 1
                                if hangs >= 3:
                                    dropped += len(pend)
                                    pend = []
                            del running[f]
            except cf.process.BrokenProcessPool:
                # a worker died: run the outstanding cases one by one, each in
                # a process of its own, to tell which one kills it
                broken += 1
                left = list(running.values())
                for t in left:
                    try:
                        with cf.ProcessPoolExecutor(
                                1, mp_context=ctx) as ex:
                            results.append(ex.submit(run_case, t).result())
                    except cf.process.BrokenProcessPool:
                        results.append(
                            dict(section=t[1], index=t[2], status='died',
                                 found=[], events={}, keys=[], samples=[],
                                 skips={}, wall=0.,
                                 trace='worker process died'))
    return report(mod, results, dropped, tier, a, t0)


def report(mod, results, dropped, tier, a, t0):
    known = known_findings().get(mod.ID, {})
    events, skips, samples, keys = {}, {}, [], set()
    per_section = {}
    bad, errors, seen_known = [], [], {}
    for r in results:
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['skips'].items():
            skips[k] = skips.get(k, 0) + v
        keys.update(r['keys'])
        s = per_section.setdefault(r['section'], dict(cases=0, wall_s=0.))
        s['cases'] += 1
        s['wall_s'] = round(s['wall_s'] + r['wall'], 2)
        if r['samples'] and len(samples) < 12 and \
                s.get('sampled', 0) < 2:
            s['sampled'] = s.get('sampled', 0) + 1
            samples.append(
                dict(section=r['section'], index=r['index'],
                     case=r['samples'][0]))
        for mech, msg in r['found']:
            if mech in known:
                seen_known.setdefault(mech, msg)
            else:
                bad.append((r, mech, msg))
        if r['status'] != 'ok':
            errors.append(r)
    for s in per_section.values():
        s.pop('sampled', None)
    for mech, msg in sorted(seen_known.items()):
        print(f'KNOWN-FINDING: property={mod.ID} {mech}: '
              f'{known[mech] or msg}'[:600])
    missing = []
    if not a.only:
        for name, least in getattr(mod, 'REQUIRED_EVENTS', {}).items():
            if events.get(name, 0) < least:
                missing.append(f'{name}={events.get(name, 0)}<{least}')
    if missing and not errors and not dropped:
        # the workload is a function of the seed: what the property is about
        # took place on the unchanged tree, and (almost) never does here
        gone = [m for m in missing if int(m.split('=')[1].split('<')[0]) * 4 <
                int(m.split('<')[1])]
        if gone and a.scale >= 1:
            r = dict(section='-', index=0)
            bad.append((r, 'unreached', f'never took place: {gone}'))
    ev = dict(
        property=mod.ID,
        tier=tier,
        seed=a.seed,
        level='exploration',
        coverage=dict(
            evaluations=len(results),
            distinct_nontrivial=len(keys),
            rule=mod.RULE,
            samples=samples or ['(none)'],
            monitor_events=dict(sorted(events.items())),
            sections=dict(sorted(per_section.items())),
            skipped=skips,
            cases_dropped_at_deadline=dropped,
            known_findings_seen=sorted(seen_known),
            harness_errors=len(errors),
        ),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(bad))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{mod.ID}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{mod.ID} tier={tier} seed={a.seed} cases={len(results)} '
          f'distinct={len(keys)} verdicts={events.get("verdicts", 0)} '
          f'wall={ev["wall_s"]}s')
    if bad:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        byt = {}
        for r, mech, msg in bad:
            byt.setdefault(mech, []).append((r, msg))
        for mech, lst in sorted(byt.items()):
            r, msg = lst[0]
            h = hashlib.sha1(mech.encode()).hexdigest()[:8]
            path = os.path.join(rdir, f'{mod.ID}-{h}.json')
            with open(path, 'w') as f:
                json.dump(
                    dict(property=mod.ID, mech=mech, msg=msg, cases=len(lst),
                         replay=f'cd {VERIF} && /opt/venv/bin/python check.py '
                         f'{mod.ID} --tier {tier} --seed {a.seed} '
                         f'--case {r["section"]}:{r["index"]}',
                         trace=r.get('trace', '')), f, indent=1)
            print(f'VIOLATION property={mod.ID} replay={path}')
            print(f'  mech={mech} cases={len(lst)} '
                  f'first={r["section"]}:{r["index"]} {msg[:700]}')
        return 1
    if errors:
        for r in errors[:3]:
            print(f'HARNESS {r["status"]} in {r["section"]}:{r["index"]}\n'
                  f'{r.get("trace", "")}')
        print(f'INCONCLUSIVE property={mod.ID} harness_errors={len(errors)}')
        return 3
    if missing:
        print(f'INCONCLUSIVE property={mod.ID} monitors not reached: '
              f'{missing}')
        return 3
    return 0
