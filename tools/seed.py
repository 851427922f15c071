#!/opt/venv/bin/python
"""Try planted bugs (development tool; no check uses it).

seed.py [--tests] [--checks C01,C02|own|all] [--seeds 1] ID...

For every ID: copy /repo to a scratch folder, apply patch.diff, run demo.sh on
the clean and on the patched tree, the stable tests and the checks on the
patched tree. Nothing in /repo is touched.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

V = '/verif'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           OMP_NUM_THREADS='4', MPLBACKEND='Agg', HF_HUB_OFFLINE='1',
           PATH='/opt/venv/bin:' + os.environ['PATH'])
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
LSQ = ('tests/test_runners/test_quantization_loop.py::'
       'TestLSQEpochBasedLoop')


def sh(cmd, cwd, timeout=1200, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env),
                          timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True)


def demo(sid, tree):
    d = f'/tmp/seed-demo-{os.getpid()}-{sid}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(f'{V}/seeded/{sid}', d)
    for f in os.listdir(d):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json':
            os.remove(os.path.join(d, f))
    try:
        r = sh(['bash', f'{d}/demo.sh'], tree, 300)
        return r.returncode, r.stdout[-1500:]
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    finally:
        shutil.rmtree(d, ignore_errors=True)


def stable(tree):
    bad = set()
    res = {}
    rep = tree + '-rep.xml'
    for name, args in (('lsq', [LSQ]), ('main', ['--deselect', LSQ,
                                                 'tests'])):
        # own network namespace: the DDP tests use a fixed port
        sh(['unshare', '-Urn', 'bash', '-c', 'ip link set lo up; exec "$@"',
            'x', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
            'no:cacheprovider', '--timeout=300',
            '--continue-on-collection-errors', '-o', 'junit_family=xunit2',
            f'--junitxml={rep}'] + args, tree, 1500, PYTHONPATH=tree)
        if not os.path.exists(rep):
            return {'no report'}
        for tc in ET.parse(rep).iter('testcase'):
            k = f"{tc.get('classname')}::{tc.get('name')}"
            ok = not any(c.tag in ('failure', 'error', 'skipped')
                         for c in tc)
            res[k] = res.get(k, True) and ok
        os.remove(rep)
    for t in STABLE:
        if not res.get(t, False):
            bad.add(t)
    return bad


def main():
    p = argparse.ArgumentParser()
    p.add_argument('--tests', action='store_true')
    p.add_argument('--checks', default='own')
    p.add_argument('--seeds', default='1')
    p.add_argument('--tier', default='quick')
    p.add_argument('ids', nargs='*')
    a = p.parse_args()
    ids = a.ids or sorted(os.listdir(f'{V}/seeded'))
    for sid in ids:
        meta = json.load(open(f'{V}/seeded/{sid}/meta.json'))
        tree = f'/tmp/seedrepo-{os.getpid()}-{sid}'
        shutil.rmtree(tree, ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', tree], check=True)
        try:
            r = sh(['git', 'apply', f'{V}/seeded/{sid}/patch.diff'], tree)
            if r.returncode:
                print(sid, 'DOES NOT APPLY', r.stdout)
                continue
            out = [sid]
            if not shutil.os.path.exists(f'{V}/seeded/{sid}/demo.sh'):
                out.append('no demo')
            else:
                c, co = demo(sid, '/repo')
                b, bo = demo(sid, tree)
                out.append(f'demo clean={c} patched={b}')
                if c != 0 or b in (0, 'timeout'):
                    out.append(f'DEMO WRONG\n{co}\n----\n{bo}')
            if a.checks != 'none':
                cs = ([meta['property']] if a.checks == 'own' else sorted(
                    x['id'] for x in map(json.loads, open(
                        f'{V}/properties.jsonl'))) if a.checks == 'all' else
                    a.checks.split(','))
                for cid in cs:
                    for s in a.seeds.split(','):
                        r = sh(['/opt/venv/bin/python', f'{V}/check.py', cid,
                                '--seed', s, '--tier', a.tier], V, 1000,
                               RV_REPO=tree)
                        mech = [ln.strip().split()[0] for ln in
                                r.stdout.splitlines() if
                                ln.startswith('  mech=')]
                        out.append(f'{cid}/{s}: rc={r.returncode} '
                                   f'{" ".join(mech)[:200]}')
                        if r.returncode not in (0, 1):
                            out.append(r.stdout[-800:])
            if a.tests:
                bad = stable(tree)
                out.append(f'stable tests broken: {len(bad)} '
                           f'{sorted(bad)[:4]}')
            print(' | '.join(out), flush=True)
        finally:
            shutil.rmtree(tree, ignore_errors=True)


main()
