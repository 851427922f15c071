"""Real ranks of a process group on this machine."""
import os
import pickle
import shutil
import signal
import tempfile
import time
import traceback


class RankError(Exception):
    pass


def run(world, fn, timeout=60):
    """fn(rank) in ``world`` forked processes of one gloo group.

    Returns the list of their results; RankError carries the traceback of the
    first rank that raised.
    """
    d = tempfile.mkdtemp(prefix='rv-ranks-')
    pids = []
    try:
        for rank in range(world):
            pid = os.fork()
            if pid == 0:
                signal.alarm(0)
                code = 1
                try:
                    os.environ['GLOO_SOCKET_IFNAME'] = 'lo'
                    import torch.distributed as dist
                    dist.init_process_group(
                        'gloo', init_method=f'file://{d}/store', rank=rank,
                        world_size=world)
                    res = ('ok', fn(rank))
                    dist.barrier()
                    code = 0
                except BaseException as e:  # noqa: BLE001
                    res = ('err', (type(e).__name__, str(e)[:600],
                                   traceback.format_exc()[-3000:]))
                try:
                    with open(f'{d}/r{rank}.tmp', 'wb') as f:
                        pickle.dump(res, f)
                    os.rename(f'{d}/r{rank}.tmp', f'{d}/r{rank}')
                finally:
                    os._exit(code)
            pids.append(pid)
        end = time.time() + timeout
        left = dict(enumerate(pids))
        failed_at = None
        while left and time.time() < end:
            for r, pid in list(left.items()):
                p, status = os.waitpid(pid, os.WNOHANG)
                if p:
                    del left[r]
                    if status and failed_at is None:
                        failed_at = time.time()
            # the others wait for a rank that failed
            if failed_at and time.time() - failed_at > 5:
                break
            time.sleep(.01)
        for pid in left.values():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        out = []
        errs = []
        for r in range(world):
            path = f'{d}/r{r}'
            if not os.path.exists(path):
                errs.append(('Missing', f'rank {r} gave no result within '
                             f'{timeout} s', ''))
                continue
            with open(path, 'rb') as f:
                kind, val = pickle.load(f)
            (out if kind == 'ok' else errs).append(val)
        if errs:
            errs.sort(key=lambda e: e[0] == 'Missing')
            e = RankError(f'{errs[0][0]}: {errs[0][1]}')
            e.kind, e.tb = errs[0][0], errs[0][2]
            raise e
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)
