#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--seed N] [--case section:index]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(
    PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
    MKL_NUM_THREADS='1', MPLBACKEND='Agg', HF_HUB_OFFLINE='1',
    PYTHONWARNINGS='ignore', TORCH_CPP_LOG_LEVEL='ERROR', PATH='/opt/venv/bin:' + os.environ.get('PATH', ''))
if os.environ.get('RV_ENV') != '1':
    env = dict(os.environ, RV_ENV='1', **ENV)
    env.pop('PYTHONPATH', None)
    os.execve('/opt/venv/bin/python',
              ['/opt/venv/bin/python', os.path.abspath(__file__)] +
              sys.argv[1:], env)

REPO = os.environ.get('RV_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)


def main():
    import importlib
    import tempfile
    prop = sys.argv[1]
    scratch = tempfile.mkdtemp(prefix=f'rv-{prop}-')
    try:
        os.chdir(scratch)
        from rv import core
        try:
            with core.quiet():
                import torch
                torch.set_num_threads(1)
                import mmrazor
                import mmrazor.models  # noqa: F401
            where = os.path.dirname(os.path.dirname(mmrazor.__file__))
            if os.path.realpath(where) != os.path.realpath(REPO):
                print(f'INCONCLUSIVE mmrazor imported from {where}')
                return 3
            mod = importlib.import_module(f'rv.checks.{prop.lower()}')
        except Exception:  # noqa: BLE001
            import traceback
            traceback.print_exc()
            print(f'INCONCLUSIVE property={prop} import failed')
            return 3
        return core.main(mod, sys.argv[2:])
    finally:
        import shutil
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
