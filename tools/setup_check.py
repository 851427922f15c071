"""Nothing to build: check that the code under test imports from /repo."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('RV_REPO', '/repo'))
import mmrazor  # noqa: E402
print(mmrazor.__file__, mmrazor.__version__)
