"""
Runs marnanel/sangfroid's own tests on the rewritten code that the checks
execute symbolically, with ordinary values: the rewriting must not change
what the code does.  Usage: python3-vt selftest.py
"""
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from symex import explore
explore.setup()
import logging
logging.disable(logging.NOTSET)
import pytest
from symex import core


class Active:
    """Every test runs inside a symbolic path (without symbolic inputs)."""
    @pytest.hookimpl(hookwrapper=True)
    def pytest_pyfunc_call(self, pyfuncitem):
        core.Ctx.cur = core.Ctx()
        try:
            yield
        finally:
            core.Ctx.cur = None


if __name__ == '__main__':
    d = tempfile.mkdtemp(prefix='vp-selftest-')
    try:
        shutil.copytree(os.path.join(explore.REPO, 'test'),
                        os.path.join(d, 'test'))
        os.chdir(d)
        rc = pytest.main(['-q', '-p', 'no:cacheprovider', 
                          '--rootdir', d, os.path.join(d, 'test')]
                         + sys.argv[1:], plugins=[Active()])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)
