"""Makes golem_messages of the current directory importable here: what this
sandbox lacks is replaced (pyelliptic by the file beside this one, the release
number by a constant), nothing of the library itself."""
import functools
import io
import os
import pathlib
import sys
import types

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.getcwd())
_m = types.ModuleType('_functools')
_m.reduce, _m.partial = functools.reduce, functools.partial
sys.modules['_functools'] = _m
import eth_utils  # noqa: E402
import toolz  # noqa: E402
_t = types.ModuleType('eth_utils.toolz')
_t.__dict__.update({k: v for k, v in toolz.__dict__.items()
                    if not k.startswith('__')})
sys.modules['eth_utils.toolz'] = _t
VERSION = os.environ.get('DEMO_VERSION', '2.15.0')
_open = pathlib.Path.open


def _release(self, *a, **k):
    if self.name == 'RELEASE-VERSION':
        return io.StringIO(VERSION)
    return _open(self, *a, **k)


pathlib.Path.open = _release
import golem_messages as gm  # noqa: E402
from golem_messages import cryptography, exceptions  # noqa: E402,F401
assert gm.__file__.startswith(os.getcwd()), gm.__file__


class Keys:
    def __init__(self, n):
        self.priv = bytes([n]) * 32
        self.pub = cryptography.privtopub(self.priv)


def refused(fn, *a, err=exceptions.MessageError, **k):
    try:
        fn(*a, **k)
    except err:
        return True
    return False
