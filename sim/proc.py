"""A simulated process: its own instance of the golem_messages package.

Every process gets fresh module objects (so module globals, class-level
caches, the message registry and __version__ are its own), executed from code
objects compiled once per worker out of /repo's working tree.  Entering a
process puts its modules in sys.modules and makes its clock, time zone and
uuid state the current ones.  A crash drops the instance; nothing but what a
workload wrote to its simulated disk survives.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import uuid

from . import seams
from .seams import SEAM

PKG = 'golem_messages'
_code_cache = {}
_file_cache = {}


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _code_cache.get(self.path)
        if code is None:
            with seams._real_open(self.path, 'rb') as f:
                code = compile(f.read(), self.path, 'exec', dont_inherit=True)
            _code_cache[self.path] = code
        module.__file__ = self.path
        exec(code, module.__dict__)  # pylint: disable=exec-used

    def get_filename(self, _fullname):
        return self.path


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + '.'):
            return None
        if fullname not in _file_cache:
            base = os.path.join(seams.REPO, *fullname.split('.'))
            if os.path.isdir(base):
                init = os.path.join(base, '__init__.py')
                _file_cache[fullname] = (
                    init if os.path.isfile(init) else None, base)
            elif os.path.isfile(base + '.py'):
                _file_cache[fullname] = (base + '.py', None)
            else:
                _file_cache[fullname] = None
        entry = _file_cache[fullname]
        if entry is None:
            return None
        file_, pkgdir = entry
        spec = importlib.machinery.ModuleSpec(
            fullname, _Loader(file_) if file_ else None,
            origin=file_, is_package=pkgdir is not None)
        if pkgdir is not None:
            spec.submodule_search_locations = [pkgdir]
        spec.has_location = file_ is not None
        return spec


_finder = _Finder()
_current = None
generation = 0


def setup():
    seams.install()
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)


def _pkg_names():
    return [k for k in sys.modules
            if k == PKG or k.startswith(PKG + '.')]


class Process:
    def __init__(self, name='p', version='2.15.0', offset_us=0, tz_us=0,
                 drift_ppm=0, world_clock=None, dst=None):
        global generation
        generation += 1
        self.name = name
        self.version = version
        self.offset_us = offset_us
        self.drift_ppm = drift_ppm
        self.tz_us = tz_us
        self.dst = dst
        self.uuid_last = None
        self.modules = None
        self.world_clock = world_clock or (lambda: 0)
        self.boot()

    # -- life cycle ---------------------------------------------------------

    def boot(self):
        """(Re)start: a fresh package instance, no memory of before."""
        saved = {k: sys.modules.pop(k) for k in _pkg_names()}
        SEAM.version = self.version
        self.uuid_last = None
        old = SEAM.clock, SEAM.tz_us, SEAM.dst
        SEAM.clock, SEAM.tz_us, SEAM.dst = \
            self.clock_us, self.tz_us, self.dst
        try:
            __import__(PKG)
            for sub in ('message', 'idgenerator', 'helpers', 'utils',
                        'constants', 'datastructures.masking',
                        'datastructures.p2p', 'datastructures.stats',
                        'datastructures.tasks', 'datastructures.promissory',
                        'serializer', 'validators', 'register', 'settings',
                        'shortcuts', 'cryptography', 'exceptions'):
                __import__(PKG + '.' + sub)
            self.modules = {k: sys.modules.pop(k) for k in _pkg_names()}
        finally:
            for k in _pkg_names():
                sys.modules.pop(k)
            sys.modules.update(saved)
            SEAM.clock, SEAM.tz_us, SEAM.dst = old
        self.gm = self.modules[PKG]

    def mod(self, name):
        return self.modules[PKG + '.' + name]

    def clock_us(self):
        world = self.world_clock()
        return seams.EPOCH_US + world + self.offset_us \
            + world * self.drift_ppm // 1_000_000

    # -- context ------------------------------------------------------------

    def __enter__(self):
        global _current
        self._prev = _current
        if _current is not self:
            if _current is not None:
                _current._leave()
            self._arrive()
        _current = self
        return self

    def _arrive(self):
        sys.modules.update(self.modules)
        SEAM.clock = self.clock_us
        SEAM.tz_us = self.tz_us
        SEAM.dst = self.dst
        SEAM.version = self.version
        uuid._last_timestamp = self.uuid_last

    def _leave(self):
        self.uuid_last = uuid._last_timestamp
        for k in _pkg_names():
            self.modules[k] = sys.modules.pop(k)

    def __exit__(self, *exc):
        global _current
        if self._prev is not self:
            self._leave()
            if self._prev is not None:
                self._prev._arrive()
        _current = self._prev
