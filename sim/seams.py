"""Every source of nondeterminism golem_messages can reach, owned by the sim.

Imported first in every worker.  After install():

  wall clock   time.*, datetime.now/utcnow/today/fromtimestamp -> SEAM.clock
  time zone    local-time functions apply SEAM.tz_us and, where a plan says
               so, daylight saving SEAM.dst (per simulated node)
  entropy      os.urandom (and the names other modules bound) -> SEAM.entropy
  PRNG         the module-level `random` generator is reseeded per step
  uuid         uuid's module-level "last timestamp" belongs to a process
  locks        threading.Lock/RLock and functools' RLock cooperate with the
               simulated thread scheduler instead of blocking for real
  files        RELEASE-VERSION (the one file the package reads) is simulated

Nothing here draws from the simulator's own PRNG, and nothing reads a real
clock on behalf of the code under test.
"""
import datetime as _dt_mod
import hashlib
import io
import os
import pathlib
import random as _random_mod
import sys
import time as _time_mod
import types

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')
REPO = os.environ.get('GM_SIM_REPO', '/repo')

# Real functions, kept for the harness only.
real_time = _time_mod.time
real_monotonic = _time_mod.monotonic
real_sleep = _time_mod.sleep
real_urandom = os.urandom
real_gmtime = _time_mod.gmtime
real_datetime = _dt_mod.datetime
real_path_open = pathlib.Path.open

HOUR_US = 3_600_000_000
EPOCH_US = 1_580_000_000 * 1_000_000   # 2020-01-26, default start of time


class Entropy:
    """Deterministic byte stream; can be told to fail."""

    def __init__(self):
        self.total = 0          # bytes handed out, ever
        self.once = False
        self.reseed(0)

    def reseed(self, seed):
        self.key = hashlib.sha256(b'entropy:%d' % seed).digest()
        self.counter = 0
        self.calls = 0
        self.fail_at = None     # fail on the n-th call (1-based) after reseed
        self.failed = 0
        self.served = []        # what was handed out since reseed

    def __call__(self, n):
        self.calls += 1
        if self.fail_at is not None and self.calls >= self.fail_at:
            self.failed += 1
            if self.once:
                self.fail_at = None
            raise OSError(5, 'simulated entropy source failure')
        self.total += n
        out = b''
        while len(out) < n:
            self.counter += 1
            out += hashlib.sha256(
                self.key + self.counter.to_bytes(8, 'big')).digest()
        out = out[:n]
        if len(self.served) < 64:
            self.served.append(out)
        return out


class Seam:
    def __init__(self):
        self.clock = lambda: EPOCH_US    # -> microseconds since the epoch
        self.tz_us = 0
        self.dst = None      # (period, phase): an hour more, half the time
        self.entropy = Entropy()
        self.version = '2.15.0'
        self.version_reads = 0
        self.sleeps = 0
        self.clock_reads = 0
        self.scheduler = None            # see threads.py
        self.on_sleep = None
        self.opener = None               # see host.py


SEAM = Seam()


def now_us():
    SEAM.clock_reads += 1
    return SEAM.clock()


def zone_us(utc_us):
    """local minus universal time, at a moment"""
    if SEAM.dst is not None:
        period, phase = SEAM.dst
        if (utc_us + phase) % period < period // 2:
            return SEAM.tz_us + HOUR_US
    return SEAM.tz_us


def zone_of_local_us(local_us):
    """the same, for a moment given in local time"""
    for off in (SEAM.tz_us + HOUR_US, SEAM.tz_us):
        if zone_us(local_us - off) == off:
            return off
    return SEAM.tz_us        # in the gap


def _time():
    return now_us() / 1e6


def _time_ns():
    return now_us() * 1000


def _gmtime(secs=None):
    return real_gmtime(now_us() // 1_000_000 if secs is None else secs)


def _localtime(secs=None):
    if secs is None:
        secs = now_us() // 1_000_000
    return real_gmtime(secs + zone_us(int(secs * 1_000_000)) // 1_000_000)


def _mktime(tup):
    import calendar
    local = calendar.timegm(tup)
    return float(local - zone_of_local_us(local * 1_000_000) // 1_000_000)


def _sleep(secs):
    SEAM.sleeps += 1
    if SEAM.on_sleep is not None:
        SEAM.on_sleep(int(secs * 1e6))


_real_strftime = _time_mod.strftime
_real_asctime = _time_mod.asctime


def _strftime(fmt, t=None):
    return _real_strftime(fmt, _localtime() if t is None else t)


def _asctime(t=None):
    return _real_asctime(_localtime() if t is None else t)


def _ctime(secs=None):
    return _real_asctime(_localtime(secs))


_EPOCH_DT = real_datetime(1970, 1, 1)


def _micros(delta):
    return (delta.days * 86400 + delta.seconds) * 1_000_000 \
        + delta.microseconds


class _SimDatetimeMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, real_datetime)


class SimDatetime(real_datetime, metaclass=_SimDatetimeMeta):
    @classmethod
    def utcnow(cls):
        us = now_us()
        base = cls(1970, 1, 1)
        return base + _dt_mod.timedelta(microseconds=us)

    @classmethod
    def now(cls, tz=None):
        us = now_us()
        if tz is None:
            return cls(1970, 1, 1) + _dt_mod.timedelta(
                microseconds=us + zone_us(us))
        utc = cls(1970, 1, 1, tzinfo=_dt_mod.timezone.utc) \
            + _dt_mod.timedelta(microseconds=us)
        return utc.astimezone(tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def fromtimestamp(cls, ts, tz=None):
        if tz is None:
            utc = cls.utcfromtimestamp(ts)
            return utc + _dt_mod.timedelta(microseconds=zone_us(
                _micros(utc - _EPOCH_DT)))
        return super().fromtimestamp(ts, tz)

    def timestamp(self):
        if self.tzinfo is None:
            delta = self - _EPOCH_DT
            return (delta - _dt_mod.timedelta(
                microseconds=zone_of_local_us(_micros(delta)))
                ).total_seconds()
        return super().timestamp()

    def astimezone(self, tz=None):
        if self.tzinfo is None:
            local = _dt_mod.timezone(_dt_mod.timedelta(
                microseconds=zone_of_local_us(_micros(self - _EPOCH_DT))))
            return self.replace(tzinfo=local).astimezone(tz)
        if tz is None:
            utc = super().astimezone(_dt_mod.timezone.utc)
            tz = _dt_mod.timezone(_dt_mod.timedelta(microseconds=zone_us(
                _micros(utc.replace(tzinfo=None) - _EPOCH_DT))))
        return super().astimezone(tz)


_real_date = _dt_mod.date


# --- locks -----------------------------------------------------------------

class SimLock:
    """threading.Lock/RLock look-alike; waits are scheduler decisions."""
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    @staticmethod
    def _me():
        sched = SEAM.scheduler
        cur = sched.current if sched is not None else None
        return ('main',) if cur is None else ('t', cur)

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while True:
            if self._owner is None:
                self._owner = me
                self._count = 1
                return True
            if self.reentrant and self._owner == me:
                self._count += 1
                return True
            if not blocking:
                return False
            sched = SEAM.scheduler
            if sched is None or sched.current is None:
                raise RuntimeError('simulated deadlock: lock held by %r'
                                   % (self._owner,))
            if timeout is not None and timeout >= 0:
                return False
            sched.block_on(self)

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    # Condition support
    def _is_owned(self):
        return self._owner == self._me()


class SimRLock(SimLock):
    reentrant = True


def _entropy(n):
    return SEAM.entropy(n)


def _path_open(self, *args, **kwargs):
    if SEAM.opener is not None:
        return SEAM.opener.open(self, *args, **kwargs)
    if self.name == 'RELEASE-VERSION':
        SEAM.version_reads += 1
        if SEAM.version is None:
            raise FileNotFoundError(2, 'simulated: no RELEASE-VERSION')
        return io.StringIO(SEAM.version)
    return real_path_open(self, *args, **kwargs)


_real_open = open


def _builtin_open(file, *args, **kwargs):
    if SEAM.opener is not None and isinstance(file, (str, os.PathLike)):
        return SEAM.opener.open(file, *args, **kwargs)
    if isinstance(file, (str, os.PathLike)) \
            and os.path.basename(os.fspath(file)) == 'RELEASE-VERSION':
        return _path_open(pathlib.Path(file))
    return _real_open(file, *args, **kwargs)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True

    # --- shims for two version clashes of this sandbox's environment -------
    if '_functools' not in sys.modules:
        try:
            import _functools  # noqa: F401 (CPython has it)
        except ImportError:
            import functools
            mod = types.ModuleType('_functools')
            mod.reduce = functools.reduce
            mod.partial = functools.partial
            sys.modules['_functools'] = mod
    sys.path.insert(0, STUBS)
    import warnings
    warnings.simplefilter('ignore')
    os.urandom = _entropy
    import functools
    import threading
    functools.RLock = SimRLock

    _time_mod.time = _time
    _time_mod.time_ns = _time_ns
    _time_mod.gmtime = _gmtime
    _time_mod.localtime = _localtime
    _time_mod.mktime = _mktime
    _time_mod.strftime = _strftime
    _time_mod.asctime = _asctime
    _time_mod.ctime = _ctime
    _time_mod.sleep = _sleep
    _time_mod.monotonic = _time
    _time_mod.perf_counter = _time
    _time_mod.process_time = _time
    _time_mod.monotonic_ns = _time_ns
    _time_mod.perf_counter_ns = _time_ns

    # third-party imports happen with the seams in place, but before the
    # datetime class is swapped (none of them keeps time)
    import eth_utils
    import toolz
    tz = types.ModuleType('eth_utils.toolz')
    tz.__dict__.update(
        {k: v for k, v in toolz.__dict__.items() if not k.startswith('__')})
    sys.modules['eth_utils.toolz'] = tz
    del eth_utils
    import bitcoin  # noqa: F401
    import cbor  # noqa: F401
    import coincurve  # noqa: F401
    import coincurve.utils
    import eth_account  # noqa: F401
    import eth_account.messages  # noqa: F401
    import pyelliptic  # noqa: F401
    import rlp  # noqa: F401
    import semantic_version  # noqa: F401
    import Crypto.Hash.keccak  # noqa: F401
    import random
    import secrets  # noqa: F401
    import uuid  # noqa: F401
    import logging  # noqa: F401
    import urllib.request  # noqa: F401
    try:
        import ethereum.utils  # noqa: F401
        import factory.fuzzy
        import factory.random
        import faker.generator
        factory.Faker('pyint').generate({})
        faker.Faker()
    except ImportError:
        pass
    for mod in list(sys.modules.values()):
        # whoever did `from os import urandom` before or after us
        for name in ('urandom', '_urandom'):
            if getattr(mod, name, None) is real_urandom:
                setattr(mod, name, _entropy)
    coincurve.utils.urandom = _entropy
    random._urandom = _entropy

    threading.Lock = SimLock
    threading.RLock = SimRLock
    _dt_mod.datetime = SimDatetime
    pathlib.Path.open = _path_open
    import builtins
    builtins.open = _builtin_open


def reseed(seed):
    """Entropy and PRNG for one step, from one integer."""
    SEAM.entropy.reseed(seed)
    _random_mod.seed(seed ^ 0x5EED)
    if 'faker' in sys.modules:       # what the factories draw from
        sys.modules['faker.generator'].random.seed(seed)
        sys.modules['factory.random'].reseed_random(seed)
