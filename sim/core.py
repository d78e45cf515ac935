"""The simulated world: one clock, one event queue, nodes, a network.

A run is a pure function of (code of /repo, plan).  A plan is JSON: a list of
node configurations and a list of steps.  Every choice - who sends what and
when, each delivery and its delay, every fault and where it strikes - was
drawn from one PRNG when the plan was made and is written in it, so that a
plan is the replay file and steps can be dropped to minimise it.
"""
import collections
import hashlib
import heapq
import logging
import random

from . import build
from . import proc
from . import ref
from . import seams

US = 1_000_000
MINUTE = 60 * US
HOUR = 3600 * US


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, key, detail=''):
        super().__init__('%s: %s' % (key, detail))
        self.key = key
        self.detail = str(detail)[:2000]


class HarnessError(Exception):
    pass


class Hang(BaseException):
    """the real-time watchdog of an episode fired"""


class _SimHandler(logging.Handler):
    """A log sink that formats what it gets, as deployments with verbose logs
    do.  Like the real ones it survives records that do not format."""

    def emit(self, record):
        try:
            record.getMessage()
            if record.exc_info:
                logging.Formatter().formatException(record.exc_info)
        except Exception:  # pylint: disable=broad-except
            pass


_handler = _SimHandler()


def set_debug(on):
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(_handler if on else logging.NullHandler())
    root.setLevel(logging.DEBUG if on else logging.CRITICAL)
    logging.raiseExceptions = False


class Node:
    """A machine: survives crashes of its process; has a disk and keys."""

    def __init__(self, world, index, cfg):
        self.world = world
        self.index = index
        self.cfg = cfg
        self.name = cfg.get('name', 'n%d' % index)
        self.key = ref.Key(cfg.get('key', self.name))
        self.disk = {}
        self.memory = {}
        self.p = None
        self.boots = 0
        self.jumped = 0          # accumulated clock jumps
        self.version = cfg.get('version', '2.15.0')
        self.start()

    def start(self, version=None):
        if version is not None:
            self.version = version
        self.boots += 1
        self.p = proc.Process(
            self.name, self.version, self.cfg.get('offset', 0) + self.jumped,
            self.cfg.get('tz', 0), self.cfg.get('drift', 0),
            lambda: self.world.t, self.cfg.get('dst'))
        self.memory = {}

    def crash(self):
        self.p = None
        self.memory = {}

    @property
    def up(self):
        return self.p is not None

    def jump(self, us):
        self.jumped += us
        if self.p is not None:
            self.p.offset_us += us

    def clock_us(self):
        w = self.world.t
        return seams.EPOCH_US + w + self.cfg.get('offset', 0) + self.jumped \
            + w * self.cfg.get('drift', 0) // 1_000_000

    def now(self):
        return self.clock_us() // US


class World:
    def __init__(self, plan):
        self.plan = plan
        self.cfg = plan.get('cfg', {})
        self.t = 0
        self._heap = []
        self._idx = 0
        self._log = hashlib.sha256()
        self.trace = None            # list of lines when wanted
        self.events = 0
        self.checks = 0
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.sample = []
        self.down_links = set()
        self.nodes = []
        set_debug(self.cfg.get('debug', False))
        seams.SEAM.on_sleep = self._slept
        seams.reseed(plan.get('seed', 0) & 0xffffffff)
        era = self.cfg.get('era', 0)
        self.base = (seams.EPOCH_US + era) // US
        for i, c in enumerate(plan.get('nodes', [])):
            if era:
                c = dict(c, offset=c.get('offset', 0) + era)
            self.nodes.append(Node(self, i, c))

    # --- record ------------------------------------------------------------

    def log(self, *what):
        line = '%d %s' % (self.t, ' '.join(str(x) for x in what))
        self._log.update(line.encode('utf-8', 'backslashreplace') + b'\n')
        self.events += 1
        if self.trace is not None:
            self.trace.append(line)
        if len(self.sample) < 40:
            self.sample.append(line[:160])

    def digest(self):
        return self._log.hexdigest()

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def check(self, ok, key, detail=''):
        self.checks += 1
        if not ok:
            raise Violation(key, detail() if callable(detail) else detail)

    def _slept(self, us):
        # code under test sleeping stalls its node: simulated time passes
        self.t += max(0, us)
        self.fault('sleep')

    # --- events ------------------------------------------------------------

    def at(self, t, fn, *args):
        self._idx += 1
        heapq.heappush(self._heap, (max(t, self.t), self._idx, fn, args))

    def after(self, dt, fn, *args):
        self.at(self.t + dt, fn, *args)

    def run(self, handlers, max_events=20000):
        """handlers: {op: fn(step)}; generic fault steps are built in"""
        generic = {'crash': self._crash, 'restart': self._restart,
                   'jump': self._jump, 'cut': self._cut, 'heal': self._heal,
                   'tz': self._tz}
        for step in self.plan['steps']:
            fn = handlers.get(step['op']) or generic[step['op']]
            self.at(step.get('t', 0), self._step, fn, step)
        n = 0
        while self._heap:
            n += 1
            if n > max_events:
                raise HarnessError('too many events')
            t, _, fn, args = heapq.heappop(self._heap)
            self.t = max(self.t, t)
            fn(*args)

    def _step(self, fn, step):
        if 'seed' in step:
            seams.reseed(step['seed'])
        fn(step)

    # --- generic faults ----------------------------------------------------

    def _crash(self, s):
        node = self.nodes[s['n'] % len(self.nodes)]
        if node.up:
            node.crash()
            self.fault('crash')
            self.log('crash', node.name)

    def _restart(self, s):
        node = self.nodes[s['n'] % len(self.nodes)]
        node.crash()
        node.start(s.get('version'))
        self.fault('restart')
        self.log('restart', node.name, node.version)

    def _jump(self, s):
        node = self.nodes[s['n'] % len(self.nodes)]
        node.jump(s['us'])
        self.fault('clock_jump_back' if s['us'] < 0 else 'clock_jump_forward')
        self.log('jump', node.name, s['us'])

    def _tz(self, s):
        node = self.nodes[s['n'] % len(self.nodes)]
        node.cfg = dict(node.cfg, tz=s['us'])
        if 'dst' in s:
            node.cfg['dst'] = s['dst']
        if node.up:
            node.p.tz_us = s['us']
            node.p.dst = node.cfg.get('dst')
        self.fault('tz_change')
        self.log('tz', node.name, s['us'])

    def _cut(self, s):
        for a, b in s['links']:
            self.down_links.add((a, b))
        self.fault('partition')
        self.log('cut', s['links'])

    def _heal(self, s):
        self.down_links.clear()
        self.log('heal')

    # --- network -----------------------------------------------------------

    def transmit(self, a, b, data, net, deliver, *args):
        """Send bytes; net is the planned fate: a list of deliveries, each a
        delay or {'d': delay, 'f': [mutation, ...]}"""
        if not net:
            self.fault('lost')
        if len(net) > 1:
            self.fault('duplicated', len(net) - 1)
        for one in net:
            d, muts = (one, ()) if isinstance(one, int) \
                else (one['d'], one.get('f', ()))
            payload = data
            for m in muts:
                payload = mutate(payload, m)
                self.fault('net_' + m[0])
            if d > 5 * US:
                self.fault('delayed')
            self.after(d, self._deliver, a, b, payload, payload != data,
                       deliver, args)

    def _deliver(self, a, b, payload, damaged, deliver, args):
        if (a, b) in self.down_links:
            self.fault('partition_drop')
            self.log('cutoff', a, b)
            return
        if not self.nodes[b].up:
            self.fault('receiver_down')
            self.log('down', b)
            return
        deliver(self.nodes[b], payload, damaged, *args)


def mutate(data, m):
    kind = m[0]
    if not data:
        return data
    if kind == 'flip':
        out = bytearray(data)
        out[m[1] % len(out)] ^= (m[2] % 255) + 1
        return bytes(out)
    if kind == 'bit':
        out = bytearray(data)
        pos = m[1] % (8 * len(out))
        out[pos // 8] ^= 1 << (pos % 8)
        return bytes(out)
    if kind == 'trunc':
        return data[:m[1] % (len(data) + 1)]
    if kind == 'extend':
        return data + bytes((m[2] + i * 7) & 255 for i in range(m[1] % 64))
    if kind == 'cutmid':
        a = m[1] % len(data)
        return data[:a] + data[a + 1 + m[2] % 64:]
    if kind == 'zero':
        a = m[1] % len(data)
        n = 1 + m[2] % 64
        return data[:a] + bytes(min(n, len(data) - a)) + data[a + n:]
    if kind == 'swap':
        a, b = sorted((m[1] % len(data), m[2] % len(data)))
        out = bytearray(data)
        out[a], out[b] = out[b], out[a]
        return bytes(out)
    if kind == 'dupblock':
        a = m[1] % len(data)
        n = 1 + m[2] % 32
        return data[:a + n] + data[a:a + n] + data[a + n:]
    raise HarnessError('mutation %r' % (m,))


MUTATIONS = ('flip', 'bit', 'trunc', 'extend', 'cutmid', 'zero', 'swap',
             'dupblock')


# --- plan helpers ----------------------------------------------------------

def rmutation(r, kinds=MUTATIONS):
    # damage is biased to the header, the signature and the ends
    k = r.choice(kinds)
    pos = r.choice([r.randrange(11), r.randrange(76), r.randrange(1 << 16),
                    r.randrange(1 << 16), -1 - r.randrange(40) + (1 << 20)])
    return [k, pos, r.randrange(1 << 16)]


def rdelay(r):
    k = r.random()
    if k < 0.6:
        return r.randrange(2 * US)
    if k < 0.9:
        return r.randrange(90 * US)
    return r.randrange(4 * MINUTE)


def rnet(r, faulty=0.0, lose=0.08, dup=0.25, delay=rdelay):
    """the fate of one packet"""
    if r.random() < lose:
        return []
    out = []
    for _ in range(1 + (r.random() < dup) + (r.random() < dup / 4)):
        d = delay(r)
        if r.random() < faulty:
            out.append({'d': d, 'f': [rmutation(r) for _ in range(
                r.choice([1, 1, 2]))]})
        else:
            out.append(d)
    return out


ZONES = [0, 3600, -5 * 3600, 19800, 12 * 3600, -12 * 3600, 14 * 3600]


def rnodes(r, n, skew=60 * US, versions=None, **extra):
    out = []
    for i in range(n):
        c = {'name': 'n%d' % i, 'key': 'k%d' % r.randrange(1000)}
        if r.random() < 0.7:
            c['offset'] = r.randrange(-skew, skew + 1)
        if r.random() < 0.3:
            c['drift'] = r.randrange(-200, 201)
        if r.random() < 0.5:
            c['tz'] = r.choice(ZONES) * US
        if versions:
            c['version'] = r.choice(versions)
        c.update(extra)
        out.append(c)
    keys = set()
    for i, c in enumerate(out):      # keys of different nodes differ
        while c['key'] in keys:
            c['key'] += 'x'
        keys.add(c['key'])
    return out


def rseed(r):
    return r.getrandbits(48)


# when a world starts: mostly 2020, else around turns of the calendar and of
# the widths of counters
ERAS = [1293840000 - 30, 1341100800 - 20, 1456704000 - 40, 2 ** 31 - 90,
        2 ** 31 - 90, 2 ** 32 - 90, 2 ** 32 - 90, 4102444800 - 30,
        7289654400, 10 ** 10 - 60, 32503680000 - 50, 2 ** 33, 2 ** 34]


def rcfg(r, p_debug=0.2, era=True):
    cfg = {'debug': True} if r.random() < p_debug else {}
    if era and r.random() < 0.15:
        cfg['era'] = r.choice(ERAS) * US - seams.EPOCH_US
    return cfg


def crashes(r, nodes, horizon, n, versions=None):
    """crash and restart steps"""
    out = []
    for _ in range(n):
        node = r.randrange(nodes)
        t = r.randrange(horizon)
        down = r.choice([0, r.randrange(10 * US), r.randrange(2 * MINUTE)])
        if down:
            out.append({'op': 'crash', 'n': node, 't': t})
        s = {'op': 'restart', 'n': node, 't': t + down}
        if versions:
            s['version'] = r.choice(versions)
        out.append(s)
    return out


def ordered(steps):
    """stable order by time, for readable plans"""
    return sorted(steps, key=lambda s: s.get('t', 0))


# --- calls into the code under test ----------------------------------------

def msg_error(node):
    return node.p.mod('exceptions').MessageError


def honest(world, what, fn, *args, **kw):
    """an operation that must not fail"""
    try:
        return fn(*args, **kw)
    except (Violation, HarnessError):
        raise
    except Exception as e:  # pylint: disable=broad-except
        raise Violation('%s failed: %s' % (what, type(e).__name__),
                        '%s %s' % (describe(e), where(e)))


def describe(e):
    out = '%s: %s' % (type(e).__name__, str(e)[:300])
    c = e.__cause__
    while c is not None:
        out += ' <- %s: %s' % (type(c).__name__, str(c)[:200])
        c = c.__cause__
    return out


def where(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if 'golem_messages' in f.filename:
            return '(%s:%d)' % (f.filename.split('golem_messages/', 1)[-1],
                                f.lineno)
    return ''


def load(world, node, data, priv=None, pub=None, check_time=False):
    """-> (message, None) or (None, error of the message family)"""
    with node.p:
        err = msg_error(node)
        try:
            return node.p.gm.load(data, priv, pub, check_time), None
        except err as e:
            world.log('refused', node.name, type(e).__name__)
            world.probe('refused ' + type(e).__name__)
            return None, e
        except Exception as e:  # pylint: disable=broad-except
            raise Violation(
                'load raised %s' % type(e).__name__,
                '%s %s on %d bytes %s' % (describe(e), where(e), len(data),
                                          data[:100].hex()))


def load_ok(world, node, data, priv=None, pub=None, check_time=False,
            what='genuine message'):
    msg, err = load(world, node, data, priv, pub, check_time)
    if err is not None:
        raise Violation('%s refused: %s' % (what, type(err).__name__),
                        '%s %s' % (describe(err), where(err)))
    return msg


def same(world, got, want, key, ctx=''):
    world.check(got == want, key,
                lambda: '%s %s' % (ctx() if callable(ctx) else ctx,
                                   build.diff(want, got)))


def short(data):
    return hashlib.sha256(data).hexdigest()[:12]


def gen(seed, now, r=None, **kw):
    return build.Gen(r or random.Random(seed), now=now, **kw)
