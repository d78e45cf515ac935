"""Freshness by the receiver's clock, across clock faults and zones."""
import random

from .. import build as B
from .. import core
from .. import ref
from .. import seams
from .c01 import make

EPISODES = 2200
RULE = ('nodes with skewed, drifting and jumping clocks in different time '
        'zones exchange messages over a slow, duplicating, replaying network; '
        'deliveries are aimed at and around both edges of the freshness '
        'window and the absolute bounds, with time checking on and off.')

TTL = 600 * core.US
AHEAD = 300 * core.US
MIN_TS = 1262304000      # 2010-01-01
MAX_TS = 32819212800    # 3010-01-01


def plan(r, index):
    n = r.choice([2, 2, 3])
    steps = []
    ids = r.choice([2, 3, 4])
    for k in range(ids):
        cls = B.ALL[(index * 2 + k) % len(B.ALL)] if k < 2 \
            else r.choice(['Ping', 'Hello', 'RandVal', 'TaskToCompute'])
        t = r.randrange(10 * core.MINUTE)
        a = r.randrange(n)
        steps.append({'op': 'send', 't': t, 'n': a,
                      'to': (a + 1 + r.randrange(n - 1)) % n, 'id': k,
                      'cls': cls,
                      'seed': core.rseed(r), 'enc': r.random() < 0.3,
                      'sign': r.random() < 0.7, 'omit': r.choice([.25, .6]),
                      'wait': r.choice([0, 0, r.randrange(20 * core.MINUTE)]),
                      'check': r.random() < 0.85,
                      'net': core.rnet(r, lose=0, dup=.5, delay=slow)})
    for _ in range(r.choice([4, 6, 10])):
        edge = r.choice([TTL, TTL, -AHEAD, -AHEAD, 0, 3600 * core.US,
                         -3600 * core.US])
        off = r.choice([-1, 0, 1, -1000, 1000, -core.US, core.US + 1,
                        -core.US + 1, core.US, 2 * core.US, -2 * core.US,
                        r.randrange(-90 * core.US, 90 * core.US),
                        r.randrange(-3 * core.US, 3 * core.US)])
        steps.append({'op': 'aim', 't': r.randrange(40 * core.MINUTE),
                      'id': r.randrange(ids), 'age': edge + off,
                      'check': r.random() < 0.9})
    for _ in range(r.choice([1, 2, 3])):
        steps.append({'op': 'odd', 't': r.randrange(40 * core.MINUTE),
                      'n': r.randrange(n), 'seed': core.rseed(r),
                      'ts': r.choice([
                          0, 1, MIN_TS - 1, MIN_TS, MIN_TS + 1,
                          MIN_TS - 43200, MAX_TS - 1, MAX_TS, MAX_TS + 1,
                          MAX_TS + 86400, 2 ** 31, 2 ** 32, 2 ** 40, 2 ** 63,
                          2 ** 64 - 1, 253402300799, 253402300800,
                          r.getrandbits(64), r.getrandbits(35)]),
                      'check': r.random() < 0.5})
    for _ in range(r.choice([0, 1, 2, 3])):
        steps.append({'op': r.choice(['jump', 'jump', 'tz', 'restart']),
                      't': r.randrange(40 * core.MINUTE),
                      'n': r.randrange(n)})
        if steps[-1]['op'] == 'jump':
            steps[-1]['us'] = r.choice([-1, 1]) * r.choice([
                core.US, r.randrange(15 * core.MINUTE), core.HOUR,
                r.randrange(400 * 24 * core.HOUR)])
        elif steps[-1]['op'] == 'tz':
            steps[-1]['us'] = r.choice(core.ZONES) * core.US
    nodes = core.rnodes(r, n, skew=r.choice([
        core.US, core.MINUTE, 6 * core.MINUTE, 12 * core.MINUTE]),
        versions=['2.15.0'])
    if r.random() < 0.4:
        # summer, winter, leap day, either side of midnight
        base = r.choice([0, 183 * 86400, 34 * 86400, 34 * 86400 + 3540,
                         365 * 86400 * 10])
        for c in nodes:
            c['offset'] = c.get('offset', 0) + base * core.US
    return {'cfg': core.rcfg(r, era=False), 'nodes': nodes,
            'steps': core.ordered(steps)}


def slow(r):
    return r.choice([0, r.randrange(core.US), r.randrange(core.MINUTE),
                     r.randrange(12 * core.MINUTE), r.randrange(core.HOUR)])


def run(w, plan):
    kept = {}

    def do_send(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        before = node.clock_us() // core.US
        obj, spec = make(w, node, s)
        w.check(obj.timestamp == before == spec.ts, 'creation timestamp',
                '%s at %s' % (obj.timestamp, before))
        to = w.nodes[s['to']]

        def dump():
            if not node.up or node.memory.get('boot', node.boots) != boot:
                return
            with node.p:
                data = core.honest(
                    w, 'dump of ' + spec.cls, node.p.gm.dump, obj,
                    node.key.priv if s['sign'] else None,
                    to.key.pub if s['enc'] else None)
            if s['sign'] and spec.schema.sign:
                spec.signer = node.key
            kept[s['id']] = (data, spec, to)
            w.log('send', node.name, to.name, spec.cls, core.short(data))
            w.transmit(s['n'], s['to'], data, s['net'], arrive, spec,
                       s['check'])
        boot = node.boots
        node.memory['boot'] = boot
        if s.get('wait'):
            # queued: the time of a message is that of its creation
            w.after(s['wait'], dump)
        else:
            dump()

    def arrive(node, data, _damaged, spec, check):
        seams.reseed(7)
        receive(node, data, spec.ts, check,
                spec.signer.pub if spec.signer else None, spec)

    def receive(node, data, ts, check, pub, spec):
        now = node.clock_us()
        with node.p:
            err = core.msg_error(node)
            exc = node.p.mod('exceptions')
            try:
                msg = node.p.gm.load(data, node.key.priv, pub, check)
                got = None
            except err as e:
                msg, got = None, e
            except Exception as e:  # pylint: disable=broad-except
                raise core.Violation('load raised %s' % type(e).__name__,
                                     core.describe(e))
            old = isinstance(got, exc.MessageTooOldError)
            future = isinstance(got, exc.MessageFromFutureError)
            header = isinstance(got, exc.HeaderError)
        age = now - ts * core.US
        out = 'ok' if got is None else type(got).__name__
        w.log('recv', node.name, out, check)
        ctx = 'age %.6f s, checked %s, %s, zone %s' % (
            age / 1e6, check, core.describe(got) if got else 'accepted',
            node.cfg.get('tz', 0) // core.US)
        if not MIN_TS <= ts <= MAX_TS:
            w.check(header, 'timestamp outside 2010..3010 not refused', ctx)
            return
        if ts in (MIN_TS, MAX_TS):
            return
        if not check:
            w.check(got is None, 'refused though time checking is off', ctx)
        elif age > TTL + core.US:
            w.check(old and not future, 'too old message not refused as such',
                    ctx)
            w.probe('too old')
        elif -age > AHEAD + core.US:
            w.check(future and not old, 'future message not refused as such',
                    ctx)
            w.probe('from the future')
        elif age <= TTL and -age <= AHEAD:
            w.check(got is None, 'message inside the window refused', ctx)
            w.probe('inside')
        else:
            w.checks += 1
            w.probe('edge second')
        if msg is not None:
            w.check(msg.timestamp == ts, 'timestamp changed', ctx)

    def do_aim(s):
        """set the receiver's clock so that the age is exactly this"""
        if s['id'] not in kept:
            return
        data, spec, to = kept[s['id']]
        if not to.up:
            to.start()
        to.jump(spec.ts * core.US + s['age'] - to.clock_us())
        w.fault('clock_jump_aimed')
        receive(to, data, spec.ts, s['check'],
                spec.signer.pub if spec.signer else None, spec)

    def do_odd(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        key = ref.Key('odd peer')
        r = random.Random(s['seed'])
        ts = s['ts']
        if r.random() < 0.3:
            # bring the clock near, as a node with a lost battery has it
            us = ts * core.US + r.randrange(-2, 3) * core.US
            if 0 < us < 250_000_000_000 * core.US:
                node.jump(us - node.clock_us())
                w.fault('clock_jump_far')
        payload = ref.cbor([['rand_val', r.random()]])
        data = ref.frame(1, ts, False,
                         key.sign(ref.short_hash(1, ts, payload)), payload)
        w.fault('odd_timestamp')
        receive(node, data, ts, s['check'], key.pub, None)

    w.run({'send': do_send, 'aim': do_aim, 'odd': do_odd})
