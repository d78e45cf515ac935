"""Ids under stalling and jumping clocks and stuck random generators."""
import random
import uuid

from .. import core
from .. import seams

EPISODES = 3000
RULE = ('processes generate and derive ids in bursts while their clocks '
        'stall, drift and jump both ways, their random generators repeat '
        'themselves and they restart; all ids of a life are compared with '
        'all earlier ones, and every id is tried against right, wrong and '
        'nearly right seeds.')


def seed_bytes(r):
    k = r.randrange(6)
    n = r.choice([6, 20, 32, 64, 64])
    raw = bytes(r.getrandbits(8) for _ in range(n))
    if k == 0:
        raw = b'\0' * r.randrange(1, 7) + raw[7:] + raw[:7]
    elif k == 2:
        z = r.randrange(1, 6)
        raw = raw[:6 - z] + b'\0' * z + raw[6:]
    elif k == 1:
        raw = b'\xff' * 6 + raw[6:]
    return raw[:max(n, 6)]


def plan(r, index):
    n = r.choice([1, 2])
    seeds = [seed_bytes(r).hex() for _ in range(r.choice([1, 2, 3]))]
    steps, t = [], 0
    for _ in range(r.choice([8, 15, 25])):
        t += r.choice([0, 0, 1, 1, 10, r.randrange(core.US),
                       r.randrange(core.MINUTE)])
        steps.append({'op': 'ids', 't': t, 'n': r.randrange(n),
                      'count': r.choice([1, 2, 3, 5, 20]),
                      'what': r.choice(['seed', 'hex', 'derive', 'derive',
                                        'mix']),
                      'from': r.randrange(len(seeds)),
                      'seed': core.rseed(r),
                      'stuck': r.random() < 0.6})
        k = r.random()
        if k < 0.2:
            steps.append({'op': 'jump', 't': t, 'n': r.randrange(n),
                          'us': r.choice([-1, -1, 1]) * r.choice([
                              1, 10, 1000, core.US,
                              r.randrange(core.HOUR)])})
        elif k < 0.3:
            steps.append({'op': 'restart', 't': t, 'n': r.randrange(n)})
    return {'cfg': {}, 'nodes': core.rnodes(r, n, versions=['2.15.0']),
            'seeds': seeds, 'steps': steps}


def run(w, plan):
    seeds = [bytes.fromhex(x) for x in plan['seeds']]
    lives = {}      # (node, boot) -> {id: clock reading}

    def note(node, id_, now):
        key = (node.index, node.boots)
        mine = lives.setdefault(key, {})
        w.check(id_ not in mine, 'an id is repeated',
                lambda: '%s made at %r and %r' % (id_, mine[id_], now))
        for (n, b), ids in lives.items():
            if n == node.index and b != node.boots and id_ in ids:
                # 5 ms cover the ids of a stalled clock
                moved = now > max(ids.values()) + 5000
                w.check(not moved, 'an id of an earlier life is repeated',
                        id_)
        mine[id_] = now

    def make(node, r, what, seed):
        ids = node.p.mod('idgenerator')
        have = list(node.memory.get('ids', []))
        if what == 'mix':
            what = r.choice(['seed', 'hex', 'derive'])
        if what == 'derive' and have:
            src, src_seed = r.choice(have[-20:])
            id_ = core.honest(w, 'deriving an id',
                              ids.generate_new_id_from_id, src)
            return id_, src_seed
        if what == 'hex':
            return core.honest(w, 'generating an id',
                               ids.generate_id_from_hex, seed.hex()), seed
        return core.honest(w, 'generating an id', ids.generate_id,
                           seed), seed

    def do_ids(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        made = []
        with node.p:
            for _ in range(s['count']):
                if s['stuck']:
                    seams._random_mod.seed(plan.get('seed', 0))
                    w.fault('stuck_random')
                if r.random() < .2 and s['count'] > 5:
                    w.t += 1
                now = node.clock_us()
                id_, seed = make(node, r, s['what'], seeds[s['from']])
                w.check(isinstance(id_, str), 'an id is not text', repr(id_))
                note(node, id_, now)
                node.memory.setdefault('ids', []).append((id_, seed))
                made.append((id_, seed))
        for id_, seed in (made if len(made) < 4 else made[:2] + made[-2:]):
            recognise(node, r, id_, seed)
        if len(made) > 1:
            w.fault('stalled_clock')
        w.log('ids', node.name, len(made), made[-1][0])

    def recognise(node, r, id_, seed):
        with node.p:
            ids = node.p.mod('idgenerator')
            try:
                u = uuid.UUID(id_)
            except ValueError:
                u = None
            w.check(u is not None and str(u) == id_, 'an id is not a UUID',
                    id_)

            def known(i, s):
                a = core.honest(w, 'check_id_seed', ids.check_id_seed, i, s)
                b = core.honest(w, 'check_id_hex_seed',
                                ids.check_id_hex_seed, i, s.hex())
                w.check(bool(a) == bool(b),
                        'check by bytes and by hex disagree', i)
                return bool(a)

            w.check(known(id_, seed), 'an id is not recognised for its seed',
                    lambda: '%s %s' % (id_, seed.hex()))
            if len(seed) > 6:
                same = seed[:6] + bytes(r.getrandbits(8)
                                        for _ in range(len(seed) - 6))
                w.check(known(id_, same),
                        'an id depends on more than six bytes', id_)
            near = bytearray(seed)
            bit = r.randrange(48)
            near[bit // 8] ^= 1 << bit % 8
            w.check(not known(id_, bytes(near)),
                    'an id is recognised for a foreign seed',
                    lambda: '%s %s' % (id_, bytes(near).hex()))
            # the same bytes, elsewhere
            z = r.randrange(1, 6)
            for near in (seed[z:6] + seed[:z], seed[:6][::-1],
                         bytes(z) + seed[:6 - z], seed[z:6] + bytes(z)):
                w.check(known(id_, near + seed[6:]) == (near == seed[:6]),
                        'an id is recognised for shifted bytes',
                        lambda: '%s %s' % (id_, near.hex()))
            for other in seeds:
                w.check(known(id_, other) == (other[:6] == seed[:6]),
                        'an id is attributed to the wrong seed', id_)
            bad = r.choice(['', 'x', id_[:-1], id_ + '0', 'g' + id_[1:],
                            seed.hex(), seed.hex()[:31], 'not-an-id',
                            seed[:6].hex(), '-' * 36, id_ + id_])
            w.check(not known(bad, seed), 'a malformed id is recognised', bad)

    w.run({'ids': do_ids})
