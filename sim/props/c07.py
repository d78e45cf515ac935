"""Life times of ephemeral keys under all kinds of clocks and traffic."""
import random

from .. import build as B
from .. import core
from .. import ref
from .c06 import ecies

EPISODES = 1600
RULE = ('nodes with several key managers send to few or many recipients at '
        'intervals around the managers\' timeouts while clocks jump in both '
        'directions and processes restart; no ephemeral key may be used '
        'longer after its first use than the timeout, by the clock of the '
        'node, and every envelope must open at any later time.')

TIMEOUTS = (3600, 3600, 60, 7200, 1)


def plan(r, index):
    n = r.choice([1, 1, 2])
    recips = r.choice([1, 1, 2, 3])
    unit = r.choice([core.US, 30 * core.US, core.MINUTE, 20 * core.MINUTE,
                     30 * core.MINUTE])
    steps, t = [], 0
    dense = r.choice([0.5, 0.8, 0.95])
    mgrs = r.sample(range(5), r.choice([1, 2, 3, 5]))
    for _ in range(r.choice([12, 25, 40])):
        t += r.choice([0, unit, unit // 2, r.randrange(unit * 2)]
                      if r.random() < dense else
                      [59 * core.MINUTE, 61 * core.MINUTE, core.HOUR,
                       core.HOUR - 1, core.HOUR + 1, core.MINUTE])
        steps.append({'op': 'send', 't': t, 'n': r.randrange(n),
                      'to': r.randrange(recips), 'mgr': r.choice(mgrs),
                      'seed': core.rseed(r), 'via': r.random() < 0.25})
        if r.random() < 0.06:
            steps.append({'op': 'jump', 't': t, 'n': r.randrange(n),
                          'us': r.choice([-1, -1, 1]) * r.choice([
                              core.US, core.HOUR, r.randrange(core.HOUR),
                              r.randrange(48 * core.HOUR)])})
        if r.random() < 0.08:
            # a young manager sees its clock set back by a little, meets
            # somebody new, and is asked again when that key is due
            m, u, a = r.randrange(5), r.randrange(n), r.randrange(core.US)
            back = r.choice([1, 5, 20, 59, 60, 61, 90, 150]) * core.US
            t += 3 * core.HOUR
            send = {'op': 'send', 'n': u, 'mgr': m, 'via': False}
            steps += [
                {'op': 'restart', 't': t, 'n': u},
                dict(send, t=t + 1, to=0, seed=core.rseed(r)),
                {'op': 'jump', 't': t + 2, 'n': u, 'us': -back - a},
                dict(send, t=t + 3, to=7, seed=core.rseed(r))]
            late = TIMEOUTS[m] * core.US + r.choice(
                [1000, core.US // 2, core.US, back // 2, back - core.US,
                 r.randrange(back)])
            t += 3 + late
            steps.append(dict(send, t=t, to=7, seed=core.rseed(r)))
        if r.random() < 0.03:
            steps.append({'op': 'restart', 't': t, 'n': r.randrange(n)})
        if index % 40 == 7 and r.random() < 0.05:
            steps.append({'op': 'crowd', 't': t, 'n': r.randrange(n),
                          'mgr': r.choice(mgrs), 'seed': core.rseed(r),
                          'count': r.choice([200, 1030])})
    steps.append({'op': 'reopen', 't': t + core.HOUR, 'seed': core.rseed(r)})
    return {'cfg': {}, 'nodes': core.rnodes(r, n, versions=['2.15.0']),
            'steps': steps}


def run(w, plan):
    first = {}          # (node, boot, manager, ephemeral) -> clock reading
    sent = []

    def manager(node, k):
        pool = node.memory.setdefault('mgr', {})
        if k == 0:
            return node.p.mod('shortcuts').ecies
        if k not in pool:
            c = node.p.mod('cryptography')
            pool[k] = c.ECIES(c.ECIESKeyManager(timeout=TIMEOUTS[k]))
        return pool[k]

    def used(node, k, eph, what):
        now = node.clock_us()
        slot = (node.index, node.boots, k, eph)
        born = first.setdefault(slot, now)
        age = now - born
        w.check(age <= TIMEOUTS[k] * core.US + 1000,
                'ephemeral key outlived its timeout',
                '%s: %.6f s old, timeout %d s' % (what, age / 1e6,
                                                  TIMEOUTS[k]))
        w.probe('key reused' if born != now else 'new key')

    def recipient(i):
        return ref.Key('recipient%d' % i)

    def do_send(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        key = recipient(s['to'])
        r = random.Random(s['seed'])
        k = s['mgr']
        with node.p:
            if s['via'] and k == 0:
                spec = B.Msg('RandVal', {'rand_val': r.random()})
                spec.ts = node.now()
                obj = B.realize_msg(node.p, spec)
                data = core.honest(w, 'dump', node.p.gm.dump, obj,
                                   node.key.priv, key.pub)[76:]
                plain = spec.payload()
            else:
                plain = bytes(r.getrandbits(8) for _ in range(20))
                data = core.honest(w, 'encryption', manager(node, k).encrypt,
                                   plain, key.pub)
        used(node, k, data[:65], 'to %d' % s['to'])
        sent.append((data, key, plain))
        w.log('send', node.name, s['to'], k, core.short(data))

    def do_crowd(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        with node.p:
            m = manager(node, s['mgr'])
            for i in range(s['count']):
                data = core.honest(w, 'encryption', m.encrypt, b'x' * 16,
                                   ref.Key('crowd%d' % i).pub)
                used(node, s['mgr'], data[:65], 'crowd')
        w.probe('crowd')
        w.log('crowd', node.name, s['count'])

    def do_reopen(s):
        node = w.nodes[0]
        if not node.up:
            node.start()
        for data, key, plain in sent[-12:]:
            with node.p:
                got = core.honest(w, 'decryption', ecies(node, 1).decrypt,
                                  data, key.priv)
            w.check(got == plain, 'earlier envelope opens to something else')
        w.log('reopened', len(sent))

    w.run({'send': do_send, 'crowd': do_crowd, 'reopen': do_reopen})
