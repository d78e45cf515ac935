"""Masks through histories, unlucky draws and failing randomness."""
import hashlib
import random

from .. import build as B
from .. import core
from .. import ref
from .. import seams

EPISODES = 1500
RULE = ('requestors generate, tighten and relax masks under planned random '
        'outcomes and failures of the random source, and gossip them in task '
        'headers to nodes that restart and pass them on; sizes, bits kept, '
        'and who matches are compared with a set model at every node.')


def plan(r, index):
    steps = []
    t = 0
    n_masks = r.choice([1, 2, 3])
    for k in range(n_masks):
        steps.append({'op': 'generate', 't': t, 'n': 0, 'id': k,
                      'bits': bits(r), 'draw': draw(r), 'seed': core.rseed(r),
                      'fail': fail(r), 'how': r.choice(
                          ['generate', 'generate', 'task', 'empty', 'bits'])})
        t += r.randrange(core.MINUTE)
    for _ in range(r.choice([8, 16, 24])):
        t += r.randrange(core.MINUTE)
        x = r.random()
        i = r.randrange(n_masks)
        if x < .35:
            steps.append({'op': 'increase', 't': t, 'id': i, 'bits': bits(r),
                          'draw': draw(r), 'fail': fail(r),
                          'seed': core.rseed(r)})
        elif x < .65:
            steps.append({'op': 'decrease', 't': t, 'id': i, 'bits': bits(r),
                          'draw': draw(r), 'fail': fail(r),
                          'seed': core.rseed(r)})
        elif x < .9:
            steps.append({'op': 'gossip', 't': t, 'id': i,
                          'seed': core.rseed(r),
                          'net': [core.rnet(r) for _ in range(3)],
                          'on': [core.rnet(r) for _ in range(3)]})
        else:
            steps.append({'op': 'match', 't': t, 'id': i,
                          'seed': core.rseed(r)})
    for _ in range(3):
        steps.append({'op': 'task', 't': t, 'seed': core.rseed(r),
                      'draw': draw(r)})
    if r.random() < .12:
        steps.append({'op': 'cover', 't': t, 'seed': core.rseed(r),
                      'bits': r.choice([1, 2, 3, 8, 32, 32, 100]),
                      'how': r.choice(['generate', 'task', 'increase',
                                       'decrease'])})
    steps += core.crashes(r, 4, t + 1, r.choice([0, 0, 1]))
    return {'cfg': core.rcfg(r), 'nodes': core.rnodes(
        r, 4, versions=['2.15.0']), 'steps': core.ordered(steps)}


def bits(r):
    return r.choice([0, 1, 1, 2, 3, 5, 8, 21, 64, 100, 128, 255, 256, 257,
                     300, 10 ** 6, -1, -3, -300, r.randrange(257),
                     r.randrange(257)])


def draw(r):
    """how the random source behaves"""
    return r.choice([None, None, None, ['walk', r.randrange(1 << 16),
                                        r.choice([1, 3, 7, 255, 101])],
                     ['walk', 0, 1], ['down', 0, 1],
                     ['stutter', r.randrange(256), r.choice([2, 5])]])


def fail(r):
    return r.choice([None, None, None, None, 1, 1, 2, r.randrange(1, 40)])


class Source:
    """stands in for the draws of random.Random while it is active"""

    def __init__(self, how, fail_at, w):
        self.how, self.fail_at, self.w = how, fail_at, w
        self.n = 0
        self.failed = False

    def tick(self):
        self.n += 1
        if self.fail_at is not None and self.n >= self.fail_at:
            self.failed = True
            raise OSError(5, 'simulated failure of the random source')

    def below(self, rnd, n):
        self.tick()
        if self.how is None:
            return self.real(rnd, n)
        kind, a, b = self.how
        if kind == 'walk':
            return (a + self.n * b + self.n // 7) % n
        if kind == 'down':
            return (n - 1 - self.n) % n
        return (a + self.n // b) % n        # the same again and again

    def __enter__(self):
        self.saved = {}
        R = random.Random
        self.real = R._randbelow
        R._randbelow = lambda rnd, n: self.below(rnd, n)
        if self.fail_at is not None:
            for name in ('random', 'getrandbits', 'sample', 'choice',
                         'choices', 'shuffle', 'randrange', 'randint',
                         'uniform'):
                fn = getattr(random, name)
                self.saved[name] = fn
                setattr(random, name, self.wrap(fn, name))
            seams.SEAM.entropy.fail_at = self.fail_at
            seams.SEAM.entropy.calls = 0
            seams.SEAM.entropy.failed = 0
        return self

    def wrap(self, fn, name):
        def call(*args, **kw):
            if name in ('random', 'getrandbits', 'uniform'):
                self.tick()
            return fn(*args, **kw)
        return call

    def __exit__(self, *exc):
        random.Random._randbelow = self.real
        for name, fn in self.saved.items():
            setattr(random, name, fn)
        if seams.SEAM.entropy.failed:
            self.failed = True
        seams.SEAM.entropy.fail_at = None
        if self.failed:
            self.w.fault('random_source_failure')
        elif self.how:
            self.w.fault('unlucky_draws')


def ones(raw):
    v = int.from_bytes(raw, 'big')
    return {i for i in range(256) if v >> i & 1}


def crowd(raw, addr):
    v = int.from_bytes(raw, 'big')
    return int.from_bytes(hashlib.sha256(addr).digest(), 'big') & v == 0


def run(w, plan):
    def M(node):
        return node.p.mod('datastructures.masking').Mask

    def attempt(s, fn, *args):
        """-> (result, None) or (None, exception); planned randomness"""
        with Source(s.get('draw'), s.get('fail'), w) as src:
            try:
                out = fn(*args), None
            except Exception as e:  # pylint: disable=broad-except
                out = None, e
        if src.failed:
            w.check(out[1] is not None,
                    'an operation went on without randomness')
        return out + (src.failed,)

    def look(mask):
        """bytes of a mask; all views of it agree"""
        raw = bytes(mask.to_bytes())
        w.check(len(raw) == 32, 'a mask is not 32 bytes', raw.hex())
        got = ones(raw)
        w.check(mask.to_bits() == got and mask.num_bits == len(got)
                and mask.to_int() == int.from_bytes(raw, 'big')
                and mask.to_bin() == format(mask.to_int(), '0256b'),
                'views of a mask differ', raw.hex())
        return raw

    def generate(s):
        node = w.nodes[0]
        if not node.up:
            node.start()
        masks = node.memory.setdefault('masks', {})
        with node.p:
            if s['how'] == 'empty':
                m = core.honest(w, 'an empty mask', M(node))
                w.check(not ones(look(m)), 'a new mask is not empty')
            elif s['how'] == 'bits':
                r = random.Random(s['seed'])
                b = set(r.sample(range(256), r.randrange(257)))
                m = core.honest(w, 'a mask from bits', M(node).from_bits,
                                set(b))
                w.check(ones(look(m)) == b, 'a mask from bits differs')
            else:
                m, err, failed = attempt(s, M(node).generate, s['bits'])
                if s['bits'] < 0 or failed:
                    w.check(m is None, 'a mask out of nothing', s['bits'])
                    return
                if err is not None:
                    raise core.Violation('generate failed',
                                         core.describe(err))
                w.check(len(ones(look(m))) == min(s['bits'], 256),
                        'a generated mask has another number of bits',
                        lambda: '%d of %d' % (m.num_bits, s['bits']))
            masks[s['id']] = m
            w.log('generate', look(m).hex())

    def step(s, up):
        node = w.nodes[0]
        masks = node.memory.get('masks', {})
        if not node.up or s['id'] not in masks:
            return
        m = masks[s['id']]
        k = s['bits']
        with node.p:
            before = look(m)
            addr = [('n%d' % i).encode() for i in range(12)]
            saw = [m.matches(a) for a in addr]
            _out, err, failed = attempt(s, m.increase if up else m.decrease,
                                        k)
            after = look(m)
            a, b = ones(before), ones(after)
            ctx = lambda: '%s by %d: %d -> %d bits, %s' % (
                'increase' if up else 'decrease', k, len(a), len(b),
                'source failed' if failed else core.describe(err)
                if err else 'ok')
            if k < 0 or failed or err is not None:
                w.check(after == before, 'a refused change changed the mask',
                        ctx)
                w.check(k < 0 or failed, 'a mask change failed', ctx)
            elif up:
                w.check(a <= b, 'increasing dropped bits', ctx)
                w.check(len(b) == min(256, len(a) + k),
                        'increased by another number of bits', ctx)
            else:
                w.check(b <= a, 'decreasing set bits', ctx)
                w.check(len(b) == max(0, len(a) - k),
                        'decreased by another number of bits', ctx)
            for x, was in zip(addr, saw):
                now = m.matches(x)
                w.check(now == crowd(after, x), 'a wrong node matches', ctx)
                w.check(not (was and not now) or up,
                        'relaxing shut a node out', ctx)
            w.log('step', up, k, after.hex())

    def match(s):
        node = w.nodes[0]
        masks = node.memory.get('masks', {})
        if not node.up or s['id'] not in masks:
            return
        m = masks[s['id']]
        r = random.Random(s['seed'])
        with node.p:
            raw = look(m)
            for _ in range(20):
                a = bytes(r.getrandbits(8) for _ in range(r.choice(
                    [0, 1, 20, 32, 64, 65])))
                w.check(m.matches(a) is crowd(raw, a), 'a wrong node matches',
                        lambda: '%s %s' % (raw.hex(), a.hex()))
            w.check(look(m) == raw, 'matching changed a mask')

    def gossip(s):
        node = w.nodes[0]
        masks = node.memory.get('masks', {})
        if not node.up or s['id'] not in masks:
            return
        r = random.Random(s['seed'])
        m = masks[s['id']]
        with node.p:
            raw = look(m)
            g = B.Gen(r, now=node.now())
            v = g.header(node.key, signed=False)
            kw = {k: B.realize(node.p, x) for k, x in v.given.items()}
            kw['mask'] = m.to_bytes()
            h = core.honest(w, 'a task header', node.p.mod(
                'datastructures.tasks').TaskHeader, **kw)
            h.sign(node.key.priv)
            msg = core.honest(w, 'an offer', node.p.mod('message.p2p').Tasks,
                              tasks=[h])
            data = core.honest(w, 'dump', node.p.gm.dump, msg, node.key.priv,
                               None)
        w.log('gossip', raw.hex())
        for i, net in enumerate(s['net']):
            w.transmit(0, i + 1, data, net, heard, raw, s['on'], node.key.pub)

    def heard(node, data, _damaged, raw, on, pub):
        msg = core.load_ok(w, node, data, None, None)
        with node.p:
            m = msg.tasks[0].mask
            w.check(look(m) == raw, 'a mask changed on its way',
                    lambda: '%s %s' % (look(m).hex(), raw.hex()))
            w.check(msg.tasks[0].verify(pub) is True,
                    'a header with a mask does not verify')
            for i in range(12):
                a = ('n%d' % i).encode()
                w.check(m.matches(a) is crowd(raw, a),
                        'nodes disagree who matches')
            me = m.matches(node.key.pub)
            w.check(me is crowd(raw, node.key.pub),
                    'a node is wrong about itself')
            w.probe('matched' if me else 'masked out')
            if not on:
                return
            again = core.honest(w, 'dump', node.p.gm.dump, node.p.mod(
                'message.p2p').Tasks(tasks=msg.tasks), node.key.priv, None)
        for i, net in enumerate(on):
            w.transmit(node.index, i + 1, again, net, heard, raw, None, pub)

    def task(s):
        node = w.nodes[0]
        if not node.up:
            return
        r = random.Random(s['seed'])
        p = r.choice([0, 1, 2, 3, 10, 1000, 2 ** r.randrange(30),
                      2 ** r.randrange(30) + 1, 3 * 2 ** r.randrange(20),
                      r.randrange(10 ** 6), r.randrange(10 ** 9)])
        d = r.choice([1, 1, 2, 3, 10, 1 + r.randrange(10 ** 4),
                      max(p, 1), max(1, p // 2), p // 2 + 1, p + 1,
                      max(1, p // 4), p // 4 + 1, 2 * p + 1,
                      max(1, p >> r.randrange(30))])
        if r.random() < .1:
            p = -r.randrange(5)
        want = 0
        while p >= 1 and p > d << want:
            want += 1
        with node.p:
            m, err, _f = attempt(s, M(node).get_mask_for_task, d, p)
            if err is not None:
                raise core.Violation('get_mask_for_task failed',
                                     core.describe(err))
            got = len(ones(look(m)))
            w.check(got == min(want, 256), 'a task mask halves the crowd '
                    'another number of times', lambda:
                    '%d for %d of %d, expected %d' % (got, d, p, want))

    def cover(s):
        """no bit is out of reach"""
        node = w.nodes[0]
        if not node.up:
            return
        hit = set()
        k = s['bits']
        with node.p:
            for _ in range(7200 // k):
                if s['how'] == 'generate':
                    hit |= ones(M(node).generate(k).to_bytes())
                elif s['how'] == 'task':
                    hit |= ones(M(node).get_mask_for_task(
                        1, 1 << k).to_bytes())
                elif s['how'] == 'increase':
                    m = M(node)()
                    m.increase(k)
                    hit |= ones(m.to_bytes())
                else:
                    m = M(node)(b'\xff' * 32)
                    m.decrease(k)
                    hit |= set(range(256)) - ones(m.to_bytes())
        w.check(len(hit) == 256, 'bits are out of reach of ' + s['how'],
                lambda: '%d at a time: %s' % (k, sorted(set(range(256)) - hit)))

    w.run({'generate': generate, 'increase': lambda s: step(s, True),
           'decrease': lambda s: step(s, False), 'match': match,
           'gossip': gossip, 'task': task, 'cover': cover})
