"""Byzantine peers with valid keys and a damaging network."""
import random

from .. import build as B
from .. import core
from .. import ref
from .. import seams
from .c01 import deal_for

EPISODES = 1300
RULE = ('a malicious peer with valid keys sends correctly signed and '
        'encrypted messages of all types whose contents were mutated '
        'structurally, plus random, truncated and damaged packets, '
        'interleaved with genuine traffic on real nodes with and without '
        'debug logs; only errors of the message family may leave load and '
        'genuine traffic must load exactly.')


def plan(r, index):
    n = r.choice([1, 1, 2])
    steps = []
    for k in range(r.choice([12, 18, 24])):
        kind = r.choice(['mutant'] * 7 + ['raw', 'cut', 'damage', 'spoil',
                                          'spoil'])
        cls = B.ALL[(index * 9 + k) % len(B.ALL)] if k < 9 \
            else r.choice(B.ALL)
        steps.append({'op': 'evil', 't': r.randrange(5 * core.MINUTE),
                      'n': r.randrange(n), 'kind': kind, 'cls': cls,
                      'seed': core.rseed(r), 'depth': r.choice([1, 1, 1, 2,
                                                                3, 6]),
                      'enc': r.random() < 0.25, 'm': core.rmutation(r),
                      'omit': r.choice([0, .25, .25, 1]),
                      'check_time': r.random() < 0.2})
    for k in range(r.choice([1, 2, 3])):
        # a refused list leaves nothing behind for the next one
        s = {'op': 'evil', 't': r.randrange(5 * core.MINUTE),
             'n': r.randrange(n), 'kind': 'tail', 'cls': r.choice(LISTS),
             'seed': core.rseed(r), 'depth': 1, 'enc': r.random() < 0.25,
             'm': core.rmutation(r), 'omit': 0, 'check_time': False}
        steps += [s, {'op': 'good', 't': s['t'] + r.randrange(core.MINUTE),
                      'n': s['n'], 'cls': s['cls'], 'seed': core.rseed(r),
                      'enc': r.random() < 0.4, 'omit': r.choice([0, .25, 1]),
                      'net': core.rnet(r, lose=0)}]
    evil = [s['cls'] for s in steps]
    for k in range(r.choice([2, 3, 5])):
        steps.append({'op': 'good', 't': r.randrange(6 * core.MINUTE),
                      'n': r.randrange(n),
                      'cls': r.choice(r.choice([evil, B.ALL])),
                      'seed': core.rseed(r),
                      'enc': r.random() < 0.4, 'omit': .25,
                      'net': core.rnet(r, lose=0)})
    steps += core.crashes(r, n, 5 * core.MINUTE, r.choice([0, 0, 0, 1]))
    return {'cfg': core.rcfg(r, 0.35), 'nodes': core.rnodes(
        r, n, versions=['2.15.0']), 'steps': core.ordered(steps)}


ABSURD = [None, True, False, 0, 1, -1, 2 ** 16, 2 ** 31, 2 ** 64, -2 ** 70,
          2 ** 400, 2 ** 1100, -2 ** 1100, 0.0, -1.5, float('inf'), float('nan'), 1e308, '', 'x',
          'a' * 129, 'a' * 100000, '\x00', '\ud7ff\U0010ffff', b'', b'\0',
          b'\xff' * 65, b'\0' * 20, b'\0' * 32, b'\xff\xfe', [], [None],
          [[]], [[[]]], {}, {'a': 1}, {1: 2}, {None: None}, {'': {}},
          [1, 2], [1, 2, 3], ['a', 'b'], [False, None], [True, None],
          [True, []], [False, []], [False, [[1, 2, False], b'', []]],
          [True, [[[1, 2, False], b'', []]]], [None, {}], '127.0.0.1',
          '0x' + '00' * 20, '00' * 64, '04' + '11' * 64, 'zz' * 64,
          '0.1.2', 'Usage', 'VerificationNegative', 'upload', 'requestor',
          '1' * 36, '00000000-0000-0000-0000-000000000000', 65535, 65536,
          1580000000, 10 ** 12, 10 ** 30, [28, b'\1' * 32, b'\2' * 32],
          [27, b'\0' * 32, b'\0' * 32], [256, b'', b''], [0, 1, 2],
          ['28', 'r', 's'], {'task_id': 1}, {'task_id': None},
          {'subtask_id': 'x', 'task_id': 'y'}]

# messages carrying lists of structures
LISTS = ['Peers', 'Tasks', 'Tasks', 'RemoveTaskContainer', 'ForcePayment',
         'FileTransferToken']

NUMBERS = [x for x in ABSURD if isinstance(x, (int, float))]


def tail(v, r):
    """the last element of a list of structures spoiled, or one appended"""
    some = [i for i, kv in enumerate(v) if isinstance(kv[1], list)
            and len(kv[1]) > 0 and kv[0] in (
                'peers', 'tasks', 'remove_tasks', 'files',
                'subtask_results_accepted_list')]
    if not some:
        return tweak(v, r)
    p = (r.choice(some), 1)
    x = list(at(v, p))
    if x[0] is True and isinstance(x[-1], list) and x[-1]:
        p += (1,)               # a list of messages
        x = list(x[1])
    if len(x) > 1 and r.random() < .5:
        x[-1] = tweak(x[-1], r)
    else:
        x.append(r.choice(ABSURD))
    return put(v, p, x)


def paths(v, here=()):
    """every position in a structure"""
    out = [here]
    if isinstance(v, list):
        for i, x in enumerate(v):
            out += paths(x, here + (i,))
    elif isinstance(v, dict):
        for k, x in v.items():
            out += paths(x, here + (k,))
    return out


def at(v, path):
    for k in path:
        v = v[k]
    return v


def put(v, path, x):
    """copy of v with x at path"""
    if not path:
        return x
    if isinstance(v, list):
        out = list(v)
    else:
        out = dict(v)
    out[path[0]] = put(v[path[0]], path[1:], x)
    return out


def tweak(v, r):
    """one structural mutation somewhere"""
    ps = paths(v)
    # shallow positions are rare among all positions: give them weight
    depth = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 12, 99])
    some = [p for p in ps if len(p) <= depth] or ps
    p = r.choice(some)
    x = at(v, p)
    k = r.randrange(10)
    if k < 2 and isinstance(x, (int, float)):
        return put(v, p, r.choice(NUMBERS))
    if k < 4:
        return put(v, p, r.choice(ABSURD))
    if k == 4:
        q = r.choice(ps)
        return put(v, p, at(v, q))
    if isinstance(x, list) and x:
        i = r.randrange(len(x))
        if k == 5:
            return put(v, p, x[:i] + x[i + 1:])
        if k == 6:
            return put(v, p, x[:i] + [x[i]] + x[i:])
        if k == 7:
            y = list(x)
            r.shuffle(y)
            return put(v, p, y)
        return put(v, p, x + [r.choice(ABSURD)])
    if isinstance(x, dict) and x:
        key = r.choice(list(x))
        if k == 5:
            return put(v, p, {a: b for a, b in x.items() if a != key})
        if k == 6:
            return put(v, p, dict(x, **{'unknown_key': 1}))
        if k == 7:
            y = {(a if a != key else r.choice([None, 0, b'x', 'sig', 'header',
                                               '__class__', 'slots'])): b
                 for a, b in x.items()}
            return put(v, p, y)
        return put(v, p, list(x.items()) and [[a, b] for a, b in x.items()])
    if isinstance(x, bool) or x is None:
        return put(v, p, r.choice([None, True, False, 0, 1, 'True']))
    if isinstance(x, int):
        return put(v, p, r.choice([-x, x + 1, x - 1, str(x), float(x % 2**50),
                                   x * 10 ** 9, [x], None, -1, 0]))
    if isinstance(x, str):
        return put(v, p, r.choice([x.encode(), x[:-1], x + 'z', x.upper(),
                                   [x], None, x * 3, '', x[::-1]]))
    if isinstance(x, bytes):
        return put(v, p, r.choice([x[:-1], x + b'\0', x.hex(), [x], None, b'',
                                   bytes(len(x)), b'\xff' * len(x)]))
    return put(v, p, r.choice(ABSURD))


EVIL = ref.Key('byzantine peer')


def raw_bytes(r):
    k = r.randrange(6)
    if k == 0:
        return bytes(r.getrandbits(8) for _ in range(r.choice(
            [0, 1, 10, 11, 75, 76, 77, 78, 108, 200])))
    n = r.choice(list(B.BY_NUMBER) + [4, 65535])
    body = {
        1: lambda: bytes(r.getrandbits(8) for _ in range(r.randrange(200))),
        2: lambda: ref.cbor(r.choice(ABSURD)),
        3: lambda: b'\x81' * r.choice([50, 500, 3000]) + b'\xf6',
        4: lambda: bytes([r.choice([0x9b, 0x5b, 0xbb, 0x7b, 0xdb, 0x9f, 0x5f,
                                    0xbf, 0xff, 0xc2, 0xc3, 0xd9])]) +
        bytes(r.getrandbits(8) for _ in range(r.randrange(1, 20))),
        5: lambda: ref.cbor([[f, r.choice(ABSURD)] for f in (
            B.SCHEMA[B.BY_NUMBER[n]].names if n in B.BY_NUMBER else 'ab')]),
    }[k]()
    ts = r.choice([1580000000, 0, 1262300400, 32851008000, 2 ** 63,
                   2 ** 64 - 1, 1600000000])
    version = r.choice(['2.15.0', '', 'x', '2.15.0', '\xff', '2.15.' + '9'
                        * 26])
    return ref.frame(n, ts, r.random() < 0.1,
                     EVIL.sign(ref.short_hash(n, ts, body)), body,
                     version if n == 0 else None)


def run(w, plan):
    seen = []               # genuine packets, for whoever listens

    def spec_of(s, key):
        r = random.Random(s['seed'])
        now = w.base + w.t // core.US
        g = B.Gen(r, now=now, omit=s['omit'], big=0.003)
        spec = g.message(s['cls'], deal_for(w, r, key))
        if s['cls'] == 'Hello':
            spec.version = '2.15.1'
        return spec, r

    def packet(spec, payload, to, enc, r):
        sch = spec.schema
        sig = EVIL.sign(ref.short_hash(sch.number, spec.ts, payload,
                                       spec.version))
        enc = enc and sch.encrypt
        if enc:
            payload = ref.ecies_encrypt(
                payload, to.key.pub, ref.Key('v%d' % r.choice(
                    [0, 0, 1, r.getrandbits(40)])).priv,
                r.getrandbits(128).to_bytes(16, 'big'))
        return ref.frame(sch.number, spec.ts, enc, sig, payload,
                         spec.version)

    def do_evil(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        spec, r = spec_of(s, EVIL)
        kind = s['kind']
        if kind == 'raw':
            data = raw_bytes(r)
        elif kind == 'spoil':       # a packet of a good peer, damaged
            if not seen:
                return
            data = core.mutate(r.choice(seen), s['m'])
        else:
            value = spec.slots()
            if kind == 'mutant':
                for _ in range(s['depth']):
                    value = tweak(value, r)
            elif kind == 'tail':
                value = tail(value, r)
            try:
                payload = ref.cbor(value)
            except (TypeError, UnicodeError):
                return
            data = packet(spec, payload, node, s['enc'], r)
            if kind == 'cut':
                data = data[:r.randrange(len(data))]
            elif kind == 'damage':
                data = core.mutate(data, s['m'])
        w.fault('evil_' + kind)
        msg, _err = core.load(w, node, data,
                              node.key.priv if r.random() < 0.9 else None,
                              EVIL.pub if r.random() < 0.8 else None,
                              s['check_time'])
        w.checks += 1
        w.log('evil', node.name, kind, spec.cls,
              'accepted' if msg is not None else 'refused')
        if msg is not None:
            w.probe('accepted')

    def do_good(s):
        node = w.nodes[s['n']]
        spec, r = spec_of(s, ref.Key('good'))
        spec.signer = EVIL if spec.schema.sign else None
        data = packet(spec, spec.payload(), node, s['enc'], r)
        seen.append(data)
        w.transmit(s['n'], s['n'], data, s['net'], good, spec)

    def good(node, data, _damaged, spec):
        msg = core.load_ok(w, node, data, node.key.priv,
                           EVIL.pub if spec.signer else None)
        with node.p:
            core.same(w, B.canon(msg), B.want_msg(
                spec, sig=ref.Frame(data).sig),
                'genuine %s differs after hostile traffic' % spec.cls)
        w.log('good', node.name, spec.cls)

    w.run({'evil': do_evil, 'good': do_good})
