"""Encrypted traffic, damage, wrong readers and failing entropy."""
import random

from .. import build as B
from .. import core
from .. import ref
from .. import seams

EPISODES = 1300
RULE = ('nodes encrypt payloads and messages for each other over a damaging, '
        'delaying and duplicating network, with restarts, clock jumps, key '
        'turnover, several key managers and failing entropy; every copy must '
        'open for its reader alone and only unmodified, and all envelopes '
        'ever sent are compared for repeated key and vector pairs.')


def plan(r, index):
    n = r.choice([2, 3, 4])
    steps = []
    for _ in range(r.choice([6, 10, 16])):
        a = r.randrange(n)
        s = {'op': 'enc', 't': r.randrange(3 * core.HOUR), 'n': a,
             'to': r.randrange(n), 'seed': core.rseed(r),
             'size': r.choice([0, 1, 15, 16, 17, 32, 64, 100, 1000,
                               r.randrange(3000), r.randrange(3000),
                               r.choice([5000, 65535, 70000])]),
             'mac': r.choice([0, 0, 0, 1, 16, 40]),
             'mgr': r.choice([0, 0, 0, 1, 2]),
             'net': core.rnet(r, faulty=0.45, lose=0.03, dup=.6)}
        if r.random() < 0.25:
            s['entropy'] = r.choice([1, 1, 2, 3])
            s['once'] = r.random() < 0.5
        steps.append(s)
        if r.random() < 0.4:      # right after, to the same reader
            steps.append(dict(s, t=s['t'] + r.randrange(core.US),
                              seed=core.rseed(r), entropy=None,
                              net=core.rnet(r, faulty=0.3, lose=0)))
        if r.random() < 0.3:      # the same content again, at one instant
            for _ in range(r.choice([1, 1, 2, 4])):
                steps.append(dict(
                    s, size=r.choice([s['size'], s['size'],
                                      max(0, s['size'] - 1),
                                      s['size'] + 16]),
                    seed=core.rseed(r), data=s['seed'],
                    entropy=None, net=core.rnet(r, faulty=0.3, lose=0)))
    for _ in range(r.choice([2, 3])):
        s = {'op': 'msg', 't': r.randrange(3 * core.HOUR),
             'n': r.randrange(n), 'to': r.randrange(n),
             'seed': core.rseed(r),
             'entropy': r.choice([None, None, 1, 2]),
             'once': r.random() < 0.5,
             'net': core.rnet(r, faulty=0.4, lose=0.03, dup=.6)}
        steps.append(s)
        if r.random() < 0.4:      # sent twice at one instant
            steps.append(dict(s, seed=core.rseed(r), data=s['seed'],
                              entropy=None, net=core.rnet(r, faulty=0.3, lose=0)))
    steps += core.crashes(r, n, 3 * core.HOUR, r.choice([0, 1, 2]))
    for _ in range(r.choice([0, 1, 2])):
        steps.append({'op': 'jump', 't': r.randrange(3 * core.HOUR),
                      'n': r.randrange(n), 'us': r.choice([-1, 1])
                      * r.randrange(3 * core.HOUR)})
    return {'cfg': core.rcfg(r), 'nodes': core.rnodes(r, n),
            'steps': core.ordered(steps)}


def ecies(node, k):
    """several ECIES instances per process; 0 is the one dump uses"""
    c = node.p.mod('cryptography')
    if k == 0:
        return node.p.mod('shortcuts').ecies
    pool = node.memory.setdefault('ecies', {})
    if k not in pool:
        pool[k] = c.ECIES() if k == 1 else c.ECIES(c.ECIESKeyManager(
            timeout=60))
    return pool[k]


def run(w, plan):
    envelopes = {}
    ephemeral = {}

    def blob(seed, size):
        r = random.Random(seed)
        return bytes(r.getrandbits(8) for _ in range(size))

    def seen(data, who):
        """key and vector pairs are never repeated"""
        pair = data[:65 + 16]
        w.check(pair not in envelopes, 'ephemeral key and vector repeated',
                '%s, earlier %s' % (who, envelopes.get(pair)))
        envelopes[pair] = who

    def guarded(node, what, s, fn, *args, **kw):
        """run with a planned entropy failure; None when it hit"""
        ent = seams.SEAM.entropy
        ent.fail_at = s.get('entropy')
        ent.once = bool(s.get('once'))
        ent.calls = 0
        ent.failed = 0
        before = ent.total
        try:
            out = fn(*args, **kw)
        except Exception as e:  # pylint: disable=broad-except
            if not ent.failed:
                raise core.Violation('%s failed: %s'
                                     % (what, type(e).__name__),
                                     core.describe(e))
            w.fault('entropy_failure_once' if ent.once else 'entropy_failure')
            w.log(what, 'without entropy', type(e).__name__)
            w.checks += 1
            out = None
        else:
            w.check(not ent.failed or ent.once,
                    '%s went on without entropy' % what)
        finally:
            ent.fail_at = None
            ent.once = False
        node.memory['entropy'] = node.memory.get('entropy', 0) \
            + ent.total - before
        return out

    def backed(node, data, what):
        """as much entropy was drawn as went into what was emitted: a new key
        whenever the key is a new one, and a vector where drawing one failed
        at first"""
        keys = node.memory.setdefault('ephemeral keys', set())
        need = 16 if seams.SEAM.entropy.failed else 0
        if data[:65] not in keys:
            keys.add(data[:65])
            need += 32
        node.memory['entropy'] -= need
        w.check(node.memory['entropy'] >= 0,
                '%s made without that much entropy' % what, node.name)
        owner = ephemeral.setdefault(data[:65], (node.name, node.boots))
        w.check(owner == (node.name, node.boots),
                'two processes use the same ephemeral key', node.name)

    def do_enc(s):
        node, to = w.nodes[s['n']], w.nodes[s['to']]
        if not node.up:
            return
        seed = s.get('data', s['seed'])
        plain, mac = blob(seed, s['size']), blob(~seed, s['mac'])
        for attempt in (0, 1):
            with node.p:
                data = guarded(node, 'encryption', s, ecies(node, s['mgr']).encrypt,
                               plain, to.key.pub, mac)
            if data is not None:
                break
            s = dict(s, entropy=None)     # and again when entropy is back
        w.check(len(data) == ref.OVERHEAD + len(plain), 'envelope size',
                len(data))
        if len(plain) >= 16:
            w.check(plain not in data and plain[:16] not in data
                    and plain[-16:] not in data,
                    'plaintext visible in the ciphertext')
        seen(data, node.name)
        backed(node, data, 'envelope')
        w.log('enc', node.name, to.name, s['mgr'], core.short(data))
        w.transmit(s['n'], s['to'], data, s['net'], arrive, data, plain, mac,
                   s)

    def dec(node, key, data, mac, mgr):
        with node.p:
            try:
                return ecies(node, mgr).decrypt(data, key.priv, mac), None
            except Exception as e:  # pylint: disable=broad-except
                return None, e

    def arrive(node, data, damaged, orig, plain, mac, s):
        r = random.Random(s['seed'] + 1)
        order = ['right', 'wrong', 'mac', 'mirror']
        r.shuffle(order)
        for o in order:
            mgr = r.choice([0, 1, 2])
            if o == 'right':
                got, e = dec(node, node.key, data, mac, mgr)
                if damaged:
                    w.check(e is not None, 'modified envelope opened',
                            lambda: '%d bytes, plaintext %s' % (
                                len(data), got == plain))
                    w.log('refused', node.name)
                else:
                    w.check(e is None, 'envelope does not open', lambda:
                            core.describe(e))
                    w.check(got == plain, 'envelope opens to something else')
                    w.log('opened', node.name)
            elif o == 'wrong':
                got, e = dec(node, ref.Key('stranger%d' % r.randrange(5)),
                             data, mac, mgr)
                w.check(e is not None, 'envelope opened for a stranger',
                        got == plain)
            elif o == 'mirror':
                # the reflected reader, or the reflected ephemeral key
                if r.random() < 0.5:
                    got, e = dec(node, ref.mirrored(node.key), data, mac, mgr)
                else:
                    got, e = dec(node, node.key, ref.mirror_point(data), mac,
                                 mgr)
                w.check(e is not None, 'envelope opened with a reflected key',
                        got == plain)
            elif o == 'mac':
                other = mac + b'\0' if r.random() < 0.5 or not mac \
                    else mac[:-1] + bytes([mac[-1] ^ 1])
                got, e = dec(node, node.key, data, other, mgr)
                w.check(e is not None, 'envelope opened with other MAC data',
                        got == plain)

    def do_msg(s):
        node, to = w.nodes[s['n']], w.nodes[s['to']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        g = B.Gen(r, now=node.now())
        spec = B.Msg('RandVal', {'rand_val': blob(s.get('data', s['seed']), 64)})
        spec.ts = node.now()
        del g
        for _ in (0, 1):
            with node.p:
                obj = B.realize_msg(node.p, spec)
                data = guarded(node, 'dump', s, node.p.gm.dump, obj,
                               node.key.priv, to.key.pub)
            if data is not None:
                break
            s = dict(s, entropy=None)
        spec.signer = node.key
        f = ref.Frame(data)
        w.check(f.enc, 'message to a reader not encrypted')
        w.check(blob(s.get('data', s['seed']), 64)[:16] not in data
                and b'rand_val' not in data,
                'message content visible in the packet')
        seen(f.payload, node.name)
        backed(node, f.payload, 'message')
        w.log('msg', node.name, to.name, core.short(data))
        w.transmit(s['n'], s['to'], data, s['net'], got_msg, data, spec)

    def got_msg(node, data, damaged, orig, spec):
        msg, e = core.load(w, node, data, node.key.priv, spec.signer.pub)
        if damaged:
            # the header is not part of the envelope
            w.check(msg is None or not data[10] or data[76:] == orig[76:],
                    'message with a modified envelope accepted', len(data))
        else:
            w.check(msg is not None, 'message does not open',
                    lambda: core.describe(e))
            with node.p:
                core.same(w, B.canon(msg), B.want_msg(spec),
                          'message opens to something else')
        other = core.ref.Key('stranger')
        msg, _ = core.load(w, node, data, other.priv, None)
        w.check(msg is None or not ref.Frame(data).enc,
                'message opened for a stranger')
        w.log('msg read', node.name, damaged)

    w.run({'enc': do_enc, 'msg': do_msg})
