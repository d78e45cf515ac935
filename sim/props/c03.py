"""A network adversary with keys of its own against signed traffic."""
import random
import struct

from .. import build as B
from .. import core
from .. import ref
from .c01 import make

EPISODES = 1300
RULE = ('honest nodes send signed messages of all types; an adversary on the '
        'network, holding keys of its own and everything recorded, damages, '
        'truncates, splices, relabels, re-times, re-signs, strips and replays '
        'them in any order with genuine traffic; whatever loads under a '
        'sender\'s key must be something that sender signed.')

SIGNED = [c for c, s in B.SCHEMA.items() if s.sign]
ATTACKS = ('damage', 'damage', 'damage', 'splice_sig', 'splice_payload',
           'header_type', 'header_ts', 'header_enc', 'resign', 'strip',
           'version', 'reencrypt', 'other_sender', 'reorder_payload',
           'edit_payload', 'edit_payload', 'sig_tweak', 'raw_sig', 'recode',
           'mirror', 'near_key')


def plan(r, index):
    n = r.choice([2, 3])
    steps = []
    k = 0
    for k in range(r.choice([3, 4, 5])):
        cls = SIGNED[(index * 3 + k) % len(SIGNED)] if k < 3 \
            else r.choice(SIGNED)
        steps.append({'op': 'send', 't': r.randrange(2 * core.MINUTE),
                      'n': r.randrange(n), 'to': r.randrange(n), 'cls': cls,
                      'seed': core.rseed(r), 'omit': r.choice([.25, .6, 1]),
                      'enc': r.random() < 0.5,
                      'net': core.rnet(r, lose=0.02)})
    for _ in range(r.choice([8, 12, 20])):
        steps.append({'op': 'attack', 't': r.randrange(4 * core.MINUTE),
                      'to': r.randrange(n), 'seed': core.rseed(r),
                      'kind': r.choice(ATTACKS), 'm': core.rmutation(r)})
    steps += core.crashes(r, n, 4 * core.MINUTE, r.choice([0, 0, 1]))
    return {'cfg': core.rcfg(r), 'nodes': core.rnodes(
        r, n, versions=['2.15.0', '2.15.7']), 'steps': core.ordered(steps)}


def run(w, plan):
    recorded = []       # (data, sender node, spec, dest node)
    signed = {}         # sender pub -> list of canonical signed contents
    evil = ref.Key('adversary')
    genuine_frames = set()      # (sender pub, what its signature covers)

    def content(c):
        # type, timestamp, fields; the signature bytes are malleable
        return (c[1], c[2], c[3], c[5])

    def do_send(s):
        node, to = w.nodes[s['n']], w.nodes[s['to']]
        if not node.up:
            return
        obj, spec = make(w, node, s)
        with node.p:
            data = core.honest(w, 'dump of ' + spec.cls, node.p.gm.dump, obj,
                               node.key.priv,
                               to.key.pub if s['enc'] else None)
        spec.signer = node.key
        signed.setdefault(node.key.pub, []).append(
            (content(B.want_msg(spec)), spec.version))
        recorded.append((data, node, spec, to))
        f = plain(recorded[-1])
        genuine_frames.add((node.key.pub, f.type_, f.ts, f.payload,
                            f.version))
        w.log('send', node.name, to.name, spec.cls, core.short(data))
        w.transmit(s['n'], s['to'], data, s['net'], genuine, spec)

    def genuine(node, data, _damaged, spec):
        msg = core.load_ok(w, node, data, node.key.priv, spec.signer.pub)
        with node.p:
            core.same(w, B.canon(msg), B.want_msg(spec),
                      'genuine %s differs' % spec.cls)
        w.log('genuine', node.name, spec.cls)

    def plain(rec):
        data, _n, _spec, to = rec
        f = ref.Frame(data)
        if f.enc:
            # the adversary may own the destination, so it may know it
            f.payload = ref.ecies_decrypt(f.payload, to.key.priv)
            f.enc = False
        return f

    def sealed(f, to, r):
        if r.random() < 0.5 and B.SCHEMA.get(B.BY_NUMBER.get(f.type_)) \
                and f.payload is not None:
            f.payload = ref.ecies_encrypt(
                f.payload, to.key.pub, ref.Key('x%d' % r.getrandbits(40)).priv,
                r.getrandbits(128).to_bytes(16, 'big'))
            f.enc = True
        return f.bytes()

    def do_attack(s):
        to = w.nodes[s['to']]
        if not recorded or not to.up:
            return
        r = random.Random(s['seed'])
        rec = recorded[r.randrange(len(recorded))]
        if s['kind'] != 'damage' or r.random() < 0.7:
            to = rec[3] if rec[3].up else to
        other = recorded[r.randrange(len(recorded))]
        victim = rec[1]
        kind = s['kind']
        if kind == 'damage':
            data = core.mutate(rec[0], s['m'])
        elif kind == 'sig_tweak':
            data = bytearray(rec[0])
            data[11 + r.randrange(65)] ^= 1 << r.randrange(8)
            data = bytes(data)
        elif kind == 'header_enc':
            data = bytearray(rec[0])
            data[10] ^= 1
            data = bytes(data)
        else:
            f, g = plain(rec), plain(other)
            if kind == 'splice_sig':
                f.sig = g.sig
            elif kind == 'splice_payload':
                f.payload = g.payload
            elif kind == 'header_type':
                f.type_ = r.choice([g.type_, r.choice(list(B.BY_NUMBER))])
                if f.type_ == 0 and f.version is None:
                    f.version = to.version
                elif f.type_ != 0:
                    f.version = None
            elif kind == 'header_ts':
                f.ts += r.choice([1, -1, 60, 256, -256, r.randrange(1, 4000),
                                  (g.ts - f.ts) or 1])
            elif kind == 'resign':
                f.sig = evil.sign(ref.short_hash(f.type_, f.ts, f.payload,
                                                 f.version))
            elif kind == 'strip':
                f.sig = r.choice([ref.NO_SIG, b'\xff' * 65, b'\0' * 64 +
                                  b'\x01', bytes(65)])
            elif kind == 'version':
                if f.version is None:
                    f.version = None
                    f.ts += 1
                else:
                    f.version = r.choice(['2.15.1', '2.15.9', '2.15.0+x',
                                          f.version + '0'])
            elif kind in ('reencrypt', 'near_key'):
                pass
            elif kind == 'other_sender':
                victim = r.choice(w.nodes)
            elif kind == 'reorder_payload':
                try:
                    v = ref.uncbor(f.payload)
                    r.shuffle(v)
                    f.payload = ref.cbor(v)
                except ref.CborError:
                    pass
            elif kind == 'recode':
                f.payload = recode(f.payload, r)
            elif kind == 'mirror':
                # the key whose public point is the sender's, reflected
                f.sig = ref.mirrored(victim.key).sign(ref.short_hash(
                    f.type_, f.ts, f.payload, f.version))
            elif kind == 'edit_payload':
                f.payload = edit(f.payload, r)
            elif kind == 'raw_sig':
                # signed by the right key over the wrong thing
                f.sig = g.sig
                f.ts = g.ts
                f.type_ = g.type_
                f.version = g.version
            data = sealed(f, to, r)
        w.fault('attack_' + kind)
        if data == rec[0]:
            w.fault('replayed')
        pub = victim.key.pub
        if kind == 'near_key':
            # whoever holds a key much like the sender's signed nothing
            pub = bytearray(pub)
            pub[r.choice([0, 31, 32, 63, 63, r.randrange(64)])] ^= \
                1 << r.randrange(8)
            pub = r.choice([bytes(pub), ref.mirrored(victim.key).pub])
        msg, _err = core.load(w, to, data, to.key.priv, pub)
        if msg is None:
            w.checks += 1
            return
        with to.p:
            c = content(B.canon(msg))
            version = getattr(msg, '_version', None)
        if B.SCHEMA[c[0]].sign is False:
            w.probe('unsigned type loaded')
            return
        ok = any(c == k for k, v in signed.get(pub, []))
        w.check(ok, 'accepted a %s its sender never signed' % c[0],
                lambda: 'attack %s by %s' % (kind, victim.name))
        if c[0] == 'Hello' and version is not None:
            w.check(any(c == k and version == v for k, v in signed[pub]),
                    'accepted a greeting with another version', version)
        # judged by the reference: the very bytes are the sender's
        try:
            f = ref.Frame(data)
            if f.enc:
                f.payload = ref.ecies_decrypt(f.payload, to.key.priv)
        except (ref.CborError, ValueError, struct.error) as e:
            w.check(False, 'accepted an unreadable packet as signed', repr(e))
            return
        w.check((pub, f.type_, f.ts, f.payload, f.version) in genuine_frames,
                'accepted a %s other than it was signed' % c[0], kind)
        w.check(ref.verify(pub, f.sig, ref.short_hash(
            f.type_, f.ts, f.payload, f.version)),
            'accepted a %s without a valid signature' % c[0], kind)
        w.probe('equivalent copy accepted')
        w.log('accepted', to.name, c[0])
        # and what was loaded verifies under no other key
        with to.p:
            try:
                msg.verify_signature(evil.pub)
                bad = True
            except core.msg_error(to):
                bad = False
            w.check(not bad, 'signature verifies under a foreign key', c[0])

    def edit(payload, r):
        try:
            v = ref.uncbor(payload)
        except ref.CborError:
            return payload
        from .c04 import tweak
        return ref.cbor(tweak(v, r))

    def recode(payload, r):
        """other bytes that mean the same"""
        try:
            v = ref.uncbor(payload)
        except ref.CborError:
            return payload
        if not isinstance(v, list) or not v:
            return payload + b'\0'
        k = r.randrange(6)
        if k == 0:
            none = [x for x in v if x[1] is None]
            if none:
                v.remove(r.choice(none))
        elif k == 1:
            v.insert(r.randrange(len(v) + 1), ['unknown', r.choice(
                [None, 1, 'x'])])
        elif k == 2:
            v.insert(0, v[r.randrange(len(v))])
        elif k == 3:
            return b'\x98' + bytes([len(v)]) + ref.cbor(v)[1:] \
                if len(v) < 24 else payload
        elif k == 4:
            return b'\x9f' + b''.join(ref.cbor(x) for x in v) + b'\xff'
        else:
            return payload + b'\0'
        return ref.cbor(v)

    w.run({'send': do_send, 'attack': do_attack})
