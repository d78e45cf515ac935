"""Real nodes against a reference peer written from the wire format."""
import random

from .. import build as B
from .. import core
from .. import ref
from .. import seams
from .c01 import deal_for, make

EPISODES = 1300
RULE = ('one or two real nodes exchange signed and encrypted messages of all '
        'types with an independent reference peer in both directions over a '
        'network that delays, duplicates and reorders, with restarts; bytes '
        'sent by the real node are compared with the reference encoding and '
        'opened by the reference peer, bytes made by the reference peer must '
        'load as specified.')


def plan(r, index):
    n = r.choice([1, 2])
    steps = []
    for k in range(r.choice([4, 5, 6])):
        cls = B.ALL[(index * 4 + k) % len(B.ALL)] if k < 4 \
            else r.choice(B.ALL)
        t = r.randrange(5 * core.MINUTE)
        common = {'n': r.randrange(n), 'cls': cls, 'seed': core.rseed(r),
                  'omit': r.choice([0, .25, .25, .6, 1]),
                  'sign': r.random() < 0.85, 'enc': r.random() < 0.6,
                  'net': core.rnet(r)}
        # both directions for every type
        steps.append(dict(common, op='out', t=t, late=r.random() < 0.2))
        steps.append(dict(common, op='in', t=r.randrange(5 * core.MINUTE),
                          seed=core.rseed(r), reply=r.random() < 0.4,
                          net=core.rnet(r)))
    steps.append({'op': 'catalogue', 'n': 0,
                  't': r.randrange(5 * core.MINUTE)})
    steps += core.crashes(r, n, 8 * core.MINUTE, r.choice([0, 1, 2]))
    return {'cfg': core.rcfg(r), 'nodes': core.rnodes(
        r, n, versions=['2.15.0', '2.15.3']), 'steps': core.ordered(steps)}


PEER = ref.Key('reference peer')


def catalogue(w, node):
    """numbers, both ways, and nothing else registered"""
    with node.p:
        lib = node.p.mod('register').library
        for cls, s in B.SCHEMA.items():
            real = B.msg_class(node.p, cls)
            w.check(s.number in lib and lib[s.number] is real,
                    'message number of %s' % cls, s.number)
            w.check(lib.get_type(real) == s.number,
                    'message type of %s' % cls, s.number)


def opened(w, key, data):
    """the reference peer opens a packet -> Frame with plain payload"""
    try:
        f = ref.Frame(data)
    except Exception as e:  # pylint: disable=broad-except
        raise core.Violation('the reference peer cannot read a packet',
                             core.describe(e))
    if f.enc:
        f.payload = ref.ecies_decrypt(f.payload, key.priv)
        w.check(f.payload is not None,
                'the reference peer cannot decrypt', B.BY_NUMBER.get(f.type_))
    return f


def run(w, plan):
    def do_out(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        obj, spec = make(w, node, s)
        with node.p:
            data = core.honest(
                w, 'dump of ' + s['cls'], node.p.gm.dump, obj,
                node.key.priv if s['sign'] else None,
                PEER.pub if s['enc'] else None)
        if s['sign'] and spec.schema.sign:
            spec.signer = node.key
        w.log('out', node.name, s['cls'], core.short(data))
        w.transmit(s['n'], s['n'], data, s['net'], at_peer, spec, s)

    def at_peer(_node, data, _damaged, spec, s):
        f = opened(w, PEER, data)
        cls = spec.cls
        w.check(f.type_ == spec.schema.number, 'number on the wire of ' + cls,
                f.type_)
        w.check(f.ts == spec.ts, 'timestamp on the wire',
                '%s %s' % (f.ts, spec.ts))
        w.check(f.enc == bool(s['enc'] and spec.schema.encrypt),
                'encryption flag on the wire of ' + cls, f.enc)
        if cls == 'Hello':
            w.check(f.version == spec.version, 'version on the wire',
                    f.version)
        want = spec.payload()
        if f.payload != want:
            try:
                a, b = ref.uncbor(f.payload), ref.uncbor(want)
                detail = B.diff(B.plain(b), B.plain(a)) \
                    or 'same content, other encoding'
            except Exception as e:  # pylint: disable=broad-except
                detail = core.describe(e)
            raise core.Violation('wire content of ' + cls, detail)
        if spec.signer:
            w.check(ref.verify(spec.signer.pub, f.sig, ref.short_hash(
                f.type_, f.ts, f.payload, f.version)),
                    'the reference peer rejects the signature of ' + cls)
        else:
            w.check(f.sig == ref.NO_SIG, 'unsigned message carries a '
                    'signature: ' + cls)
        w.log('peer read', cls)

    def do_in(s):
        node = w.nodes[s['n']]
        r = random.Random(s['seed'])
        g = B.Gen(r, now=w.base + w.t // core.US,
                  omit=s['omit'])
        spec = g.message(s['cls'], deal_for(w, r, PEER))
        if s['cls'] == 'Hello':
            spec.version = '2.15.%d' % r.randrange(20)
        if s['sign'] and spec.schema.sign:
            spec.signer = PEER
        payload = spec.payload()
        sig = spec.sig() or ref.NO_SIG
        enc = bool(s['enc'] and spec.schema.encrypt)
        if enc:
            payload = ref.ecies_encrypt(
                payload, node.key.pub, ref.Key('e%d' % s['seed']).priv,
                r.getrandbits(128).to_bytes(16, 'big'))
        data = ref.frame(spec.schema.number, spec.ts, enc, sig, payload,
                         spec.version)
        w.log('in', node.name, s['cls'], core.short(data))
        w.transmit(s['n'], s['n'], data, s['net'], at_node, spec, sig, s)

    def at_node(node, data, _damaged, spec, sig, s):
        msg = core.load_ok(w, node, data, node.key.priv,
                           PEER.pub if spec.signer else None,
                           what='message of the reference peer: ' + spec.cls)
        with node.p:
            core.same(w, B.canon(msg), B.want_msg(spec, sig=sig),
                      'message of the reference peer read differently: '
                      + spec.cls)
            w.log('read', node.name, spec.cls)
            if s['reply']:
                # sent on to the reference peer again
                again = core.honest(
                    w, 'second dump of ' + spec.cls, node.p.gm.dump, msg,
                    None, PEER.pub)
        if s['reply']:
            f = opened(w, PEER, again)
            w.check(f.payload == spec.payload() and f.sig == sig
                    and f.ts == spec.ts and f.version == spec.version,
                    'passed on to the reference peer differently: '
                    + spec.cls)

    def do_catalogue(s):
        node = w.nodes[s['n']]
        if node.up:
            catalogue(w, node)
            w.log('catalogue', node.name)

    w.run({'out': do_out, 'in': do_in, 'catalogue': do_catalogue})
