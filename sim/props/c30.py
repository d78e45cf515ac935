"""Private keys and sealed content stay where they are."""
import copy
import logging
import random

from .. import aborts
from .. import build as B
from .. import core
from .. import ref
from .. import seams
from .. import secrets
from . import c01

EPISODES = 700
RULE = ('nodes sign, seal, send, receive, refuse, build proofs, notes and '
        'headers, with wrong keys, damaged and misdirected traffic, failing '
        'entropy and operations cut off at any line, logging everything; '
        'whatever leaves the library (frames, signatures, messages, logs, '
        'errors, printed objects) is searched for private keys, ephemeral '
        'keys and the content that was sealed, and nonces of signatures must '
        'never come back.')

OPS = ['dump', 'dump', 'seal', 'seal', 'sign', 'copy', 'receive', 'receive',
       'misdirected', 'damaged', 'hostile', 'ecies', 'badpeer', 'badkey',
       'header', 'note', 'assign', 'eccx', 'keys', 'twice', 'huge']


def plan(r, index):
    n = r.choice([2, 3])
    steps = []
    t = 0
    for k in range(r.choice([12, 25, 40])):
        t += r.choice([0, core.US, 20 * core.US])
        s = {'op': 'do', 't': t, 'n': r.randrange(n), 'to': r.randrange(n),
             'what': OPS[(index + k) % len(OPS)] if k < 4 else r.choice(OPS),
             'cls': B.ALL[(index * 5 + k) % len(B.ALL)],
             'x': r.randrange(64), 'seed': core.rseed(r)}
        y = r.random()
        if y < .25:
            s['cut'] = {'at': r.choice([r.randrange(1, 40),
                                        r.randrange(1, 400)]),
                        'kind': r.choice(sorted(aborts.KINDS))}
        elif y < .4:
            s['entropy'] = r.choice([1, 1, 2, 3])
        steps.append(s)
    for _ in range(r.choice([0, 0, 1, 2])):
        steps.append({'op': 'jump', 't': r.randrange(t + 1),
                      'n': r.randrange(n), 'us': r.choice(
                          [2 * core.HOUR, -core.HOUR, core.MINUTE])})
    steps += core.crashes(r, n, t + 1, r.choice([0, 0, 1]))
    return {'cfg': core.rcfg(r, 0), 'nodes': core.rnodes(
        r, n, versions=['2.15.0']), 'steps': core.ordered(steps)}


class Sink(logging.Handler):
    """what the operator can read"""

    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        try:
            self.lines.append(self.format(record))
        except Exception:  # pylint: disable=broad-except
            self.lines.append(repr((record.msg, record.args)))


def run(w, plan):
    sink = Sink()
    root = logging.getLogger()
    before, level = list(root.handlers), root.level
    root.handlers[:] = [sink]
    root.setLevel(logging.DEBUG)
    try:
        episode(w, plan, sink)
    finally:
        root.handlers[:] = before
        root.setLevel(level)


def episode(w, plan, sink):
    kept = secrets.Secrets()
    nonces = {}              # r of a signature -> (who, what)
    for k in ['da', 'db', 'dc', 'dd', 'de', 'stranger']:
        kept.add('the private key of ' + k, ref.Key(k).priv)
    for node in w.nodes:
        kept.add('the private key of ' + node.name, node.key.priv)

    def nonce(sig, pub, what):
        if sig is None or sig == ref.NO_SIG:
            return
        r_ = bytes(sig[:32])
        old = nonces.setdefault(r_, (pub, what))
        w.check(old == (pub, what), 'the nonce of a signature came back',
                lambda: '%r, %r' % (old, (pub, what)))

    def leaves(what, *objs):
        """these are out"""
        raw, text = [], []
        for o in secrets.parts(*objs):
            if isinstance(o, str):
                text.append(o)
            elif not isinstance(o, int):
                raw.append(bytes(o))
            elif o >> 64:
                text.append(str(o))
        name = kept.in_text('\n'.join(text)) or kept.in_bytes(b'\n'.join(raw))
        w.check(name is None, 'secret in ' + what, lambda: name)

    def printed(what, *objs):
        text = '\n'.join([repr(o) + '\n' + str(o) for o in objs])
        name = kept.in_text(text)
        w.check(name is None, 'secret in %s as printed' % what, lambda: name)

    def sealed(data, plain):
        """nothing of the content can be seen"""
        body = bytes(data)
        last = len(plain) - 12
        for k in sorted({last * i // 60 for i in range(61)} | set(
                range(0, 60, 6))) if last >= 0 else ():
            if k > last:
                break
            w.check(plain[k:k + 12] not in body,
                    'sealed content is in the clear', lambda: plain[:60])

    # --- operations: each gives (what is out, objects to print) ------------

    def spec_of(s, r, node, key=None, **kw):
        g = B.Gen(r, now=node.now(), omit=.4, big=0, **kw)
        return g.message(s['cls'], c01.deal_for(w, r, key or node.key))

    def fresh(s, r, node):
        spec = spec_of(s, r, node)
        return B.realize_msg(node.p, spec), spec

    def session(priv, pub):
        for k in ref._ecies_keys(priv, b'\x04' + pub):
            kept.add('the key of a sealed message', k)

    def signed_frame(s, r, node, frm, to=None):
        """from another node, by the reference"""
        m = spec_of(s, r, node, frm.key)
        m.ts = node.now()
        m.enc = False
        if s['cls'] == 'Hello':
            m.version = node.version
        if m.schema.sign:
            m.signer = frm.key
        body = m.payload()
        enc = bool(to is not None and m.schema.encrypt)
        if enc:
            eph = ref.Key('eph %d' % s['seed'])
            body = ref.ecies_encrypt(body, to.pub, eph.priv, r.getrandbits(
                128).to_bytes(16, 'big'))
            session(eph.priv, to.pub)
        return m, ref.frame(m.type_, m.ts, enc, m.sig() or ref.NO_SIG, body,
                            m.version)

    def op_dump(s, r, node, to, out, to_pub=None):
        obj, spec = fresh(s, r, node)
        out += [obj]
        data = node.p.gm.dump(obj, node.key.priv, to_pub)
        out += [data]
        spec.ts = obj.timestamp
        if s['cls'] == 'Hello':
            spec.version = node.version
        f = ref.Frame(data)
        if spec.schema.sign:
            nonce(f.sig, node.key.pub, spec.hash())
        if to_pub and spec.schema.encrypt:
            sealed(data, spec.payload())
            w.check(f.enc, 'a sealed message is not marked as sealed')
            w.probe('sealed')
        return data

    def op_seal(s, r, node, to, out):
        op_dump(s, r, node, to, out, to.key.pub)

    def op_huge(s, r, node, to, out):
        obj = node.p.mod('message.base').RandVal(
            rand_val='%d ' % r.random() * 3_000)
        out += [obj]
        out += [node.p.gm.dump(obj, node.key.priv, to.key.pub)]
        sealed(out[-1], ref.cbor([['rand_val', obj.rand_val]])[:2000])

    def op_badpeer(s, r, node, to, out):
        """a peer whose key is none: in no case in the clear"""
        obj, spec = fresh(s, r, node)
        pub = [b'\xff' * 64, bytes(64), to.key.pub[:63], to.key.pub + b'x',
               to.key.hex, b'x', b'\x04' + to.key.pub][s['x'] % 7]
        out += [obj]
        data = None
        try:
            data = node.p.gm.dump(obj, node.key.priv, pub)
        except Exception as e:  # pylint: disable=broad-except
            out += [e]
        if data is not None:
            out += [data]
            spec.ts = obj.timestamp
            if spec.schema.encrypt:
                sealed(data, spec.payload())
        w.fault('bad key of a peer')

    def op_sign(s, r, node, to, out):
        obj, spec = fresh(s, r, node)
        out += [obj]
        obj.sign_message(node.key.priv)
        spec.ts = obj.timestamp
        if s['cls'] == 'Hello':
            spec.version = node.version
        nonce(obj.sig, node.key.pub, spec.hash())

    def op_copy(s, r, node, to, out):
        obj, _ = fresh(s, r, node)
        out += [obj]
        out += [node.p.mod('utils').copy_and_sign(obj, node.key.priv)]
        out += [copy.copy(out[-1]), copy.deepcopy(out[-1])]

    def op_twice(s, r, node, to, out):
        """the same content signed by several, now and a second later"""
        spec = spec_of(s, r, node)
        for who in (node.key, to.key, ref.Key('stranger')):
            for dt in (0, 1):
                obj = B.realize_msg(node.p, spec)
                spec.ts = obj.timestamp
                if s['cls'] == 'Hello':
                    spec.version = node.version
                obj.sign_message(who.priv)
                out += [obj]
                nonce(obj.sig, who.pub, spec.hash())
                w.t += dt * core.US

    def op_receive(s, r, node, to, out):
        m, data = signed_frame(s, r, node, to, node.key
                               if s['x'] % 3 else None)
        out += [node.p.gm.load(data, node.key.priv, to.key.pub
                               if m.schema.sign else None)]
        got = out[-1]
        out += [got.slots()]
        if m.signer:
            got.verify_signature(to.key.pub)
        again = node.p.gm.dump(got, None, to.key.pub)
        out += [again]
        if m.schema.encrypt:
            sealed(again, m.payload())

    def op_misdirected(s, r, node, to, out):
        """not for this node"""
        m, data = signed_frame(s, r, node, to, ref.Key('stranger'))
        try:
            got = node.p.gm.load(data, node.key.priv, None)
        except core.msg_error(node) as e:
            out += [e]
            w.fault('misdirected')
            return
        w.check(not m.schema.encrypt, 'opened what was sealed for another')
        out += [got]

    def op_damaged(s, r, node, to, out):
        _, data = signed_frame(s, r, node, to, node.key)
        data = core.mutate(data, core.rmutation(r))
        w.fault('damaged')
        try:
            out += [node.p.gm.load(data, node.key.priv, to.key.pub)]
        except core.msg_error(node) as e:
            out += [e]

    def op_hostile(s, r, node, to, out):
        """a valid peer that sends nonsense, sealed"""
        payload = ref.cbor(r.choice([
            [['rand_val', [1] * 9]], [[1, 2]], 7, [], {'a': 1}, [['x']],
            [[[], []]], 'text', b'bytes', [['rand_val', None]] * 3]))
        ts = node.now()
        eph = ref.Key('eph %d' % s['seed'])
        session(eph.priv, node.key.pub)
        sealed_ = ref.ecies_encrypt(payload, node.key.pub, eph.priv,
                                    r.getrandbits(128).to_bytes(16, 'big'))
        if s['x'] % 4 == 0:
            sealed_ = sealed_[:r.randrange(len(sealed_))]
        type_ = r.choice([1, 2, 1001, 2001, 3001, 4001, 60000])
        w.fault('hostile')
        try:
            out += [node.p.gm.load(
                ref.frame(type_, ts, True, to.key.sign(ref.short_hash(
                    type_, ts, payload)), sealed_),
                node.key.priv, to.key.pub)]
        except core.msg_error(node) as e:
            out += [e]

    def op_ecies(s, r, node, to, out):
        c = node.p.mod('cryptography')
        text = b'content %032x of what is sealed' % r.getrandbits(128)
        e = node.p.mod('shortcuts').ecies if s['x'] % 2 else c.ECIES()
        box = e.encrypt(text, to.key.pub, b'mac' * (s['x'] % 3))
        out += [box]
        sealed(box, text)
        printed('a cipher', e, e.key_manager)
        try:
            got = e.decrypt(box, to.key.priv if s['x'] % 4 else
                            node.key.priv, b'mac' * (s['x'] // 3 % 3))
        except Exception as x:  # pylint: disable=broad-except
            out += [x]
        else:
            w.check(got == text, 'another content')

    def op_badkey(s, r, node, to, out):
        """the operator mistook the form of his own key"""
        k = node.key
        key = [k.priv.hex(), k.priv[:31], k.priv + b'\0', '0x' + k.priv.hex(),
               bytearray(k.priv), k.priv.hex().encode()][s['x'] % 6]
        w.fault('key in a wrong form')
        for fn in bad_uses(s, r, node, to, key):
            try:
                out += [fn()]
            except Exception as e:  # pylint: disable=broad-except
                out += [e]

    def bad_uses(s, r, node, to, key):
        c = node.p.mod('cryptography')
        obj, _ = fresh(s, r, node)
        _, data = signed_frame(s, r, node, to, node.key)

        def use():
            node.p.gm.dump(obj, key, to.key.pub)
            return obj
        return [use, lambda: obj.sign_message(key) or obj,
                lambda: node.p.gm.load(data, key, None),
                lambda: c.ecdsa_sign(key, ref.sha3(data)),
                lambda: c.privtopub(key),
                lambda: note(node, to, r).sign(key),
                lambda: node.p.mod('utils').copy_and_sign(obj, key)]

    def note(node, to, r):
        return node.p.mod('datastructures.promissory').PromissoryNote(
            address_from=node.key.address, address_to=to.key.address,
            amount=r.choice([1, 2, r.getrandbits(60)]),
            subtask_id=B.make_id(r, node.key.hex),
            contract_address=ref.Key('stranger').address)

    def op_note(s, r, node, to, out):
        n = note(node, to, r)
        sig = n.sign(privkey=node.key.priv)
        nonce(sig[1] + sig[2], node.key.pub, ('note', n.hexmsg))
        out += [n, sig, n.sig_valid(sig), n.hexmsg, n.hash]

    def op_header(s, r, node, to, out):
        dt = node.p.mod('datastructures.tasks')
        h = B.Gen(r, now=node.now(), omit=.5, big=0).header(node.key)
        th = dt.TaskHeader(**B.realize(node.p, h).to_dict())
        th.sign(node.key.priv)
        out += [th, th.to_dict()]
        nonce(th.signature, node.key.pub, th.get_hash())
        try:
            th.verify(to.key.pub)
        except core.msg_error(node) as e:
            out += [e]

    def op_assign(s, r, node, to, out):
        deal = c01.deal_for(w, r, node.key)
        spec = B.Gen(r, now=node.now(), omit=0, big=0).message(
            'TaskToCompute', deal)
        obj = B.realize_msg(node.p, spec)
        out += [obj]
        eth = deal.req_eth or node.key
        obj.requestor_ethereum_public_key = eth.hex
        obj.generate_ethsig(eth.priv)
        nonce(obj.ethsig, eth.pub,
              obj.want_to_compute_task.get_short_hash())
        obj.sign_all_promissory_notes(deal.contract, eth.priv)
        for a in ('promissory_note_sig', 'concent_promissory_note_sig'):
            sig = getattr(obj, a)
            n = (obj._get_promissory_note if a[0] == 'p' else
                 obj._get_concent_promissory_note)(deal.contract)
            nonce(bytes(sig[1]) + bytes(sig[2]), eth.pub, ('note', n.hexmsg))
        out += [node.p.gm.dump(obj, node.key.priv, to.key.pub)]
        out += [obj.requestor_ethereum_address]

    def op_eccx(s, r, node, to, out):
        c = node.p.mod('cryptography')
        e = c.ECCx(node.key.priv)
        h = ref.sha3(b'%d' % r.getrandbits(50))
        sig = e.sign(h)
        nonce(sig, node.key.pub, h)
        out += [sig, e.raw_pubkey, e.verify(sig, h)]
        printed('a key pair', e)
        try:
            c.ECCx(bytes(32) if s['x'] % 2 else node.key.priv[:30])
        except Exception as x:  # pylint: disable=broad-except
            out += [x]

    def op_keys(s, r, node, to, out):
        c = node.p.mod('cryptography')
        u = node.p.mod('utils')
        pub = c.privtopub(node.key.priv)
        g = node.p.mod('idgenerator')
        out += [pub, u.pubkey_to_address(pub), g.generate_id(pub)]
        printed('a private key', c.HashablePrivateKey(node.key.priv))
        seed = b'%032x' % r.getrandbits(128)
        c.mk_privkey(seed.decode())

    OP = {k[3:]: v for k, v in locals().items() if k[:3] == 'op_'}

    # --- one step ----------------------------------------------------------

    def do(s):
        node, to = w.nodes[s['n']], w.nodes[s['to']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        out = []
        e = seams.SEAM.entropy
        e.reseed(s['seed'])
        sink.lines.clear()

        def go():
            OP[s['what']](s, r, node, to, out)
        with node.p:
            try:
                if 'cut' in s:
                    t = aborts.Tracer(at=s['cut']['at'],
                                      kind=s['cut']['kind'])
                    t.run(go)
                elif 'entropy' in s:
                    aborts.with_entropy_failure(s['entropy'], go)
                else:
                    go()
                how = 'done'
            except (core.Violation, core.HarnessError, core.Hang):
                raise
            except BaseException as x:  # pylint: disable=broad-except
                if 'cut' in s and t.fired is None or not (
                        'cut' in s or e.failed):
                    raise
                out.append(x)
                how = 'broken off'
                w.fault('abort' if 'cut' in s else 'entropy_failure')
            for drawn in e.served:
                if len(drawn) == 32:
                    kept.add('an ephemeral key', drawn)
                    try:
                        session(drawn, to.key.pub)
                    except ValueError:
                        pass
            leaves('what comes out of ' + s['what'], *out)
            printed('what comes out of ' + s['what'], *out)
            name = kept.in_text('\n'.join(sink.lines))
            w.check(name is None, 'secret in the log', lambda: name)
        w.checks += len(sink.lines)
        w.probe(s['what'])
        w.log(s['what'], node.name, to.name, s['cls'], how, len(out),
              len(sink.lines))

    w.run({'do': do})
