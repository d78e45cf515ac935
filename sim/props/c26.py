"""Keys, addresses and ids in all their forms, through long histories."""
import random
import uuid

from .. import aborts
from .. import build as B
from .. import core
from .. import ref
from .. import threads

EPISODES = 900
RULE = ('several processes convert keys, addresses, ids and byte strings '
        'between their forms, in one order here and another there, alone, '
        'in threads preempted between any two lines, after conversions cut '
        'off in the middle and across restarts; keys come from simulated '
        'entropy and from seeds mined for zeros in awkward places; what one '
        'process wrote down, any other converts back.')

# seeds of keys with: a leading zero byte, two of them, a leading zero byte
# in y, a last byte of zero, a leading zero digit, the letters 0x in front;
# and of addresses with zeros at their ends
ODD = ['m5', 'm941', 'm204', 'm84', 'm59', 'm90716', 'm63', 'm67535']
FORMS = ['bytes', 'hex', 'HEX', 'Hex', '0x', '0XHEX', 'int']
TEXTS = ['', '0x', '0xab', 'ab', 'żółć', '\0', '\u4e2d\U0001f600', 'x' * 300,
         ' ', '\ud7ff', 'AB', 'e\u0301']


def rblob(r):
    n = r.choice([0, 1, 2, 16, 20, 31, 32, 33, 64, 65, r.randrange(300),
                  5000])
    b = bytearray(r.getrandbits(8) for _ in range(n))
    k = r.random()
    if n and k < 0.3:
        z = r.randrange(1, min(n, 16) + 1)
        b[:z] = bytes(z)
    elif n and k < 0.5:
        b[-1] = 0
    elif n > 1 and k < 0.6:
        b[:2] = b'0x'
    return bytes(b)


def ruuid(r):
    n = r.getrandbits(128)
    k = r.random()
    if k < 0.2:
        n >>= 8 * r.randrange(1, 17)
    elif k < 0.5:
        z = 8 * r.randrange(1, 17)
        n = n >> z << z
    elif k < 0.6:
        n = r.choice([0, 1, 2 ** 128 - 1, 2 ** 127, 2 ** 64])
    return uuid.UUID(int=n)


def rkey(r):
    return r.choice(ODD) if r.random() < 0.5 else 'k%d' % r.randrange(200)


def key_of(name):
    """~: the key with the same x and the other y"""
    return ref.mirrored(ref.Key(name[:-1])) if name[-1] == '~' \
        else ref.Key(name)


def plan(r, index):
    n = r.choice([1, 2, 3])
    horizon = core.HOUR
    keys = [rkey(r) for _ in range(r.choice([1, 2, 4]))]
    if r.random() < 0.5:
        keys.append(keys[0] + '~')
    steps = []
    for _ in range(r.choice([10, 16, 30])):
        op = r.choice(['convert'] * 6 + ['note', 'read', 'read', 'threads',
                                         'abort', 'send', 'made', 'bad'])
        s = {'op': op, 't': r.randrange(horizon), 'n': r.randrange(n),
             'seed': core.rseed(r), 'key': r.choice(keys)}
        if op == 'convert':
            s['count'] = r.choice([1, 3, 10])
        elif op == 'threads':
            s['count'] = r.choice([3, 8])
            s['n_threads'] = r.choice([2, 3])
            k = r.choice([1, 2, 3, 7, 30])
            s['cuts'] = [[r.randrange(3), r.randrange(1, 200 * k // 3 + 3),
                          r.randrange(3)] for _ in range(400 // k)]
        elif op == 'abort':
            s['at'] = r.randrange(1, 12)
            s['kind'] = r.choice(sorted(aborts.KINDS))
        elif op == 'send':
            s['to'] = r.randrange(n)
            s['net'] = core.rnet(r, lose=.05)
        elif op == 'read':
            s['from'] = r.randrange(n)
        steps.append(s)
    steps += core.crashes(r, n, horizon, r.choice([0, 1, 2]))
    return {'cfg': core.rcfg(r), 'nodes': core.rnodes(
        r, n, versions=['2.15.0']), 'steps': core.ordered(steps),
        'keys': keys}


def form(r, pub, name):
    if name == 'bytes':
        return pub
    if name == 'int':
        return int.from_bytes(pub, 'big')
    h = pub.hex()
    if name == 'HEX':
        return h.upper()
    if name == 'Hex':
        return ''.join(r.choice([c, c.upper()]) for c in h)
    return {'hex': h, '0x': '0x' + h, '0XHEX': '0x' + h.upper()}[name]


def run(w, plan):

    # what there is to convert: (name, function, argument, result, of type)

    def one(r, p, key=None):
        """one conversion and what it must give"""
        u = p.mod('utils')
        k = key_of(key or r.choice(plan['keys']))
        what = r.choice(['address', 'address', 'address', 'encode', 'decode',
                         'to bytes32', 'from bytes32', 'there and back',
                         'private', 'public'])
        if what == 'address':
            f = r.choice(FORMS)
            return 'address of a key as ' + f, u.pubkey_to_address, \
                form(r, k.pub, f), k.address
        if what == 'encode':
            if r.random() < 0.3:
                t = r.choice(TEXTS)
                return 'hex of text', u.encode_hex, t, t.encode().hex()
            b = r.choice([rblob(r), k.pub, k.priv])
            if r.random() < 0.3:
                return 'hex of a buffer', u.encode_hex, bytearray(b), b.hex()
            return 'hex of bytes', u.encode_hex, b, b.hex()
        if what == 'decode':
            b = r.choice([rblob(r), k.pub, k.priv])
            h = r.choice([b.hex(), b.hex().upper()])
            if r.random() < 0.3:
                h = h.encode()
            return 'bytes of hex', u.decode_hex, h, b
        if what == 'to bytes32':
            i = ruuid(r)
            return '32 bytes of an id', u.uuid_to_bytes32, i, \
                i.bytes + bytes(16)
        if what == 'from bytes32':
            i = ruuid(r)
            return 'id of 32 bytes', u.bytes32_to_uuid, \
                i.bytes + bytes(16), i
        if what == 'there and back':
            i = ruuid(r)
            if r.random() < 0.5:
                b = rblob(r)
                return 'hex there and back', lambda x: u.decode_hex(
                    u.encode_hex(x)), b, b
            return 'id there and back', lambda x: u.bytes32_to_uuid(
                u.uuid_to_bytes32(x)), i, i
        c = p.mod('cryptography')
        if what == 'private':
            b = r.choice([rblob(r), k.priv, r.choice(TEXTS)])
            return 'private key of a seed', c.mk_privkey, b, ref.keccak256(
                b.encode() if isinstance(b, str) else b)
        return 'public key of a private key', c.privtopub, k.priv, k.pub

    def judge(what, arg, got, want):
        w.check(type(got) is type(want) and got == want, 'a wrong ' + what,
                lambda: '%.200r of %.300r, should be %.200r' % (
                    got, arg, want))
        w.probe(what)

    def call(node, job):
        what, fn, arg, want = job
        had = bytes(arg) if isinstance(arg, bytearray) else arg
        got = core.honest(w, what, fn, arg)
        judge(what, had, got, want)
        w.check(arg == had, 'the argument of a conversion changed', what)
        if isinstance(arg, bytearray) and arg:
            # the buffer is used for something else now
            arg[:] = bytes(len(arg))
            judge(what, had, got, want)
            if what == 'hex of a buffer':
                arg[:] = had[::-1]
                judge(what, arg, core.honest(w, what, fn, arg),
                      had[::-1].hex())
            arg[:] = had

    def do_convert(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        with node.p:
            jobs = [one(r, node.p) for _ in range(s['count'])]
            if r.random() < 0.5:
                jobs += jobs[:3]
            for job in jobs:
                call(node, job)
        w.log('convert', node.name, [j[0] for j in jobs])

    def do_threads(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        n = s['n_threads']
        with node.p:
            # much of what they do is the same, at the same time
            jobs = [one(r, node.p) for _ in range(s['count'])]
            results = [[] for _ in range(n)]

            def body(th):
                mine = jobs[th:] + jobs[:th]

                def go():
                    for job in mine:
                        arg = bytearray(job[2]) if isinstance(
                            job[2], bytearray) else job[2]
                        results[th].append((job, job[1](arg)))
                return go

            def on_switch(i, to, where, line):
                w.fault('preemption')
                w.log('switch', i, to, where, line)
            sch = threads.Scheduler([body(i) for i in range(n)], on_switch)
            for th, line, to in s['cuts']:
                sch.plan(th % n, line, 'switch', to % n)

            def go():
                sch.run()
                if sch.error is not None:
                    raise sch.error
            core.honest(w, 'conversions in threads', go)
            w.check(sch.trouble is None, 'conversions in threads do not end',
                    sch.trouble)
            for res in results:
                w.check(len(res) == len(jobs), 'a thread did not finish')
                for job, got in res:
                    judge(job[0], job[2], got, job[3])
        w.log('threads', node.name, n, len(jobs))

    def do_abort(s):
        """cut off in the middle; then once more"""
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        with node.p:
            job = one(r, node.p)
            cut = aborts.Tracer(at=s['at'], kind=s['kind'])
            try:
                cut.run(lambda: job[1](job[2]))
            except BaseException as e:  # pylint: disable=broad-except
                if cut.fired is None:
                    raise core.Violation('%s failed: %s' % (
                        job[0], type(e).__name__), core.describe(e))
                w.fault('abort_' + s['kind'])
            w.log('abort', node.name, job[0], cut.fired)
            call(node, job)
            call(node, one(r, node.p))

    def do_bad(s):
        """what is no key, id or hex stops nothing"""
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        with node.p:
            u = node.p.mod('utils')
            for x in (None, 3, [b'a']):
                try:
                    u.encode_hex(x)
                except TypeError:
                    continue
                raise core.Violation('no bytes, yet in hex', repr(x))
            k = key_of(s['key'])
            for x in (k.hex[:-1], 'g' + k.hex[1:]):
                try:
                    got = u.decode_hex(x)
                except ValueError:
                    continue
                raise core.Violation('no hex, yet bytes', '%r: %r' % (x, got))
            c = node.p.mod('cryptography')
            for x in (k.priv[:r.randrange(1, 32)], k.priv + b'\0', b'',
                      bytes(32), b'\xff' * 32):
                t = aborts.Tracer(at=5000)
                try:
                    pair = t.run(lambda x=x: c.ECCx(x))
                except KeyboardInterrupt:
                    raise core.Violation('keys of what is no private key: no '
                                         'end', '%d bytes' % len(x))
                except Exception:  # pylint: disable=broad-except
                    continue
                judge('public key of a short number', x, pair.raw_pubkey,
                      c.privtopub(x.rjust(32, b'\0')))
            w.fault('malformed')
            call(node, one(r, node.p, s['key']))
        w.log('bad', node.name)

    def do_note(s):
        """written down, to be read in another life or elsewhere"""
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        i, blob, k = ruuid(r), rblob(r), key_of(s['key'])
        with node.p:
            u = node.p.mod('utils')
            node.disk.setdefault('notes', []).append((
                i, core.honest(w, 'to 32 bytes', u.uuid_to_bytes32, i),
                blob, core.honest(w, 'to hex', u.encode_hex, blob),
                k, core.honest(w, 'address', u.pubkey_to_address, form(
                    r, k.pub, r.choice(FORMS)))))
        w.log('note', node.name, i)

    def do_read(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        for i, b32, blob, text, k, addr in w.nodes[s['from']].disk.get(
                'notes', []):
            with node.p:
                u = node.p.mod('utils')
                judge('id read back', b32, core.honest(
                    w, 'from 32 bytes', u.bytes32_to_uuid, b32), i)
                w.check(len(b32) == 32, 'not 32 bytes', lambda: repr(b32))
                judge('hex read back', text, core.honest(
                    w, 'from hex', u.decode_hex, text), blob)
                judge('address found again', addr, core.honest(
                    w, 'address', u.pubkey_to_address, form(
                        r, k.pub, r.choice(FORMS))), addr)
            w.probe('read back')
        w.log('read', node.name, s['from'])

    def do_made(s):
        """a key pair out of the simulated entropy"""
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        with node.p:
            u, c = node.p.mod('utils'), node.p.mod('cryptography')
            pair = core.honest(w, 'making of keys', c.ECCx, None)
            again = core.honest(w, 'keys of a private key', c.ECCx,
                                pair.raw_privkey)
            pub = ref.PrivateKey(pair.raw_privkey).public_key.format(
                compressed=False)[1:]
            want = ref.checksum_address(ref.keccak256(pub)[12:])
            for x in (pair, again):
                judge('public key of a pair', pair.raw_privkey, x.raw_pubkey,
                      pub)
            for f in r.sample(FORMS, 4):
                x = form(r, pub, f)
                judge('address of a made key', x, core.honest(
                    w, 'address', u.pubkey_to_address, x), want)
        w.log('made', node.name, want)

    def do_send(s):
        """an address that follows from what a message says"""
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        k = key_of(s['key'])
        deal = B.Deal(r, node.key, ref.Key('other'), ref.Key('third'),
                      req_eth=k)
        ttc = B.Gen(r, now=node.now(), omit=.7)._ttc(deal)
        ttc.enc = False
        data = ref.frame(ttc.type_, ttc.ts, False, ttc.sig(), ttc.payload())
        w.log('send', node.name, s['to'], core.short(data))
        w.transmit(s['n'], s['to'], data, s['net'], arrive, ttc, k, node.key)

    def arrive(node, data, _damaged, ttc, k, signer):
        msg = core.load_ok(w, node, data, node.key.priv, signer.pub)
        with node.p:
            u = node.p.mod('utils')
            judge('address of a requestor', k.hex, core.honest(
                w, 'requestor_ethereum_address',
                lambda: msg.requestor_ethereum_address), k.address)
            judge('key of a requestor', k.hex, core.honest(
                w, 'decode_hex', u.decode_hex,
                msg.requestor_ethereum_public_key), k.pub)
            i = uuid.UUID(msg.subtask_id)
            judge('id of a subtask', str(i), core.honest(
                w, 'id there and back', lambda: u.bytes32_to_uuid(
                    u.uuid_to_bytes32(i))), i)
        w.log('arrive', node.name)

    w.run({'convert': do_convert, 'threads': do_threads, 'abort': do_abort,
           'bad': do_bad, 'note': do_note, 'read': do_read, 'made': do_made,
           'send': do_send})
