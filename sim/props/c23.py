"""Operations cut off before any of their lines, repeated, and the rest."""
import random

from .. import aborts
from .. import build as B
from .. import core
from .. import ref
from .. import seams
from . import c22

EPISODES = 700
RULE = ('a process signs, dumps, loads, encrypts, copies, verifies, builds '
        'and changes masks; each operation is cut off before planned source '
        'lines of the library by an interrupt, an exit or an allocation '
        'failure, or by failing entropy, some of them repeatedly; after each '
        'cut every object involved is compared with how it was and would '
        'have been, then the operation is repeated, and in the end everything '
        'else still has to work; a twin process that does the same without '
        'cuts says how many lines there are.')

OPS = ['sign', 'dump', 'dump', 'redump', 'load', 'load', 'bad', 'ecies',
       'decrypt', 'copy', 'verify', 'owners', 'header', 'hverify', 'build',
       'build', 'struct', 'mask', 'mask', 'ids', 'ethsig', 'note', 'look',
       'announce', 'notes', 'ecies']
PEERS = c22.PEERS


def plan(r, index):
    steps = []
    t = 0
    one = 10 ** 6
    for k in range(r.choice([2, 3, 4])):
        t += r.choice([0, core.US, core.MINUTE])
        cuts = []
        sweep = r.random() < .3     # one line after the other
        first = r.choice([0, 0, r.randrange(200)])
        for j in range(30 if sweep else r.choice([4, 10, 20])):
            x = r.random()
            if sweep:
                c = {'idx': first + j, 'nth': 1}
            elif x < .5:
                c = {'spot': r.randrange(one), 'nth': r.choice(
                    [1, 1, 1, 2, r.randrange(1, 9)])}
            elif x < .9:
                c = {'at': r.choice([r.randrange(one),
                                     one - 1 - r.randrange(one // 8)])}
            else:
                c = {'entropy': r.choice([1, 1, 2])}
            c['kind'] = r.choice(['interrupt', 'interrupt', 'memory',
                                  'memory', 'exit'])
            c['rare'] = r.random() < .3
            c['go_on'] = r.random() < .7    # the same objects again
            c['us'] = r.choice([0, 0, 0, 0, 3601 * core.US, -core.US]
                               if x < .7 else [3601 * core.US])
            cuts.append(c)
        light = r.random() < .65
        steps.append({'op': 'do', 't': t, 'what': OPS[(index * 3 + k)
                                                      % len(OPS)],
                      'cls': r.choice(c22.LIGHT) if light
                      else B.ALL[(index * 3 + k) % len(B.ALL)],
                      'cuts': cuts, 'enc': r.random() < .5,
                      'to': r.randrange(2), 'x': r.randrange(16),
                      'n': r.choice([0, 1, 3, 100, 256]),
                      'expire': r.random() < .3, 'seed': core.rseed(r)})
        if steps[-1]['expire']:
            for c in cuts:
                if r.random() < .5:
                    c['us'] = 3601 * core.US
    return {'cfg': core.rcfg(r, .15), 'warm': r.random() < .5,
            'nodes': core.rnodes(r, 1, versions=['2.15.0', '2.15.2']),
            'steps': steps}


class Item:
    """one prepared operation: what to do, what must come out, and what the
    objects involved may look like"""

    def __init__(self, do, check, states=None):
        self.do, self.check, self.states = do, check, states or (
            lambda done: None)


class Lab(c22.Run):
    def __init__(self, w, node, p, plan):
        super().__init__(w, node, plan, '')
        self.p = p
        self.born = {}

    def setup(self):
        if self.plan['warm']:
            self.tick()
            for to in PEERS:
                data = self.p.gm.dump(self.p.mod('message.base').RandVal(
                    rand_val=1), self.node.key.priv, to.pub)
                self.used(ref.Frame(data).payload[:65])
                self.used(self.p.mod('shortcuts').ecies.encrypt(
                    b'warm', to.pub)[:65])

    def tick(self):
        self.now = self.node.now()
        self.clocks.add(self.now)

    def unchanged(self, obj, spec, what='a message was changed'):
        want = B.want_msg(spec) if isinstance(spec, B.Msg) else B.want(spec)
        core.same(self.w, B.canon(obj), want, what)
        if what == 'a message was changed' and isinstance(spec, B.Msg):
            self.check(not obj.header.encrypted, what, 'transport flag')

    def used(self, eph):
        born = self.born.setdefault(bytes(eph), self.now)
        self.check(self.now - born <= 3600, 'a key outlived its timeout',
                   self.now - born)

    def unsigned_or_signed(self, obj, spec, key, done, sign=True):
        """spec is that of the unsigned message"""
        sig = obj.sig
        if sig is None:
            self.check(not done, 'done, but not signed')
            return self.unchanged(obj, spec)
        after = B.Msg(spec.cls, spec.fields, spec.ts, key,
                      version=spec.version)
        if sign:
            self.check(type(sig) is bytes and ref.verify(
                key.pub, sig, spec.hash()), 'half signed', spec.cls)
        else:
            self.check(sig == ref.NO_SIG, 'half signed', spec.cls)
        after.forged_sig = sig
        return self.unchanged(obj, after)

    def unsigned(self, s, r):
        spec = self.spec(s['cls'], r, signed=False)
        obj = core.honest(self.w, 'construction of ' + s['cls'],
                          B.realize_msg, self.p, spec)
        spec.ts = obj.timestamp
        return obj, spec

    def signed(self, s, r):
        obj, spec = self.unsigned(s, r)
        core.honest(self.w, 'signing', obj.sign_message, spec.key.priv)
        spec.forged_sig = bytes(obj.sig)
        return obj, spec

    # --- operations --------------------------------------------------------

    def op_sign(self, s, r, i=None):
        obj, spec = self.unsigned(s, r)
        key = spec.key
        old = None
        if s['x'] % 3 == 0:         # somebody else's, to be replaced
            obj.sign_message(PEERS[s['to']].priv)
            old = bytes(obj.sig)

        def states(done):
            if old is not None and obj.sig == old and not done:
                return
            self.check(old is None or obj.sig is not None,
                       'a signature is gone')
            self.unsigned_or_signed(obj, spec, key, done)
        return Item(lambda: obj.sign_message(key.priv), lambda out: None,
                    states)

    def op_dump(self, s, r, i=None):
        obj, spec = self.unsigned(s, r)
        key, to = spec.key, PEERS[s['to']]
        priv = None if s['x'] == 0 else key.priv
        enc = s['enc'] and spec.schema.encrypt
        sign = spec.schema.sign and priv is not None

        def do():
            # as a retry would: a signature that is there is kept
            return self.p.gm.dump(obj, priv if obj.sig is None else None,
                                  to.pub if s['enc'] else None)

        def check(data):
            f = self.opened(data, spec, to, enc, False)
            self.check(f.sig == bytes(obj.sig), 'another signature')
            if enc:
                self.used(f.payload[:65])
        return Item(do, check, lambda done: self.unsigned_or_signed(
            obj, spec, key, done, sign))

    def op_redump(self, s, r, i=None):
        obj, spec = self.signed(s, r)
        to = PEERS[s['to']]
        enc = s['enc'] and spec.schema.encrypt

        def check(data):
            f = self.opened(data, spec, to, enc, False)
            self.check(f.sig == spec.sig(), 'another signature')
            if enc:
                self.used(f.payload[:65])
        return Item(lambda: self.p.gm.dump(
            obj, None, to.pub if s['enc'] else None), check,
            lambda done: self.unchanged(obj, spec))

    def op_load(self, s, r, i=None):
        spec = self.spec(s['cls'], r)
        data = self.frame_of(spec, s['enc'] and spec.schema.encrypt, r)
        pub = spec.key.pub if s['x'] % 4 else None
        return Item(lambda: self.p.gm.load(data, self.node.key.priv, pub,
                                           False),
                    lambda msg: self.unchanged(
                        msg, spec, 'another message was loaded'))

    def op_bad(self, s, r, i=None):
        spec = self.spec(s['cls'], r)
        data = self.frame_of(spec, s['enc'] and spec.schema.encrypt, r)
        data = core.mutate(data, core.rmutation(r))
        err = self.p.mod('exceptions').MessageError
        outs = []

        def do():
            try:
                return B.canon(self.p.gm.load(data, self.node.key.priv,
                                              spec.key.pub, False))
            except err as e:
                if 'MemoryError' in core.describe(e) or isinstance(
                        e.__cause__, MemoryError):
                    raise
                return 'refused'

        def check(out):
            outs.append(out)
            self.check(outs[0] == out, 'another outcome')
        outs.append(do())
        return Item(do, check)

    def op_ecies(self, s, r, i=None):
        to = PEERS[s['to']]
        text = r.getrandbits(8 * 33).to_bytes(33, 'big')
        e = self.p.mod('shortcuts').ecies

        def check(out):
            self.check(ref.ecies_decrypt(out, to.priv) == text,
                       'another text was encrypted')
            self.used(out[:65])
        return Item(lambda: e.encrypt(text, to.pub), check)

    def op_decrypt(self, s, r, i=None):
        text = r.getrandbits(8 * 33).to_bytes(33, 'big')
        e = self.p.mod('shortcuts').ecies
        box = ref.ecies_encrypt(
            text, self.node.key.pub, r.getrandbits(240).to_bytes(32, 'big'),
            r.getrandbits(128).to_bytes(16, 'big'))
        return Item(lambda: e.decrypt(box, self.node.key.priv),
                    lambda out: self.check(
                        out == text, 'another text was decrypted'))

    def op_copy(self, s, r, i=None):
        obj, spec = self.unsigned(s, r)
        key = PEERS[s['to']]

        def check(m):
            after = B.Msg(spec.cls, spec.fields, spec.ts, key,
                          version=spec.version)
            self.check(m.sig is not None and ref.verify(
                key.pub, bytes(m.sig), spec.hash()),
                'a signed copy does not verify')
            after.forged_sig = bytes(m.sig)
            self.unchanged(m, after, 'a signed copy with other contents')
        return Item(lambda: self.p.mod('utils').copy_and_sign(
            obj, key.priv), check, lambda done: self.unchanged(
                obj, spec, 'a queued original changed'))

    def op_verify(self, s, r, i=None):
        obj, spec = self.signed(s, r)
        return Item(lambda: obj.verify_signature(spec.key.pub),
                    lambda out: self.check(out is True, 'does not verify'),
                    lambda done: self.unchanged(obj, spec))

    def op_owners(self, s, r, i=None):
        spec = self.spec(c22.HEAVY[s['x'] % len(c22.HEAVY)], r, .8)
        obj = self.p.gm.load(self.frame_of(spec, False, r), None, None,
                             False)
        d = spec.deal
        return Item(lambda: obj.verify_owners(
            provider_public_key=d.provider.pub,
            requestor_public_key=d.requestor.pub,
            concent_public_key=d.concent.pub),
            lambda out: self.check(out is True, 'owners do not verify'),
            lambda done: self.unchanged(obj, spec))

    def op_header(self, s, r, i=None):
        key = PEERS[s['to']]
        spec = B.Gen(r, now=self.now).header(key, signed=False)
        h = core.honest(self.w, 'a header', B.realize, self.p, spec)
        before = B.canon(h)
        old = None
        if s['x'] % 2:              # somebody else's, to be replaced
            h.sign(PEERS[1 - s['to']].priv)
            old = bytes(h.signature)

        def states(done):
            if old is not None and h.signature == old and not done:
                h.signature = None
                core.same(self.w, B.canon(h), before, 'a header was changed')
                h.signature = old
                return
            if h.signature is None:
                self.check(not done, 'done, but not signed')
                self.check(old is None, 'a signature is gone')
                core.same(self.w, B.canon(h), before, 'a header was changed')
                return
            self.check(ref.verify(key.pub, bytes(h.signature), spec.hash()),
                       'a header is half signed')
            sig, h.signature = h.signature, None
            core.same(self.w, B.canon(h), before, 'a header was changed')
            h.signature = sig
        return Item(lambda: h.sign(key.priv), lambda out: None, states)

    def op_hverify(self, s, r, i=None):
        spec = B.Gen(r, now=self.now).header(PEERS[0])
        h = core.honest(self.w, 'a header', B.realize, self.p, spec)
        return Item(lambda: h.verify(PEERS[0].pub), lambda out: self.check(
            out is True, 'a header does not verify'),
            lambda done: self.unchanged(h, spec, 'a header was changed'))

    def op_build(self, s, r, i=None):
        spec = self.spec(s['cls'], r, signed=False)
        p = self.p
        kw = {k: B.realize(p, v) for k, v in spec.fields.items()}
        given = {k: B.canon(v) for k, v in kw.items()}
        cls = B.msg_class(p, s['cls'])

        def check(m):
            spec.ts = m.timestamp
            self.check(m.timestamp in self.clocks, 'another time')
            self.unchanged(m, spec, 'another message was built')

        def states(done):
            for k, v in kw.items():
                core.same(self.w, B.canon(v), given[k],
                          'an argument was changed', k)
        return Item(lambda: cls(**kw), check, states)

    def op_struct(self, s, r, i=None):
        g = B.Gen(r, now=self.now)
        v = [lambda: g.ctd(self.deal(r)), g.node, g.peer, g.stats,
             g.fileinfo, lambda: g.header(PEERS[0])][s['x'] % 6]()

        def check(out):
            self.unchanged(out, v, 'another structure was built')
            ctd = self.p.mod('message.tasks').ComputeTaskDef
            a = ctd()
            self.check(a == {'task_id': '', 'subtask_id': '', 'deadline': 0,
                             'extra_data': {}, 'performance': 0,
                             'docker_images': None, 'resources': []},
                       'defaults changed', a)
        return Item(lambda: B.realize(self.p, v), check)

    def op_mask(self, s, r, i=None):
        mask = self.p.mod('datastructures.masking').Mask
        bits = r.choice([0, 1, 100, 255, 256])
        if s['x'] % 3 == 0:
            return Item(lambda: mask.generate(bits), lambda m: self.check(
                m.num_bits == bits, 'another number of bits'))
        m = mask.generate(bits)
        state = {'at': m.to_bytes()}
        up, n = s['x'] % 3 == 1, s['n']

        def num(raw):
            return {b for b in range(256)
                    if raw[31 - b // 8] >> (b % 8) & 1}

        def states(done):
            was, now = num(state['at']), num(m.to_bytes())
            self.check(len(m.to_bytes()) == 32, 'a broken mask')
            if not done and was == now:
                return
            if up:
                self.check(was <= now and len(now) == min(256, len(was) + n),
                           'a mask half changed', (len(was), len(now)))
            else:
                self.check(now <= was and len(now) == max(0, len(was) - n),
                           'a mask half changed', (len(was), len(now)))
            state['at'] = m.to_bytes()
        return Item(lambda: m.increase(n) if up else m.decrease(n),
                    lambda out: None, states)

    def op_ids(self, s, r, i=None):
        key = PEERS[s['to']]
        g = self.p.mod('idgenerator')

        def check(out):
            self.check(out not in self.ids, 'an id is repeated', out)
            self.ids.add(out)
            self.check(g.check_id_seed(out, key.pub) is True,
                       'an id names another creator')
        return Item([lambda: g.generate_id(key.pub),
                     lambda: g.generate_id_from_hex(key.hex),
                     lambda: g.generate_new_id_from_id(
                         g.generate_id(key.pub))][s['x'] % 3], check)

    def ttc(self, r, **kw):
        spec = self.spec('TaskToCompute', r, .8, signed=False)
        obj = B.realize_msg(self.p, spec)
        spec.ts = obj.timestamp
        return obj, spec, spec.deal

    def op_ethsig(self, s, r, i=None):
        obj, spec, d = self.ttc(r)
        if s['x'] % 2:
            obj.ethsig = None
            spec = B.Msg(spec.cls, dict(spec.fields, ethsig=None), spec.ts)
        else:                       # somebody else's, to be replaced
            obj.generate_ethsig(PEERS[s['to']].priv)
        old = obj.ethsig

        def states(done):
            sig = obj.ethsig
            if sig == old:
                self.check(not done, 'done, but not signed')
            elif sig is None:
                self.check(False, 'a signature is gone')
            else:
                self.check(ref.verify(
                    d.req_eth.pub, bytes(sig), spec.fields[
                        'want_to_compute_task'].hash()),
                    'an assignment is half signed')
            self.unchanged(obj, B.Msg(spec.cls, dict(
                spec.fields, ethsig=sig), spec.ts))
        return Item(lambda: obj.generate_ethsig(d.req_eth.priv),
                    lambda out: self.check(obj.verify_ethsig() is True,
                                           'does not verify'), states)

    def op_note(self, s, r, i=None):
        obj, spec, d = self.ttc(r)
        name = ['promissory_note_sig', 'concent_promissory_note_sig'][
            s['x'] % 2]
        fn = [obj.sign_promissory_note, obj.sign_concent_promissory_note][
            s['x'] % 2]
        ok = [obj.verify_promissory_note, obj.verify_concent_promissory_note][
            s['x'] % 2]
        setattr(obj, name, None)
        if s['x'] % 4 >= 2:         # a note for another deposit
            fn(PEERS[0].address, d.req_eth.priv)
        old = getattr(obj, name)
        to = [d.prov_eth.address, d.contract][s['x'] % 2]

        def states(done):
            sig = getattr(obj, name)
            self.note(sig, old, done, d, to, spec)
            setattr(obj, name, None)
            self.unchanged(obj, B.Msg(spec.cls, dict(
                spec.fields, **{name: None}), spec.ts))
            setattr(obj, name, sig)
        return Item(lambda: fn(d.contract, d.req_eth.priv),
                    lambda out: self.check(ok(d.contract) is True,
                                           'a note does not verify'), states)

    def note(self, sig, old, done, d, to, spec):
        if sig == old:
            self.check(not done, 'done, but not signed')
        elif sig is None:
            self.check(False, 'a note is gone')
        else:
            self.check(ref.note_signer(
                tuple(sig), d.contract, d.req_eth.address, to,
                spec.fields['price'], d.subtask_id)
                == d.req_eth.address, 'a note is half signed')

    def op_notes(self, s, r, i=None):
        """both notes; one may be done when the other is not"""
        obj, spec, d = self.ttc(r)
        names = ['promissory_note_sig', 'concent_promissory_note_sig']
        for name in names:
            setattr(obj, name, None)
        if s['x'] % 2:              # notes for another deposit
            obj.sign_all_promissory_notes(PEERS[0].address, d.req_eth.priv)
        old = [getattr(obj, name) for name in names]

        def states(done):
            sigs = [getattr(obj, name) for name in names]
            for sig, o, to in zip(sigs, old, [d.prov_eth.address,
                                              d.contract]):
                self.note(sig, o, done, d, to, spec)
            for name in names:
                setattr(obj, name, None)
            self.unchanged(obj, B.Msg(spec.cls, dict(
                spec.fields, **{name: None for name in names}), spec.ts))
            for name, sig in zip(names, sigs):
                setattr(obj, name, sig)
        return Item(lambda: obj.sign_all_promissory_notes(
            d.contract, d.req_eth.priv), lambda out: self.check(
                obj.verify_all_promissory_notes(d.contract) is True,
                'notes do not verify'), states)

    def op_look(self, s, r, i=None):
        obj, spec = self.signed(s, r)
        twin = B.realize_msg(self.p, spec)
        twin.header, twin.sig = obj.header, spec.sig()
        want = (repr(obj), True, spec.hash(), spec.payload())

        def do():
            text = repr(obj)
            # printing goes on without the content when that fails
            return (want[0] if 'slots=\'<unserializable>\'' in text else text,
                    obj == twin, obj.get_short_hash(),
                    self.p.mod('serializer').dumps(obj.slots()))

        def states(done):
            self.unchanged(obj, spec)
            self.unchanged(twin, spec)
        return Item(do, lambda out: core.same(
            self.w, out, want, 'another answer'), states)

    def op_announce(self, s, r, i=None):
        """containers of signed parts"""
        g = B.Gen(r, now=self.now)
        specs = [g.header(PEERS[k % 2]) for k in range(1 + s['x'] % 3)]
        hs = [B.realize(self.p, v) for v in specs]
        to = PEERS[s['to']]
        spec = B.Msg('Tasks', {'tasks': specs}, self.now)

        def do():
            m = self.p.mod('message.p2p').Tasks(tasks=hs)
            return m.timestamp, self.p.gm.dump(
                m, self.node.key.priv, to.pub if s['enc'] else None)

        def check(out):
            spec.ts = out[0]
            self.opened(out[1], spec, to, s['enc'] and spec.schema.encrypt,
                        False)

        def states(done):
            for h, v in zip(hs, specs):
                self.unchanged(h, v, 'a header was changed')
        return Item(do, check, states)


def run(w, plan):
    node = w.nodes[0]
    twin = core.Node(w, 0, node.cfg)     # the process nothing happens to
    labs = {}

    def lab(which):
        p = (node if which else twin).p
        if which not in labs:
            with p:
                labs[which] = Lab(w, node if which else twin, p, plan)
                labs[which].setup()
        labs[which].tick()
        return labs[which]

    def prepare(which, s, k):
        seams.reseed((s['seed'] + k) & 0xffffffff)
        box = lab(which)
        fn = getattr(box, 'op_' + s['what'])
        return fn(s, random.Random(s['seed']))

    def do(s):
        what = s['what']
        lab(1)
        with twin.p:
            item = prepare(0, s, 0)
            if s['expire']:
                twin.jump(3601 * core.US)
                lab(0)
            base = aborts.Tracer()
            try:
                out = base.run(item.do)
            except Exception as e:  # pylint: disable=broad-except
                raise core.Violation('%s failed: %s' % (
                    what, type(e).__name__), core.describe(e))
            item.check(out)
            item.states(True)
        w.log('twin', what, base.lines)
        with node.p:
            item = None
            for k, c in enumerate(s['cuts']):
                if c['us']:
                    node.jump(c['us'])
                    lab(1)
                    w.fault('clock_jump_forward' if c['us'] > 0
                            else 'clock_jump_back')
                if item is None:
                    item = prepare(1, s, k)
                cut(s, item, c, base)
                if not c['go_on']:
                    complete(s, item)
                    item = None
            if item is not None:
                complete(s, item)
            else:
                complete(s, prepare(1, s, 99))

    def complete(s, item):
        """repeated, as if nothing had happened"""
        try:
            out = item.do()
        except Exception as e:  # pylint: disable=broad-except
            raise core.Violation(
                '%s fails after a cut: %s' % (s['what'], type(e).__name__),
                '%s %s' % (core.describe(e), core.where(e)))
        try:
            item.check(out)
            item.states(True)
        except core.Violation as v:
            raise core.Violation('repeated after a cut: ' + v.key,
                                 '%s %s' % (s['what'], v.detail))

    def cut(s, item, c, base):
        kind = c['kind']
        if 'entropy' in c:
            kind = 'entropy'
            tr = aborts.Tracer()
            fn = lambda: aborts.with_entropy_failure(  # noqa: E731
                c['entropy'], item.do)
        else:
            if 'at' not in c:
                if not base.order:
                    return
                order = base.order
                if c['rare']:
                    order = [x for x in order if base.passed[x] == 1] or order
                n = len(order)
                tr = aborts.Tracer(spot=order[
                    c['idx'] % n if 'idx' in c
                    else c['spot'] * n // 10 ** 6], nth=c['nth'], kind=kind)
            else:
                tr = aborts.Tracer(at=1 + c['at'] * base.lines // 10 ** 6,
                                   kind=kind)
            fn = item.do
        done, out, how = False, None, 'in full'
        try:
            out = tr.run(fn)
            done = True
        except (KeyboardInterrupt, SystemExit, Exception) as e:
            if isinstance(e, (core.Violation, core.HarnessError)):
                raise
            how = type(e).__name__
        fired = tr.fired or kind == 'entropy' \
            and aborts.with_entropy_failure.fired
        if fired:
            w.fault('cut_by_' + kind)
            w.probe('cut ' + s['what'])
        w.log('cut', s['what'], kind, tr.fired, how)
        w.check(fired or done, 'fails without a cut', '%s %s' % (
            s['what'], how))
        try:
            if done:
                item.check(out)
            item.states(done)
        except core.Violation as v:
            raise core.Violation('after a cut: ' + v.key, '%s cut at %s: %s'
                                 % (s['what'], tr.fired, v.detail))

    w.run({'do': do})
    with node.p:
        box = lab(1)
        box.label = 'after cuts'
        box.shared, box.queue, box.kept = [], [], []
        box.hspec = B.Gen(random.Random(5), now=node.now()).header(PEERS[0])
        box.header = B.realize(node.p, box.hspec)
        box.audit()
