"""Several threads in one process, interleaved line by line."""
import random
import uuid

from .. import build as B
from .. import chain
from .. import core
from .. import ref
from .. import seams
from .. import threads

EPISODES = 1000
RULE = ('two to four real threads of one process, exactly one running at a '
        'time, share keys, caches, the registry and read-only messages; the '
        'plan preempts them before chosen source lines of the library and '
        'jumps the clock past the life of ephemeral keys between lines; '
        'everything every thread gets is compared with reference encoders '
        'and decoders and with the same work done by one thread after '
        'another, and the shared objects with what they were.')

HEAVY = ['TaskToCompute', 'ReportComputedTask', 'SubtaskResultsAccepted',
         'ForceGetTaskResult', 'TaskFailure', 'AckReportComputedTask']
OPS = ['send', 'send', 'send', 'load', 'load', 'load', 'share', 'share',
       'share', 'look', 'verify', 'header', 'mask', 'ids', 'ids', 'ecies',
       'ecies', 'ecies', 'struct', 'queue', 'owners', 'notes', 'hello',
       'bad', 'bad', 'make']
KINDS = sorted(set(OPS))


def plan(r, index):
    n = r.choice([2, 2, 2, 3, 4])
    steps = []
    same = r.random() < .6          # all threads do the same kind of thing
    kinds = [r.choice(KINDS) for _ in range(r.choice([1, 2]))]
    for i in range(r.choice([1, 1, 2, 3])):
        steps.append({'op': 'shared', 'id': i, 'cls': B.ALL[
            (index * 2 + i) % len(B.ALL)] if r.random() < .3
            else r.choice(LIGHT), 'omit': r.choice([.25, .6]),
            'seed': core.rseed(r)})
    for th in range(n):
        for k in range(r.choice([1, 2, 3]) if n < 4 else r.choice([1, 2])):
            what = r.choice(kinds) if same else r.choice(OPS)
            steps.append({'op': 'do', 'th': th, 'what': what,
                          'cls': B.ALL[(index * 5 + th * 3 + k)
                                       % len(B.ALL)] if r.random() < .4
                          else r.choice(LIGHT),
                          'seed': core.rseed(r), 'enc': r.random() < .6,
                          'to': r.randrange(2), 'pre': r.random() < .5,
                          'n': r.choice([1, 2, 3]), 'x': r.randrange(16)})
    one = 10 ** 6
    if r.random() < .1:
        return expiry(r, steps, n)
    many = r.choice([1, 3, 8, 15, 30, 60, 120])
    if r.random() < .3:             # a burst within a short stretch
        centre, width = r.randrange(one), r.choice([20000, 100000])
        at = [(centre + r.randrange(-width, width)) % one
              for _ in range(many)]
    else:
        at = [r.randrange(one) for _ in range(many)]
    if r.random() < .6:             # distinct lines rather than moments
        spot = r.randrange(one)
        for _ in range(many):
            if r.random() < .6:
                spot = r.randrange(one)
            # else: several threads at (nearly) the same place
            steps.append({'op': 'spot', 'th': r.randrange(n), 'at': spot,
                          'nth': r.choice([1, 1, 1, 1, 2, 3, r.randrange(
                              1, 20)]), 'to': r.randrange(n),
                          'rare': r.random() < .25})
        at = at[:many // 4]
    for x in at:
        steps.append({'op': 'switch', 'th': r.randrange(n), 'at': x,
                      'to': r.randrange(n)})
    if r.random() < .35:            # lockstep, all or some threads
        at, ln = r.randrange(one), r.choice([50, 200, 600, 1500])
        if r.random() < .5:
            at, ln = 0, ln * 2
        ths = r.sample(range(n), r.choice([n, n, max(1, n - 1)]))
        for th in ths:
            steps.append({'op': 'dense', 'th': th, 'at': at, 'len': ln,
                          'k': r.choice([1, 1, 2, 3, 5, 9])})
    if r.random() < .4:
        for _ in range(r.choice([1, 1, 2, 4])):
            steps.append({'op': 'jump', 'th': r.randrange(n),
                          'at': r.randrange(one),
                          'us': r.choice([3601, 3601, 7300, 3599, 60, -1,
                                          -3700]) * core.US})
    return {'cfg': core.rcfg(r, .15), 'warm': r.random() < .4,
            'threads': n, 'nodes': core.rnodes(
                r, 1, versions=['2.15.0', '2.15.2']), 'steps': steps}


def expiry(r, steps, n):
    """threads meet while the keys all of them use run out"""
    one = 10 ** 6
    at = r.choice([0, 0, 0, r.randrange(one)])
    for s in steps:
        if s['op'] == 'do':
            s.update(what=r.choice(['ecies', 'ecies', 'ecies', 'share',
                                    'send']), enc=True, n=r.choice([2, 3]),
                     to=0 if r.random() < .8 else 1)
            if s['cls'] not in LIGHT:
                s['cls'] = 'RandVal'
    steps.append({'op': 'jump', 'th': 0, 'at': at, 'us': 3601 * core.US})
    if r.random() < .3:
        steps.append({'op': 'jump', 'th': r.randrange(n),
                      'at': r.randrange(one), 'us': 3601 * core.US})
    for _ in range(r.choice([4, 10, 25, 50])):
        steps.append({'op': 'spot', 'th': 0 if r.random() < .6
                      else r.randrange(n),
                      'at': r.randrange(one), 'nth': r.choice([1, 1, 1, 2]),
                      'to': r.randrange(n), 'rare': r.random() < .7})
    return {'cfg': core.rcfg(r, .15), 'warm': True, 'threads': n,
            'nodes': core.rnodes(r, 1, versions=['2.15.0']), 'steps': steps}


LIGHT = [c for c in B.ALL if c not in B.TASK_MESSAGES]
PEERS = [ref.Key('peer one'), ref.Key('peer two')]


class Shared:
    def __init__(self, obj, spec, frame):
        self.obj, self.spec, self.frame = obj, spec, frame


class Run:
    """the same work, once in turn and once interleaved"""

    def __init__(self, w, node, plan, label, base=None):
        self.w, self.node, self.plan = w, node, plan
        self.p = node.p
        self.label = label
        self.base = base            # the Run in turn
        self.ids = set()
        self.outcomes = {}
        self.now = node.now()
        self.clocks = {self.now}
        self.shared = []
        self.queue = []
        self.header = None
        self.kept = []              # (function, what it must give)
        self.seen = {}              # ephemeral key -> clock when first seen
        self.forward = not any(s['op'] == 'jump' and s['us'] < 0
                               for s in plan['steps'])

    # --- material ----------------------------------------------------------

    def deal(self, r):
        ks = ['da', 'db', 'dc', 'dd', 'de']
        k = [ref.Key(x) for x in ks]
        return B.Deal(r, k[0], k[1], k[2], req_eth=k[3], prov_eth=k[4])

    def spec(self, cls, r, omit=.4, signed=True):
        deal = self.deal(r)
        spec = B.Gen(r, now=self.now, omit=omit).message(cls, deal)
        owners = spec.schema.owners
        key = deal.key(owners[0]) if owners else deal.provider \
            if cls == 'WantToComputeTask' else self.node.key
        spec.signer = key if signed else None
        spec.ts = self.now
        if cls == 'Hello':
            spec.version = self.node.version
        for m in chain.links(spec):
            m.deal = deal
        spec.key = key
        return spec

    def frame_of(self, spec, enc, r):
        payload = spec.payload()
        if enc:
            payload = ref.ecies_encrypt(
                payload, self.node.key.pub,
                r.getrandbits(240).to_bytes(32, 'big'),
                r.getrandbits(128).to_bytes(16, 'big'))
        return ref.frame(spec.type_, spec.ts, enc, spec.sig(), payload,
                         spec.version)

    def setup(self):
        p = self.p
        for s in self.plan['steps']:
            if s['op'] != 'shared':
                continue
            r = random.Random(s['seed'])
            spec = self.spec(s['cls'], r, s['omit'])
            obj = core.honest(self.w, 'construction of ' + s['cls'],
                              B.realize_msg, p, spec)
            core.honest(self.w, 'signing', obj.sign_message, spec.key.priv)
            spec.forged_sig = bytes(obj.sig)
            self.shared.append(Shared(obj, spec, self.frame_of(
                spec, False, r)))
            spec = self.spec(s['cls'], r, s['omit'], False)
            self.queue.append(Shared(core.honest(
                self.w, 'construction of ' + s['cls'], B.realize_msg, p,
                spec), spec, None))
        r = random.Random(self.plan['seed'])
        self.hspec = B.Gen(r, now=self.now).header(PEERS[0])
        self.header = core.honest(self.w, 'a header', B.realize, p,
                                  self.hspec)
        if self.plan['warm']:
            for to in PEERS:
                data = p.gm.dump(p.mod('message.base').RandVal(rand_val=1),
                                 self.node.key.priv, to.pub)
                self.aged(ref.Frame(data).payload, None)
                data = p.mod('shortcuts').ecies.encrypt(b'warm', to.pub)
                self.aged(data, None)
        self.work = {}
        for i, s in enumerate(self.plan['steps']):
            if s['op'] == 'do':
                fn = getattr(self, 'op_' + s['what'])(
                    s, random.Random(s['seed']), i)
                if fn is not None:
                    self.work.setdefault(s['th'] % self.plan['threads'],
                                         []).append((i, s, fn))

    def body(self, th):
        def run():
            for i, s, fn in self.work.get(th, ()):
                try:
                    fn()
                except core.Violation as v:
                    raise core.Violation(self.label + ': ' + v.key, v.detail)
                except Exception as e:  # pylint: disable=broad-except
                    raise core.Violation(
                        '%s: %s raised %s' % (self.label, s['what'],
                                              type(e).__name__),
                        '%s %s' % (core.describe(e), core.where(e)))
                self.w.log('done', self.label, th, i, s['what'])
                self.w.probe('op ' + s['what'])
        return run

    def check(self, ok, key, detail=''):
        self.w.check(ok, key, detail)

    @threads.quiet
    def same(self, obj, spec, key):
        """now, and when all is over"""
        want = B.want_msg(spec) if isinstance(spec, B.Msg) else B.want(spec)
        core.same(self.w, B.canon(obj), want, key)
        if len(self.kept) < 40:
            self.kept.append((lambda: B.canon(obj), want))

    @threads.quiet
    def outcome(self, i, value):
        """what must not depend on the others"""
        self.outcomes[i] = value
        if self.base is not None:
            self.check(self.base.outcomes.get(i) == value,
                       'another outcome', lambda: '%.300r alone, %.300r now'
                       % (self.base.outcomes.get(i), value))

    @threads.quiet
    def aged(self, box, began):
        """no key that was expired when the operation began"""
        now = self.node.clock_us()
        born = self.seen.setdefault(box[:65], now)
        if began is None or not self.forward:
            # with clocks set back, expiry is C07's business
            return
        self.w.probe('key reused' if born != now else 'new key')
        self.check(began - born <= 3600 * core.US + 1000,
                   'an expired ephemeral key is used', lambda:
                   '%.6f s old' % ((began - born) / 1e6))

    @threads.quiet
    def opened(self, data, spec, to, enc, fresh, began=None):
        """a frame made by the code, against the reference"""
        f = ref.Frame(data)
        self.check(f.type_ == spec.type_, 'a frame of another type')
        if fresh:
            self.check(f.ts in self.clocks, 'a frame of another time', f.ts)
            spec.ts = f.ts
        self.check(f.ts == spec.ts, 'a frame of another time', f.ts)
        self.check(f.version == spec.version, 'another version')
        self.check(f.enc is bool(enc), 'another mode of transport', spec.cls)
        payload = f.payload
        if enc:
            self.aged(payload, began)
            try:
                payload = ref.ecies_decrypt(payload, to.priv)
            except Exception as e:  # pylint: disable=broad-except
                raise core.Violation('the addressee cannot decrypt',
                                     core.describe(e))
            self.check(payload is not None, 'the addressee cannot decrypt')
        self.check(payload == spec.payload(), 'another content',
                   lambda: '%s: %s' % (spec.cls, payload.hex()[:300]))
        return f

    @threads.quiet
    def signed_by(self, f, spec, key):
        if spec.schema.sign:
            self.check(ref.verify(key.pub, f.sig, spec.hash()),
                       'a signature that does not verify', spec.cls)
        else:
            self.check(f.sig == ref.NO_SIG, 'an unexpected signature')

    @threads.quiet
    def good(self, key, sig, spec, what):
        self.check(ref.verify(key.pub, bytes(sig or b''), spec.hash()),
                   what, spec)

    # --- operations: prepare now, return what the thread does --------------

    def op_send(self, s, r, i):
        p, key = self.p, (self.node.key, PEERS[1])[s['x'] % 2]
        spec = self.spec(s['cls'], r, signed=False)
        to = PEERS[s['to']]
        enc = s['enc'] and spec.schema.encrypt
        pre = B.realize_msg(p, spec) if s['pre'] else None

        def fn():
            obj = pre or B.realize_msg(p, spec)
            began = self.node.clock_us()
            data = p.gm.dump(obj, key.priv, to.pub if s['enc'] else None)
            f = self.opened(data, spec, to, enc, True, began)
            self.signed_by(f, spec, key)
            self.check(bytes(obj.sig) == f.sig, 'another signature on the '
                       'message than on the wire')
            spec.forged_sig = f.sig
            self.same(obj, spec, 'a message changed while it was sent')
        return fn

    def op_load(self, s, r, i):
        p = self.p
        spec = self.spec(s['cls'], r)
        data = self.frame_of(spec, s['enc'] and spec.schema.encrypt, r)
        pub = spec.key.pub if s['x'] % 4 else None
        timely = not any(x['op'] == 'jump' for x in self.plan['steps'])

        def fn():
            for _ in range(s['n']):
                msg = p.gm.load(data, self.node.key.priv, pub, timely)
                self.same(msg, spec, 'another message was loaded')
        return fn

    def op_bad(self, s, r, i):
        p = self.p
        spec = self.spec(s['cls'], r)
        enc = s['enc'] and spec.schema.encrypt
        data = self.frame_of(spec, enc, r)
        priv, pub = self.node.key.priv, spec.key.pub
        how = s['x'] % 5
        if how == 0:
            pub = ref.Key('somebody').pub
        elif how == 1:
            priv = ref.Key('somebody').priv
        elif how == 2:
            data = data[:r.randrange(len(data))]
        elif how == 3:
            data = core.mutate(data, ['bit', r.randrange(1 << 16), 0])
        else:
            data = core.mutate(data, core.rmutation(r))
        err = p.mod('exceptions').MessageError

        def fn():
            for _ in range(s['n']):
                try:
                    out = B.canon(p.gm.load(data, priv, pub, False))
                except err as e:
                    out = type(e).__name__
                    self.w.probe('refused')
                self.outcome((i, _), out)
        return fn

    def op_share(self, s, r, i):
        p = self.p
        sh = self.pick(s, self.shared)
        if sh is None:
            return None
        to = PEERS[s['to']]

        def fn():
            for k in range(s['n']):
                enc = s['enc'] ^ (k == 1)
                began = self.node.clock_us()
                data = p.gm.dump(sh.obj, None, to.pub if enc else None)
                if not enc or not sh.spec.schema.encrypt:
                    self.check(data == sh.frame, 'a shared message was '
                               'dumped differently', sh.spec.cls)
                f = self.opened(data, sh.spec, to,
                                enc and sh.spec.schema.encrypt, False,
                                began)
                self.check(f.sig == sh.spec.sig(), 'a shared message was '
                           'dumped with another signature')
        return fn

    @staticmethod
    def pick(s, seq):
        return seq[s['x'] % len(seq)] if seq else None

    def op_look(self, s, r, i):
        sh = self.pick(s, self.shared)
        if sh is None:
            return None
        twin = B.realize_msg(self.p, sh.spec)
        twin.header, twin.sig = sh.obj.header, sh.spec.sig()
        hash_, payload = sh.spec.hash(), sh.spec.payload()

        def fn():
            self.outcome((i, 'repr'), repr(sh.obj))
            self.check(sh.obj == twin and twin == sh.obj,
                       'equality went wrong', sh.spec.cls)
            self.check(sh.obj.get_short_hash() == hash_, 'another hash',
                       sh.spec.cls)
            self.check(self.p.mod('serializer').dumps(sh.obj.slots())
                       == payload, 'other slots', sh.spec.cls)
        return fn

    def op_verify(self, s, r, i):
        sh = self.pick(s, self.shared)
        if sh is None:
            return None
        bad = self.p.mod('exceptions').InvalidSignature

        def fn():
            for _ in range(s['n']):
                self.check(sh.obj.verify_signature(sh.spec.key.pub) is True,
                           'a genuine signature does not verify')
                try:
                    sh.obj.verify_signature(PEERS[s['to']].pub)
                except bad:
                    pass
                else:
                    self.check(False, 'verifies for the wrong key')
        return fn

    def op_owners(self, s, r, i):
        spec = self.spec(HEAVY[s['x'] % len(HEAVY)], r)
        obj = self.p.gm.load(self.frame_of(spec, False, r), None, None,
                             False)
        d = spec.deal
        bad = self.p.mod('exceptions').MessageError

        def fn():
            self.check(obj.verify_owners(
                provider_public_key=d.provider.pub,
                requestor_public_key=d.requestor.pub,
                concent_public_key=d.concent.pub) is True,
                'owners do not verify')
            try:
                obj.verify_owners(provider_public_key=d.requestor.pub,
                                  concent_public_key=d.concent.pub)
            except bad as e:
                self.outcome((i, 'wrong'), type(e).__name__)
            else:
                self.check(False, 'verifies for wrong owners')
        return fn

    def op_notes(self, s, r, i):
        if s['seed'] % 3:           # slow
            return self.op_owners(s, r, i)
        spec = self.spec('TaskToCompute', r)
        d = spec.deal
        obj = self.p.gm.load(self.frame_of(spec, False, r), None, None,
                             False)
        amount = spec.fields['price']
        req, prov = (d.req_eth.address, d.prov_eth.address)

        def fn():
            obj.sign_all_promissory_notes(d.contract, d.req_eth.priv)
            for sig, to in ((obj.promissory_note_sig, prov),
                            (obj.concent_promissory_note_sig, d.contract)):
                self.check(ref.note_signer(
                    tuple(sig), d.contract, req, to, amount,
                    d.subtask_id) == req, 'a note is signed wrongly')
            self.check(obj.verify_all_promissory_notes(d.contract) is True,
                       'notes do not verify')
        return fn

    def op_header(self, s, r, i):
        key = PEERS[s['to']]
        spec = B.Gen(r, now=self.now).header(key, signed=False)
        bad = self.p.mod('exceptions').InvalidSignature

        def fn():
            h = B.realize(self.p, spec)
            h.sign(key.priv)
            self.good(key, h.signature, spec, 'a header is signed wrongly')
            for o, k in ((h, key), (self.header, PEERS[0])):
                self.check(o.verify(k.pub) is True,
                           'a header does not verify')
                try:
                    o.verify(ref.Key('somebody').pub)
                except bad:
                    pass
                else:
                    self.check(False, 'a header verifies for anybody')
        return fn

    def op_mask(self, s, r, i):
        bits, more, less = (r.randrange(257) for _ in range(3))

        def fn():
            mask = self.p.mod('datastructures.masking').Mask
            m = mask.generate(bits)
            have = bits
            self.check(m.num_bits == have, 'another number of bits')
            before = m.to_bits()
            m.increase(more)
            have = min(256, have + more)
            self.check(m.num_bits == have and before <= m.to_bits(),
                       'increase went wrong')
            before = m.to_bits()
            m.decrease(less)
            have = max(0, have - less)
            self.kept.append((lambda: m.num_bits, have))
            self.check(m.num_bits == have and m.to_bits() <= before,
                       'decrease went wrong')
            self.check(self.p.mod('datastructures.masking').Mask()
                       .to_bytes() == bytes(32), 'an empty mask is not')
        return fn

    def op_ids(self, s, r, i):
        key = (self.node.key, PEERS[0], PEERS[1])[s['x'] % 3]

        def fn():
            g = self.p.mod('idgenerator')
            last = None
            for k in range(s['n'] * 2):
                if last is None or k % 3 == 0:
                    last = g.generate_id(key.pub)
                elif k % 3 == 1:
                    last = g.generate_id_from_hex(key.hex)
                else:
                    last = g.generate_new_id_from_id(last)
                self.check(last not in self.ids, 'an id is repeated', last)
                self.ids.add(last)
                self.check(uuid.UUID(last).node == int(key.hex[:12], 16)
                           and g.check_id_seed(last, key.pub) is True
                           and g.check_id_hex_seed(last, key.hex) is True,
                           'an id names another creator', last)
                self.check(g.check_id_seed(last, ref.Key('x').pub) is False,
                           'an id names everybody')
        return fn

    def op_ecies(self, s, r, i):
        to = PEERS[s['to']]
        text = r.getrandbits(8 * 40).to_bytes(40, 'big') * s['n']
        mac = b'mac' if s['x'] % 4 == 0 else b''
        box = ref.ecies_encrypt(
            text[::-1], self.node.key.pub, r.getrandbits(240).to_bytes(
                32, 'big'), r.getrandbits(128).to_bytes(16, 'big'), mac)

        def fn():
            e = self.p.mod('shortcuts').ecies
            for _ in range(s['n']):
                began = self.node.clock_us()
                out = e.encrypt(text, to.pub, mac)
                self.aged(out, began)
                got = threads.quiet(ref.ecies_decrypt)(out, to.priv, mac)
                self.check(got == text, 'another text was encrypted')
                self.check(e.decrypt(box, self.node.key.priv, mac)
                           == text[::-1], 'another text was decrypted')
        return fn

    def op_struct(self, s, r, i):
        g = B.Gen(r, now=self.now)
        deal = self.deal(r)
        specs = [g.ctd(deal), g.node(), g.peer(), g.stats(), g.fileinfo()]
        if s['pre']:
            specs = specs[s['x'] % 5:][:1]

        def fn():
            for v in specs:
                self.same(B.realize(self.p, v), v,
                          'a structure with other contents')
            ctd = self.p.mod('message.tasks').ComputeTaskDef
            cpu = self.p.mod('datastructures.stats').CpuUsage
            for k in range(4):
                a, b, c, d = ctd(), ctd(), cpu(), cpu()
                a['extra_data'][s['th']] = k
                a['resources'].append(i)
                c['percpu_usage'].append(i)
                self.check(b['extra_data'] == {} and b['resources'] == []
                           and a['extra_data'] == {s['th']: k}
                           and a['resources'] == [i]
                           and c['percpu_usage'] == [i]
                           and d['percpu_usage'] == [],
                           'definitions share defaults', (a, b, c, d))
                self.kept.append((
                    lambda a=a, b=b, c=c, d=d: (
                        a['extra_data'], a['resources'], b['extra_data'],
                        b['resources'], c['percpu_usage'],
                        d['percpu_usage']),
                    ({s['th']: k}, [i], {}, [], [i], [])))
        return fn

    def op_queue(self, s, r, i):
        q = self.pick(s, self.queue)
        if q is None:
            return None
        key = PEERS[s['to']]

        def fn():
            m = self.p.mod('utils').copy_and_sign(q.obj, key.priv)
            spec = B.Msg(q.spec.cls, q.spec.fields, q.spec.ts, key,
                         version=q.spec.version)
            self.good(key, m.sig, spec, 'a signed copy does not verify')
            spec.forged_sig = bytes(m.sig)
            self.same(m, spec, 'a signed copy with other contents')
            if s['n'] > 1:
                data = self.p.gm.dump(m, None, key.pub if s['enc'] else None)
                self.opened(data, spec, key,
                            s['enc'] and spec.schema.encrypt, False)
        return fn

    def op_hello(self, s, r, i):
        spec = self.spec('Hello', r)
        ver = ['2.15.0', '2.15.9', '2.14.9', '2.16.0', '1.15.0', 'x',
               '3.0.0', '2.15.1+b'][s['x'] % 8]
        spec.version = ver
        data = self.frame_of(spec, False, r)
        good = ver.startswith('2.15.')
        err = self.p.mod('exceptions').VersionMismatchError

        def fn():
            for _ in range(s['n']):
                try:
                    self.p.gm.load(data, None, spec.key.pub, False)
                except err:
                    self.check(not good, 'a compatible peer is refused', ver)
                else:
                    self.check(good, 'an incompatible peer is met', ver)
        return fn

    def op_make(self, s, r, i):
        spec = self.spec(s['cls'], r, signed=False)

        def fn():
            m = B.realize_msg(self.p, spec)
            self.check(m.timestamp in self.clocks, 'another time')
            spec.ts = m.timestamp
            self.check(m.sig is None, 'a new message is signed')
            m.sign_message(self.node.key.priv)
            spec.forged_sig = bytes(m.sig)
            self.good(self.node.key, m.sig, spec, 'signed wrongly')
            self.same(m, spec, 'a new message with other contents')
        return fn

    # --- afterwards --------------------------------------------------------

    def audit(self):
        w, p = self.w, self.p
        try:
            for sh in self.shared:
                core.same(w, B.canon(sh.obj), B.want_msg(sh.spec),
                          'a shared message changed')
            for q in self.queue:
                core.same(w, B.canon(q.obj), B.want_msg(q.spec),
                          'a queued original changed')
            for fn, want in self.kept:
                core.same(w, fn(), want, 'changed by what others did')
            core.same(w, B.canon(self.header), B.want(self.hspec),
                      'a shared header changed')
            # and everybody can still be written to and read
            spec = B.Msg('RandVal', {'rand_val': 'after'}, self.node.now())
            for to in PEERS:
                for enc in (True, False):
                    obj = B.realize_msg(p, spec)
                    spec.ts = obj.timestamp
                    data = p.gm.dump(obj, self.node.key.priv,
                                     to.pub if enc else None)
                    self.signed_by(self.opened(data, spec, to, enc, False),
                                   spec, self.node.key)
            spec = self.spec('RandVal', random.Random(1))
            for enc in (True, False):
                msg = p.gm.load(self.frame_of(spec, enc, random.Random(2)),
                                self.node.key.priv, spec.key.pub, False)
                core.same(w, B.canon(msg), B.want_msg(spec),
                          'another message was loaded')
        except core.Violation as v:
            raise core.Violation('afterwards, %s: %s' % (self.label, v.key),
                                 v.detail)
        except Exception as e:  # pylint: disable=broad-except
            raise core.Violation('afterwards, %s: %s' % (
                self.label, type(e).__name__),
                '%s %s' % (core.describe(e), core.where(e)))


def run(w, plan):
    node = w.nodes[0]
    n = plan['threads']

    def go(label, base, before):
        seams.reseed(plan['seed'] & 0xffffffff)
        with node.p:
            job = Run(w, node, plan, label, base)
            job.setup()

            def on_jump(i, us, where, line):
                node.jump(us)
                job.clocks.add(node.now())
                w.fault('clock_jump_back' if us < 0 else
                        'clock_jump_forward')
                w.log('jump', i, us, where, line)

            def on_switch(i, to, where, line):
                w.fault('preemption')
                w.log('switch', i, to, where, line)

            sch = threads.Scheduler([job.body(i) for i in range(n)],
                                    on_switch, on_jump)
            if before is None:
                for s in plan['steps']:
                    if s['op'] == 'jump' and s['at'] == 0:
                        # what expiry does is seen when alone, too
                        sch.plan(s['th'] % n, 1, 'jump', s['us'])
            else:
                lines = [t.lines for t in before.threads]
                sch.limit = 20 * max(lines) + 100_000
                for s in plan['steps']:
                    if s['op'] in ('switch', 'jump'):
                        th = s['th'] % n
                        sch.plan(th, 1 + s['at'] * lines[th] // 10 ** 6,
                                 s['op'], s['to'] % n if s['op'] == 'switch'
                                 else s['us'])
                    elif s['op'] == 'dense':
                        th = s['th'] % n
                        at = 1 + s['at'] * lines[th] // 10 ** 6
                        for x in range(at, at + s['len'], s['k']):
                            sch.plan(th, x, 'switch', (th + 1) % n)
                    elif s['op'] == 'spot':
                        th = s['th'] % n
                        order = before.threads[th].order
                        if s.get('rare'):
                            # what is done once only: filling of caches,
                            # expiry, first registrations
                            order = before.threads[th].rare() or order
                        if order:
                            sch.plan_spot(
                                th, order[s['at'] * len(order) // 10 ** 6],
                                s['nth'], s['to'] % n)
            sch.run()
            if sch.error is not None:
                raise sch.error
            if sch.trouble is not None:
                raise core.Violation('%s: %s' % (label, sch.trouble[0]),
                                     sch.trouble[1])
            job.audit()
            return job, sch

    alone, sch = go('in turn', None, None)
    lines = [t.lines for t in sch.threads]
    w.log('lines', lines)
    node.start()
    w.probe('lines', sum(lines))
    go('interleaved', alone, sch)
