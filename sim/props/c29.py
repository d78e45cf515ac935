"""A node that serves for a long time keeps no more than one that began."""
import random

from .. import aborts
from .. import build as B
from .. import core
from .. import ref
from .. import weigh
from . import c01

EPISODES = 60
RULE = ('a node serves thousands of ever different peers, messages, ids, '
        'offers, notes and failures, with damaged and hostile traffic, '
        'failing entropy, operations cut off in the middle, clock jumps and '
        'restarts; what the process keeps (every object reachable from the '
        'package) and what one message costs (lines executed) must stop '
        'growing.')

KINDS = ['seal', 'open', 'receive', 'make', 'chain', 'refuse', 'ids',
         'offers', 'notes', 'convert', 'managers', 'observe', 'cut',
         'register', 'entropy']
# how many different things the caches of the library hold, and then some
WARM, MORE, BLOCK = 1100, 500, 100
SLACK = 30
FILL = ('cut', 'entropy', 'managers')


def plan(r, index):
    kinds = [KINDS[index % len(KINDS)]]
    if r.random() < 0.5:
        kinds.append(r.choice(KINDS))
    steps = []
    t = 0
    # the caches of keys are full before anything is judged
    slow = r.random() < 0.3
    fill = slow or any(k in FILL for k in kinds)
    if fill:
        steps += [{'op': 'fill', 't': 0, 'n': 0, 'seed': core.rseed(r)}
                  for _ in range(WARM // BLOCK)]
    left = (WARM + MORE) // BLOCK
    while left:
        for k in kinds:
            t += core.MINUTE
            steps.append({'op': 'serve', 't': t, 'n': 0, 'kind': k,
                          'seed': core.rseed(r)})
        left -= 1
        if slow and left % 3 == 0:
            # the keys expire
            steps.append({'op': 'jump', 't': t + 1, 'n': 0,
                          'us': 2 * core.HOUR})
    if not fill and r.random() < 0.2:
        # an earlier life has nothing to do with it
        steps.append({'op': 'restart', 't': core.MINUTE + 1, 'n': 0})
    return {'cfg': core.rcfg(r), 'nodes': core.rnodes(
        r, 1, versions=['2.15.0']), 'steps': core.ordered(steps)}


def run(w, plan):
    node = w.nodes[0]
    life = {}                # since the process started

    def fresh():
        life.clear()
        life.update(boots=node.boots, served={}, weights=[], base=None,
                    peers=0, probe=None)
        if node.up:
            life['probe'] = frames(random.Random(7), 3)

    def number():
        w.peers = getattr(w, 'peers', 0) + 1
        return w.peers

    def new_key():
        return ref.Key('peer %d' % number())

    def frames(r, n, signer=None):
        """genuine messages for this node"""
        out = []
        for _ in range(n):
            k = signer or new_key()
            cls = r.choice(['RandVal', 'Ping', 'RemoveTask', 'TaskToCompute',
                            'ReportComputedTask', 'ChallengeSolution',
                            'Disconnect', 'FileTransferToken', 'Peers',
                            'Hello', r.choice(B.ALL), r.choice(B.ALL)])
            g = B.Gen(r, now=node.now(), omit=.6, big=0)
            m = g.message(cls, c01.deal_for(w, r, k))
            m.ts = node.now()
            m.enc = False
            if cls == 'Hello':
                m.version = '2.15.%d' % number()
            if m.schema.sign:
                m.signer = k
            out.append((m, k, ref.frame(m.type_, m.ts, False,
                                        m.sig() or ref.NO_SIG, m.payload(), m.version)))
        return out

    def load(data, pub=None, check=False):
        return node.p.gm.load(data, node.key.priv, pub, check)

    # --- services: one thing never seen before -----------------------------

    def seal(r):
        k = new_key()
        msg = node.p.mod('message.base').RandVal(rand_val=r.random())
        node.p.gm.dump(msg, node.key.priv, k.pub)

    def open_(r):
        k = new_key()
        ts = node.now()
        payload = ref.cbor([['rand_val', r.random()]])
        sig = k.sign(ref.short_hash(1, ts, payload))
        e = ref.Key('ephemeral %d' % number())
        sealed = ref.ecies_encrypt(payload, node.key.pub, e.priv,
                                   r.getrandbits(128).to_bytes(16, 'big'))
        msg = load(ref.frame(1, ts, True, sig, sealed), k.pub, True)
        w.check(msg.timestamp == ts, 'another timestamp')

    def receive(r):
        for m, k, data in frames(r, 1):
            load(data, k.pub if m.schema.sign else None, True)

    def make(r):
        cls = r.choice(B.ALL)
        g = B.Gen(r, now=node.now(), omit=.6, big=0)
        spec = g.message(cls, c01.deal_for(w, r, node.key))
        obj = B.realize_msg(node.p, spec)
        node.p.gm.dump(obj, node.key.priv, None)

    def chain(r):
        keys = [new_key() for _ in range(3)]
        deal = B.Deal(r, *keys)
        g = B.Gen(r, now=node.now(), omit=.6, big=0)
        cls = r.choice(['AckReportComputedTask', 'SubtaskResultsAccepted',
                        'ForceReportComputedTask', 'SubtaskResultsRejected'])
        m = g.message(cls, deal, node.now())
        m.signer = deal.key(m.schema.owners[0])
        data = ref.frame(m.type_, m.ts, False, m.sig(), m.payload())
        msg = load(data, m.signer.pub)
        w.check(msg.verify_owners(
            provider_public_key=deal.provider.pub,
            requestor_public_key=deal.requestor.pub,
            concent_public_key=deal.concent.pub) is True, 'not verified')
        for a in ('task_id', 'subtask_id', 'requestor_id', 'provider_id'):
            getattr(msg, a)
        node.p.mod('helpers').subtask_verification_time(
            msg.task_to_compute and B_rct(msg))

    def B_rct(msg):
        class Report:
            size = 5
            task_to_compute = msg.task_to_compute
            subtask_id = msg.subtask_id
        return Report

    def refuse(r):
        err = core.msg_error(node)
        m, k, data = frames(r, 1)[0]
        how = r.randrange(8)
        pub = k.pub if m.schema.sign else None
        check = False
        if how == 0:
            data = core.mutate(data, core.rmutation(r))
        elif how == 1:
            pub = new_key().pub
        elif how == 2:
            data = ref.frame(r.randrange(5000, 65536), m.ts, False,
                             data[11:76], m.payload())
        elif how == 3:
            ts = node.now() - r.randrange(1000, 10 ** 6)
            data = ref.frame(m.type_, ts, False, data[11:76], m.payload())
            check = True
        elif how == 4:
            data = data[:76] + bytes(r.getrandbits(8) for _ in range(40))
        elif how == 7:
            data = ref.frame(0, m.ts, False, data[11:76], ref.cbor([]),
                             '3.%d.0' % number())
        elif how == 5:
            data = ref.frame(m.type_, m.ts, True, data[11:76], bytes(
                [4]) + bytes(r.getrandbits(8) for _ in range(200)))
        else:
            payload = ref.cbor([['no such slot %d' % number(), 1],
                                [number(), r.random()]])
            data = ref.frame(m.type_, m.ts, False, k.sign(ref.short_hash(
                m.type_, m.ts, payload)), payload)
        try:
            load(data, pub, check)
        except err:
            w.fault('refused')

    def ids(r):
        g = node.p.mod('idgenerator')
        seed = r.getrandbits(256).to_bytes(32, 'big')
        i = g.generate_id(seed)
        g.check_id_seed(i, seed)
        g.check_id_hex_seed(g.generate_new_id_from_id(i), seed.hex())
        g.generate_id_from_hex(seed.hex())
        g.check_id_seed('no id %d' % number(), seed)

    def offers(r):
        dt = node.p.mod('datastructures.tasks')
        mk = node.p.mod('datastructures.masking')
        k = new_key()
        h = B.Gen(r, now=node.now(), omit=.5, big=0).header(k)
        th = dt.TaskHeader(**B.realize(node.p, h).to_dict())
        th.verify(k.pub)
        repr(th)
        m = mk.Mask.generate(r.choice([1, 4, 9]))
        m.increase(2)
        m.decrease(1)
        m.matches(k.pub)
        mk.Mask.get_mask_for_task(2, 2 + number())
        try:
            dt.TaskHeader(task_id='x' * 200, subtasks_count=number())
        except node.p.mod('exceptions').FieldError:
            w.fault('refused')

    def notes(r):
        N = node.p.mod('datastructures.promissory').PromissoryNote
        k = new_key()
        note = N(address_from=k.address, address_to=node.key.address,
                 amount=number(), subtask_id=B.make_id(r, k.hex),
                 contract_address=new_key().address)
        w.check(note.sig_valid(note.sign(privkey=k.priv)),
                'a note does not verify')

    def convert(r):
        u, c = node.p.mod('utils'), node.p.mod('cryptography')
        h = node.p.mod('helpers')
        k = new_key()
        for x in (k.pub, k.hex, int.from_bytes(k.pub, 'big')):
            u.pubkey_to_address(x)
        u.decode_hex(u.encode_hex(k.priv))
        c.privtopub(k.priv)
        c.mk_privkey(k.hex)
        e = c.ECCx(k.priv)
        sig = e.sign(ref.sha3(k.pub))
        e.verify(sig, ref.sha3(k.pub))
        h.maximum_download_time(number() << 20)
        h.provider_deposit_amount(number())

    def managers(r):
        c = node.p.mod('cryptography')
        e = c.ECIES(c.ECIESKeyManager(r.choice([1, 60, 3600])))
        e.encrypt(b'%d' % number(), node.key.pub)

    def observe(r):
        m, k, data = frames(r, 1)[0]
        u = node.p.mod('utils')
        a, b = load(data), load(data)
        w.check(a == b, 'two copies differ')
        repr(a), str(a), a.get_short_hash(), a.slots()
        if m.schema.sign:
            a.verify_signature(k.pub)
        u.copy_and_sign(node.p.mod('message.base').RandVal(
            rand_val=number()), node.key.priv)

    def cut(r):
        """whatever it is, it is cut off"""
        fn = SERVICES[r.choice(['seal', 'make', 'ids', 'offers', 'convert',
                                'observe', 'managers'])]
        t = aborts.Tracer(at=r.randrange(1, 150), kind=r.choice(
            sorted(aborts.KINDS)))
        try:
            t.run(lambda: fn(r))
        except BaseException:  # pylint: disable=broad-except
            if t.fired is None:
                raise
            w.fault('abort')

    def register(r):
        """numbers that are taken stay taken, by the same"""
        lib = node.p.mod('register').library
        base = node.p.mod('message.base')
        try:
            lib.register(r.choice([0, 1, 1001, 2001, 4001]))(type(
                'Late%d' % number(), (base.Message,), {'__slots__': []}))
        except RuntimeError:
            w.fault('refused')
        else:
            raise core.Violation('a taken number was given away')

    def entropy(r):
        fn = SERVICES[r.choice(['seal', 'managers', 'notes', 'ids'])]
        try:
            aborts.with_entropy_failure(r.choice([1, 1, 2]), lambda: fn(r))
        except OSError:
            w.fault('entropy_failure')

    SERVICES = {'seal': seal, 'open': open_, 'receive': receive, 'make': make,
                'chain': chain, 'refuse': refuse, 'ids': ids,
                'offers': offers, 'notes': notes, 'convert': convert,
                'managers': managers, 'observe': observe, 'cut': cut,
                'register': register, 'entropy': entropy}

    # --- judgement ---------------------------------------------------------

    def cost():
        """lines of the library one known message takes"""
        def go():
            for m, k, data in life['probe']:
                load(data, k.pub if m.schema.sign else None)
            node.p.gm.dump(node.p.mod('message.base').RandVal(rand_val=1),
                           node.key.priv, None)
        t = aborts.Tracer()
        t.run(go)
        return t.lines

    def do_serve(s):
        if not node.up:
            return
        if life.get('boots') != node.boots:
            fresh()
        r = random.Random(s['seed'])
        fn = SERVICES[s['kind']]
        with node.p:
            for _ in range(BLOCK):
                core.honest(w, s['kind'], fn, r)
                w.t += 1000
            life['served'][s['kind']] = life['served'].get(
                s['kind'], 0) + BLOCK
            lines = cost()
            weight = weigh.weigh(node.p)
        w.checks += 1
        w.probe(s['kind'], BLOCK)
        life['weights'].append(weight)
        w.log('served', s['kind'], life['served'][s['kind']], weight, lines)
        if 'lines' not in life:
            life['lines'] = lines
        w.check(lines <= life['lines'] * 1.5 + 20,
                'a message costs ever more', lambda: '%d lines at first, %d '
                'after %r' % (life['lines'], lines, life['served']))
        warm = min(life['served'].values()) >= WARM
        if not warm:
            return
        if life['base'] is None or s['kind'] not in life['since']:
            life['base'] = max(life['weights'])
            life['since'] = dict(life['served'])
            return
        w.check(weight <= life['base'] + SLACK, 'ever more is kept',
                lambda: '%d entries after %r, %d after %r' % (
                    life['base'], life['since'], weight, life['served']))

    def do_fill(s):
        if not node.up:
            return
        r = random.Random(s['seed'])
        with node.p:
            for _ in range(BLOCK):
                core.honest(w, 'managers', managers, r)   # the heaviest
                node.p.mod('datastructures.masking').Mask.get_mask_for_task(
                    2, 2 + number())
        w.log('fill')

    w.run({'serve': do_serve, 'fill': do_fill})
