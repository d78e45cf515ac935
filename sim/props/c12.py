"""Promissory notes at every node that comes to hold them."""
import random

from .. import build as B
from .. import chain
from .. import core
from .. import ref

EPISODES = 500
RULE = ('requestors and providers sign deposit notes, the messages carrying '
        'them travel, alone and embedded, through delays, duplicates and '
        'restarts, and every holder verifies them; in between, copies with '
        'another amount, subtask, payer, payee, contract or signature - on '
        'the wire or in memory - are verified too, against an independent '
        'implementation of the note.')

CARRIERS = ('TaskToCompute', 'TaskToCompute', 'ReportComputedTask',
            'AckReportComputedTask', 'SubtaskResultsRejected',
            'SubtaskResultsVerify', 'SubtaskResultsVerify',
            'AckSubtaskResultsVerify', 'ForceSubtaskResults', 'TaskFailure')
ALTER = ('amount', 'amount', 'subtask', 'payer', 'payee', 'contract',
         'evil', 'swap', 'missing', 'corrupt', 'payee_key', 'other_deal',
         'nothing', 'zero', 'prefix', 'range', 'contract_key',
         'lookalike')
LOOSE = ('nothing', 'from', 'from', 'to', 'contract', 'amount', 'subtask',
         'key', 'sig', 'claims', 'claims')


def plan(r, index):
    steps = []
    for k in range(r.choice([2, 3, 4])):
        t = r.randrange(core.MINUTE)
        cls = CARRIERS[(index + k) % len(CARRIERS)]
        base = {'id': k, 'cls': cls, 'chain': core.rseed(r),
                'price': r.choice(['0', '1', '2', str(10 ** 18), '255',
                                   '256', str(r.getrandbits(100)),
                                   str(2 ** 255), str(2 ** 256 - 1)])}
        steps.append(dict(base, op='issue', t=t, n=r.randrange(2),
                          net=[core.rnet(r), core.rnet(r)],
                          lower=r.random() < .3))
        for _ in range(r.choice([3, 5, 8])):
            t += r.randrange(core.MINUTE)
            steps.append(dict(base, op='alter', t=t, n=r.randrange(3),
                              how=r.choice(ALTER), seed=core.rseed(r),
                              memory=r.random() < .5,
                              which=r.choice(['note', 'concent'])))
    for _ in range(r.choice([1, 3])):
        steps.append({'op': 'loose', 't': r.randrange(2 * core.MINUTE),
                      'n': r.randrange(3), 'how': r.choice(LOOSE),
                      'seed': core.rseed(r)})
    steps += core.crashes(r, 3, 2 * core.MINUTE, r.choice([0, 0, 1]))
    return {'cfg': core.rcfg(r, .1), 'nodes': core.rnodes(
        r, 3, versions=['2.15.0']), 'steps': core.ordered(steps)}


def run(w, plan):
    evil = ref.Key('forger')
    store = {}

    def get(s):
        key = s['id']
        if key not in store:
            r = random.Random(s['chain'])
            ks = [ref.Key('party%d' % i) for i in range(5)]
            r.shuffle(ks)
            deal = B.Deal(r, ks[0], ks[1], ks[2], req_eth=r.choice(
                [ks[0], ks[3]]), prov_eth=r.choice([ks[1], ks[4]]))
            g = B.Gen(r, now=w.nodes[0].now(), omit=.4)
            ttc = g._ttc(deal)
            ttc.fields['price'] = int(s['price'])
            notes(ttc, deal)
            m = g.message(s['cls'], deal)
            if s['cls'] == 'SubtaskResultsVerify':
                m.fields['concent_promissory_note_sig'] = prov_note(m, deal)
            elif s['cls'] == 'AckSubtaskResultsVerify':
                v = m.fields['subtask_results_verify']
                v.fields['concent_promissory_note_sig'] = prov_note(v, deal)
            m.signer = deal.key(m.schema.owners[0])
            store[key] = (m, deal)
        return store[key]

    def args(ttc, deal, which):
        """(payer, payee, amount, subtask) of a note of the assignment"""
        f = ttc.fields
        payer = ref.checksum_address(ref.keccak256(bytes.fromhex(
            f['requestor_ethereum_public_key']))[12:])
        payee = f['want_to_compute_task'].fields['provider_ethereum_address']
        return (payer, payee if which == 'note' else deal.contract,
                f['price'], f['compute_task_def'].given['subtask_id'])

    def swap_contract(parts, deal, contract):
        return tuple(contract if x == deal.contract else x for x in parts)

    def notes(ttc, deal, key=None):
        for which, slot in (('note', 'promissory_note_sig'),
                            ('concent', 'concent_promissory_note_sig')):
            ttc.fields[slot] = B.NoteSig(*ref.note_sign(
                key or deal.req_eth, deal.contract,
                *args(ttc, deal, which)))

    def prov_args(ttc, deal):
        f = ttc.fields
        payee = f['want_to_compute_task'].fields['provider_ethereum_address']
        return (payee, deal.contract, f['price'],
                f['compute_task_def'].given['subtask_id'])

    def prov_note(v, deal, key=None):
        return B.NoteSig(*ref.note_sign(
            key or deal.prov_eth, deal.contract,
            *prov_args(chain.own_ttc(v), deal)))

    def wire(m):
        return ref.frame(m.type_, m.ts, False, m.sig() or ref.NO_SIG,
                         m.payload())

    def issue(s):
        """the real signer signs; its notes are the reference's"""
        node = w.nodes[s['n']]
        if not node.up:
            return
        m, deal = get(s)
        ttc = chain.own_ttc(m)
        f = {k: v for k, v in ttc.fields.items()
             if not k.endswith('note_sig')}
        contract = deal.contract.lower() if s['lower'] else deal.contract
        with node.p:
            obj = core.honest(w, 'construction', B.realize_msg, node.p,
                              B.Msg('TaskToCompute', f, ttc.ts), True)
            for check in (obj.verify_promissory_note,
                          obj.verify_concent_promissory_note,
                          obj.verify_all_promissory_notes):
                ok = core.honest(w, 'verification of a missing note', check,
                                 contract)
                w.check(not ok, 'a missing note verifies')
            if s['chain'] % 2:
                core.honest(w, 'signing notes', obj.sign_all_promissory_notes,
                            contract, deal.req_eth.priv)
            else:
                core.honest(w, 'signing a note', obj.sign_promissory_note,
                            contract, deal.req_eth.priv)
                core.honest(w, 'signing a note',
                            obj.sign_concent_promissory_note, contract,
                            deal.req_eth.priv)
            for slot in ('promissory_note_sig',
                         'concent_promissory_note_sig'):
                w.check(B.canon(getattr(obj, slot)) == B.want(
                    ttc.fields[slot]), 'a note is not over its parts', slot)
            if m.cls == 'SubtaskResultsVerify':
                v = core.honest(w, 'construction', B.realize_msg, node.p,
                                B.Msg(m.cls, {
                                    k: x for k, x in m.fields.items()
                                    if not k.endswith('note_sig')}, m.ts),
                                True)
                core.honest(w, 'signing a note',
                            v.sign_concent_promissory_note, contract,
                            deal.prov_eth.priv)
                w.check(B.canon(v.concent_promissory_note_sig) == B.want(
                    m.fields['concent_promissory_note_sig']),
                    'a provider note is not over its parts')
        w.log('issue', node.name, m.cls)
        for i, net in enumerate(s['net']):
            to = (s['n'] + 1 + i) % len(w.nodes)
            w.transmit(s['n'], to, wire(m), net, hold, m, deal)

    def hold(node, data, _damaged, m, deal):
        msg = core.load_ok(w, node, data, None, m.signer.pub)
        with node.p:
            core.same(w, B.canon(msg), B.want_msg(m), 'a carrier differs')
            check_all(node, msg, m, deal, True, 'held')
        w.log('hold', node.name, m.cls)

    def say(what, fn, contract):
        """-> verdict; trouble with a malformed note is a refusal"""
        try:
            return fn(contract)
        except (core.Violation, core.HarnessError):
            raise
        except Exception as e:  # pylint: disable=broad-except
            w.probe('refused ' + type(e).__name__)
            return ('error', e)

    def check_all(node, msg, m, deal, honest, how, contract=None):
        """real verdicts against the reference's"""
        contract = contract or deal.contract
        for o, x in chain.real_links(node.p, msg, m):
            if x.cls == 'TaskToCompute':
                good = {}
                f = x.fields
                payer, payee, amount, sub = args(x, deal, 'note')
                good['verify_promissory_note'] = ref_ok(
                    f.get('promissory_note_sig'), contract, payer, payee,
                    amount, sub)
                good['verify_concent_promissory_note'] = ref_ok(
                    f.get('concent_promissory_note_sig'), contract, payer,
                    contract, amount, sub)
                good['verify_all_promissory_notes'] = all(good.values())
            elif x.cls == 'SubtaskResultsVerify':
                payer, _payee, amount, sub = prov_args(chain.own_ttc(x),
                                                       deal)
                good = {'verify_concent_promissory_note': ref_ok(
                    x.fields.get('concent_promissory_note_sig'), contract,
                    payer, contract, amount, sub)}
            else:
                continue
            for name, want in good.items():
                got = say(name, getattr(o, name), contract)
                if honest:
                    w.check(want, 'reference refuses an honest note', how)
                if want:
                    w.check(got is True, 'a good note does not verify',
                            lambda: '%s of %s: %r %s' % (name, x.cls, got,
                                                         how))
                else:
                    w.check(not got or isinstance(got, tuple),
                            'a bad note verifies',
                            lambda: '%s of %s, %s' % (name, x.cls, how))

    def ref_ok(sig, contract, payer, payee, amount, sub):
        if sig is None:
            return False
        try:
            got = ref.note_signer(B.wire(sig), contract, payer, payee,
                                  amount, sub)
        except Exception:  # pylint: disable=broad-except
            return False
        return got is not None and got == payer

    def alter(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        m, deal = get(s)
        r = random.Random(s['seed'])
        m = clone(m)
        how = s['how']
        contract = None
        ttc = chain.own_ttc(m)
        f = ttc.fields
        slot = {'note': 'promissory_note_sig',
                'concent': 'concent_promissory_note_sig'}[s['which']]
        vs = [x for x in chain.links(m) if x.cls == 'SubtaskResultsVerify']
        holder = vs[0].fields if vs and s['which'] == 'concent' \
            and r.random() < .6 else f
        if how == 'amount':
            a = f['price']
            f['price'] = r.choice([a + 1, max(a - 1, 0), a << 8, a >> 8,
                                   a ^ 1 << r.randrange(256),
                                   a ^ 1 << 255]) % (1 << 256)
        elif how == 'subtask':
            d = dict(f['compute_task_def'].given)
            d['subtask_id'] = r.choice([
                d['task_id'], B.make_id(r, deal.requestor.hex),
                flip_id(r, d['subtask_id'])])
            f['compute_task_def'] = B.CtdV(d)
        elif how == 'payer':
            f['requestor_ethereum_public_key'] = r.choice(
                [evil.hex, deal.provider.hex, ref.Key('other').hex])
        elif how == 'payee':
            wt = f['want_to_compute_task']
            wt.fields['provider_ethereum_address'] = r.choice(
                [evil.address, ref.Key('other').address, deal.contract,
                 deal.req_eth.address])
        elif how == 'lookalike':
            wt = ttc.fields['want_to_compute_task']
            k = 'provider_ethereum_address'
            if r.random() < .7:
                wt.fields[k] = near(r, wt.fields[k])
            else:
                contract = near(r, deal.contract)
        elif how == 'contract':
            contract = ref.checksum_address(r.choice([
                bytes(20), bytes(r.getrandbits(8) for _ in range(20)),
                bytes.fromhex(deal.contract[2:-2]) + b'\x5a']))
        elif how in ('evil', 'payee_key', 'other_deal'):
            key = {'evil': evil, 'payee_key': deal.prov_eth,
                   'other_deal': ref.Key('party0')}[how]
            if holder is not f:
                vs[0].fields[slot] = prov_note(
                    vs[0], deal, deal.req_eth if how == 'payee_key' else key)
            elif slot in f:
                f[slot] = B.NoteSig(*ref.note_sign(
                    key, deal.contract, *args(ttc, deal, s['which'])))
        elif how == 'swap':
            a, b = 'promissory_note_sig', 'concent_promissory_note_sig'
            if vs and r.random() < .5:
                vs[0].fields[b] = f[r.choice([a, b])]
            else:
                f[a], f[b] = f[b], f[a]
        elif how == 'missing':
            holder[slot] = None
        elif how == 'zero':
            holder[slot] = B.NoteSig(r.choice([0, 27, 28]), bytes(32),
                                     bytes(32))
        elif how == 'corrupt':
            n = holder[slot]
            parts = [n.v, bytearray(n.r), bytearray(n.s)]
            k = r.randrange(3)
            if k == 0:
                parts[0] ^= 55 - 0 if r.random() < .3 else 7
            else:
                parts[k][r.randrange(32)] ^= 1 << r.randrange(8)
            holder[slot] = B.NoteSig(parts[0], bytes(parts[1]),
                                     bytes(parts[2]))
        elif how == 'range':      # beyond what a note can say
            a = f['price']
            f['price'] = r.choice([a + (1 << 256), a + (1 << 512), -a - 1,
                                   a - (1 << 256), a + (1 << 256) * 255])
        elif how == 'contract_key':     # the contract's owner is no payer
            contract = evil.address
            if holder is not f:
                vs[0].fields[slot] = B.NoteSig(*ref.note_sign(
                    evil, contract, *swap_contract(prov_args(ttc, deal),
                                                   deal, contract)))
            else:
                f[slot] = B.NoteSig(*ref.note_sign(
                    evil, contract, *swap_contract(
                        args(ttc, deal, s['which']), deal, contract)))
        elif how == 'prefix':     # another amount that starts alike
            f['price'] = f['price'] * 256 % (1 << 256)
        w.fault('altered_' + how)
        if s['memory']:
            orig, _deal = get(s)
            msg = core.load_ok(w, node, wire(orig), None, None)
            with node.p:
                check_all(node, msg, orig, deal, True, 'before a change')
                apply(node, msg, orig, m)
                check_all(node, msg, m, deal, False, how, contract)
        else:
            resign(m, deal)
            msg, _e = core.load(w, node, wire(m), None, None)
            if msg is None:
                w.probe('refused at load')
                return
            with node.p:
                check_all(node, msg, m, deal, False, how, contract)
        w.log('alter', node.name, m.cls, how)

    def apply(node, msg, old, new):
        """bring a real object from one specification to another"""
        pairs = zip(chain.real_links(node.p, msg, old), chain.links(new))
        for (o, _x), y in list(pairs):
            if y.cls == 'TaskToCompute':
                o.price = y.fields['price']
                o.compute_task_def['subtask_id'] = \
                    y.fields['compute_task_def'].given['subtask_id']
                o.requestor_ethereum_public_key = \
                    y.fields['requestor_ethereum_public_key']
            if y.cls == 'WantToComputeTask':
                o.provider_ethereum_address = \
                    y.fields['provider_ethereum_address']
            for slot in ('promissory_note_sig',
                         'concent_promissory_note_sig'):
                if slot in y.schema.names:
                    v = y.fields.get(slot)
                    setattr(o, slot, None if v is None
                            else B.realize(node.p, v))

    def resign(m, deal):
        """the altered message is otherwise impeccable"""
        ttc = chain.own_ttc(m)
        wt = ttc.fields['want_to_compute_task']
        eth = [k for k in (deal.req_eth, evil, deal.provider,
                           ref.Key('other'))
               if k.hex == ttc.fields['requestor_ethereum_public_key']][0]
        ttc.fields['ethsig'] = eth.sign(wt.hash())

    def clone(m):
        def value(v):
            return clone(v) if isinstance(v, B.Msg) else v
        return B.Msg(m.cls, {k: value(v) for k, v in m.fields.items()}, m.ts,
                     signer=m.signer, enc=m.enc)

    def flip_id(r, id_):
        i = r.randrange(8)
        c = '%x' % (int(id_[i], 16) ^ 1)
        return id_[:i] + c + id_[i + 1:]

    def near(r, address):
        """an address that differs in one digit"""
        raw = bytearray(bytes.fromhex(address[2:]))
        raw[r.choice([0, 1, 18, 19, 19, r.randrange(20)])] ^= \
            1 << r.randrange(8)
        return ref.checksum_address(bytes(raw))

    def loose(s):
        """a note outside any message"""
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        key = ref.Key('party%d' % r.randrange(5))
        contract = near(r, evil.address)
        parts = [contract, key.address,
                 ref.Key('party%d' % r.randrange(5)).address,
                 r.choice([0, 1, 255, 256, 10 ** 18, 2 ** 256 - 1,
                           r.getrandbits(255)]),
                 B.make_id(r, key.hex)]

        def note(q):
            return node.p.mod('datastructures.promissory').PromissoryNote(
                q[1], q[2], q[3], q[4], q[0])
        with node.p:
            sig = core.honest(w, 'signing a loose note',
                              note(parts).sign, key.priv)
            w.check(B.canon(sig) == B.want(B.NoteSig(*ref.note_sign(
                key, *parts))), 'a loose note is not over its parts')
        other, how = list(parts), s['how']
        if how in ('from', 'to', 'contract'):
            k = {'contract': 0, 'from': 1, 'to': 2}[how]
            other[k] = near(r, other[k]) if r.random() < .7 else r.choice(
                [evil.address, near(r, other[k])])
        elif how == 'amount':
            other[3] = (other[3] + r.choice([1, -1, 1 << 255])) % (1 << 256)
        elif how == 'subtask':
            other[4] = flip_id(r, other[4])
        elif how == 'key':
            with node.p:
                sig = note(parts).sign(evil.priv)
        elif how == 'claims':      # signs in the name of a similar address
            other[1] = near(r, key.address)
            with node.p:
                sig = note(other).sign(key.priv)
        elif how == 'sig':
            raw = bytearray(bytes(sig[1]) + bytes(sig[2]))
            raw[r.randrange(64)] ^= 1 << r.randrange(8)
            sig = (sig[0], bytes(raw[:32]), bytes(raw[32:]))
        want = how == 'nothing'
        with node.p:
            got = say('sig_valid', note(other).sig_valid,
                      sig if r.random() < .5 else tuple(sig))
        if want:
            w.check(got is True, 'a good loose note does not verify', got)
        else:
            w.check(not got or isinstance(got, tuple),
                    'a bad loose note verifies', how)
            w.fault('loose_' + how)
        w.log('loose', node.name, how)

    w.run({'issue': issue, 'alter': alter, 'loose': loose})
