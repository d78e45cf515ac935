"""Assignments, honest and usurped, reaching provider nodes."""
import random
import uuid

from .. import build as B
from .. import chain
from .. import core
from .. import ref

EPISODES = 900
RULE = ('providers make offers, requestors answer them with assignments whose '
        'ids and Ethereum proofs the library generates, over a network that '
        'delays, duplicates and reorders, through restarts; impostors with '
        'keys of their own send usurped variants in between, and a reference '
        'decides which assignments are bound to their requestor.')

KINDS = ('no_proof', 'zero_proof', 'evil_proof', 'other_offer', 'stale_offer',
         'node_key', 'header_proof', 'bitflip', 'named_key', 'swap_key',
         'task_id', 'subtask_id', 'both_ids', 'malformed_id', 'missing_id',
         'requestor_id', 'prefix', 'id_of_provider', 'proof_of_hash',
         'cross', 'fine', 'kept_sig', 'kept_sig', 'kept_time', 'no_key',
         'mirror', 'agreed_id')


def plan(r, index):
    steps = []
    n_deals = r.choice([1, 2, 3])
    t = 0
    for d in range(n_deals):
        t = r.randrange(core.MINUTE)
        steps.append({'op': 'offer', 't': t, 'deal': d, 'p': r.randrange(2),
                      'q': 2 + r.randrange(2), 'seed': core.rseed(r),
                      'omit': r.choice([.25, .6, 1]), 'enc': r.random() < .5,
                      'net': core.rnet(r, lose=.03, delay=fast),
                      'back': core.rnet(r, lose=.03)})
    for _ in range(r.choice([8, 14, 22])):
        t = core.MINUTE // 2 + r.randrange(5 * core.MINUTE)
        steps.append({'op': 'usurp', 't': t, 'seed': core.rseed(r),
                      'kind': r.choice(KINDS), 'n': r.randrange(2),
                      'pub': r.random() < .5, 'warm': r.random() < .5})
        if r.random() < .3:
            steps.append({'op': 'again', 't': t + 1, 'seed': core.rseed(r),
                          'n': r.randrange(2)})
    steps += core.crashes(r, 4, 3 * core.MINUTE, r.choice([0, 0, 1, 2]))
    if r.random() < .3:
        steps.append({'op': 'jump', 't': r.randrange(core.MINUTE),
                      'n': 2, 'us': -r.randrange(core.HOUR)})
    return {'cfg': core.rcfg(r, .1), 'nodes': core.rnodes(
        r, 4, versions=['2.15.0', '2.15.2']), 'steps': core.ordered(steps)}


def fast(r):
    return r.randrange(8 * core.US)


def carries(id_, hex_id):
    """the id is a UUID whose node part is the start of the node id"""
    try:
        return uuid.UUID(id_).node == int(hex_id[:12], 16)
    except (ValueError, TypeError, AttributeError):
        return False


def bound(spec):
    """reference: may this assignment be accepted?"""
    f = spec.fields
    sig, eth = f.get('ethsig'), f.get('requestor_ethereum_public_key')
    if not isinstance(sig, bytes) or not isinstance(eth, str):
        return False
    if not ref.verify(bytes.fromhex(eth), sig,
                      f['want_to_compute_task'].hash()):
        return False
    ctd = f['compute_task_def'].full()
    return all(carries(ctd[k], f['requestor_id'])
               for k in ('task_id', 'subtask_id'))


def run(w, plan):
    sent = []            # (data, spec) genuine assignments
    evil = ref.Key('usurper')

    def offer(s):
        p, q = w.nodes[s['p']], w.nodes[s['q']]
        if not (p.up and q.up):
            return
        r = random.Random(s['seed'])
        eth = r.choice([q.key, ref.Key('eth%d' % s['deal'])])
        deal = B.Deal(r, q.key, p.key, ref.Key('concent'), req_eth=eth)
        with q.p:
            ids = q.p.mod('idgenerator')
            deal.task_id = core.honest(w, 'task id', r.choice([
                lambda: ids.generate_id_from_hex(q.key.hex),
                lambda: ids.generate_id(q.key.pub)]))
            deal.subtask_id = core.honest(
                w, 'subtask id', ids.generate_new_id_from_id, deal.task_id)
        g = B.Gen(r, now=p.now(), omit=s['omit'])
        spec = g.wtct(deal, p.now())
        spec.signer = None
        with p.p:
            spec.ts = p.now()
            obj = core.honest(w, 'construction of an offer', B.realize_msg,
                              p.p, spec)
            data = core.honest(w, 'dump of an offer', p.p.gm.dump, obj,
                               p.key.priv, q.key.pub if s['enc'] else None)
        spec.signer = p.key
        spec.forged_sig = ref.Frame(data).sig
        w.log('offer', p.name, q.name, core.short(data))
        w.transmit(s['p'], s['q'], data, s['net'], assign, s, deal, spec)

    def assign(q, data, _damaged, s, deal, spec):
        """the requestor answers an offer"""
        if ('answered', s['deal']) in q.memory:
            return
        q.memory['answered', s['deal']] = True
        offer_ = core.load_ok(w, q, data, q.key.priv, deal.provider.pub,
                              what='an offer')
        here = chain.respec(spec, ref.Frame(data))
        r = random.Random(s['seed'] + 1)
        g = chain.ChainGen(r, q.now(), s['omit'],
                           [chain.Held(offer_, here, data, None)])
        ttc = g.compose('TaskToCompute', deal)
        for k in ('promissory_note_sig', 'concent_promissory_note_sig'):
            ttc.fields.pop(k, None)
        want = ttc.fields.pop('ethsig')
        with q.p:
            ttc.ts = q.now()
            obj = core.honest(w, 'construction of an assignment',
                              chain.build, q.p, ttc, g.inventory)
            core.honest(w, 'generate_ethsig', obj.generate_ethsig,
                        deal.req_eth.priv)
            w.check(obj.ethsig == want, 'the proof is not over the offer')
            out = core.honest(w, 'dump of an assignment', q.p.gm.dump, obj,
                              q.key.priv, None)
            sealed = core.honest(
                w, 'dump of an assignment', q.p.gm.dump, obj, None,
                deal.provider.pub) if s['enc'] else out
        ttc.fields['ethsig'] = want
        ttc.signer = q.key
        ttc.forged_sig = ref.Frame(out).sig
        w.check(bound(ttc), 'an honest assignment is not bound',
                ttc.fields['compute_task_def'].given)
        sent.append((out, ttc, deal))
        w.log('assign', q.name, core.short(out))
        w.transmit(q.index, s['p'], sealed, s['back'], accept, ttc)

    def accept(node, data, _damaged, spec):
        msg = core.load_ok(w, node, data, node.key.priv, spec.signer.pub,
                           what='an honest assignment')
        with node.p:
            core.same(w, B.canon(msg), B.want_msg(spec),
                      'an honest assignment differs')
            ok = core.honest(w, 'verify_ethsig', msg.verify_ethsig)
            w.check(ok is True, 'verify_ethsig of an honest assignment')
        w.log('accept', node.name, core.short(data))
        if random.Random(len(data)).random() < .3:
            in_memory(node, msg)

    def in_memory(node, msg):
        """the proof is over the offer as it is, whenever it is asked"""
        with node.p:
            offer_ = msg.want_to_compute_task
            old = offer_.price
            offer_.price = (old or 0) + 1
            try:
                bad = msg.verify_ethsig()
            except core.msg_error(node):
                bad = False
            w.check(not bad, 'the proof holds for a changed offer')
            offer_.price = old
            ok = core.honest(w, 'verify_ethsig', msg.verify_ethsig)
            w.check(ok is True, 'verify_ethsig after restoring')

    def again(s):
        node = w.nodes[s['n']]
        if sent and node.up:
            data, spec, _deal = random.Random(s['seed']).choice(sent)
            w.fault('retransmitted')
            accept(node, data, False, spec)

    def usurp(s):
        node = w.nodes[s['n']]
        if not sent or not node.up:
            return
        r = random.Random(s['seed'])
        data0, orig, deal = r.choice(sent)
        _d2, other, deal2 = r.choice(sent)
        m = B.Msg('TaskToCompute', dict(orig.fields), orig.ts)
        f = m.fields
        signer = orig.signer
        wt = f['want_to_compute_task']
        ctd = dict(f['compute_task_def'].given)
        kind = s['kind']
        if kind == 'no_proof':
            f['ethsig'] = None
            if r.random() < .3:
                f.pop('ethsig')
        elif kind == 'zero_proof':
            f['ethsig'] = r.choice([ref.NO_SIG, b'', b'\0', bytes(64),
                                    b'\xff' * 65])
        elif kind == 'evil_proof':
            f['ethsig'] = evil.sign(wt.hash())
        elif kind == 'named_key':      # names a key it does not control
            f['requestor_ethereum_public_key'] = r.choice(
                [evil.hex, deal.provider.hex, ref.Key('rich').hex])
        elif kind == 'swap_key':       # takes over the whole thing
            f['requestor_ethereum_public_key'] = evil.hex
            f['ethsig'] = evil.sign(wt.hash())
        elif kind in ('other_offer', 'stale_offer', 'cross'):
            if kind == 'cross' and deal2 is not deal:
                f['want_to_compute_task'] = other.fields[
                    'want_to_compute_task']
            else:
                new = B.Msg(wt.cls, dict(wt.fields), wt.ts,
                            signer=deal.provider, enc=wt.enc)
                if kind == 'stale_offer':
                    new.ts += r.choice([1, -1, 3600])
                else:
                    new.fields['price'] = (wt.fields.get('price') or 0) + 1
                f['want_to_compute_task'] = new
        elif kind in ('kept_sig', 'kept_time'):
            # another offer that still looks like the one that was proved
            new = B.Msg(wt.cls, dict(wt.fields), wt.ts, signer=wt.signer,
                        enc=wt.enc)
            if kind == 'kept_time':
                new.ts += 0 if r.random() < .5 else 1
                new.fields['price'] = (wt.fields.get('price') or 0) + 1
                new.signer = deal.provider
            else:
                new.forged_sig = wt.sig()
                k = r.choice(['price', 'ts', 'num_subtasks', 'provider'])
                if k == 'ts':
                    new.ts += r.choice([1, -1, 3600])
                elif k == 'provider':
                    new.fields['provider_public_key'] = evil.hex
                else:
                    new.fields[k] = (wt.fields.get(k) or 0) + 1
            f['want_to_compute_task'] = new
        elif kind == 'node_key':
            f['ethsig'] = r.choice([deal.provider, signer]).sign(wt.hash())
        elif kind == 'no_key':         # names no key at all
            f['requestor_ethereum_public_key'] = r.choice([None, ''])
            f['ethsig'] = r.choice([
                f['ethsig'], None, signer.sign(wt.hash()),
                deal.req_eth.sign(wt.hash()), wt.sig()])
        elif kind == 'mirror':         # a key with the same x coordinate
            f['ethsig'] = ref.mirrored(deal.req_eth).sign(wt.hash())
        elif kind == 'header_proof':
            f['ethsig'] = deal.req_eth.sign(
                wt.fields['task_header'].hash())
        elif kind == 'proof_of_hash':  # signature over another message
            f['ethsig'] = deal.req_eth.sign(r.choice([
                ref.short_hash(2002, wt.ts, wt.payload()),
                ref.short_hash(2001, wt.ts + 1, wt.payload()),
                ref.short_hash(2001, wt.ts, b''), b'', wt.payload()]))
        elif kind == 'bitflip':
            b = bytearray(f['ethsig'])
            b[r.randrange(65)] ^= 1 << r.randrange(8)
            f['ethsig'] = bytes(b)
        elif kind in ('task_id', 'subtask_id', 'both_ids'):
            owner = r.choice([evil.hex, deal.provider.hex,
                              ref.Key('x').hex])
            for k in ('task_id', 'subtask_id'):
                if kind in (k, 'both_ids'):
                    ctd[k] = B.make_id(r, owner)
        elif kind == 'agreed_id':      # a task of another, says the offer too
            ctd['task_id'] = B.make_id(r, r.choice([
                evil.hex, deal.provider.hex, ref.Key('x').hex]))
            if r.random() < .3:
                ctd['subtask_id'] = ctd['task_id']
            new = B.Msg(wt.cls, dict(wt.fields), wt.ts, signer=deal.provider,
                        enc=wt.enc)
            head = wt.fields['task_header']
            given = dict(head.given, task_id=ctd['task_id'])
            given.pop('signature', None)
            new.fields['task_header'] = B.HeaderV(given, head.signer)
            f['want_to_compute_task'] = new
            f['ethsig'] = deal.req_eth.sign(new.hash())
        elif kind == 'prefix':         # almost the right node
            k = r.choice(['task_id', 'subtask_id'])
            near = '%012x' % (int(deal.requestor.hex[:12], 16)
                              ^ 1 << r.randrange(48))
            ctd[k] = B.make_id(r, near)
        elif kind == 'id_of_provider':
            f['requestor_id'] = deal.provider.hex
        elif kind == 'malformed_id':
            k = r.choice(['task_id', 'subtask_id'])
            good = ctd[k]
            ctd[k] = r.choice(['', 'x', good[:-1], good + '0', good[::-1],
                               deal.requestor.hex[:32 - 1], 'z' * 36,
                               deal.requestor.hex[:12]])
        elif kind == 'missing_id':
            ctd.pop(r.choice(['task_id', 'subtask_id']))
        elif kind == 'requestor_id':
            f['requestor_id'] = r.choice([
                evil.hex, ref.Key('y').hex, 'f' * 128, '0' * 128,
                '%0128x' % (int(deal.requestor.hex, 16) ^ 1 << 470)])
        elif kind == 'fine':           # different, but still bound
            f['size'] = r.getrandbits(30)
            f['requestor_id'] = deal.requestor.hex[:14] + 'ab' * 57
        f['compute_task_def'] = B.CtdV(ctd)
        if r.random() < .3:
            signer = evil
            f['requestor_public_key'] = evil.hex
        m.signer = signer
        data = ref.frame(m.type_, m.ts, False, m.sig(), m.payload())
        if r.random() < .4:        # for this node's eyes only
            data = ref.frame(m.type_, m.ts, True, m.sig(), ref.ecies_encrypt(
                m.payload(), node.key.pub, ref.Key('e%d' % r.getrandbits(
                    40)).priv, r.getrandbits(128).to_bytes(16, 'big')))
        ok = bound(m)
        if s['warm']:              # it has just met the genuine one
            accept(node, data0, False, orig)
        w.fault('usurped_' + kind)
        msg, err = core.load(w, node, data, node.key.priv,
                             signer.pub if s['pub'] else None)
        if ok:
            w.check(msg is not None, 'a bound assignment is refused',
                    lambda: '%s %s' % (kind, core.describe(err)))
            w.probe('bound variant accepted')
        else:
            w.check(msg is None, 'an unbound assignment is accepted',
                    lambda: '%s %r' % (kind, ctd))
        w.log('usurp', node.name, kind, ok)

    w.run({'offer': offer, 'usurp': usurp, 'again': again})
