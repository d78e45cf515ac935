"""Evidence chains built by honest parties out of what reached them."""
import random

from .. import build as B
from .. import chain
from .. import core
from .. import ref
from .. import seams

EPISODES = 160
RULE = ('requestor, provider and Concent nodes build chains of all task and '
        'Concent messages, each embedding the real objects it holds - own, '
        'received, re-sent by third parties or reloaded from disk after a '
        'crash - in what it signs next; every party verifies owners, '
        'signatures, contents and identities of every link of every copy.')


def plan(r, index):
    deals = r.choice([1, 1, 2])
    steps = []
    for d in range(deals):
        t = r.randrange(core.MINUTE)
        flow = list(chain.FLOW)
        head, tail = flow[:3], flow[3:]
        # a random part of the flow, often out of its usual order
        tail = [x for x in tail if r.random() < r.choice([.5, .7, .9])]
        if r.random() < 0.3:
            for _ in range(4):
                i, j = r.randrange(len(tail)), r.randrange(len(tail))
                tail[i], tail[j] = tail[j], tail[i]
        for role, cls in head + tail:
            t += r.choice([0, core.US, r.randrange(core.MINUTE)])
            steps.append({
                'op': 'compose', 't': t, 'role': role, 'cls': cls,
                'deal': d, 'seed': core.rseed(r),
                'omit': r.choice([.25, .25, .6, 1]),
                'enc': r.random() < 0.5, 'keep': r.random() < 0.4,
                'nets': [core.rnet(r, lose=0.03, dup=0.15, delay=quick)
                         for _ in range(2)]})
            t += r.choice([core.US, 3 * core.US, 10 * core.US])
            if r.random() < 0.25:
                steps.append({
                    'op': 'resend', 't': t, 'seed': core.rseed(r),
                    'deal': d, 'n': r.randrange(3), 'to': r.randrange(3),
                    'enc': r.random() < 0.5,
                    'net': core.rnet(r, delay=quick)})
    horizon = max(s['t'] for s in steps)
    for _ in range(r.choice([0, 1, 1, 2])):
        n, t = r.randrange(3), r.randrange(horizon)
        steps.append({'op': 'restart', 't': t, 'n': n})
        steps.append({'op': 'reload', 't': t, 'n': n, 'seed': core.rseed(r)})
    if r.random() < 0.3:
        steps.append({'op': 'jump', 't': r.randrange(horizon),
                      'n': r.randrange(3), 'us': r.choice([-1, 1]) *
                      r.randrange(core.HOUR)})
    return {'cfg': core.rcfg(r, 0.1),
            'nodes': core.rnodes(r, 3, versions=['2.15.0', '2.15.4']),
            'deals': deals, 'steps': core.ordered(steps)}


def quick(r):
    return r.choice([0, core.US // 10, r.randrange(8 * core.US)])


def run(w, plan):
    deals = []
    for d in range(plan.get('deals', 1)):
        r = random.Random('%s %d' % (plan.get('seed'), d))
        ks = [n.key for n in w.nodes]
        deals.append(B.Deal(r, ks[0], ks[1], ks[2],
                            req_eth=r.choice([ks[0], ref.Key('re%d' % d)]),
                            prov_eth=r.choice([ks[1], ref.Key('pe%d' % d)])))
    once = set()
    seen = set()

    def inventory(node, d):
        return node.memory.setdefault(('inv', d), [])

    def compose(s):
        node = w.nodes[chain.ROLES.index(s['role'])]
        if not node.up or (s['deal'], s['role'], s['cls']) in once:
            return
        deal = deals[s['deal']]
        held = inventory(node, s['deal'])
        r = random.Random(s['seed'])
        g = chain.ChainGen(r, node.now(), s['omit'], held)
        deal.ttc = deal.rct = None
        try:
            spec = g.compose(s['cls'], deal)
        except chain.Missing:
            w.probe('nothing to embed yet')
            return
        what = s['cls']
        peers = [n for n in w.nodes if n is not node]
        with node.p:
            spec.ts = node.now()
            if what == 'TaskToCompute':
                notes = {k: spec.fields.pop(k) for k in (
                    'promissory_note_sig', 'concent_promissory_note_sig')
                    if k in spec.fields}
                eth = spec.fields.pop('ethsig')
                obj = core.honest(w, 'construction of ' + what, chain.build,
                                  node.p, spec, held)
                core.honest(w, 'ethsig', obj.generate_ethsig,
                            deal.req_eth.priv)
                w.check(obj.ethsig == eth, 'ethsig is not over the offer')
                spec.fields['ethsig'] = eth
                if notes:
                    core.honest(w, 'promissory notes',
                                obj.sign_all_promissory_notes,
                                deal.contract, deal.req_eth.priv)
                    spec.fields.update(notes)
            else:
                obj = core.honest(w, 'construction of ' + what, chain.build,
                                  node.p, spec, held)
            key = peers[0].key.pub if s['enc'] else None
            data = core.honest(w, 'dump of ' + what, node.p.gm.dump, obj,
                               node.key.priv, key)
        f = ref.Frame(data)
        spec.signer = node.key
        spec.forged_sig = f.sig
        w.check(ref.verify(node.key.pub, f.sig, spec.hash()),
                'signature of a composed %s' % what)
        once.add((s['deal'], s['role'], what))
        held.append(chain.Held(obj, spec, data, node.key))
        depth = sum(1 for _ in chain.links(spec))
        w.probe('chain of %d' % depth)
        w.log('compose', node.name, what, depth, core.short(data))
        store(node, s, held[-1], peers[0].key if s['enc'] else None)
        for peer, net in zip(peers, s['nets']):
            with node.p:
                again = core.honest(
                    w, 'dump of ' + what, node.p.gm.dump, obj, None,
                    peer.key.pub if s['enc'] else None)
            w.transmit(node.index, peer.index, again, net, arrive,
                       s['deal'], spec, s['keep'])

    def store(node, s, h, opened_by):
        # a sender keeps an unencrypted dump of what it signed
        if s['keep']:
            with node.p:
                raw = core.honest(w, 'dump to disk', node.p.gm.dump, h.obj,
                                  None, None)
            node.disk.setdefault('kept', []).append((s['deal'], raw, h.spec))

    def arrive(node, data, _damaged, d, spec, keep):
        take(node, data, d, spec, 'received')
        if keep:
            node.disk.setdefault('kept', []).append((d, data, spec))

    def take(node, data, d, spec, how):
        msg = core.load_ok(w, node, data, node.key.priv, spec.signer.pub,
                           what='%s %s' % (how, spec.cls))
        here = chain.respec(spec, ref.Frame(data))
        with node.p:
            core.same(w, B.canon(msg), B.want_msg(here),
                      '%s %s differs' % (how, spec.cls))
            # the first copy of each is looked at in depth
            deep = (node.index, id(spec)) not in seen
            seen.add((node.index, id(spec)))
            chain.check_chain(w, node, msg, here, deals[d], how,
                              deep and random.Random(
                                  len(data)).random() < 0.3)
        inventory(node, d).append(chain.Held(msg, here, data, spec.signer))
        w.log('took', node.name, spec.cls, how)

    def resend(s):
        """pass on something held, to anyone, in any mode"""
        node, to = w.nodes[s['n']], w.nodes[s['to']]
        if not node.up:
            return
        held = inventory(node, s['deal'])
        if not held:
            return
        h = held[random.Random(s['seed']).randrange(len(held))]
        with node.p:
            data = core.honest(w, 'resending ' + h.spec.cls, node.p.gm.dump,
                               h.obj, None, to.key.pub if s['enc'] else None)
        w.fault('resent')
        w.transmit(s['n'], s['to'], data, s['net'], arrive, s['deal'],
                   h.spec, False)

    def reload(s):
        node = w.nodes[s['n']]
        for d, data, spec in node.disk.get('kept', []):
            take(node, data, d, spec, 'stored')
            w.probe('reloaded from disk')

    def final(_s):
        # what everybody still holds verifies for everybody, at any time
        for node in w.nodes:
            if not node.up:
                continue
            for d, deal in enumerate(deals):
                held = inventory(node, d)
                pick = random.Random(len(held)).sample(
                    held, min(5, len(held)))
                for h in held:
                    with node.p:
                        core.same(w, B.canon(h.obj), B.want_msg(h.spec),
                                  'held %s changed' % h.spec.cls)
                        if h in pick:
                            chain.check_chain(w, node, h.obj, h.spec, deal,
                                              'held', False)
        seams.reseed(1)

    w.at(max(s.get('t', 0) for s in plan['steps']) + core.HOUR
         if plan['steps'] else 0, final, None)
    w.run({'compose': compose, 'resend': resend, 'reload': reload})
