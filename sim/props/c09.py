"""Forged evidence chains before honest verifiers."""
import random

from .. import build as B
from .. import chain
from .. import core
from .. import ref

EPISODES = 560
RULE = ('verifiers get honest chains of all task messages of two deals, '
        'interleaved with forgeries: one link at any depth re-signed by an '
        'intruder or by another participant, edited, re-timed, unsigned, '
        'relabelled, swapped for a link of another chain, with a forged task '
        'header, with outer links stale or re-signed by colluding owners, or '
        'altered in memory after loading, and ask for wrong roles; an '
        'independent reference decides which may verify.')

CLASSES = [c for c in B.TASK_MESSAGES]
KINDS = ('resign_evil', 'resign_other', 'resign_other', 'edit', 'edit', 'ts',
         'unsigned', 'relabel', 'relabel', 'renumber', 'transplant',
         'transplant', 'sigswap', 'header', 'header', 'header', 'ask', 'ask',
         'keyswap', 'memory', 'memory', 'memory')
OUTER = ('stale', 'collude', 'collude', 'evil')


def plan(r, index):
    steps = []
    for k in range(r.choice([2, 3])):
        cls = CLASSES[(index * 2 + k) % len(CLASSES)]
        t = r.randrange(core.MINUTE)
        deal = r.randrange(2)
        seed = core.rseed(r)
        base = {'cls': cls, 'deal': deal, 'chain': seed,
                'n': r.randrange(2), 'omit': r.choice([.25, .6, 1])}
        steps.append(dict(base, op='honest', t=t))
        for _ in range(r.choice([4, 6, 9])):
            t += r.randrange(10 * core.US)
            steps.append(dict(base, op='forge', t=t, seed=core.rseed(r),
                              kind=r.choice(KINDS), outer=r.choice(OUTER),
                              pub=r.random() < 0.4))
            if r.random() < 0.25:
                steps.append(dict(base, op='honest', t=t + 1))
    steps += core.crashes(r, 2, core.MINUTE, r.choice([0, 0, 1]))
    return {'cfg': core.rcfg(r, 0.1), 'nodes': core.rnodes(
        r, 2, versions=['2.15.0']), 'steps': core.ordered(steps)}


def clone(m):
    """an independent copy with its signatures as they are"""
    def value(v):
        if isinstance(v, B.Msg):
            return clone(v)
        if isinstance(v, list) and v and isinstance(v[0], B.Msg):
            return [clone(x) for x in v]
        return v
    c = B.Msg(m.cls, {k: value(v) for k, v in m.fields.items()}, m.ts,
              signer=m.signer, enc=m.enc, version=m.version)
    c.forged_type = m.forged_type
    c.forged_sig = m.sig()
    return c


def slots_of(m):
    for name, kind in m.schema.fields:
        v = m.fields.get(name)
        if kind == 'm' and v is not None:
            yield name, v


def path_links(m, path=()):
    """(path, link) of all task messages"""
    if m.schema.owners:
        yield path, m
    for name, v in slots_of(m):
        yield from path_links(v, path + (name,))


def follow(m, path):
    for name in path:
        m = m.fields[name]
    return m


def legit(top, ask):
    """May owner verification of this chain succeed?"""
    first = chain.own_ttc(top)
    if first is None:
        return False
    prov, reqr, conc = ask
    names = {'provider': first.fields['want_to_compute_task']
             .fields['provider_public_key'],
             'requestor': first.fields['requestor_public_key']}
    for role, key in (('provider', prov), ('requestor', reqr)):
        if key and bytes.fromhex(names[role]) != key:
            return False
    return _legit(top, top.cls, conc)


def _legit(m, cls, conc):
    if m.cls != cls or m.type_ != B.SCHEMA[cls].number:
        return False
    if m.schema.owners:
        ttcs = [x for x in chain.links(m) if x.cls == 'TaskToCompute']
        keys = set()
        for t in ttcs:
            wt = t.fields['want_to_compute_task']
            for role in m.schema.owners:
                keys.add({
                    'provider': wt.fields['provider_public_key'],
                    'requestor': t.fields['requestor_public_key'],
                    'concent': conc.hex() if conc else None}[role])
        keys.discard(None)
        sig, digest = m.sig(), m.hash()
        if sig is None or not any(
                ref.verify(bytes.fromhex(k), sig, digest) for k in keys):
            return False
        if m.cls == 'TaskToCompute':
            h = m.fields['want_to_compute_task'].fields['task_header']
            hs = h.signature()
            if hs is None or not ref.verify(bytes.fromhex(
                    m.fields['requestor_public_key']), hs, h.hash()):
                return False
    return all(_legit(v, B.SLOT_CLASS[name], conc) or
               (not B.SCHEMA[B.SLOT_CLASS[name]].owners and v.cls ==
                B.SLOT_CLASS[name])
               for name, v in slots_of(m))


def run(w, plan):
    ks = [ref.Key('party%d' % i) for i in range(5)]
    evil = ref.Key('intruder')
    rd = random.Random(plan.get('seed'))
    deals = [B.Deal(rd, ks[0], ks[1], ks[4], req_eth=ref.Key('re')),
             B.Deal(rd, ks[2], ks[3], ks[4], prov_eth=ref.Key('pe'))]
    if rd.random() < 0.3:      # the same people, another assignment
        deals[1] = B.Deal(rd, ks[0], ks[1], ks[4])
    made = {}

    def make(s, deal=None, cls=None):
        d = s['deal'] if deal is None else deal
        cls = cls or s['cls']
        key = (s['chain'], d, cls)
        if key not in made:
            r = random.Random('%s %s %s' % key)
            g = B.Gen(r, now=w.nodes[0].now(), omit=s.get('omit', .25))
            deals[d].ttc = deals[d].rct = None
            while True:
                m = g.message(cls, deals[d])
                if chain.own_ttc(m) is not None:
                    break
                g.omit = .2
            m.signer = deals[d].key(r.choice(m.schema.owners))
            made[key] = m
        return made[key]

    def keys(d):
        return [deals[d].provider.pub, deals[d].requestor.pub,
                deals[d].concent.pub]

    def frame(m):
        return ref.frame(m.type_, m.ts, False, m.sig() or ref.NO_SIG,
                         m.payload())

    def verify(node, msg, ask):
        """-> truthy when verification succeeds"""
        with node.p:
            try:
                return msg.verify_owners(
                    provider_public_key=ask[0], requestor_public_key=ask[1],
                    concent_public_key=ask[2])
            except core.msg_error(node) as e:
                w.probe('refused ' + type(e).__name__)
                return False
            except Exception as e:  # pylint: disable=broad-except
                w.probe('failed ' + type(e).__name__)
                return False

    def do_honest(s):
        node = w.nodes[s['n']]
        if not node.up:
            return None
        m = make(s)
        msg = core.load_ok(w, node, frame(m), None, m.signer.pub,
                           what='honest ' + m.cls)
        w.check(legit(m, keys(s['deal'])), 'reference refuses an honest '
                + m.cls)
        with node.p:
            ok = core.honest(w, 'owner verification of an honest ' + m.cls,
                             msg.verify_owners, *keys(s['deal']))
        w.check(ok is True, 'honest %s does not verify' % m.cls)
        w.log('honest', node.name, m.cls)
        return msg

    def do_forge(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        if s['kind'] == 'memory':
            in_memory(s, node)
            return
        r = random.Random(s['seed'])
        orig = make(s)
        m = clone(orig)
        ask = keys(s['deal'])
        path, link = r.choice(list(path_links(m)))
        forge(s['kind'], r, s, m, path, link, ask)
        m, path = forge.out
        # the links around the forged one
        for i in range(len(path) - 1, -1, -1):
            around = follow(m, path[:i])
            if s['outer'] == 'collude':
                around.forged_sig = around.signer.sign(around.hash())
            elif s['outer'] == 'evil':
                around.forged_sig = evil.sign(around.hash())
        if r.random() < 0.15:
            ask[r.randrange(3)] = None
        pub = orig.signer.pub if s['pub'] else None
        w.fault('forged_' + s['kind'])
        msg, _err = core.load(w, node, frame(m), None, pub)
        if msg is None:
            w.checks += 1
            w.probe('refused at load')
            return
        ok = verify(node, msg, ask)
        allowed = legit(m, ask)
        w.check(not ok or allowed, 'a forged %s verifies' % m.cls,
                lambda: '%s of %s at %s, outer links %s' % (
                    s['kind'], link.cls, '/'.join(path) or 'top',
                    s['outer']))
        if ok:
            w.probe('harmless change')
        # twice gives the same answer
        w.check(bool(ok) == bool(verify(node, msg, ask)),
                'verification changes its mind', m.cls)
        w.log('forged', node.name, m.cls, s['kind'], bool(ok))

    def forge(kind, r, s, m, path, link, ask):
        forge.out = (m, path)
        deal = deals[s['deal']]
        if kind == 'resign_evil':
            link.forged_sig = evil.sign(link.hash())
        elif kind == 'resign_other':
            others = [x for x in ('provider', 'requestor', 'concent')
                      if x not in link.schema.owners]
            k = deal.key(r.choice(others)) if r.random() < 0.8 \
                else deals[1 - s['deal']].key(r.choice(link.schema.owners))
            link.forged_sig = k.sign(link.hash())
        elif kind == 'edit':
            edit(r, s, link)
        elif kind == 'ts':
            link.ts += r.choice([1, -1, 60, -3600, 1 << 20])
        elif kind == 'unsigned':
            link.forged_sig = r.choice([
                ref.NO_SIG, b'', b'\0', b'\xff' * 65, b'\0' * 64 + b'\x1b',
                bytes(r.getrandbits(8) for _ in range(65))])
        elif kind == 'renumber':
            # the signature was made for another type
            other = r.choice(B.TASK_MESSAGES)
            link.forged_type = B.SCHEMA[other].number
            link.forged_sig = link.signer.sign(link.hash())
            if r.random() < 0.7 or not path:    # a top is what it says
                link.forged_type = None
        elif kind == 'relabel':
            relabel(r, s, m, path, link)
        elif kind == 'transplant':
            other = make(dict(s, chain=s['seed']), 1 - s['deal'])
            have = [x for p, x in path_links(other) if x.cls == link.cls]
            new = clone(r.choice(have)) if have \
                else clone(signed(make(dict(s, chain=s['seed']),
                                       1 - s['deal'], link.cls)))
            place(m, path, new)
        elif kind == 'sigswap':
            all_ = [x for _p, x in path_links(m)]
            x = r.choice(all_)
            link.forged_sig, x.forged_sig = x.forged_sig, link.forged_sig
        elif kind == 'header':
            ttcs = [(p, x) for p, x in path_links(m)
                    if x.cls == 'TaskToCompute']
            path, t = r.choice(ttcs)
            forge.out = (m, path)
            header(r, s, t)
        elif kind == 'ask':
            i = r.randrange(3)
            ask[i] = r.choice([evil.pub, ask[(i + 1) % 3],
                               keys(1 - s['deal'])[i], ask[i][::-1],
                               b'\0' * 64, ask[i][:32] + evil.pub[32:],
                               evil.pub[:32] + ask[i][32:],
                               ref.mirror_point(b'\4' + ask[i])[1:]])
        elif kind == 'keyswap':
            ttcs = [(p, x) for p, x in path_links(m)
                    if x.cls == 'TaskToCompute']
            path, t = r.choice(ttcs)
            forge.out = (m, path)
            if r.random() < 0.5:
                t.fields['requestor_public_key'] = evil.hex
                h = t.fields['want_to_compute_task'].fields['task_header']
                if r.random() < 0.5:
                    given = dict(h.given)
                    given.pop('signature', None)
                    t.fields['want_to_compute_task'].fields['task_header'] \
                        = B.HeaderV(given, evil)
                    reoffer(t, deal)
                t.forged_sig = evil.sign(t.hash())
            else:
                wt = t.fields['want_to_compute_task']
                wt.fields['provider_public_key'] = evil.hex
                wt.forged_sig = evil.sign(wt.hash())
                t.fields['ethsig'] = deal.req_eth.sign(wt.hash())
                t.forged_sig = deal.requestor.sign(t.hash())
        else:
            raise core.HarnessError(kind)

    def signed(m):
        return m

    def place(m, path, new):
        if not path:
            forge.out = (new, path)
        else:
            follow(m, path[:-1]).fields[path[-1]] = new

    def reoffer(t, deal):
        wt = t.fields['want_to_compute_task']
        wt.forged_sig = deal.provider.sign(wt.hash())
        t.fields['ethsig'] = deal.req_eth.sign(wt.hash())

    def edit(r, s, link):
        """another value in one plain field; the signature stays"""
        g = B.Gen(r, now=w.nodes[0].now(), omit=.1)
        names = [n for n, k in link.schema.fields
                 if k in ('any', 'enum', 'bool', 'stats')]
        if not names:
            link.ts += 1
            return
        name = r.choice(names)
        before = ref.cbor(link.slots())
        for _ in range(8):
            if link.schema.kinds[name] == 'enum':
                link.fields[name] = g.enum(link.cls, name)
            elif link.schema.kinds[name] == 'bool':
                link.fields[name] = not link.fields.get(name, False)
            elif link.schema.kinds[name] == 'stats':
                link.fields[name] = g.stats()
            elif name in ('size', 'price'):
                link.fields[name] = r.choice([0, 1, r.getrandbits(40)])
            elif name == 'payment_ts':
                link.fields[name] = link.ts - r.randrange(900)
            elif name in ('requestor_id', 'provider_id',
                          'requestor_public_key'):
                link.fields[name] = evil.hex
            elif name == 'requestor_ethereum_public_key':
                link.fields[name] = evil.hex
                link.fields['ethsig'] = evil.sign(
                    link.fields['want_to_compute_task'].hash())
            else:
                link.fields[name] = g.any()
            if ref.cbor(link.slots()) != before:
                return
        link.ts += 1

    def relabel(r, s, m, path, link):
        """a genuine message of another type where this one belongs"""
        same = [c for c in B.TASK_MESSAGES if c != link.cls and set(
            B.SCHEMA[c].names) & set(link.schema.names)]
        other = r.choice(same)
        role = r.choice(link.schema.owners)
        new = clone(make(s, None, other))
        shared = set(new.schema.names)
        # as close to the original as the types allow
        for name, v in link.fields.items():
            if name in shared and new.schema.kinds[name] == \
                    link.schema.kinds[name] != 'enum':
                new.fields[name] = v
        new.signer = deals[s['deal']].key(role)
        new.forged_sig = new.signer.sign(new.hash())
        place(m, path, new)

    def header(r, s, t):
        deal = deals[s['deal']]
        wt = t.fields['want_to_compute_task']
        h = wt.fields['task_header']
        given = dict(h.given)
        how = r.randrange(5)
        if how == 0:
            wt.fields['task_header'] = B.HeaderV(given, evil)
        elif how == 1:
            wt.fields['task_header'] = B.HeaderV(given, deal.provider)
        elif how == 2:
            wt.fields['task_header'] = B.HeaderV(
                dict(given, signature=r.choice([None, ref.NO_SIG, b''])))
        else:
            sig = h.signature()
            k, v = r.choice([
                ('max_price', r.getrandbits(40)), ('deadline', 12345678),
                ('subtask_timeout', 7), ('subtasks_count', 77),
                ('concent_enabled', not given.get('concent_enabled')),
                ('timestamp', given['timestamp'] + 1),
                ('mask', bytes(31) + b'\x01'), ('environment', 'EVIL'),
                ('min_version', '9.9.9'), ('subtask_budget', 5),
                ('market_type', 'Usage' if given.get('market_type')
                 != 'Usage' else 'Brass'),
                ('task_owner', B.NodeV({'node_name': 'evil'})),
                ('environment_prerequisites', {'evil': 1})])
            wt.fields['task_header'] = B.HeaderV(
                dict(given, **{k: v, 'signature': sig}))
        if r.random() < 0.8:
            reoffer(t, deal)
        if r.random() < 0.8:
            t.forged_sig = deal.requestor.sign(t.hash())

    def in_memory(s, node):
        """change an object that has just been verified"""
        msg = do_honest(s)
        spec = make(s)
        r = random.Random(s['seed'])
        g = B.Gen(r, now=node.now(), omit=.1)
        ask = keys(s['deal'])
        with node.p:
            pairs = [(o, x) for o, x in chain.real_links(node.p, msg, spec)
                     if x.schema.owners or x.cls == 'WantToComputeTask']
            o, x = r.choice(pairs)
            undo = tamper(r, g, node, o, x)
        ok = verify(node, msg, ask)
        w.fault('forged_memory')
        w.check(not ok, 'a %s altered after loading verifies' % spec.cls,
                lambda: 'altered %s' % x.cls)
        with node.p:
            undo()
            ok = core.honest(w, 'verification after restoring',
                             msg.verify_owners, *ask)
        w.check(ok is True, 'a restored chain does not verify')
        w.log('memory', node.name, spec.cls, x.cls)

    def tamper(r, g, node, o, x):
        mh = node.p.mod('datastructures').MessageHeader
        how = r.random()
        if how < 0.2:
            old = o.header
            o.header = mh(old.type_, old.timestamp + 1, old.encrypted)
            return lambda: setattr(o, 'header', old)
        if how < 0.35 and x.cls != 'WantToComputeTask':
            old = o.sig
            bad = bytearray(old)
            bad[r.randrange(64)] ^= 1 << r.randrange(8)
            o.sig = r.choice([bytes(bad), None, ref.NO_SIG,
                              evil.sign(x.hash())])
            return lambda: setattr(o, 'sig', old)
        if how < 0.55 and x.cls == 'WantToComputeTask':
            h = o.task_header
            k = r.choice(['max_price', 'subtasks_count', 'deadline',
                          'timestamp', 'subtask_budget'])
            old = getattr(h, k)
            setattr(h, k, (old or 0) + 1)
            return lambda: setattr(h, k, old)
        if how < 0.55 and x.cls == 'TaskToCompute':
            d = o.compute_task_def
            old = d['extra_data']
            d['extra_data'] = {'evil': r.getrandbits(30)}
            return lambda: d.__setitem__('extra_data', old)
        names = [n for n, k in x.schema.fields if k == 'any' and n not in
                 ('requestor_public_key', 'provider_public_key', 'ethsig')]
        if not names:
            old = o.header
            o.header = mh(old.type_, old.timestamp + 1, old.encrypted)
            return lambda: setattr(o, 'header', old)
        name = r.choice(names)
        old = getattr(o, name)
        new = r.getrandbits(30)
        while new == old:
            new += 1
        setattr(o, name, new)
        return lambda: setattr(o, name, old)

    w.run({'honest': do_honest, 'forge': do_forge})
