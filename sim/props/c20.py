"""Offers and cancellation notices through a gossiping crowd."""
import random

from .. import build as B
from .. import chain
from .. import core
from .. import ref

EPISODES = 700
RULE = ('requestors spread signed task headers and cancellation notices; '
        'honest nodes decode, store, mix and pass them on for many hops, bare '
        'and inside offers, assignments and reports, through losses, '
        'duplicates, restarts and clock jumps; dishonest ones alter any '
        'field in memory or on the wire, transplant, strip or forge '
        'signatures; every node verifies everything it meets.')
ASSUMPTIONS = ('the other valid form (r, n-s) of an ECDSA signature is not '
               'counted as an alteration',)

CARRIERS = ['WantToComputeTask', 'TaskToCompute', 'ReportComputedTask',
            'TaskFailure', 'CannotComputeTask', 'AckReportComputedTask',
            'SubtaskResultsAccepted', 'RejectReportComputedTask',
            'ForceReportComputedTask', 'ForceGetTaskResult']


def plan(r, index):
    n = r.choice([3, 4, 5])
    steps = []
    t = 0

    def crowd():
        return [[to, core.rnet(r, lose=.15)] for to in r.sample(
            range(n), r.choice([1, 2, 2, 3]))]

    for k in range(r.choice([1, 2, 3])):
        steps.append({'op': 'offer', 't': t, 'n': k % n, 'id': k,
                      'omit': r.choice([0, .25, .6, 1]), 'to': crowd(),
                      'plain': r.random() < .3, 'cancel': r.random() < .5,
                      'seed': core.rseed(r)})
        t += r.randrange(core.MINUTE)
    for i in range(r.choice([10, 16, 24])):
        t += r.choice([core.US, 30 * core.US, core.MINUTE, 3 * core.MINUTE])
        x = r.random()
        s = {'t': t, 'n': r.randrange(n), 'seed': core.rseed(r)}
        if x < .3:
            s.update(op='pass_on', to=crowd(), enc=r.random() < .3)
        elif x < .45:
            s.update(op='carry', cls=r.choice(CARRIERS[:3] + CARRIERS),
                     to=crowd(), enc=r.random() < .3)
        elif x < .55:
            s.update(op='cancel_on', to=crowd(), alone=r.random() < .2)
        elif x < .8:
            s.update(op='tamper', to=crowd(), wire=r.random() < .6,
                     field=r.choice(FIELDS) if r.random() < .4
                     else FIELDS[(index * 7 + i) % len(FIELDS)])
        elif x < .87:
            s.update(op='forge', to=crowd(), how=r.choice(
                ['unsigned', 'other', 'other', 'requestor_of_another']))
        else:
            s.update(op='tamper_notice', to=crowd(), how=r.choice(
                ['task_id', 'timestamp', 'sig', 'nosig', 'transplant',
                 'other', 'enc']))
        steps.append(s)
    steps += core.crashes(r, n, t + 1, r.choice([0, 1, 2]))
    if r.random() < .3:
        steps.append({'op': 'jump', 't': r.randrange(t), 'n': r.randrange(n),
                      'us': r.choice([-1, 1]) * r.randrange(
                          40 * 24 * core.HOUR)})
    return {'cfg': core.rcfg(r), 'nodes': core.rnodes(
        r, n, versions=['2.15.0', '2.15.4']), 'steps': core.ordered(steps)}


FIELDS = B.HeaderV.FIELDS + ['task_owner.' + f for f in B.NodeV.FIELDS] \
    + ['signature', 'mask', 'task_owner.key']


def other(r, field, old, pool):
    """a well-formed value of a header field, different from old; old is in
    wire form, where everything is plain"""
    g = B.Gen(r)
    name = field.split('.')[-1]
    many = {
        'mask': lambda: [flip_bit(r, old) if old else g.mask(), bytes(32),
                         b'\xff' * 32, None],
        'timestamp': lambda: [old + 1, old - 1, old + 10 ** 6, 0],
        'signature': lambda: [flip_bit(r, old), old[:-1], old + b'\0',
                              b'', None, bytes(65)] + pool,
        'task_id': lambda: [old + 'x', old[:-1], '', old.upper(),
                            B.make_id(r, ref.Key('m').hex)],
        'deadline': lambda: [(old or 0) + 1, None, 0],
        'subtask_timeout': lambda: [(old or 0) + 1, None, 0, 10 ** 9],
        'market_type': lambda: ['Brass', 'Usage', None],
        'environment': lambda: [(old or '')[:100] + ' ', None, '', 'BLENDER'],
        'environment_prerequisites': lambda: [
            dict(old or {}, x=1), dict(old or {}, x={'y': [None]}), {}, None],
        'min_version': lambda: ['9.9.9', old + '+x', '0.0.0'],
        'subtasks_count': lambda: [old + 1, old * 2, 10 ** 9],
        'concent_enabled': lambda: [True, False, None],
        'node_name': lambda: [(old or '') + 'x', None, ''],
        'key': lambda: [(old or '')[:-1] + '~', None, '',
                        ref.Key('m').hex],
        'prv_addr': lambda: ['10.0.0.1', 'fe80::1', None],
        'prv_addresses': lambda: [(old or []) + ['10.0.0.1'], [], None],
        'port_statuses': lambda: [dict(old or {}, **{'7': 'x'}), {}, None],
        'nat_type': lambda: [(old or []) + ['x'], [], None],
        'hyperdrive_prv_port': lambda: [(old or 0) + 1, None, 3282],
    }
    many['pub_addr'] = many['prv_addr']
    many['hyperdrive_pub_port'] = many['hyperdrive_prv_port']
    for k in ('estimated_memory', 'max_price', 'subtask_budget'):
        many[k] = lambda: [(old or 0) + 1, (old or 0) - 1, 0, None,
                           2 ** 70]
    if name in many:
        values = many[name]()
    else:
        values = [(old or 0) % 65534 + 1, None, 40102, 1]
    values = [v for v in values if B.plain(v) != B.plain(old)]
    return r.choice(values)


def flip_bit(r, raw):
    out = bytearray(raw)
    i = r.randrange(8 * len(out))
    out[i // 8] ^= 1 << i % 8
    return bytes(out)


class Known:
    """a genuine header or notice in somebody's hands"""

    def __init__(self, obj, spec, owner):
        self.obj, self.spec, self.owner = obj, spec, owner


def run(w, plan):
    def known(node, kind):
        return node.memory.setdefault(kind, [])

    def invalid(node):
        return node.p.mod('exceptions').InvalidSignature

    def must_verify(node, obj, owner, what):
        ok = core.honest(w, 'verifying a genuine ' + what, (
            obj.verify if what == 'header' else obj.verify_signature),
            owner.pub)
        w.check(ok is True, 'a genuine %s does not verify' % what, ok)

    def must_not(node, obj, pub, what, why):
        try:
            (obj.verify if what == 'header' else obj.verify_signature)(pub)
        except invalid(node):
            w.probe('did not verify')
        except Exception as e:  # pylint: disable=broad-except
            raise core.Violation('a bad %s fails otherwise' % what,
                                 '%s %s' % (why, core.describe(e)))
        else:
            w.check(False, 'a bad %s verifies' % what, why)

    def inspect(node, obj, spec, owner, what):
        core.same(w, B.canon(obj), B.want(spec),
                  'another %s arrived' % what)
        must_verify(node, obj, owner, what)
        r = random.Random(repr(spec.given if what == 'header' else spec.ts))
        k = ref.Key('someone %d' % r.randrange(9))
        must_not(node, obj, k.pub, what, 'the key of someone else')

    def say(node, msg, to, enc, fn, *args):
        """dump once per receiver and send"""
        for b, net in to:
            with node.p:
                data = core.honest(
                    w, 'dump', node.p.gm.dump, msg, node.key.priv
                    if msg.sig is None else None,
                    w.nodes[b].key.pub if enc else None)
            w.transmit(node.index, b, data, net, fn, node.key, *args)

    # --- honest nodes ------------------------------------------------------

    def offer(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        g = B.Gen(r, now=node.now(), omit=s['omit'])
        spec = g.header(node.key)
        with node.p:
            kw = {k: B.realize(node.p, x) for k, x in spec.given.items()}
            if s['plain']:
                kw['task_owner'] = kw['task_owner'].to_dict()
            th = node.p.mod('datastructures.tasks').TaskHeader
            h = core.honest(w, 'a task header', th, **kw)
            must_not(node, h, node.key.pub, 'header', 'not signed yet')
            core.honest(w, 'signing a header', h.sign, node.key.priv)
            w.check(ref.verify(node.key.pub, bytes(h.signature),
                               spec.hash()),
                    'a signed header is not signed')
            spec._sig = bytes(h.signature)
            inspect(node, h, spec, node.key, 'header')
            known(node, 'header').append(Known(h, spec, node.key))
            if s['cancel']:
                m = B.Msg('RemoveTask', {'task_id': spec.given['task_id']},
                          node.now(), node.key)
                obj = core.honest(w, 'a notice', node.p.mod(
                    'message.p2p').RemoveTask,
                    task_id=spec.given['task_id'])
                core.honest(w, 'signing a notice', obj.sign_message,
                            node.key.priv)
                m.forged_sig = bytes(obj.sig)
                inspect(node, obj, m, node.key, 'notice')
                known(node, 'notice').append(Known(obj, m, node.key))
        w.log('offer', node.name)
        tell(node, known(node, 'header')[-1:], s['to'], False)
        if s['cancel']:
            cancel(node, known(node, 'notice')[-1:], s['to'])

    def tell(node, items, to, enc):
        if not items:
            return
        with node.p:
            msg = core.honest(w, 'an announcement', node.p.mod(
                'message.p2p').Tasks, tasks=[k.obj for k in items])
        say(node, msg, to, enc, heard, [(k.spec, k.owner) for k in items])

    def heard(node, data, _damaged, sender, items):
        msg = core.load_ok(w, node, data, node.key.priv, sender.pub)
        with node.p:
            w.check(len(msg.tasks) == len(items), 'offers were lost')
            for h, (spec, owner) in zip(msg.tasks, items):
                inspect(node, h, spec, owner, 'header')
                known(node, 'header').append(Known(h, spec, owner))
        w.probe('heard')

    def cancel(node, items, to):
        if not items:
            return
        with node.p:
            msg = core.honest(w, 'a container', node.p.mod(
                'message.p2p').RemoveTaskContainer,
                remove_tasks=[k.obj for k in items])
        say(node, msg, to, False, cancelled,
            [(k.spec, k.owner) for k in items])

    def cancelled(node, data, _damaged, sender, items):
        msg = core.load_ok(w, node, data, node.key.priv, sender.pub)
        with node.p:
            w.check(len(msg.remove_tasks) == len(items), 'notices were lost')
            for m, (spec, owner) in zip(msg.remove_tasks, items):
                inspect(node, m, spec, owner, 'notice')
                known(node, 'notice').append(Known(m, spec, owner))
        w.probe('cancelled')

    def pick(node, kind, r, most):
        have = known(node, kind)
        return r.sample(have, min(len(have), r.randrange(1, most + 1)))

    def pass_on(s):
        node = w.nodes[s['n']]
        if node.up:
            r = random.Random(s['seed'])
            tell(node, pick(node, 'header', r, 4), s['to'], s['enc'])

    def cancel_on(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        items = pick(node, 'notice', r, 4)
        if not s['alone']:
            cancel(node, items, s['to'])
            return
        for k in items[:1]:        # the notice by itself
            say(node, k.obj, s['to'], r.random() < .5, alone, k.spec,
                k.owner)

    def alone(node, data, _damaged, _sender, spec, owner):
        msg = core.load_ok(w, node, data, node.key.priv, owner.pub)
        with node.p:
            inspect(node, msg, spec, owner, 'notice')
            known(node, 'notice').append(Known(msg, spec, owner))

    def deal_of(k):
        d = B.Deal(random.Random(k.owner.hex), k.owner,
                   ref.Key('prov ' + k.owner.hex[:8]), ref.Key('conc'))
        return d

    def carry(s):
        """an offer travels inside a message about it"""
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        have = known(node, 'header')
        if have:
            k = r.choice(have)
            compose(node, k, s['cls'], r, s)

    def compose(node, k, cls, r, s):
        deal = deal_of(k)
        held = node.memory.setdefault(('held', k.owner.hex), [])
        p = node.p
        if cls == 'WantToComputeTask':
            g = B.Gen(r, now=node.now())
            spec = g.wtct(deal, node.now())
            spec.fields['task_header'] = k.spec
            with p:
                kw = {f: B.realize(p, v) for f, v in spec.fields.items()
                      if f != 'task_header'}
                obj = core.honest(w, 'an offer', p.mod(
                    'message.tasks').WantToComputeTask,
                    task_header=k.obj, **kw)
        else:
            g = chain.ChainGen(r, node.now(), .5, held)
            deal.ttc = deal.rct = None
            while True:
                try:
                    spec = g.compose(cls, deal)
                except chain.Missing as e:
                    compose(node, k, e.args[0], r, None)
                else:
                    break
            with p:
                obj = core.honest(w, 'construction of ' + cls,
                                  chain.build, p, spec, held)
        spec.ts = node.now()
        role = 'provider' if cls == 'WantToComputeTask' \
            else spec.schema.owners[0]
        spec.signer = deal.key(role)
        with p:
            core.honest(w, 'signing', obj.sign_message, spec.signer.priv)
        spec.forged_sig = bytes(obj.sig)
        held.append(chain.Held(obj, spec, None, spec.signer))
        w.log('carry', node.name, cls)
        if s is not None:
            say(node, obj, s['to'], s['enc'], delivered, spec, k.owner)

    def headers_in(obj, spec):
        """(real header, its specification) wherever it is embedded"""
        for o, m in chain.real_links(None, obj, spec):
            if m.cls == 'WantToComputeTask':
                yield o.task_header, m.fields['task_header']

    def delivered(node, data, _damaged, _sender, spec, owner):
        msg = core.load_ok(w, node, data, node.key.priv, spec.signer.pub,
                           what='carrier ' + spec.cls)
        with node.p:
            n = 0
            for h, hs in headers_in(msg, spec):
                inspect(node, h, hs, owner, 'header')
                if not n:
                    known(node, 'header').append(Known(h, hs, owner))
                n += 1
            w.check(n, 'no offer inside')
        here = chain.respec(spec, ref.Frame(data))
        node.memory.setdefault(('held', owner.hex), []).append(
            chain.Held(msg, here, data, spec.signer))
        w.probe('inside ' + spec.cls)

    # --- dishonest nodes ---------------------------------------------------

    def wire_slots(node, msg):
        with node.p:
            data = core.honest(w, 'dump', node.p.gm.dump, msg, None, None)
        return ref.uncbor(ref.Frame(data).payload)

    def shout(node, number, slots, to, fn, *args):
        """hand-made bytes, signed by the dishonest node"""
        payload = ref.cbor(slots)
        ts = node.now()
        data = ref.frame(number, ts, False, node.key.sign(
            ref.short_hash(number, ts, payload)), payload)
        for b, net in to:
            w.transmit(node.index, b, data, net, fn, *args)

    def change(r, d, field, pool):
        """alter one field of a header in wire form"""
        owner = d['task_owner']
        if field == 'task_owner':
            field = 'task_owner.' + r.choice(B.NodeV.FIELDS)
        if '.' in field:
            name = field.split('.')[1]
            owner[name] = other(r, field, owner[name], pool)
        else:
            d[field] = other(r, field, d[field], pool)
        return field

    def tamper(s):
        node = w.nodes[s['n']]
        if not node.up or not known(node, 'header'):
            return
        r = random.Random(s['seed'])
        have = known(node, 'header')
        k = r.choice(have)
        pool = [x.spec.signature() for x in have if x.spec.signature()
                != k.spec.signature()]
        w.fault('altered_header')
        d = ref.uncbor(ref.cbor(B.wire(k.spec)))
        field = change(r, d, s['field'], pool)
        if s['wire']:
            carrier = r.choice(['Tasks', 'WantToComputeTask'])
            if carrier == 'Tasks':
                slots = [['tasks', [d, B.wire(k.spec)]]]
                shout(node, 1006, slots, s['to'], suspicious, field,
                      k.owner, k.spec)
            else:
                deal = deal_of(k)
                deal.provider = node.key
                spec = B.Gen(r, now=node.now()).wtct(deal, node.now())
                slots = [[a, d if a == 'task_header' else b]
                         for a, b in spec.slots()]
                shout(node, 2001, slots, s['to'], suspicious, field,
                      k.owner, None)
            return
        # in memory: on an object it decoded itself, and back again
        with node.p:
            h = k.obj
            name = field.split('.')[0]
            if name == 'task_owner':
                n = field.split('.')[1]
                target, value = h.task_owner, d['task_owner'][n]
            else:
                n, target, value = name, h, d[name]
                if name == 'mask' and value is not None:
                    value = node.p.mod('datastructures.masking').Mask(value)
                if name == 'market_type' and value is not None:
                    value = type(h).MARKET_TYPE(value)
            before = getattr(target, n)
            setattr(target, n, value)
            must_not(node, h, k.owner.pub, 'header', 'altered ' + field)
            msg = core.honest(w, 'an announcement', node.p.mod(
                'message.p2p').Tasks, tasks=[h])
        say(node, msg, s['to'], False,
            lambda nd, data, dmg, sender: suspicious(
                nd, data, dmg, field, k.owner, None))
        with node.p:
            setattr(target, n, before)
            inspect(node, h, k.spec, k.owner, 'header')

    def suspicious(node, data, _damaged, why, owner, also):
        """the first header is bad; `also`, when given, follows and is good"""
        msg, err = core.load(w, node, data, node.key.priv, None)
        if err is not None:
            w.probe('bad header refused')
            return
        with node.p:
            hs = msg.tasks if hasattr(msg, 'tasks') else [msg.task_header]
            must_not(node, hs[0], owner.pub, 'header', why)
            if also is not None:
                inspect(node, hs[1], also, owner, 'header')
            # looking does not repair it
            must_not(node, hs[0], owner.pub, 'header', why)

    def forge(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        victim = w.nodes[r.randrange(len(w.nodes))].key
        spec = B.Gen(r, now=node.now()).header(victim, signed=False)
        signer = {'unsigned': None, 'other': ref.Key('mallory'),
                  'requestor_of_another': node.key
                  if node.key is not victim else ref.Key('mallory')}[s['how']]
        spec.signer = signer
        w.fault('forged_header')
        with node.p:
            h = core.honest(w, 'a forged header', B.realize, node.p, spec)
            must_not(node, h, victim.pub, 'header', s['how'])
            if signer is not None:
                must_verify(node, h, signer, 'header')
            msg = core.honest(w, 'an announcement', node.p.mod(
                'message.p2p').Tasks, tasks=[h])
        say(node, msg, s['to'], False,
            lambda nd, data, dmg, sender: suspicious(
                nd, data, dmg, s['how'], victim, None))

    def tamper_notice(s):
        node = w.nodes[s['n']]
        have = known(node, 'notice')
        if not node.up or not have:
            return
        r = random.Random(s['seed'])
        k = r.choice(have)
        raw = ref.uncbor(ref.cbor(B.wire_nested(k.spec)))
        good = ref.uncbor(ref.cbor(raw))
        how = s['how']
        if how == 'task_id':
            old = k.spec.fields['task_id']
            raw[2] = [['task_id', r.choice([old + 'x', old[:-1], '', None,
                                            B.make_id(r, k.owner.hex)])]]
        elif how == 'timestamp':
            raw[0][1] += r.choice([1, -1, 3600, -3600])
        elif how == 'sig':
            raw[1] = r.choice([flip_bit(r, raw[1]), raw[1][:-1],
                               raw[1] + b'\0', b'', bytes(65)])
        elif how == 'nosig':
            raw[1] = None
        elif how == 'transplant':
            others = [x for x in have if x.spec.sig() != raw[1]]
            raw[1] = r.choice(others).spec.sig() if others \
                else k.owner.sign(b'something else')
        elif how == 'other':
            m = B.Msg('RemoveTask', dict(k.spec.fields), k.spec.ts,
                      ref.Key('mallory'))
            raw = B.wire_nested(m)
        else:
            raw[0][2] = not raw[0][2]       # mode of transport: no alteration
        w.fault('altered_notice')
        shout(node, 1017, [['remove_tasks', [True, [raw, good]]]], s['to'],
              bad_notice, how, k.owner, k.spec)

    def bad_notice(node, data, _damaged, how, owner, also):
        msg, err = core.load(w, node, data, None, None)
        if err is not None:
            w.check(how != 'enc', 'a container was refused',
                    core.describe(err))
            w.probe('bad notice refused')
            return
        with node.p:
            bad, good = msg.remove_tasks
            if how == 'enc':
                inspect(node, bad, also, owner, 'notice')
            else:
                must_not(node, bad, owner.pub, 'notice', how)
            inspect(node, good, also, owner, 'notice')

    w.run({'offer': offer, 'pass_on': pass_on, 'carry': carry,
           'cancel_on': cancel_on, 'tamper': tamper, 'forge': forge,
           'tamper_notice': tamper_notice})
