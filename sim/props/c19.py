"""An outbox that signs copies, with retries, edits and failures."""
import random

from .. import build as B
from .. import core
from .. import ref
from .. import seams
from . import c01

EPISODES = 900
RULE = ('nodes queue unsigned messages of all types and send signed copies '
        'under retries, edits, key changes, refused keys, failing entropy, '
        'crashes and durable copies; after every step every original and '
        'every copy ever made is compared with the model and verified, and '
        'receivers pass on what they got.')


def plan(r, index):
    n = r.choice([2, 3])
    steps = []
    t = 0
    k = 0
    for i in range(r.choice([2, 3, 4])):
        steps.append({'op': 'queue', 't': t, 'n': r.randrange(n), 'id': k,
                      'cls': B.ALL[(index * 3 + k) % len(B.ALL)],
                      'omit': r.choice([0, .25, .6]), 'bare': r.random() < .3,
                      'share': r.random() < .3, 'seed': core.rseed(r)})
        if steps[-1]['share']:
            steps[-1].update(n=steps[0]['n'], cls=r.choice(
                B.TASK_MESSAGES[1:]))
        k += 1
        t += r.choice([0, r.randrange(core.MINUTE)])
    for _ in range(r.choice([8, 14, 20])):
        t += r.choice([0, r.randrange(core.MINUTE)])
        x = r.random()
        s = {'t': t, 'id': r.randrange(k), 'seed': core.rseed(r)}
        if x < .55:
            s.update(op='send', key=r.randrange(3), to=r.randrange(n),
                     enc=r.random() < .4, net=core.rnet(r),
                     fail=r.choice([None, None, None, 'key', 'entropy',
                                    'lost']),
                     twice=r.random() < .3, durable=r.random() < .3,
                     bare=r.random() < .2,
                     fwd=core.rnet(r) if r.random() < .4 else None)
        elif x < .75:
            s.update(op='edit')
        elif x < .9:
            s.update(op='resign', key=r.randrange(3), enc=r.random() < .3)
        else:
            s.update(op='discard')
        steps.append(s)
    steps += core.crashes(r, n, t + 1, r.choice([0, 0, 1, 2]))
    for i in range(n):
        steps.append({'op': 'reload', 'n': i, 't': t + core.HOUR})
    return {'cfg': core.rcfg(r), 'nodes': core.rnodes(
        r, n, versions=['2.15.0', '2.15.3']), 'steps': core.ordered(steps)}


def nested(spec):
    """all messages below spec"""
    for v in spec.fields.values():
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, B.Msg):
                yield x
                yield from nested(x)


class Entry:
    def __init__(self, obj, spec):
        self.obj, self.spec = obj, spec
        self.copies = []       # (signed object, spec of that moment)


def run(w, plan):
    keys = {}
    where = {}

    def key(node, k):
        if k == 0:
            return node.key
        return keys.setdefault((node.index, k), ref.Key(
            'key %d of %s' % (k, node.name)))

    def freeze(spec, signer):
        out = B.Msg(spec.cls, dict(spec.fields), spec.ts, signer,
                    version=spec.version)
        return out

    def audit(node, what):
        for i, e in node.memory.get('queue', {}).items():
            core.same(w, B.canon(e.obj), B.want_msg(e.spec),
                      'the queued original changed', what)
            for obj, spec in e.copies:
                core.same(w, B.canon(obj), B.want_msg(spec),
                          'a signed copy changed', what)

    def do_queue(s):
        node = w.nodes[s['n']]
        where[s['id']] = s['n']
        if not node.up:
            return
        r = random.Random(s['seed'])
        g = B.Gen(r, now=node.now(), omit=s['omit'])
        deal = c01.deal_for(w, r, node.key)
        old = node.memory.get('deal')
        if s['share'] and old is not None:
            deal.ttc, deal.rct = old.ttc, old.rct
        spec = g.message(s['cls'], deal)
        spec.ts = node.now()
        if s['bare']:
            for m in nested(spec):
                if r.random() < .5 and m.cls not in (
                        'WantToComputeTask', 'TaskToCompute',
                        'ReportComputedTask'):
                    m.signer = None
        if s['cls'] == 'Hello':
            spec.version = node.version
        with node.p:
            obj = core.honest(w, 'construction of ' + s['cls'],
                              B.realize_msg, node.p, spec)
            if s['share']:
                # embed the very objects another queued message embeds
                for e in node.memory.get('queue', {}).values():
                    for name, v in e.spec.fields.items():
                        if v is spec.fields.get(name) \
                                and isinstance(v, B.Msg):
                            setattr(obj, name, getattr(e.obj, name))
                            w.probe('shared part')
            node.memory.setdefault('queue', {})[s['id']] = Entry(obj, spec)
            node.memory['deal'] = deal
            audit(node, 'queueing ' + s['cls'])
        w.log('queue', node.name, s['cls'])

    def entry(s):
        node = w.nodes[where.get(s['id'], 0)]
        if not node.up or s['id'] not in node.memory.get('queue', {}):
            return node, None
        return node, node.memory['queue'][s['id']]

    def do_send(s):
        node, e = entry(s)
        if e is None:
            return
        sender = key(node, s['key'])
        to = w.nodes[s['to']]
        sign = node.p.mod('utils').copy_and_sign
        with node.p:
            if s['fail'] == 'key':
                # a key the curve refuses
                bad = [b'', b'\0' * 32, b'\xff' * 32,
                       'text'][s['seed'] % 4]
                try:
                    sign(e.obj, bad)
                except Exception:  # pylint: disable=broad-except
                    w.fault('refused_key')
                else:
                    w.check(False, 'signed with a useless key', bad)
                audit(node, 'a refused key')
                return
            signed = core.honest(w, 'copy_and_sign', sign, e.obj, sender.priv)
            spec = freeze(e.spec, sender)
            w.check(ref.verify(sender.pub, bytes(signed.sig or b''),
                               spec.hash()),
                    'a signed copy does not verify', spec.cls)
            w.check(core.honest(w, 'verifying a signed copy',
                                signed.verify_signature, sender.pub) is True,
                    'a signed copy does not verify', spec.cls)
            w.check(not e.obj == signed, 'unsigned equals signed')
            spec.forged_sig = bytes(signed.sig)
            e.copies.append((signed, spec))
            audit(node, 'signing ' + spec.cls)
            if s['durable']:
                raw = core.honest(w, 'dump', node.p.gm.dump, signed, None,
                                  None)
                node.disk.setdefault('out', []).append((raw, spec, sender))
            if s['fail'] == 'entropy' and spec.schema.encrypt:
                seams.SEAM.entropy.fail_at = seams.SEAM.entropy.calls + 1
                try:
                    node.p.gm.dump(signed, None, to.key.pub)
                except OSError:
                    w.fault('entropy_failure')
                finally:
                    seams.SEAM.entropy.fail_at = None
                audit(node, 'a failed dump')
            if s['twice']:
                again = core.honest(w, 'copy_and_sign', sign, signed,
                                    key(node, s['key'] + 1).priv)
                core.same(w, B.canon(again), B.want_msg(spec),
                          'a signed message was signed again')
            data = core.honest(w, 'dump', node.p.gm.dump, signed, None,
                               to.key.pub if s['enc'] else None)
            audit(node, 'sending ' + spec.cls)
            if s['bare']:
                # somebody sends the same without signing it
                core.honest(w, 'dump', node.p.gm.dump, e.obj, None, None)
                plain = freeze(e.spec, None)
                plain.forged_sig = ref.NO_SIG
                core.same(w, B.canon(e.obj), B.want_msg(plain),
                          'sent without a signature')
                core.same(w, B.canon(core.honest(
                    w, 'copy_and_sign', sign, e.obj, sender.priv)),
                    B.want_msg(plain), 'a message sent was signed later')
                refuse(node, e.obj, plain, sender, s['enc'])
                bare = core.honest(w, 'dump', node.p.gm.dump, e.obj, None,
                                   None)
                e.obj.sig = None
                audit(node, 'sending without a signature')
                w.transmit(node.index, s['to'], bare, s['net'], unsigned,
                           plain)
        w.log('send', node.name, to.name, spec.cls, core.short(data))
        if s['fail'] == 'lost':
            w.fault('lost')
            return
        w.transmit(node.index, s['to'], data, s['net'], arrive, spec, sender,
                   s['fwd'])

    def arrive(node, data, _damaged, spec, sender, fwd):
        msg = core.load_ok(w, node, data, node.key.priv, sender.pub)
        with node.p:
            core.same(w, B.canon(msg), B.want_msg(spec),
                      'a receiver got something else')
            if fwd is None:
                return
            again = core.honest(w, 'copy_and_sign', node.p.mod(
                'utils').copy_and_sign, msg, key(node, 2).priv)
            core.same(w, B.canon(again), B.want_msg(spec),
                      'a received message was signed again')
            refuse(node, msg, spec, key(node, 2), False)
            out = core.honest(w, 'dump', node.p.gm.dump, again, None, None)
        w.probe('passed on')
        to = random.Random(len(data)).randrange(len(w.nodes))
        w.transmit(node.index, to, out, fwd, arrive, spec, sender, None)

    def unsigned(node, data, _damaged, plain):
        msg = core.load_ok(w, node, data, None, None)
        k = key(node, 1)
        with node.p:
            core.same(w, B.canon(msg), B.want_msg(plain),
                      'a receiver got something else')
            core.same(w, B.canon(core.honest(
                w, 'copy_and_sign', node.p.mod('utils').copy_and_sign, msg,
                k.priv)), B.want_msg(plain),
                'a received message was signed by its receiver')
            refuse(node, msg, plain, k, False)
        w.probe('sent without a signature')

    def refuse(node, msg, spec, k, enc):
        """an existing signature is never replaced"""
        try:
            node.p.gm.dump(msg, k.priv, k.pub if enc else None)
        except node.p.mod('exceptions').SignatureAlreadyExists:
            w.probe('signature already exists')
        except Exception as e:  # pylint: disable=broad-except
            raise core.Violation('dumping signed with a key went wrong',
                                 core.describe(e))
        else:
            w.check(False, 'an existing signature could be overwritten',
                    spec.cls)
        core.same(w, B.canon(msg), B.want_msg(spec),
                  'a refused dump changed the message')

    def do_resign(s):
        node, e = entry(s)
        if e is None or not e.copies:
            return
        with node.p:
            for obj, spec in e.copies[-3:]:
                refuse(node, obj, spec, key(node, s['key']), s['enc'])
            audit(node, 'dumping with a key')

    def do_edit(s):
        node, e = entry(s)
        if e is None:
            return
        r = random.Random(s['seed'])
        free = [k for k, kind in e.spec.schema.fields if kind == 'any'
                and k not in ('requestor_id', 'provider_public_key')]
        if e.spec.cls in ('TaskToCompute', 'WantToComputeTask',
                          'SubtaskResultsAccepted'):
            free = [k for k in free if k in (
                'package_hash', 'resources_options', 'extra_data')]
        if not free:
            return
        name = r.choice(free)
        v = B.Gen(r, now=node.now()).any()
        with node.p:
            core.honest(w, 'editing', setattr, e.obj, name,
                        B.realize(node.p, v))
            e.spec = freeze(e.spec, None)
            e.spec.fields[name] = v
            audit(node, 'an edit')
        w.probe('edited')

    def do_discard(s):
        node, e = entry(s)
        if e is None:
            return
        with node.p:
            del node.memory['queue'][s['id']]
            for obj, spec in e.copies:
                core.same(w, B.canon(obj), B.want_msg(spec),
                          'a signed copy changed', 'discarding')
            e.obj = None

    def do_reload(s):
        node = w.nodes[s['n']]
        if not node.up:
            node.start()
        for raw, spec, sender in node.disk.get('out', []):
            msg = core.load_ok(w, node, raw, None, sender.pub)
            with node.p:
                again = core.honest(w, 'copy_and_sign', node.p.mod(
                    'utils').copy_and_sign, msg, key(node, 1).priv)
                core.same(w, B.canon(again), B.want_msg(spec),
                          'a stored signed message was signed again')
                data = core.honest(w, 'dump', node.p.gm.dump, again, None,
                                   None)
                w.check(data == raw, 'a stored message is dumped differently')
            w.probe('reloaded from disk')

    w.run({'queue': do_queue, 'send': do_send, 'edit': do_edit,
           'resign': do_resign, 'discard': do_discard, 'reload': do_reload})
