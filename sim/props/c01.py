"""Round trip of every message type over a simulated network."""
import random

from .. import build as B
from .. import core
from .. import seams

EPISODES = 1500
RULE = ('a cluster of 2-4 real nodes with own clocks, zones and log levels '
        'makes, dumps, delays, duplicates, reorders, forwards, stores and '
        'loads messages of all types through crashes and restarts; every '
        'copy loaded is compared, with types, with what was sent.')


def plan(r, index):
    n = r.choice([2, 2, 3, 4])
    steps = []
    # every type is met within 63 / 3 consecutive episodes
    for k in range(r.choice([3, 3, 4, 6])):
        cls = B.ALL[(index * 3 + k) % len(B.ALL)] if k < 3 \
            else r.choice(B.ALL)
        a = r.randrange(n)
        t = r.randrange(5 * core.MINUTE)
        steps.append({'op': 'make', 't': t, 'n': a, 'id': k, 'cls': cls,
                      'seed': core.rseed(r), 'omit': r.choice([0, .25, .25,
                                                               .6, 1]),
                      'late': r.random() < 0.3,
                      'huge': r.random() < 0.02 and
                      r.choice([70_000, 140_000, 1_100_000, 2_200_000])})
        for _ in range(r.choice([1, 1, 2, 3])):
            t += r.choice([0, r.randrange(20 * core.US),
                           r.randrange(3 * core.MINUTE)])
            b = r.randrange(n)
            fwd = None
            if r.random() < 0.3:
                fwd = {'to': r.randrange(n), 'enc': r.random() < 0.5,
                       'net': core.rnet(r)}
            steps.append({'op': 'send', 't': t, 'n': a, 'id': k, 'to': b,
                          'sign': r.random() < 0.8, 'enc': r.random() < 0.5,
                          'seed': core.rseed(r), 'net': core.rnet(r),
                          'keep': r.random() < 0.3, 'fwd': fwd})
    steps += core.crashes(r, n, 12 * core.MINUTE, r.choice([0, 0, 1, 2]))
    for _ in range(r.choice([0, 0, 1])):
        steps.append({'op': 'jump', 't': r.randrange(10 * core.MINUTE),
                      'n': r.randrange(n),
                      'us': r.choice([-1, 1]) * r.randrange(core.MINUTE)})
    if n > 2 and r.random() < 0.2:
        t = r.randrange(5 * core.MINUTE)
        a = r.randrange(n)
        steps.append({'op': 'cut', 't': t, 'links':
                      [[a, x] for x in range(n)] + [[x, a]
                                                    for x in range(n)]})
        steps.append({'op': 'heal', 't': t + r.randrange(2 * core.MINUTE)})
    for i in range(n):
        steps.append({'op': 'reload', 't': 20 * core.MINUTE, 'n': i})
    return {'cfg': core.rcfg(r), 'nodes': core.rnodes(
        r, n, versions=['2.15.0', '2.15.3', '2.15.0+b1']),
        'steps': core.ordered(steps)}


def deal_for(w, r, requestor):
    ks = ['da', 'db', 'dc', 'dd', 'de']
    r.shuffle(ks)
    k = [core.ref.Key(x) for x in ks]
    return B.Deal(r, requestor, k[0], k[1], req_eth=k[2], prov_eth=k[3])


def make(w, node, s):
    """-> (real message, its specification)"""
    r = random.Random(s['seed'])
    g = B.Gen(r, now=node.now(), omit=s.get('omit', .25))
    deal = deal_for(w, r, node.key)
    spec = g.message(s['cls'], deal)
    if s['cls'] == 'Hello':
        spec.version = node.version
    free = [k for k, v in spec.fields.items()
            if spec.schema.kinds[k] == 'any' and isinstance(v, str)]
    if s.get('huge') and free:
        spec.fields[r.choice(free)] = r.choice(['hu', '\u0142.']) * (s['huge'] // 2)
        w.probe('a huge message')
    with node.p:
        spec.ts = node.now()
        if s.get('late'):
            # a user may also fill fields in after construction
            late = {k: v for k, v in spec.fields.items()
                    if spec.schema.kinds[k] == 'any'}
            early = B.Msg(spec.cls, {k: v for k, v in spec.fields.items()
                                     if k not in late}, spec.ts)
            obj = core.honest(w, 'construction of ' + spec.cls,
                              B.realize_msg, node.p, early)
            for k, v in late.items():
                core.honest(w, 'setting ' + spec.cls, setattr, obj, k,
                            B.realize(node.p, v))
        else:
            obj = core.honest(w, 'construction of ' + spec.cls,
                              B.realize_msg, node.p, spec)
    return obj, spec


def run(w, plan):
    def do_make(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        node.memory[s['id']] = make(w, node, s)
        w.log('make', node.name, s['cls'])

    def do_send(s):
        node = w.nodes[s['n']]
        if not node.up or s['id'] not in node.memory:
            return
        obj, spec = node.memory[s['id']]
        to = w.nodes[s['to']]
        with node.p:
            first = obj.sig is None
            data = core.honest(
                w, 'dump of ' + spec.cls, node.p.gm.dump, obj,
                node.key.priv if s['sign'] and first else None,
                to.key.pub if s['enc'] else None)
            if first and s['sign'] and spec.schema.sign:
                spec.signer = node.key
        w.log('send', node.name, to.name, spec.cls, core.short(data))
        w.transmit(s['n'], s['to'], data, s['net'], arrive, spec,
                   s['keep'], s.get('fwd'))

    def expect(spec):
        return B.want_msg(spec, sig=spec.sig() or core.ref.NO_SIG)

    def receive(node, data, spec, what):
        pub = spec.signer.pub if spec.signer else None
        msg = core.load_ok(w, node, data, node.key.priv, pub,
                           what='%s %s' % (what, spec.cls))
        with node.p:
            got = B.canon(msg)
        core.same(w, got, expect(spec), '%s %s differs' % (what, spec.cls))
        w.log('got', node.name, spec.cls, what)
        return msg

    def arrive(node, data, _damaged, spec, keep, fwd):
        msg = receive(node, data, spec, 'received')
        if keep:
            node.disk.setdefault('kept', []).append((data, spec))
        if fwd:
            to = w.nodes[fwd['to']]
            with node.p:
                again = core.honest(
                    w, 'second dump of ' + spec.cls, node.p.gm.dump, msg,
                    None, to.key.pub if fwd['enc'] else None)
            w.probe('forwarded')
            w.transmit(node.index, fwd['to'], again, fwd['net'], forwarded,
                       spec)

    def forwarded(node, data, _damaged, spec):
        receive(node, data, spec, 'forwarded')

    def do_reload(s):
        node = w.nodes[s['n']]
        if not node.up:
            node.start()
        for data, spec in node.disk.get('kept', []):
            seams.reseed(1)
            receive(node, data, spec, 'stored')
            w.probe('reloaded from disk')

    w.run({'make': do_make, 'send': do_send, 'reload': do_reload})
