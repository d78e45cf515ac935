"""Usage figures from the provider to the last holder of a report."""
import random

from .. import build as B
from .. import chain
from .. import core
from .. import ref

EPISODES = 1600
RULE = ('providers report partial and complete statistics; requestor and '
        'Concent embed the reports they got in further messages, keep some on '
        'disk through restarts and compare the figures at every hop; '
        'malicious providers add, remove and distort groups and figures, in '
        'reports by themselves and deep inside other messages, and an '
        'independent table tells what must be refused.')

# group -> figure -> kind
TREE = {
    'blkio_stats': {k: 'dict' for k in B.StatsV.FIELDS['BlockIoStats']},
    'cpu_stats': {
        'cpu_usage': ('counters', ['percpu_usage', 'total_usage',
                                   'usage_in_kernelmode',
                                   'usage_in_usermode']),
        'throttling_data': ('counters', ['periods', 'throttled_periods',
                                         'throttled_time'])},
    'memory_stats': {'kernel_tcp_usage': 'dict', 'kernel_usage': 'dict',
                     'swap_usage': 'dict', 'usage': 'dict', 'cache': 'int',
                     'stats': 'dict', 'use_hierarchy': 'bool'},
    'pids_stats': {'current': 'int', 'limit': 'int'},
}
STRANGE = ['foo', 'cpu_stats_', 'Usage', '_x', 'networks', 'ITEMS', 'limit',
           'current', 'periods', 'cpu_usage', 'op', '', 'total_usage',
           'read', 'throttling_data ', 'memory_stats', 'self', 'key']
WRONG = {
    'dict': [True, False, 0, 1, -1.5, 'text', b'bytes', [1], [], '', [[]],
             [['a', 1]]],
    'int': [True, False, 1.0, 'text', '7', b'7', [1], {'a': 1}, [], {}, '',
            float('nan')],
    'bool': [0, 1, 'True', b'\x01', [True], {}, [], 1.0, ''],
}
LATER = ['AckReportComputedTask', 'SubtaskResultsAccepted',
         'SubtaskResultsRejected', 'ForceReportComputedTask',
         'ForceGetTaskResult', 'ForceSubtaskResults', 'SubtaskResultsVerify',
         'AckForceGetTaskResult', 'VerdictReportComputedTask',
         'ForceGetTaskResultUpload', 'ForcePayment',
         'AckSubtaskResultsVerify', 'ForceSubtaskResultsResponse']


def plan(r, index):
    steps = []
    t = 0
    for k in range(r.choice([1, 2, 3])):
        steps.append({'op': 'report', 't': t, 'id': k, 'mask': r.randrange(
            16), 'full': r.random() < .3, 'seed': core.rseed(r),
            'enc': r.random() < .4, 'net': core.rnet(r, lose=.05),
            'keep': r.random() < .4})
        t += r.choice([0, core.US, core.MINUTE])
    for i in range(r.choice([4, 6, 9])):
        t += r.choice([core.US, 20 * core.US, 2 * core.MINUTE])
        if r.random() < .45:
            steps.append({'op': 'relay', 't': t, 'n': r.randrange(3),
                          'to': r.randrange(3), 'cls': r.choice(LATER),
                          'seed': core.rseed(r), 'enc': r.random() < .4,
                          'net': core.rnet(r, lose=.05),
                          'keep': r.random() < .3})
        else:
            steps.append({'op': 'cheat', 't': t, 'to': r.randrange(3),
                          'deep': r.choice([0, 0, 1, 2, 3]),
                          'bad': r.choice([0, 1, 1, 1, 1, 2]),
                          'seed': core.rseed(r), 'net': core.rnet(r)})
    steps += core.crashes(r, 3, t + 1, r.choice([0, 0, 1, 2]))
    for i in range(3):
        steps.append({'op': 'reload', 'n': i, 't': t + core.HOUR})
    return {'cfg': core.rcfg(r), 'nodes': core.rnodes(
        r, 3, versions=['2.15.0', '2.15.6']), 'steps': core.ordered(steps)}


def figure(r):
    return r.choice([0, 1, 7, 2 ** 31, 2 ** 63, 2 ** 64 + 3,
                     r.getrandbits(50), -1, r.getrandbits(90)])


def make(r, mask, full=False):
    """partial or complete statistics as a plain dictionary"""
    out = {}
    p = 1 if full else r.choice([.3, .6, .9])
    for i, (group, figures) in enumerate(TREE.items()):
        if not mask >> i & 1 and not full:
            if r.random() < .3:
                out[group] = None
            continue
        g = {}
        names = list(figures)
        r.shuffle(names)
        for name in names:
            kind = figures[name]
            if r.random() > p:
                if r.random() < .2:
                    g[name] = None
                continue
            if kind == 'int':
                g[name] = figure(r)
            elif kind == 'bool':
                g[name] = r.random() < .5
            elif kind == 'dict':
                keys = ['failcnt', 'limit', 'max_usage', 'usage', 'major',
                        'op', 'active_anon', 'Total', '\u017c']
                g[name] = {k: r.choice([figure(r), figure(r), 'Read', None])
                           for k in r.sample(keys, r.randrange(0, 5))}
            else:
                c = {}
                for k in kind[1]:
                    if r.random() <= p:
                        c[k] = [figure(r) for _ in range(r.choice(
                            [0, 1, 2, 3, 4, 4, 8, 65, 300]))] \
                            if k == 'percpu_usage' else figure(r)
                if c:
                    g[name] = c
        if g:
            out[group] = g
    keys = list(out)
    r.shuffle(keys)
    return {k: out[k] for k in keys}


def expected(raw):
    """the typed form every holder must see"""
    if raw is None:
        return B.plain(None)
    top = {}
    for group, names in TREE.items():
        g = raw.get(group)
        if g is None:
            top[group] = B.plain(None)
            continue
        sub = {}
        for name, kind in names.items():
            v = g.get(name)
            if v is not None and not isinstance(kind, str):
                d = {k: ([] if k == 'percpu_usage' else 0) for k in kind[1]}
                d.update(v)
                sub[name] = ('dict', {'cpu_usage': 'CpuUsage',
                                      'throttling_data': 'ThrottlingData'}
                             [name], tuple(sorted(
                                 (repr(k), B.plain(x)) for k, x in d.items())))
            else:
                sub[name] = B.plain(v)
        top[group] = ('obj', {'blkio_stats': 'BlockIoStats',
                              'cpu_stats': 'CpuStats',
                              'memory_stats': 'MemoryStats',
                              'pids_stats': 'PidStats'}[group],
                      tuple(sorted(sub.items())))
    return ('obj', 'ProviderStats', tuple(sorted(top.items())))


def verdict(raw):
    """None: fine; a reason: to be refused"""
    if raw is None:
        return None
    if not isinstance(raw, dict):
        return 'statistics of a wrong type'
    for group, g in raw.items():
        if group not in TREE:
            return 'unknown group'
        if g is None:
            continue
        if not isinstance(g, dict):
            return 'group of a wrong type'
        for name, v in g.items():
            if name not in TREE[group]:
                return 'unknown part of a group'
            if v is None:
                continue
            kind = TREE[group][name]
            if kind == 'int':
                if type(v) is not int:
                    return 'figure of a wrong type'
            elif kind == 'bool':
                if type(v) is not bool:
                    return 'figure of a wrong type'
            elif not isinstance(v, dict):
                return 'part of a wrong type'
            elif kind != 'dict':
                for c in v:
                    if c not in kind[1]:
                        return 'unknown counter'
    return None


def distort(r, raw):
    """one change a malicious provider makes"""
    k = r.random()
    groups = [g for g in raw if raw[g] and g in TREE] if isinstance(raw, dict) else []
    if k < .06 or not isinstance(raw, dict):
        return r.choice(WRONG['dict'] + [{7: 1}, {None: 1}, {b'x': 1}])
    if k < .2 or not groups:
        raw[r.choice(STRANGE)] = r.choice([None, 0, {}, {'a': 1}, [], 5])
        return raw
    if k < .35:
        raw[r.choice(list(TREE))] = r.choice(WRONG['dict'])
        return raw
    g = r.choice(groups)
    if not isinstance(raw[g], dict):
        return raw
    if k < .5:
        raw[g][r.choice(STRANGE)] = r.choice([None, 0, {}, {'a': 1}, []])
        return raw
    name = r.choice(list(TREE[g]))
    kind = TREE[g][name]
    if not isinstance(kind, str):
        if k < .8:
            c = raw[g].get(name)
            if not isinstance(c, dict):
                c = raw[g][name] = {kind[1][-1]: 1}
            c[r.choice(STRANGE + [kind[1][0].upper()])] = r.choice(
                [0, 1, None, []])
            return raw
        kind = 'dict'
    raw[g][name] = r.choice(WRONG[kind])
    return raw


def empties(raw):
    """empty groups: unspecified whether absent or present"""
    return isinstance(raw, dict) and any(
        g == {} or isinstance(g, dict) and any(
            g.get(n) == {} for n in ('cpu_usage', 'throttling_data'))
        for g in raw.values())


def run(w, plan):
    ks = [n.key for n in w.nodes]
    r0 = random.Random(repr([k.hex for k in ks]))
    deal = B.Deal(r0, ks[0], ks[1], ks[2])
    ttc = B.Gen(r0, now=w.nodes[1].now())._ttc(deal)

    def stats_of(obj, spec):
        """(real, raw) statistics of every report in a message"""
        for o, m in chain.real_links(None, obj, spec):
            if m.cls == 'ReportComputedTask':
                yield o.stats, m.fields.get('stats')

    def compare(node, obj, spec, what):
        n = 0
        for got, raw in stats_of(obj, spec):
            core.same(w, B.canon(got), expected(getattr(raw, 'raw', raw)),
                      'statistics differ: ' + what, spec.cls)
            n += 1
        w.check(n, 'no report inside', spec.cls)
        w.probe(what)

    class Reported(B.StatsV):
        """statistics given as a plain dictionary"""

        def __init__(self, raw):
            super().__init__('ProviderStats', {})
            self.raw = raw

    def audit(node, what):
        for h in node.memory.get('held', []):
            if h.raw_stats:
                compare(node, h.obj, h.spec, 'held')

    def hold(node, obj, spec, data=None):
        h = chain.Held(obj, spec, data, spec.signer)
        h.raw_stats = any(m.cls == 'ReportComputedTask'
                          for m in chain.links(spec))
        node.memory.setdefault('held', []).append(h)

    def report(s):
        node = w.nodes[1]
        if not node.up:
            return
        r = random.Random(s['seed'])
        raw = make(r, s['mask'], s['full'])
        g = B.Gen(r, now=node.now(), omit=.6)
        deal.ttc, deal.rct = ttc, None
        spec = g._rct(deal, True)
        spec.fields = {k: v for k, v in spec.fields.items() if k != 'stats'}
        spec.ts, spec.enc = node.now(), False
        with node.p:
            st = node.p.mod('datastructures.stats').ProviderStats
            given = ref.uncbor(ref.cbor(raw))
            obj_stats = core.honest(w, 'statistics', st, **given)
            core.same(w, B.canon(obj_stats), expected(raw),
                      'statistics differ: where they were made')
            kw = {k: B.realize(node.p, v) for k, v in spec.fields.items()}
            obj = core.honest(w, 'a report', node.p.mod(
                'message.tasks').ReportComputedTask, stats=obj_stats, **kw)
            spec.fields['stats'] = Reported(raw)
            core.honest(w, 'signing', obj.sign_message, node.key.priv)
            spec.forged_sig = bytes(obj.sig)
            compare(node, obj, spec, 'own')
            hold(node, obj, spec)
        send(node, w.nodes[0], obj, spec, s)

    def send(node, to, obj, spec, s):
        with node.p:
            data = core.honest(w, 'dump', node.p.gm.dump, obj, None,
                               to.key.pub if s['enc'] else None)
            compare(node, obj, spec, 'after dumping')
            if s['keep']:
                raw = core.honest(w, 'dump', node.p.gm.dump, obj, None, None)
                node.disk.setdefault('kept', []).append((raw, spec))
        w.log('send', node.name, to.name, spec.cls, core.short(data))
        w.transmit(node.index, to.index, data, s['net'], arrive, spec,
                   s['keep'])

    def arrive(node, data, _damaged, spec, keep):
        msg = core.load_ok(w, node, data, node.key.priv, spec.signer.pub,
                           what=spec.cls)
        here = chain.respec(spec, ref.Frame(data))
        with node.p:
            compare(node, msg, here, 'received')
            again = core.load_ok(w, node, data, node.key.priv, None)
            compare(node, again, here, 'received again')
            hold(node, msg, here, data)
            audit(node, 'arrival')
        if keep:
            node.disk.setdefault('kept', []).append((data, spec))

    def compose(node, cls, r):
        held = node.memory.setdefault('held', [])
        g = chain.ChainGen(r, node.now(), .5, held)
        deal.ttc = deal.rct = None
        while True:
            try:
                spec = g.compose(cls, deal)
            except chain.Missing as e:
                if e.args[0] == 'ReportComputedTask':
                    return None
                if e.args[0] == 'TaskToCompute':
                    with node.p:
                        hold(node, B.realize(node.p, ttc), ttc)
                elif compose(node, e.args[0], r) is None:
                    return None
            else:
                break
        spec.ts = node.now()
        if cls == 'SubtaskResultsAccepted':
            spec.fields['payment_ts'] = spec.ts
        owners = spec.schema.owners
        spec.signer = deal.key(owners[0]) if owners else node.key
        with node.p:
            obj = core.honest(w, 'construction of ' + cls, chain.build,
                              node.p, spec, held)
            core.honest(w, 'signing', obj.sign_message, spec.signer.priv)
        spec.forged_sig = bytes(obj.sig)
        hold(node, obj, spec)
        return node.memory['held'][-1]

    def relay(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        h = compose(node, s['cls'], r)
        if h is None:
            w.probe('no report to relay yet')
            return
        if h.raw_stats:
            send(node, w.nodes[s['to']], h.obj, h.spec, s)
            w.probe('relayed in ' + s['cls'])

    def cheat(s):
        r = random.Random(s['seed'])
        raw = make(r, r.randrange(1, 16))
        for _ in range(s['bad']):
            raw = distort(r, raw)
        if empties(raw) and verdict(raw) is None:
            return
        why = verdict(raw)
        g = B.Gen(r, now=w.nodes[1].now(), omit=.8)
        deal.ttc, deal.rct = ttc, None
        rct = g._rct(deal, True)
        rct.fields['stats'] = raw
        msg = rct
        deal.rct = rct
        cls = r.choice(LATER)
        if s['deep']:
            msg = g.message(cls, deal)
            owners = msg.schema.owners
            msg.signer = deal.key(owners[0]) if owners else deal.provider
            if not any(m is rct for m in chain.links(msg)):
                msg = rct
        msg.ts = w.nodes[1].now()
        if msg.cls == 'SubtaskResultsAccepted':
            msg.fields['payment_ts'] = msg.ts
        # built separately on the same deal: recompute nothing, sign once
        data = ref.frame(msg.type_, msg.ts, False, msg.sig(), msg.payload())
        if why:
            w.fault('malformed_statistics')
        node = w.nodes[1]
        if node.up and isinstance(raw, dict) \
                and all(isinstance(k, str) and k != 'self' for k in raw):
            with node.p:
                st = node.p.mod('datastructures.stats').ProviderStats
                try:
                    obj = st(**ref.uncbor(ref.cbor(raw)))
                except core.msg_error(node):
                    w.check(why, 'proper statistics cannot be made', raw)
                except Exception as e:  # pylint: disable=broad-except
                    raise core.Violation('statistics fail otherwise',
                                         core.describe(e))
                else:
                    w.check(why is None, 'bad statistics can be made',
                            lambda: '%s %r' % (why, raw))
                    core.same(w, B.canon(obj), expected(raw),
                              'statistics differ: made')
        w.transmit(1, s['to'], data, s['net'], judge, why, msg, raw)

    def judge(node, data, _damaged, why, spec, raw):
        msg, err = core.load(w, node, data, None, spec.signer.pub)
        if why is not None:
            w.check(err is not None, 'malformed statistics accepted: ' + why,
                    lambda: '%s %r' % (spec.cls, raw))
            w.probe('refused: ' + why)
            return
        w.check(err is None, 'proper statistics refused',
                lambda: '%s %r' % (core.describe(err), raw))
        with node.p:
            compare(node, msg, spec, 'from anyone')

    def reload(s):
        node = w.nodes[s['n']]
        if not node.up:
            node.start()
        for data, spec in node.disk.get('kept', []):
            msg = core.load_ok(w, node, data, node.key.priv, spec.signer.pub)
            with node.p:
                compare(node, msg, spec, 'reloaded')
        with node.p:
            audit(node, 'the end')

    w.run({'report': report, 'relay': relay, 'cheat': cheat,
           'reload': reload})
