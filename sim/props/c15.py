"""Only well-formed data gets in."""
import random

from .. import build as B
from .. import chain
from .. import core
from .. import ref

EPISODES = 2600
RULE = ('a peer with valid keys sends messages carrying nodes, peers, task '
        'headers, offers and assignments, alone, in lists and deep inside '
        'other messages, with any number of fields omitted, added or set to '
        'good and bad values, in between genuine traffic and restarts; a '
        'table of rules written down independently says which are refused, '
        'and what the others must turn into.')

GONE = '-'          # the field is left out
ANY_TYPE = [True, False, 1.5, 'text', b'bytes', [1], {'a': 1}, [], {}]


def of_type(*kinds):
    return [x for x in ANY_TYPE if type(x) not in kinds] + \
        ([] if float in kinds else [float('nan')])


def rint(r):
    return r.choice([0, 1, -1, 5, 2 ** 31, 2 ** 63, 2 ** 64, 2 ** 80,
                     r.getrandbits(40)])


BAD_INT = of_type() + ['7', b'7', 7.0, '']
BAD_PORT = BAD_INT + [0, -1, 65536, 65537, 2 ** 31, 2 ** 64, -80, 65616]
BAD_IP = ['', 'localhost', '256.1.1.1', '1.2.3', '1.2.3.4.5', '1.2.3.4/24',
          '10.0.0.0/8', '1.2.3.4/32', '::/0', 'fe80::/10', '1.2.3.4%1', '%1',
          'fe80::g', '1.2.3.4 ', ' 1.2.3.4', '1.2.3.4:80', '::1::', 'text',
          '1,2,3,4', '12345::', '1.2.3.-4', '\u0661.2.3.4', '0x7f.0.0.1',
          '1:2:3:4:5:6:7', '1:2:3:4:5:6:7:8:9', 'example.org',
          '[::1]'] + of_type(str) + [5, 0, -1, 2 ** 31, 2 ** 127, 2 ** 130,
                                     b'\x01\x02\x03\x04', b'1.2.3.4',
                                     bytes(16), bytes(4)]
BAD_TEXT = of_type(str) + [5, -1]
BAD_TEXT128 = BAD_TEXT + [' ' * 129, 'x' + ' ' * 128, '\n' * 200,
                          '\x00' * 129, 'e\u0301' * 65, 'x' * 129, 'x' * 1000, '\u017c' * 129]
BAD_VERSION = of_type() + ['', '1', '1.2', 'v1.2.3', '1.2.3.4', 'x.y.z',
                           '1.2.x', '1.2.-3', '>=1.2.3', '1..3', 5,
                           '1.2.3 beta', '1.02.3', '1.2.3+', ' 1.2.3']
BAD_MARKET = of_type() + ['brass', 'BRASS', '', 'Brass ', 'Other', 0, 1,
                          b'Brass', 'MARKET_TYPE.Brass']
BAD_DICT = of_type(dict) + [5]
BAD_BOOL = of_type(bool) + [0, 1, 'True', 'true', b'\x01']
BAD_BYTES = of_type(bytes) + [5]
BAD_SIZED = BAD_TEXT128


def ip(r):
    return B.Gen(r).addr() if r.random() < .8 else r.choice(
        ['::', '::1', '0.0.0.0', '255.255.255.255', 'fe80::1',
         '::ffff:1.2.3.4', '127.0.0.1'])


def text128(r):
    return B.Gen(r).short()


# field -> (generator of good values, bad values); None is good unless the
# field is in REQUIRED
port = (lambda r: r.choice([1, 2, 1023, 1024, 40102, 65533, 65534, 65535]),
        BAD_PORT)
addr = (ip, BAD_IP)
integer = (rint, BAD_INT)
RULES = {
    'Node': {
        'node_name': (lambda r: r.choice(['', 'n', 'x' * 129, 'x' * 3000]),
                      BAD_TEXT),
        'key': (text128, BAD_TEXT128),
        'prv_port': port, 'pub_port': port, 'p2p_prv_port': port,
        'p2p_pub_port': port, 'prv_addr': addr, 'pub_addr': addr,
        'hyperdrive_prv_port': integer, 'hyperdrive_pub_port': integer,
    },
    'Peer': {'address': addr, 'port': port},
    'TaskHeader': {
        'mask': (lambda r: r.choice([bytes(32), b'\xff' * 32, bytes(
            r.getrandbits(8) for _ in range(32))]), BAD_BYTES),
        'timestamp': integer,
        'signature': (lambda r: bytes(r.getrandbits(8) for _ in range(65)),
                      BAD_BYTES),
        'task_id': (text128, BAD_TEXT128),
        'deadline': integer,
        'subtask_timeout': (lambda r: abs(rint(r)),
                            BAD_INT + [-1, -2 ** 31, -2 ** 70]),
        'market_type': (lambda r: r.choice(['Brass', 'Usage']), BAD_MARKET),
        'environment': (text128, BAD_TEXT128),
        'environment_prerequisites': (lambda r: r.choice([{}, {'gpu': 1}]),
                                      BAD_DICT),
        'min_version': (lambda r: r.choice(['0.0.0', '1.2.3-rc1', '9.9.9+b']),
                        BAD_VERSION),
        'estimated_memory': integer, 'max_price': integer,
        'subtask_budget': integer,
        'subtasks_count': (lambda r: abs(rint(r)) + 1,
                           BAD_INT + [0, -1, -2 ** 31]),
        'concent_enabled': (lambda r: r.random() < .5, BAD_BOOL),
    },
    'ComputeTaskDef': {'task_id': (None, BAD_SIZED),
                       'subtask_id': (None, BAD_SIZED)},
    'WantToComputeTask': {
        'cpu_usage': (lambda r: abs(rint(r)), BAD_INT + [-1, -2 ** 40]),
        'num_subtasks': (lambda r: abs(rint(r)) + 1,
                         BAD_INT + [0, -1, -2 ** 31]),
    },
    'TaskToCompute': {'price': (lambda r: abs(rint(r)), BAD_INT + [None]),
                      'size': integer[:1] + (BAD_INT + [None],)},
}
REQUIRED = {'TaskHeader': ('task_id', 'task_owner', 'subtasks_count',
                           'min_version', 'timestamp'),
            'Peer': ('address', 'port', 'node'),
            'WantToComputeTask': ('num_subtasks',),
            'TaskToCompute': ('price', 'size'),
            'ComputeTaskDef': ('task_id', 'subtask_id')}
# fields without rules, whose defaults are not None
FREE = {'Node': ['prv_addresses', 'port_statuses', 'nat_type'],
        'ComputeTaskDef': ['deadline', 'extra_data', 'performance',
                           'docker_images', 'resources']}
STRANGE = ['foo', 'Port', '_x', 'task_owner_', 'node', 'validate', '__init__',
           'mask ', '', 'prv_addr\x00', 'pub_adr', 'REQUIRED', 'ITEMS',
           '__class__', 'to_dict', 'subtask', 7, None, b'key']
NESTED = {'TaskHeader': 'task_owner', 'Peer': 'node'}
CARRIERS = ['Hello', 'Peers', 'Peers', 'Tasks', 'Tasks',
            'WantToStartTaskSession', 'SetTaskSession', 'WantToComputeTask',
            'WantToComputeTask', 'TaskToCompute', 'TaskToCompute',
            'ReportComputedTask']


def plan(r, index):
    steps = []
    for k in range(r.choice([4, 6, 9])):
        if r.random() < .8:
            cls = CARRIERS[(index + k) % len(CARRIERS)]
        else:
            cls = r.choice(B.TASK_MESSAGES)
        steps.append({'op': 'send', 't': r.randrange(5 * core.MINUTE),
                      'cls': cls, 'seed': core.rseed(r),
                      'omit': r.choice([0, .25, .6, 1]),
                      'good': r.choice([0, 1, 3, 8]),
                      'bad': r.choice([0, 0, 1, 1, 1, 2]),
                      'pub': r.random() < .7, 'enc': r.random() < .3,
                      'to': r.randrange(2), 'net': core.rnet(r, lose=.02),
                      'fwd': r.random() < .4})
    steps += core.crashes(r, 2, 5 * core.MINUTE, r.choice([0, 0, 1]))
    return {'cfg': core.rcfg(r), 'nodes': core.rnodes(
        r, 2, versions=['2.15.0', '2.15.2']), 'steps': core.ordered(steps)}


class Place:
    """a structure somewhere in a message, as the dict it is on the wire"""

    def __init__(self, kind, d, bad=None):
        self.kind, self.d = kind, d

    def nested(self):
        name = NESTED.get(self.kind)
        if name and isinstance(self.d.get(name), dict):
            return [Place('Node', self.d[name])]
        return []

    def alter_good(self, r, leave_out):
        rules = RULES[self.kind]
        need = REQUIRED.get(self.kind, ())
        names = [k for k in rules if rules[k][0]]
        if leave_out and self.kind in FREE and r.random() < .3:
            self.d.pop(r.choice(FREE[self.kind]), None)
            return
        if self.kind == 'ComputeTaskDef' or not names:
            return
        k = r.choice(names)
        x = r.random()
        if k not in need and x < .2 and leave_out:
            self.d.pop(k, None)
        elif k not in need and x < .3:
            self.d[k] = None
        else:
            self.d[k] = rules[k][0](r)

    def alter_bad(self, r, field=None):
        """-> what was done"""
        rules = RULES[self.kind]
        need = REQUIRED.get(self.kind, ())
        x = r.random()
        if x < .14:
            k = r.choice(STRANGE)
            if k in self.d:
                k = 'no such field'
            self.d[k] = r.choice([None, 1, 'x'])
            return '%s.%r added' % (self.kind, k)
        if x < .28 and self.kind in ('TaskHeader', 'Peer'):
            k = r.choice(need)
            if r.random() < .5:
                self.d.pop(k, None)
                return '%s.%s left out' % (self.kind, k)
            self.d[k] = None
            return '%s.%s None' % (self.kind, k)
        if x < .36 and self.kind in NESTED:
            k = NESTED[self.kind]
            self.d[k] = r.choice([5, 'text', [], [1], b'', True, None, 0,
                                  [['key', 'x']]])
            return '%s.%s = %r' % (self.kind, k, self.d[k])
        k = r.choice(list(rules))
        self.d[k] = r.choice(rules[k][1])
        return '%s.%s = %.60r' % (self.kind, k, self.d[k])


def structure(kind, d):
    """what a receiver makes of a well-formed dict"""
    if kind == 'Node':
        return B.NodeV(dict(d))
    if kind == 'Peer':
        return B.PeerV(d['address'], d['port'], B.NodeV(dict(d['node'])))
    if kind == 'TaskHeader':
        g = dict(d, task_owner=B.NodeV(dict(d['task_owner'])))
        g.setdefault('signature', None)
        return B.HeaderV(g)
    return B.CtdV(dict(d))


def run(w, plan):
    def send(s):
        key = ref.Key('neighbour')
        r = random.Random(s['seed'])
        to = w.nodes[s['to']]
        g = B.Gen(r, now=to.now(), omit=s['omit'])
        deal = B.Deal(r, key, ref.Key('n2'), ref.Key('n3'))
        spec = g.message(s['cls'], deal)
        if spec.cls in ('Peers', 'Tasks') and not spec.fields.get(
                spec.cls.lower()):
            spec.fields[spec.cls.lower()] = [
                g.peer() if spec.cls == 'Peers' else g.header(key)
                for _ in range(r.choice([1, 2, 4]))]
        for name, kind in spec.schema.fields:
            if kind == 'node' and spec.fields.get(name) is None:
                spec.fields[name] = g.node()
        spec.ts = to.now()
        if spec.cls == 'Hello':
            spec.version = to.version
        places, put = find(spec)
        for _ in range(s['good'] if places else 0):
            # proofs inside an assignment are over complete structures
            r.choice(places).alter_good(r, not spec.schema.owners)
        done = [r.choice(places).alter_bad(r)
                for _ in range(s['bad'] if places else 0)]
        if r.random() < .08 and not done:
            done = whole(spec, r)
        # everybody signs what he sends
        for m in chain.links(spec):
            if m.cls == 'TaskToCompute':
                m.fields['ethsig'] = deal.req_eth.sign(
                    m.fields['want_to_compute_task'].hash())
        if spec.schema.owners:
            spec.signer = deal.key(spec.schema.owners[0])
        else:
            spec.signer = deal.provider
        enc = s['enc'] and spec.schema.encrypt
        payload = spec.payload()
        sig = spec.sig() if spec.schema.sign else ref.NO_SIG
        if enc:
            payload = ref.ecies_encrypt(
                payload, to.key.pub, ref.Key('e%d' % s['seed']).priv,
                s['seed'].to_bytes(16, 'big'))
        data = ref.frame(spec.type_, spec.ts, enc, sig, payload,
                         spec.version)
        want = None
        if not done:
            ms = {id(m): m for m in chain.links(spec)}.values()
            sigs = {id(m): m.sig() for m in ms if m.signer}
            for fn in put:
                fn()
            for m in ms:
                if id(m) in sigs:
                    m.forged_sig = sigs[id(m)]
            want = B.want_msg(spec, sig=sig)
        for d in done:
            w.fault('malformed ' + d.split(' = ')[0].split('.')[0])
        w.log('send', spec.cls, len(done), core.short(data))
        w.transmit(s['to'], s['to'], data, s['net'], arrive, s, spec, want,
                   done)

    def find(spec):
        """-> ([Place], [restore as what the receiver must hold])"""
        places, put = [], []

        def one(kind, value, setter):
            d = B.wire(value)
            setter(d)
            if kind in NESTED:
                d[NESTED[kind]] = dict(d[NESTED[kind]])
            p = Place(kind, d)
            places.append(p)
            places.extend(p.nested())
            put.append(lambda: setter(structure(kind, d)))
        seen = set()
        for m in chain.links(spec):
            if id(m) in seen:
                continue
            seen.add(id(m))
            if m.cls in RULES:
                # fields of an offer and of an assignment themselves
                places.append(Place(m.cls, m.fields))
            for name, kind in m.schema.fields:
                v = m.fields.get(name)
                if v is None:
                    continue
                f = m.fields
                if kind in ('node', 'header', 'ctd'):
                    one({'node': 'Node', 'header': 'TaskHeader',
                         'ctd': 'ComputeTaskDef'}[kind], v,
                        lambda d, f=f, name=name: f.__setitem__(name, d))
                elif kind in ('peers', 'headers'):
                    f[name] = list(v)
                    for i, x in enumerate(v):
                        one('Peer' if kind == 'peers' else 'TaskHeader', x,
                            lambda d, f=f, name=name, i=i:
                            f[name].__setitem__(i, d))
        # a field added to a message is not its business here
        for p in places:
            if p.kind in ('WantToComputeTask', 'TaskToCompute'):
                p.alter_bad = lambda r, p=p: message_field(p, r)
        return places, put

    def message_field(p, r):
        rules = RULES[p.kind]
        k = r.choice(list(rules))
        p.d[k] = ref_none(r.choice(rules[k][1]))
        return '%s.%s = %.60r' % (p.kind, k, p.d[k])

    def ref_none(v):
        return ref.RawCbor(b'\xf6') if v is None else v

    def whole(spec, r):
        """something else entirely where a structure should be"""
        for name, kind in spec.schema.fields:
            if kind == 'node':
                spec.fields[name] = r.choice([5, 'text', [1], b'x', True,
                                              [['key', 'x']], 1.5, 0, '', [],
                                              b'', False, 0.0])
            elif kind in ('peers', 'headers'):
                if r.random() < .5:
                    spec.fields[name] = ref.RawCbor(ref.cbor(r.choice(
                        [5, 'text', {}, {'a': 1}, b'x', True, None, 0])))
                else:
                    v = list(spec.fields.get(name) or [])
                    v.insert(r.randrange(len(v) + 1), r.choice(
                        [5, 'text', None, True, [5], 1.5]))
                    spec.fields[name] = v
            elif kind in ('header', 'ctd'):
                spec.fields[name] = r.choice([5, 'text', [1], b'x', True,
                                              [[1]], 1.5])
            else:
                continue
            return ['%s %s.%s' % (spec.cls, spec.cls, name)]
        return []

    def arrive(node, data, _damaged, s, spec, want, done):
        pub = spec.signer.pub if s['pub'] else None
        msg, err = core.load(w, node, data, node.key.priv, pub)
        w.log('got', node.name, spec.cls, msg is not None)
        if done:
            w.check(msg is None, 'malformed data is accepted',
                    lambda: '%s: %s' % (spec.cls, done))
            w.probe('refused')
            return
        w.check(err is None, 'well-formed data is refused',
                lambda: '%s: %s' % (spec.cls, core.describe(err)))
        w.probe('accepted')
        with node.p:
            core.same(w, B.canon(msg), want,
                      'well-formed data is changed', spec.cls)
            if s['fwd'] and not spec.schema.owners:
                again = core.honest(w, 'passing on', node.p.gm.dump, msg,
                                    None, None)
                back = core.load_ok(w, node, again, None, None)
                core.same(w, B.canon(back), want,
                          'data passed on is changed', spec.cls)

    w.run({'send': send})
