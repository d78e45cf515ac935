"""Looking is free of consequences; equality is about content."""
import copy
import random

from .. import build as B
from .. import chain
from .. import core
from .. import ref

EPISODES = 420
RULE = ('signed messages of all types - built, received plain or encrypted, '
        'reloaded after restarts, parts of one another - are read, printed, '
        'compared, hashed, verified, copied and dumped in random order; every '
        'answer must be the first one given, every unencrypted dump the same '
        'bytes, and no object may change; equality is compared with a '
        'reference, over copies that came by different ways and copies '
        'altered in a single place.')

# observers without arguments, tried on everything that has them
CALLS = ['is_valid', 'is_valid_for_requestor', 'verify_ethsig',
         'validate_taskid', 'serialize_header']
TWINS = [['Ping', 'Pong', 'GetPeers', 'GetTasks', 'GetResourcePeers',
          'StopGossip'], ['HasResource', 'WantsResource', 'PullResource'],
         ['ForceGetTaskResultUpload', 'ForceGetTaskResultDownload']]


def plan(r, index):
    steps = []
    t = 0
    k = 0
    for i in range(r.choice([2, 3, 4])):
        steps.append({'op': 'get', 't': t, 'n': r.randrange(2), 'id': k,
                      'cls': B.ALL[(index * 3 + i) % len(B.ALL)],
                      'how': r.choice(['built', 'plain', 'encrypted',
                                       'disk']),
                      'parts': r.random() < .5, 'again': r.random() < .5,
                      'omit': r.choice([0, .25, .6]),
                      'seed': core.rseed(r)})
        k += 1
        t += r.choice([0, core.US, core.MINUTE])
    for _ in range(r.choice([10, 20, 30])):
        t += r.choice([0, core.US, core.MINUTE])
        x = r.random()
        s = {'t': t, 'n': r.randrange(2), 'id': r.randrange(12),
             'other': r.randrange(12), 'seed': core.rseed(r)}
        if x < .72:
            s['op'] = 'look'
            s['what'] = r.choice(OBSERVE)
        elif x < .92:
            s['op'] = 'altered'
            s['where'] = r.choice(['ts', 'sig', 'content', 'content',
                                   'content', 'deep', 'deep', 'twin',
                                   'mode', 'swap', 'alike'])
        else:
            s['op'] = 'strangers'
        steps.append(s)
    steps += core.crashes(r, 2, t + 1, r.choice([0, 0, 1]))
    return {'cfg': core.rcfg(r, .4), 'nodes': core.rnodes(
        r, 2, versions=['2.15.0', '2.15.1']), 'steps': core.ordered(steps)}


OBSERVE = ['repr', 'str', 'eq', 'eq', 'slots', 'hash', 'verify', 'verify',
           'dump', 'dump', 'encrypt', 'encrypt', 'copy', 'props', 'calls',
           'owners', 'inner', 'readd', 'format']


# not free for any value
RULED = ('requestor_id', 'requestor_public_key', 'price',
         'requestor_ethereum_public_key', 'ethsig', 'payment_ts',
         'cpu_usage', 'num_subtasks', 'provider_id', 'size')


def free(schema, cls):
    return [n for n, kind in schema.fields if kind == 'any'
            and n not in RULED]


class Seen:
    """one real object, what it must be, what it answered"""

    def __init__(self, obj, spec, key, top):
        self.obj, self.spec, self.key, self.top = obj, spec, key, top
        self.answers = {}


def run(w, plan):
    def objs(node):
        return node.memory.setdefault('objs', [])

    def remember(node, obj, spec, parts):
        """also what is nested in it, as the very same objects"""
        have = objs(node)
        if len(have) > 12:
            return
        have.append(Seen(obj, spec, spec.signer, True))
        if parts:
            for o, m in list(chain.real_links(None, obj, spec))[1:4]:
                have.append(Seen(o, m, m.signer, False))
                w.probe('a part of another message')

    def audit(node, what):
        for s in objs(node):
            core.same(w, B.canon(s.obj), B.want_msg(s.spec),
                      'a message changed', lambda: '%s by %s'
                      % (s.spec.cls, what))

    def frame_of(spec, enc=False, to=None, r=None):
        payload = spec.payload()
        if enc:
            payload = ref.ecies_encrypt(payload, to.pub, r.getrandbits(
                240).to_bytes(32, 'big'), bytes(16))
        return ref.frame(spec.type_, spec.ts, enc, spec.sig(), payload,
                         spec.version)

    def get(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        other = w.nodes[1 - s['n']]
        g = B.Gen(r, now=node.now(), omit=s['omit'],
                  big=r.choice([.02, .02, .02, .25]))
        deal = B.Deal(r, other.key, node.key, ref.Key('concent'))
        spec = g.message(s['cls'], deal)
        owners = spec.schema.owners
        spec.signer = deal.key(owners[0]) if owners else other.key
        if s['cls'] == 'WantToComputeTask':
            spec.signer = deal.provider
        spec.ts = node.now()
        if s['cls'] == 'Hello':
            spec.version = node.version
        spec.deal = deal
        spec.forged_sig = spec.sig()
        for m in chain.links(spec):
            m.deal = deal
        for _ in range(2 if s['again'] else 1):
            how = s['how'] if _ == 0 else r.choice(['plain', 'encrypted'])
            enc = how == 'encrypted' and spec.schema.encrypt
            with node.p:
                if how == 'built':
                    obj = core.honest(w, 'construction of ' + s['cls'],
                                      B.realize_msg, node.p, spec)
                    core.honest(w, 'signing', obj.sign_message,
                                spec.signer.priv)
                    spec.forged_sig = bytes(obj.sig)
                else:
                    data = frame_of(spec, enc, node.key, r)
                    obj = core.load_ok(w, node, data, node.key.priv,
                                       spec.signer.pub)
                if how == 'disk':
                    node.disk.setdefault('kept', []).append((data, spec))
                remember(node, obj, spec, s['parts'])
                audit(node, 'getting it')
        w.log('get', node.name, s['cls'], s['how'])

    def answer(s, what, value):
        """the same question, the same answer"""
        if what in s.answers:
            w.check(s.answers[what] == value, 'another answer: ' + what,
                    lambda: '%s: %.300r then %.300r' % (
                        s.spec.cls, s.answers[what], value))
            w.probe('asked again')
        else:
            s.answers[what] = value

    def guarded(fn, *args):
        """an answer may be an exception, but always the same one"""
        try:
            return ('ok', repr(fn(*args)))
        except Exception as e:  # pylint: disable=broad-except
            return ('raises', type(e).__name__)

    def look(st):
        node = w.nodes[st['n']]
        if not node.up:
            return
        if not objs(node):
            restore(node)
        if not objs(node):
            return
        s = objs(node)[st['id'] % len(objs(node))]
        with node.p:
            for _ in range(2 if st['seed'] % 3 == 0 else 1):
                observe(node, s, st['what'], random.Random(st['seed']))
            audit(node, st['what'])
        w.log('look', node.name, s.spec.cls, st['what'])

    def observe(node, s, what, r):
        p, o, spec = node.p, s.obj, s.spec
        dumps = p.mod('serializer').dumps
        if what == 'repr':
            answer(s, what, repr(o))
        elif what in ('str', 'format'):
            answer(s, what, str(o) if what == 'str'
                   else '{!r:>10}|{}'.format(o, o))
        elif what == 'slots':
            got = core.honest(w, 'slots', o.slots)
            w.check(dumps(got) == spec.payload(), 'slots are not the content',
                    spec.cls)
            w.check([k for k, _v in got] == spec.schema.names,
                    'slots have other names', spec.cls)
        elif what == 'hash':
            w.check(core.honest(w, 'hash', o.get_short_hash) == spec.hash(),
                    'the hash is not that of the content', spec.cls)
        elif what == 'verify':
            if s.key is not None:
                w.check(core.honest(w, 'verifying', o.verify_signature,
                                    s.key.pub) is True, 'does not verify')
            try:
                o.verify_signature(ref.Key('nobody').pub)
            except p.mod('exceptions').InvalidSignature:
                pass
            else:
                w.check(False, 'verifies for anybody', spec.cls)
        elif what in ('dump', 'encrypt'):
            if o.sig is None:
                return
            to = r.choice(w.nodes).key
            data = core.honest(w, 'dump of ' + spec.cls, p.gm.dump, o, None,
                               to.pub if what == 'encrypt' else None)
            if what == 'dump':
                w.check(data == frame_of(spec), 'an unencrypted dump differs',
                        lambda: '%s %s' % (spec.cls, data.hex()[:400]))
            else:
                msg = core.load_ok(w, node, data, to.priv, None)
                w.check(msg == o and o == msg,
                        'a copy differs from its original', spec.cls)
        elif what == 'copy':
            c = core.honest(w, 'copying', r.choice(
                [copy.copy, copy.deepcopy]), o)
            w.check(c == o and not c != o, 'a copy is not equal', spec.cls)
        elif what == 'props':
            for name in dir(type(o)):
                if isinstance(getattr(type(o), name, None), property) \
                        and not name.startswith('__'):
                    answer(s, name, guarded(
                        lambda n=name: B.canon(getattr(o, n))))
        elif what == 'calls':
            for name in CALLS:
                if hasattr(o, name):
                    answer(s, name, guarded(getattr(o, name)))
        elif what == 'owners':
            if spec.schema.owners is None:
                return
            deal = spec.deal
            for kw in ({'concent_public_key': deal.concent.pub},
                       {'provider_public_key': deal.provider.pub,
                        'requestor_public_key': deal.requestor.pub,
                        'concent_public_key': deal.concent.pub}):
                answer(s, 'owners %d' % len(kw), guarded(
                    lambda: o.verify_owners(**kw)))
            if spec.cls == 'TaskToCompute':
                answer(s, 'notes', guarded(
                    lambda: o.verify_all_promissory_notes(deal.contract)))
        elif what == 'inner':
            for name in spec.schema.names:
                for i, x in enumerate(_things(getattr(o, name))):
                    answer(s, 'inner %s %d' % (name, i), (
                        repr(x), str(x), guarded(lambda: x == x),
                        guarded(lambda: x == None),   # noqa: E711
                        guarded(lambda: x.to_dict()),
                        guarded(lambda: x.get_hash()),
                        guarded(lambda: x.serialize()),
                        guarded(lambda: x.verify(ref.Key('nobody').pub)),
                        guarded(lambda: x.num_bits)))
        elif what == 'readd':
            # as part of a new message, in its turn dumped both ways
            for cls, m in B.SCHEMA.items():
                names = [n for n, kind in m.fields if kind == 'm'
                         and B.SLOT_CLASS[n] == spec.cls]
                if not names or cls == 'TaskToCompute':
                    continue
                if o.sig is None or r.random() < .5:
                    continue
                outer = B.msg_class(p, cls)(**{names[0]: o})
                for pub in (None, node.key.pub):
                    guarded(p.gm.dump, outer, node.key.priv
                            if outer.sig is None else None, pub)
                w.probe('put in another message')
                break
        elif what == 'eq':
            for x in objs(node):
                same = same_content(s.spec, x.spec)
                if same is None:
                    continue
                w.check((o == x.obj) is same and (x.obj == o) is same
                        and (o != x.obj) is not same,
                        'equality is wrong', lambda:
                        '%s %s %s' % (s.spec.cls, x.spec.cls, same))
                w.probe('equal' if same else 'unequal')

    def _things(v):
        for x in v if isinstance(v, list) else [v]:
            if hasattr(x, 'to_dict') or hasattr(x, 'num_bits') \
                    or hasattr(x, 'serialize'):
                yield x

    def modes(m):
        return [x.enc for x in list(chain.links(m))[1:]]

    def same_content(a, b):
        """None where the answer is not laid down"""
        same = B.want_msg(a) == B.want_msg(b) and a.version == b.version
        if same and modes(a) != modes(b):
            return None
        return same

    def restore(node):
        for data, spec in node.disk.get('kept', []):
            msg = core.load_ok(w, node, data, node.key.priv, spec.signer.pub)
            with node.p:
                remember(node, msg, spec, False)
                audit(node, 'reloading')
            w.probe('reloaded from disk')

    def altered(st):
        """a copy that differs in one place is not equal"""
        node = w.nodes[st['n']]
        if not node.up or not objs(node):
            return
        s = objs(node)[st['id'] % len(objs(node))]
        spec = s.spec
        if not s.top or spec.cls == 'Hello' and st['where'] == 'twin':
            return
        r = random.Random(st['seed'])
        m = B.Msg(spec.cls, dict(spec.fields), spec.ts, spec.signer,
                  version=spec.version)
        m.forged_sig = spec.sig()
        where = st['where']
        if where == 'ts':
            m.ts += r.choice([1, -1, 60, 2 ** 32])
        elif where == 'sig':
            i = r.randrange(65)
            m.forged_sig = m.forged_sig[:i] + bytes(
                [m.forged_sig[i] ^ 1 + r.randrange(255)]) \
                + m.forged_sig[i + 1:]
        elif where == 'twin':
            for group in TWINS:
                if spec.cls in group:
                    m.cls = r.choice([c for c in group if c != spec.cls])
                    if group is TWINS[0]:
                        m.fields = {}
                    break
            else:
                return
        elif where == 'mode':
            m.enc = True       # of the message itself: no difference
        elif spec.cls == 'Hello' and r.random() < .4:
            m.version = '2.15.' + str(2 + r.randrange(9))
            if m.version == spec.version:
                return
        elif where == 'swap':
            names = [n for n in free(spec.schema, spec.cls)
                     if n in spec.fields]
            if len(names) < 2:
                return
            a, b = r.sample(names, 2)
            m.fields[a], m.fields[b] = m.fields[b], m.fields[a]
            if same_content(spec, m) is not False:
                return
        elif where == 'alike':
            names = [n for n in free(spec.schema, spec.cls)
                     if n in spec.fields]
            if not names:
                return
            n = r.choice(names)
            v = m.fields[n]
            if not isinstance(v, (int, bool, bytes, str, type(None))):
                return
            m.fields[n] = r.choice([str(v), repr(v)] + (
                [v.encode()] if isinstance(v, str) else []) + (
                [v.decode('latin-1')] if isinstance(v, bytes) else []) + (
                [[v], {'': v}]))
            if same_content(spec, m) is not False:
                return
        else:
            if not change(r, m, where == 'deep'):
                return
        data = ref.frame(m.type_, m.ts, False, m.sig(), m.payload(),
                         m.version)
        if where == 'mode':
            if not spec.schema.encrypt:
                return
            data = frame_of(spec, True, node.key, r)
        msg, err = core.load(w, node, data, node.key.priv, None)
        if err is not None:
            w.probe('altered copy refused')
            return
        with node.p:
            if where == 'mode':
                same = True
            else:
                same = same_content(spec, m)
            if same is None:
                return
            if where != 'mode':
                w.check(not same, 'harness: nothing was altered')
            for a, b in ((s.obj, msg), (msg, s.obj)):
                w.check((a == b) is same and (a != b) is not same,
                        'equality is wrong: ' + where,
                        lambda: '%s: %s' % (spec.cls, a == b))
            audit(node, 'comparing')
        w.fault('altered_copy' if not same else 'other_transport')

    def change(r, m, deep):
        """alter the content in one place; False if there is none"""
        names = [n for n, kind in m.schema.fields if kind == 'any']
        subs = [n for n, kind in m.schema.fields
                if kind == 'm' and m.fields.get(n) is not None]
        if deep and subs:
            n = r.choice(subs)
            old = m.fields[n]
            new = B.Msg(old.cls, dict(old.fields), old.ts, old.signer,
                        old.enc, old.version)
            new.forged_sig = old.sig()
            k = r.random()
            if k < .2:
                new.ts += r.choice([1, -1])
            elif k < .35:
                new.forged_sig = bytes(65)
            elif not change(r, new, r.random() < .6):
                return False
            m.fields[n] = new
            return True
        kinds = dict(m.schema.fields)
        names = [n for n in m.schema.names if kinds[n] in (
            'any', 'enum', 'node', 'header', 'ctd', 'stats', 'bool', 'list')]
        r.shuffle(names)
        for n in names:
            v = B.field_value(m, n)
            x = tweak(r, m.cls, n, kinds[n], v)
            if x is not None:
                m.fields[n] = x[0]
                return True
        return False

    def tweak(r, cls, name, kind, v):
        if kind == 'enum':
            other = [e for e in B.Gen.schema_enum(cls, name)
                     if v is None or e[0] != v.name]
            if not other:
                return None
            return [B.EnumV((cls, B.ENUM_ATTR[name]), *r.choice(other))]
        if kind == 'bool':
            return [not v]
        if isinstance(v, B.NodeV):
            g = dict(v.given)
            k = r.choice(['node_name', 'key', 'pub_port', 'nat_type'])
            g[k] = {'node_name': 'altered', 'key': 'altered',
                    'pub_port': 999, 'nat_type': ['altered']}[k]
            return [B.NodeV(g)]
        if isinstance(v, B.HeaderV):
            g = dict(v.given)
            k = r.choice(['deadline', 'subtasks_count', 'mask',
                          'environment_prerequisites', 'task_owner'])
            g[k] = {'deadline': 77, 'subtasks_count': 7654321,
                    'mask': bytes(30) + b'\x07\x08',
                    'environment_prerequisites': {'altered': 1},
                    'task_owner': B.NodeV({'node_name': 'altered'})}[k]
            g['signature'] = v.signature()
            return [B.HeaderV(g)]
        if isinstance(v, B.CtdV):
            g = dict(v.given)
            k = r.choice(['performance', 'extra_data', 'resources',
                          'deadline'])
            g[k] = {'performance': 12345.5, 'extra_data': {'altered': [1]},
                    'resources': ['altered'], 'deadline': 99}[k]
            return [B.CtdV(g)]
        if isinstance(v, B.StatsV):
            g = dict(v.given)
            g['pids_stats'] = B.StatsV('PidStats', {'current': 54321})
            return [B.StatsV(v.cls, g)]
        if kind == 'list':
            return [list(v or []) + ['altered']]
        if kind != 'any' or name in RULED:
            return None
        if isinstance(v, str):
            return [v + '!']
        if isinstance(v, bytes):
            return [v + b'!']
        if isinstance(v, dict):
            return [dict(v, altered=1)]
        if isinstance(v, list):
            return [v + ['altered']]
        if isinstance(v, bool) or v is None:
            return ['altered']
        if isinstance(v, int):
            return [v + 1 if v not in (0, -1) else 5]
        return ['altered'] if not isinstance(v, B.NoteSig) else None

    def strangers(st):
        """compared with what is no message at all"""
        node = w.nodes[st['n']]
        if not node.up or not objs(node):
            return
        s = objs(node)[st['id'] % len(objs(node))]
        with node.p:
            for x in (None, 0, 'text', b'bytes', [], {}, object(), type,
                      s.obj.header, type(s.obj)):
                w.check(core.honest(w, 'comparing with a stranger',
                                    lambda: s.obj == x) is False
                        and s.obj != x, 'equal to a stranger')
            audit(node, 'strangers')

    w.run({'get': get, 'look': look, 'altered': altered,
           'strangers': strangers})
