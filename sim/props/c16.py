"""Objects of one process stay apart."""
import copy
import random

from .. import build as B
from .. import core
from .. import ref

EPISODES = 700
RULE = ('actors of one process create, decode, decode again and discard '
        'messages and data structures of all kinds and change them at random '
        'depths, in any interleaving; after every step every other object '
        'must be what it was, and everything new must be what was asked for, '
        'defaults included.')

STRUCTS = ['Node', 'Node', 'Peer', 'TaskHeader', 'ComputeTaskDef',
           'ComputeTaskDef', 'FileInfo', 'ProviderStats', 'CpuUsage',
           'CpuUsage', 'ThrottlingData', 'BlockIoEntry', 'MemoryData',
           'CpuStats', 'MemoryStats', 'PidStats', 'BlockIoStats', 'Mask']
MORE = {'BlockIoEntry': {'major': 0, 'minor': 0, 'op': None, 'value': 0},
        'MemoryData': {'failcnt': 0, 'limit': 0, 'max_usage': 0, 'usage': 0}}
FIXED = {'Peer': 'address', 'ComputeTaskDef': 'task_id', 'FileInfo': 'path',
         'CpuUsage': 'total_usage', 'ThrottlingData': 'periods',
         'BlockIoEntry': 'major', 'MemoryData': 'limit'}


def plan(r, index):
    steps = []
    t = 0
    k = 0
    for _ in range(r.choice([20, 30, 45])):
        t += r.randrange(core.MINUTE)
        x = r.random()
        n = r.randrange(2)
        if x < .16:
            steps.append({'op': 'struct', 't': t, 'n': n, 'id': k,
                          'kind': STRUCTS[(index + k) % len(STRUCTS)],
                          'omit': r.choice([0, .3, .7, 1]),
                          'seed': core.rseed(r)})
            k += 1
        elif x < .3:
            steps.append({'op': 'make', 't': t, 'n': n, 'id': k,
                          'cls': B.ALL[(index * 5 + k) % len(B.ALL)],
                          'omit': r.choice([0, .3, .7, 1]),
                          'seed': core.rseed(r)})
            k += 1
        elif x < .5:
            steps.append({'op': 'decode', 't': t, 'n': n, 'id': k,
                          'cls': B.ALL[(index * 3 + k) % len(B.ALL)],
                          'omit': r.choice([0, .3, .7, 1]),
                          'again': r.random() < .5, 'seed': core.rseed(r)})
            k += 1
        elif x < .9:
            steps.append({'op': 'change', 't': t, 'n': n,
                          'seed': core.rseed(r),
                          'times': r.choice([1, 1, 2, 5])})
        elif x < .95:
            steps.append({'op': 'foreign_key', 't': t, 'n': n,
                          'kind': r.choice(sorted(FIXED)),
                          'seed': core.rseed(r)})
        else:
            steps.append({'op': 'use', 't': t, 'n': n,
                          'seed': core.rseed(r)})
    steps += core.crashes(r, 2, t + 1, r.choice([0, 0, 1]))
    return {'cfg': core.rcfg(r), 'nodes': core.rnodes(
        r, 2, versions=['2.15.0']), 'steps': core.ordered(steps)}


def places(v, out, depth=0):
    """every mutable thing inside a real object"""
    name = type(v).__name__
    if isinstance(v, (dict, list)):
        out.append(v)
        for x in (list(v.values()) if isinstance(v, dict) else v):
            places(x, out, depth + 1)
    elif name in B.SCHEMA and hasattr(v, 'header'):
        out.append(v)
        for f in B.SCHEMA[name].names:
            places(getattr(v, f), out, depth + 1)
    elif name in ('Node', 'TaskHeader') or name in B.StatsV.FIELDS:
        out.append(v)
        for f in fields(v):
            places(getattr(v, f), out, depth + 1)
    elif name == 'Mask':
        out.append(v)


def fields(v):
    name = type(v).__name__
    return {'Node': B.NodeV.FIELDS, 'TaskHeader': B.HeaderV.FIELDS}.get(
        name) or B.StatsV.FIELDS[name]


def run(w, plan):
    def objects(node):
        return node.memory.setdefault('objects', {})

    def audit(node, but, what):
        """everything else is as it was"""
        for i, (obj, snap, about) in objects(node).items():
            if i == but:
                continue
            now = B.canon(obj)
            w.check(now == snap, 'an object changed by itself', lambda:
                    '%s after %s: %s' % (about, what, B.diff(snap, now)))

    def keep(node, i, obj, want, about):
        w.log('new', node.name, about)
        got = B.canon(obj)
        core.same(w, got, want, 'something new is not as asked for', about)
        objs = objects(node)
        objs[i] = (obj, got, about)
        while len(objs) > 14:
            del objs[next(iter(objs))]
        audit(node, i, 'creating ' + about)

    def struct(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        g = B.Gen(r, now=node.now(), omit=s['omit'])
        kind = s['kind']
        st = node.p.mod('datastructures.stats')
        key = ref.Key('k')
        deal = B.Deal(r, key, key, key)
        some = lambda names: {k: g.int() for k in names if g.maybe()}
        with node.p:
            if kind in ('CpuUsage', 'ThrottlingData') or kind in MORE:
                items = MORE.get(kind) or dict(
                    (k, f()) for k, f in B.FrozenV.ITEMS[kind])
                given = some([k for k in items if k != 'percpu_usage'])
                if 'percpu_usage' in items and g.maybe():
                    given['percpu_usage'] = [g.int() for _ in range(3)]
                fn = getattr(st, kind)
                style = r.randrange(3)
                args, kw = ((), copy.deepcopy(given)) if style == 0 else (
                    (copy.deepcopy(given),), {}) if style == 1 else (
                    ([(k, copy.deepcopy(x)) for k, x in given.items()],), {})
                obj = core.honest(w, kind, fn, *args, **kw)
                want = B._keyed(kind, dict(copy.deepcopy(items), **given))
            elif kind == 'Mask':
                raw = g.mask()
                obj = core.honest(w, kind, node.p.mod(
                    'datastructures.masking').Mask, raw)
                want = ('mask', raw)
            else:
                if kind == 'Node':
                    v = g.node()
                elif kind == 'Peer':
                    v = g.peer()
                elif kind == 'TaskHeader':
                    v = g.header(key, signed=r.random() < .5)
                elif kind == 'ComputeTaskDef':
                    v = g.ctd(deal)
                elif kind == 'FileInfo':
                    v = g.fileinfo()
                else:
                    v = g.stats()
                    sub = {c: k for k, c in B.StatsV.SUB.items()}
                    if kind != 'ProviderStats':
                        for _ in range(9):
                            if v.given.get(sub[kind]) is not None:
                                break
                            v = g.stats()
                        v = v.given.get(sub[kind]) or B.StatsV(kind, {})
                if isinstance(v, B.StatsV) and v.cls != 'ProviderStats':
                    kw = {k: B.realize(node.p, x)
                          for k, x in v.given.items()}
                    obj = core.honest(w, kind, getattr(st, kind), **kw)
                else:
                    obj = core.honest(w, kind, B.realize, node.p, v)
                want = B.want(v)
            keep(node, s['id'], obj, want, kind)

    def make(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        g = B.Gen(r, now=node.now(), omit=s['omit'])
        deal = B.Deal(r, node.key, ref.Key('b'), ref.Key('c'))
        with node.p:
            spec = g.message(s['cls'], deal)
            spec.ts = node.now()
            obj = core.honest(w, 'construction of ' + spec.cls,
                              B.realize_msg, node.p, spec)
            keep(node, s['id'], obj, B.want_msg(spec), 'new ' + spec.cls)

    def decode(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        key = ref.Key('peer')
        g = B.Gen(r, now=node.now(), omit=s['omit'])
        deal = B.Deal(r, key, ref.Key('b'), ref.Key('c'))
        spec = g.message(s['cls'], deal)
        spec.ts = node.now()
        if spec.cls == 'Hello':
            spec.version = node.version
        spec.signer = key if spec.schema.sign else None
        data = ref.frame(spec.type_, spec.ts, False, spec.sig() or
                         ref.NO_SIG, spec.payload(), spec.version)
        want = B.want_msg(spec, sig=spec.sig() or ref.NO_SIG)
        for again in range(1 + s['again']):
            msg = core.load_ok(w, node, data)
            with node.p:
                keep(node, (s['id'], again), msg, want,
                     'received %s %d' % (spec.cls, again))

    def pick(node, r):
        objs = objects(node)
        if not objs:
            return None
        return list(objs)[r.randrange(len(objs))]

    def change(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        for _ in range(s['times']):
            i = pick(node, r)
            if i is None:
                return
            obj, snap, about = objects(node)[i]
            with node.p:
                out = []
                places(obj, out)
                # containers rather than their owners, deep ones too
                inner = [x for x in out if isinstance(x, (dict, list))]
                p = r.choice(inner if inner and r.random() < .75 else out)
                what = core.honest(w, 'a change', poke, p, r)
                objects(node)[i] = (obj, B.canon(obj), about)
                w.log('change', node.name, about, what)
                audit(node, i, '%s in %s' % (what, about))

    def poke(p, r):
        x = r.choice([r.getrandbits(20), 'changed', [1], {'k': 1}, None])
        name = type(p).__name__
        if isinstance(p, list):
            k = r.randrange(4)
            if k == 0 and p:
                del p[r.randrange(len(p))]
            elif k == 1 and p:
                p[r.randrange(len(p))] = x
            elif k == 2:
                p.extend([x, x])
            else:
                p.append(x)
            return 'list change'
        if isinstance(p, dict):
            if name == 'dict':
                k = r.choice(sorted(p, key=repr) + ['new key'])
            else:
                k = r.choice(sorted(p) or sorted(type(p).ITEMS))
            if r.random() < .15:
                p.pop(k, None)
            elif name == 'Peer':
                p['address'] = '9.9.9.9'
            elif name == 'ComputeTaskDef' and k.endswith('_id'):
                p[k] = 'another'
            elif name == 'FileInfo' and k == 'category':
                p.pop(k, None)
            else:
                p[k] = x
            return '%s[%r]' % (name, k)
        if name == 'Mask':
            p.increase(3) if r.random() < .5 else p.decrease(3)
            return 'mask change'
        if name in B.SCHEMA:
            names = B.SCHEMA[name].names
            if names:
                setattr(p, r.choice(names), x)
            else:
                p.sig = b'changed'
            return name + ' slot'
        setattr(p, r.choice(fields(p)), x)
        return name + ' field'

    def foreign_key(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        kind = s['kind']
        cls = {'Peer': lambda: node.p.mod('datastructures.p2p').Peer,
               'ComputeTaskDef': lambda: node.p.mod('message.tasks')
               .ComputeTaskDef,
               'FileInfo': lambda: node.p.mod('message.concents')
               .FileTransferToken.FileInfo}.get(
                   kind, lambda: getattr(node.p.mod('datastructures.stats'),
                                         kind))()
        good = {}
        if kind == 'Peer':
            with node.p:
                good = dict(B.realize(node.p, B.Gen(r).peer()))
        bad = r.choice(['foo', 'Task_id', 'total', '', '_x', FIXED[kind] + '2',
                        'node_', 'usage_', 'keys', 'ITEMS', 'validate_x'])
        odd = [1, None, False, '', 'x', {}, [], {'a': 1}, [1], b'', 0.5, (),
               object(), cls]
        with node.p:
            obj = cls(good)
            for style in range(4):
                val = r.choice(odd)
                try:
                    if style == 0:
                        cls(**dict(good, **{bad: val}))
                    elif style == 1:
                        cls(dict(good, **{bad: val}))
                    elif style == 2:
                        cls(list(good.items()) + [(bad, val)])
                    else:
                        obj[bad] = val
                except Exception as e:  # pylint: disable=broad-except
                    w.probe('refused ' + type(e).__name__)
                    if style == 3:
                        w.check(bad not in obj and len(obj) == len(cls.ITEMS),
                                'a refused key is there', kind)
                    w.checks += 1
                else:
                    w.check(False, 'a structure gained a key',
                            '%s %r %d' % (kind, bad, style))
            audit(node, None, 'foreign key')

    def use(s):
        """ordinary use changes nothing either"""
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        i = pick(node, r)
        if i is None:
            return
        obj, snap, about = objects(node)[i]
        with node.p:
            try:
                repr(obj)
                if hasattr(obj, 'to_dict'):
                    obj.to_dict()
                if hasattr(obj, 'slots') and hasattr(obj, 'header'):
                    obj.slots()
                    obj.get_short_hash()
            except Exception as e:  # pylint: disable=broad-except
                w.probe('unusable ' + type(e).__name__)   # changed content
            audit(node, None, 'use of ' + about)

    w.run({'struct': struct, 'make': make, 'decode': decode,
           'change': change, 'foreign_key': foreign_key, 'use': use})
