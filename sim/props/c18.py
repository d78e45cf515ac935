"""Registrations, accepted and refused, amid traffic."""
import random

from .. import build as B
from .. import core
from .. import ref

EPISODES = 900
RULE = ('extensions on several nodes register message types of their own - '
        'some under numbers that are taken, some claiming a number long '
        'before they use it - between messages of known and unknown types '
        'and restarts that forget the extensions; after every step both '
        'directions of every node\'s register are compared with a model.')


def plan(r, index):
    n = r.choice([2, 3])
    steps = []
    t = 0
    pool = [4, 5, 999, 1000, 1018, 2012, 5000, 40000, 65535, 65534,
            r.randrange(6000, 60000), r.randrange(6000, 60000)]
    taken = list(B.BY_NUMBER)
    k = 0
    for _ in range(r.choice([12, 20, 30])):
        t += r.randrange(core.MINUTE)
        x = r.random()
        s = {'t': t, 'n': r.randrange(n), 'seed': core.rseed(r)}
        num = r.choice(pool) if r.random() < .75 else r.choice(taken)
        if x < .3:
            s.update(op='register', num=num, cls=r.randrange(6),
                     lib=r.random() < .8)
        elif x < .4:
            s.update(op='claim', num=num, id=k)
            k += 1
        elif x < .5:
            s.update(op='apply', id=r.randrange(k + 1), cls=r.randrange(6))
        elif x < .75:
            s.update(op='send', to=r.randrange(n), cls=r.randrange(6),
                     net=core.rnet(r, dup=.5), enc=r.random() < .3)
        elif x < .9:
            s.update(op='stranger', num=r.choice(
                [num, r.randrange(65536), r.randrange(65536)]),
                     enc=r.random() < .3)
        else:
            s.update(op='known', cls=B.ALL[(index + k) % len(B.ALL)],
                     to=r.randrange(n))
        steps.append(s)
    steps += core.crashes(r, n, t + 1, r.choice([0, 0, 1]))
    return {'cfg': core.rcfg(r), 'nodes': core.rnodes(
        r, n, versions=['2.15.0']), 'steps': core.ordered(steps)}


class Model:
    """number -> class and back, first come first served"""

    def __init__(self, start):
        self.by_num = dict(start)
        self.by_cls = {c: k for k, c in start.items()}


def run(w, plan):
    def state(node):
        m = node.memory
        if 'lib' not in m:
            lib = node.p.mod('register').library
            start = {s.number: B.msg_class(node.p, c)
                     for c, s in B.SCHEMA.items()}
            m['lib'] = (lib, Model(start))
            m['own'] = (node.p.mod('register').MessageRegister(), Model({}))
            m['classes'] = []
            base = node.p.mod('message.base').Message
            for i in range(6):
                m['classes'].append(type(
                    'Extra%d' % (i // 2), (base,),
                    {'__slots__': ['rand_val'] + base.__slots__}))
            m['claims'] = {}
            audit(node, 'start')
        return m

    def audit(node, what):
        """both directions, on both registers"""
        m = node.memory
        for name in ('lib', 'own'):
            reg, model = m[name]
            ctx = '%s after %s' % (name, what)
            for k, c in model.by_num.items():
                w.check(k in reg and reg[k] is c,
                        'a number yields another class', lambda:
                        '%d, %s' % (k, ctx))
                try:
                    back = reg.get_type(c)
                except Exception as e:  # pylint: disable=broad-except
                    back = core.describe(e)
                w.check(back == k, 'a class yields another number', lambda:
                        '%s %r not %d, %s' % (c.__name__, back, k, ctx))
            for c in m['classes']:
                if c in model.by_cls:
                    continue
                try:
                    got = reg.get_type(c)
                except Exception:  # pylint: disable=broad-except
                    continue
                w.check(False, 'an unregistered class has a number',
                        '%s %r' % (got, ctx))
            for k in (3, 4, 5, 999, 1000, 1018, 2012, 5000, 40000, 65535):
                if k not in model.by_num:
                    w.check(k not in reg, 'a free number is taken',
                            '%d %s' % (k, ctx))

    def enter(node, reg, model, decorator, num, cls):
        """one application of a registration"""
        if cls in model.by_cls and num not in model.by_num:
            return            # a second number for a class: not promised
        try:
            got = decorator()(cls)
            err = None
        except Exception as e:  # pylint: disable=broad-except
            err = e
        if num in model.by_num:
            w.check(err is not None, 'a taken number is registered again',
                    num)
            w.fault('taken_number')
        else:
            if err is not None:
                raise core.Violation('a registration failed',
                                     core.describe(err))
            w.check(got is cls, 'registration returns something else')
            model.by_num[num] = cls
            model.by_cls[cls] = num
        w.log('register', node.name, num, cls.__name__, err is None)
        audit(node, 'registering %d' % num)

    def register(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        with node.p:
            m = state(node)
            reg, model = m['lib' if s['lib'] else 'own']
            cls = m['classes'][s['cls']]
            if s['seed'] % 5 == 0 and s['lib']:
                # a class of the library itself under a taken number
                cls = B.msg_class(node.p, B.ALL[s['seed'] % len(B.ALL)])
            enter(node, reg, model, lambda: reg.register(s['num']), s['num'],
                  cls)

    def claim(s):
        """@register(n) evaluated, class body still to come"""
        node = w.nodes[s['n']]
        if not node.up:
            return
        with node.p:
            m = state(node)
            reg, model = m['lib']
            try:
                dec = reg.register(s['num'])
            except Exception as e:  # pylint: disable=broad-except
                w.check(s['num'] in model.by_num, 'a registration failed',
                        core.describe(e))
            else:
                m['claims'][s['id']] = (s['num'], dec)
            audit(node, 'claiming %d' % s['num'])

    def apply(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        with node.p:
            m = state(node)
            if s['id'] in m['claims']:
                num, dec = m['claims'][s['id']]
                reg, model = m['lib']
                enter(node, reg, model, lambda: dec, num,
                      m['classes'][s['cls']])

    def send(s):
        """a message of an extension's type"""
        node = w.nodes[s['n']]
        if not node.up:
            return
        with node.p:
            m = state(node)
            reg, model = m['lib']
            cls = m['classes'][s['cls']]
            num = model.by_cls.get(cls)
            if num is None:
                try:
                    cls(rand_val=1)
                except Exception:  # pylint: disable=broad-except
                    w.probe('an unregistered class cannot be sent')
                return
            msg = core.honest(w, 'construction', cls, rand_val=s['seed'])
            data = core.honest(
                w, 'dump', node.p.gm.dump, msg, node.key.priv,
                w.nodes[s['to']].key.pub if s['enc'] else None)
        w.check(int.from_bytes(data[:2], 'big') == num,
                'a message carries another number')
        w.log('send', node.name, num, core.short(data))
        w.transmit(s['n'], s['to'], data, s['net'], arrive, num, s['seed'],
                   node.key.pub, s['to'])

    def arrive(node, data, _damaged, num, value, pub, to):
        with node.p:
            m = state(node)
            model = m['lib'][1]
        if num not in model.by_num:
            refuse(node, data)
            return
        cls = model.by_num[num]
        if cls not in m['classes']:
            return
        msg = core.load_ok(w, node, data, node.key.priv, pub)
        w.check(type(msg) is cls and msg.rand_val == value,
                'a message is decoded as another', type(msg).__name__)
        w.probe('decoded')

    def refuse(node, data):
        msg, err = core.load(w, node, data, node.key.priv, None)
        with node.p:
            header = node.p.mod('exceptions').HeaderError
            w.check(isinstance(err, header),
                    'an unknown number is not a header error',
                    lambda: core.describe(err) if err else 'accepted')
            audit(node, 'an unknown number')
        w.probe('unknown number')
        ping(node)

    def ping(node):
        """it keeps working"""
        key = ref.Key('peer')
        payload = ref.cbor([['rand_val', 4]])
        ts = node.now()
        data = ref.frame(1, ts, False, key.sign(
            ref.short_hash(1, ts, payload)), payload)
        msg = core.load_ok(w, node, data, None, key.pub)
        w.check(type(msg) is B.msg_class(node.p, 'RandVal')
                and msg.rand_val == 4, 'the next message went wrong')

    def stranger(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        with node.p:
            model = state(node)['lib'][1]
        if s['num'] in model.by_num:
            return
        r = random.Random(s['seed'])
        key = ref.Key('stranger')
        payload = ref.cbor([[r.choice(['rand_val', 'x']), r.random()]])
        ts = node.now()
        data = ref.frame(s['num'], ts, s['enc'], key.sign(
            ref.short_hash(s['num'], ts, payload)), payload)
        w.fault('unknown_type')
        refuse(node, data)

    def known(s):
        """ordinary traffic between"""
        node, to = w.nodes[s['n']], w.nodes[s['to']]
        if not (node.up and to.up):
            return
        r = random.Random(s['seed'])
        g = B.Gen(r, now=node.now(), omit=.5)
        spec = g.message(s['cls'], B.Deal(r, node.key, ref.Key('b'),
                                          ref.Key('c')))
        spec.ts = node.now()
        spec.version = node.version if s['cls'] == 'Hello' else None
        with node.p:
            state(node)
            obj = core.honest(w, 'construction', B.realize_msg, node.p, spec)
            data = core.honest(w, 'dump', node.p.gm.dump, obj, None, None)
            w.check(int.from_bytes(data[:2], 'big') == spec.schema.number,
                    'a message carries another number', s['cls'])
            audit(node, 'a dump')
        msg = core.load_ok(w, to, data, None, None)
        with to.p:
            core.same(w, B.canon(msg), B.want_msg(spec, sig=ref.NO_SIG),
                      'a known type differs')
            state(to)
            audit(to, 'a load')

    w.run({'register': register, 'claim': claim, 'apply': apply,
           'send': send, 'stranger': stranger, 'known': known})
