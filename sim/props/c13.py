"""Greetings in a cluster under rolling upgrades."""
import random
import re
import struct

from .. import build as B
from .. import core
from .. import ref

EPISODES = 1500
RULE = ('a cluster of nodes of various versions greets each other while it is '
        'upgraded and downgraded node by node, with release files replaced '
        'under running processes, greetings in flight across restarts, '
        'dumped greetings sent after an upgrade, tampered version fields and '
        'peers announcing arbitrary versions; each greeting is accepted or '
        'refused by an independent reading of the two versions.')

BASES = ['2.15', '2.15', '2.15', '2.14', '2.16', '3.15', '1.15', '2.1',
         '2.150', '2.5', '12.15', '0.15', '0.0', '2.9', '2.10', '2.0', '3.0',
         '10.0', '9.0']
UNREADABLE = ['', '2.15', '2', 'v2.15.0', '2.15.0.1', '2.15.x', '2..0',
              '2.15.0+', '2.15.0-', '02.15.0', '2.015.0', ' 2.15.0',
              '2.15.0 ', 'two', '2.15.-1', '\x00', '2.15.0\x00', '*',
              '>=2.15.0', '2,15,0', '+2.15.0', '2.15.0+a..b', '2.15.00',
              '2.15.0+\x7f', '2.15.0\u20ac']
SEMVER = re.compile(
    r'(0|[1-9][0-9]*)\.(0|[1-9][0-9]*)\.(0|[1-9][0-9]*)'
    r'(-[0-9A-Za-z-]+(?:\.[0-9A-Za-z-]+)*)?'
    r'(\+[0-9A-Za-z-]+(?:\.[0-9A-Za-z-]+)*)?')


def rversion(r, base=None, pre=.12):
    base = base or r.choice(BASES)
    v = '%s.%s' % (base, r.choice([0, 0, 1, 2, 9, 10, 99, 2 ** 31]))
    if r.random() < pre:
        v += r.choice(['-rc1', '-alpha.1', '-0', '-rc.2.x'])
    if r.random() < .25:
        v += r.choice(['+dev5.78df3e12', '+b1', '+0', '+7.g-x',
                       '+' + 'b' * 40])
    return v[:31].rstrip('.+-')


def plan(r, index):
    n = r.choice([2, 3, 3, 4])
    base = r.choice(BASES)
    other = r.choice(BASES)
    mine = lambda: rversion(r, r.choice([base, base, other, None]))
    nodes = core.rnodes(r, n)
    for c in nodes:
        c['version'] = mine()
    span = 20 * core.MINUTE
    steps = []
    for _ in range(r.choice([4, 6, 9])):
        steps.append({'op': 'greet', 't': r.randrange(span),
                      'n': r.randrange(n), 'seed': core.rseed(r),
                      'sign': r.random() < .8, 'enc': r.random() < .3,
                      'omit': r.choice([.25, .9]),
                      'late': r.choice([0, 0, r.randrange(5 * core.MINUTE)]),
                      'net': [core.rnet(r, lose=.03) for _ in range(n)]})
    for _ in range(r.choice([3, 5])):
        steps.append({'op': 'stranger', 't': r.randrange(span),
                      'n': r.randrange(n), 'seed': core.rseed(r),
                      'v': r.choice(UNREADABLE) if r.random() < .35
                      else rversion(r, r.choice([base, other, None]), .25)})
    for _ in range(r.choice([2, 4])):
        steps.append({'op': 'tamper', 't': r.randrange(span),
                      'n': r.randrange(n), 'seed': core.rseed(r),
                      'v': rversion(r, r.choice([base, None])),
                      'how': r.choice(['version', 'flip', 'swap', 'cut',
                                       'raw', 'foreign'])})
    for _ in range(r.choice([1, 2, 4])):
        v = mine()
        i = r.randrange(n)
        t = r.randrange(span)
        if r.random() < .5:
            steps.append({'op': 'replace', 't': t, 'n': i, 'version': v})
            t += r.randrange(4 * core.MINUTE)
        steps.append({'op': 'restart', 't': t, 'n': i, 'version': v})
    steps += core.crashes(r, n, span, r.choice([0, 1]))
    return {'cfg': core.rcfg(r), 'nodes': nodes, 'steps': core.ordered(steps)}


def parse(v):
    m = SEMVER.fullmatch(v)
    if m is None:
        return None
    if m.group(4):       # numeric identifiers carry no leading zeros
        for part in m.group(4)[1:].split('.'):
            if part.isdigit() and part != str(int(part)):
                return None
    return int(m.group(1)), int(m.group(2)), m.group(4)


def verdict(ours, theirs):
    """True, False, or None where nothing is promised"""
    a, b = parse(ours), parse(theirs)
    if b is None or a[:2] != b[:2]:
        return False
    if a[2] or b[2]:
        return None
    return True


def run(w, plan):
    sent = []

    def greet(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        g = B.Gen(r, now=node.now(), omit=s['omit'])
        deal = B.Deal(r, node.key, node.key, node.key)
        spec = g.message('Hello', deal)
        spec.ts = node.now()
        spec.version = node.version          # as it was started
        if s['sign']:
            spec.signer = node.key
        with node.p:
            obj = core.honest(w, 'construction of Hello', B.realize_msg,
                              node.p, spec)
        boots = node.boots

        def dump():
            if not node.up or node.boots != boots:
                return
            with node.p:
                data = core.honest(
                    w, 'dump of Hello', node.p.gm.dump, obj,
                    node.key.priv if s['sign'] else None,
                    w.nodes[(s['n'] + 1) % len(w.nodes)].key.pub
                    if s['enc'] else None)
            f = ref.Frame(data)
            w.check(f.version == spec.version,
                    'announced version is not the one started with',
                    lambda: '%r, started as %r' % (f.version, spec.version))
            w.check(data == ref.frame(0, spec.ts, False,
                                      spec.sig() or ref.NO_SIG,
                                      spec.payload(), spec.version),
                    'a greeting is not signed over its version')
            sent.append((data, spec))
            w.log('greet', node.name, spec.version, core.short(data))
            for i, net in enumerate(s['net']):
                w.transmit(s['n'], i, data, net, arrive, spec)
        w.after(s['late'], dump)

    def arrive(node, data, _damaged, spec):
        with node.p:
            vm = node.p.mod('exceptions').VersionMismatchError
        pub = spec.signer.pub if spec.signer else None
        msg, err = core.load(w, node, data, node.key.priv, pub)
        judge(node, spec.version, msg, err, vm)
        if msg is not None:
            with node.p:
                core.same(w, B.canon(msg),
                          B.want_msg(spec, sig=spec.sig() or ref.NO_SIG),
                          'an accepted greeting differs')
                again = core.honest(w, 'second dump', node.p.gm.dump, msg,
                                    None, None)
            w.check(again == data, 'a greeting passed on announces another '
                    'version', lambda: '%r %r' % (again[-32:], data[-32:]))

    def judge(node, version, msg, err, vm):
        want = verdict(node.version, version)
        ctx = '%s greeted by %r: %s' % (
            node.version, version, core.describe(err) if err else 'accepted')
        w.log('greeted', node.name, node.version, repr(version),
              msg is not None)
        if want is True:
            w.check(err is None, 'a compatible peer is refused', ctx)
            w.probe('compatible')
        elif want is False:
            w.check(isinstance(err, vm),
                    'an incompatible peer is not refused as such', ctx)
            w.probe('unreadable' if parse(version) is None
                    else 'incompatible')
        else:
            w.check(err is None or isinstance(err, vm),
                    'a greeting is refused for something else', ctx)
            w.probe('prerelease')

    def stranger(s):
        """a peer of any make, genuine in all but perhaps its version"""
        node = w.nodes[s['n']]
        if not node.up:
            return
        r = random.Random(s['seed'])
        g = B.Gen(r, now=node.now(), omit=.5)
        key = ref.Key('stranger')
        spec = g.message('Hello', B.Deal(r, key, key, key))
        spec.ts = node.now()
        spec.version = s['v']
        spec.signer = key
        raw = spec.version.encode('ascii', 'replace')
        seen = raw.decode('ascii')
        data = ref.frame(0, spec.ts, False, spec.sig(), spec.payload()) \
            + struct.pack('!32p', raw)
        vm = node.p.mod('exceptions').VersionMismatchError
        msg, err = core.load(w, node, data, node.key.priv, key.pub)
        w.fault('stranger')
        judge(node, seen, msg, err, vm)

    def tamper(s):
        node = w.nodes[s['n']]
        signed = [x for x in sent if x[1].signer]
        if not node.up or not signed:
            return
        r = random.Random(s['seed'])
        data, spec = signed[r.randrange(len(signed))]
        how = s['how']
        tail = data[-32:]
        if how == 'version':
            tail = struct.pack('!32p', s['v'].encode())
        elif how == 'flip':
            tail = core.mutate(tail, ['flip', r.randrange(
                1 + tail[0]), r.randrange(255)])
        elif how == 'foreign':     # a byte of no text among the others
            raw = bytearray(spec.version.encode())
            raw.insert(r.randrange(len(raw) + 1), r.randrange(128, 256))
            tail = struct.pack('!32p', bytes(raw))
        elif how == 'swap':
            other = signed[r.randrange(len(signed))]
            tail = other[0][-32:]
        elif how == 'cut':
            tail = bytes([max(0, tail[0] - 1 - r.randrange(4))]) + tail[1:]
        else:
            tail = bytes(r.getrandbits(8) for _ in range(32))
        n = min(tail[0], 31)
        text = tail[1:1 + n].decode('ascii', 'replace')
        err_cls = node.p.mod('exceptions')
        msg, err = core.load(w, node, data[:-32] + tail, node.key.priv,
                             spec.signer.pub)
        w.fault('version_tampered')
        if text == spec.version:
            judge(node, text, msg, err, err_cls.VersionMismatchError)
            return
        w.check(msg is None, 'an altered version field verifies',
                lambda: '%r was %r at %s' % (text, spec.version,
                                             node.version))
        # without the sender's key only the version itself counts
        msg, err = core.load(w, node, data[:-32] + tail, node.key.priv, None)
        if all(32 <= ord(c) < 127 or c == '\ufffd' for c in text):
            judge(node, text, msg, err, err_cls.VersionMismatchError)

    def replace(s):
        """the release file changes under the running process"""
        node = w.nodes[s['n']]
        if node.up:
            node.p.version = s['version']
            w.fault('release_file_replaced')
            w.log('replace', node.name, s['version'])

    w.run({'greet': greet, 'stranger': stranger, 'tamper': tamper,
           'replace': replace})
