"""Builds of releases: git, disk and processes started from what they wrote."""
import random

from .. import build as B
from .. import core
from .. import host as hosts
from .. import proc
from .. import ref
from .. import threads
from . import c13

EPISODES = 1500
RULE = ('builds of a checkout whose history grows by commits and tags, '
        'through setup.py, version.py as a program and its function, with '
        'git missing, failing or killed, with the history moving between two '
        'calls of git, full, failing and read-only disks, builds killed at '
        'every point where they touch git or disk, files found stale, torn '
        'or lost, two builds at once, and processes started from the file '
        'that greet each other; a reference names each release.')

GIT = ('missing', 'denied', 'memory', 'fails', 'killed', 'half')
OTHER_TAGS = ('vx', 'nightly', 'b0.12.1', 'release-3.0.0', 'v', 'va1',
              'x9.9.9', '2.99.0', 'V3.0.0', 'concent-v2.0')


def plan(r, index):
    first = {'v': '2.%d.0' % r.choice([0, 9, 15]),
             'annotated': r.random() < .5}
    steps = []
    for _ in range(r.choice([8, 14, 22])):
        k = r.choice(['commit'] * 3 + ['tag'] * 3 + ['other'] + ['build'] * 9
                     + ['file'] * 2 + ['twice', 'start', 'greet', 'greet',
                                       'sdist'])
        s = {'op': k, 'seed': core.rseed(r)}
        if k == 'commit':
            s['n'] = r.choice([1, 1, 2, 11, 120])
        elif k == 'tag':
            s['v'] = None
            s['how'] = r.choice(['patch', 'patch', 'minor', 'major', 'rc',
                                 'post', 'same'])
            s['annotated'] = r.random() < .5
        elif k == 'other':
            s['name'] = r.choice(OTHER_TAGS)
            s['annotated'] = r.random() < .5
        elif k == 'build':
            s.update(rbuild(r))
        elif k == 'file':
            s['what'] = r.choice(['gone', 'empty', 'cut', 'zeros', 'newline',
                                  'old', 'longer', 'other', 'as is'])
        elif k == 'twice':
            s['turns'] = [r.randrange(2) for _ in range(16)]
        steps.append(s)
    if r.random() < .3:
        steps.append({'op': 'build', 'seed': core.rseed(r), 'how': 'setup',
                      'update': True})
    for i, s in enumerate(steps):
        s['t'] = i * core.MINUTE
    return {'cfg': core.rcfg(r, era=False), 'nodes': [], 'first': first, 'steps': steps}


def rbuild(r):
    s = {'how': r.choice(['setup', 'setup', 'call', 'call', 'cli']),
         'update': r.random() < .8}
    k = r.randrange(10)
    if k < 2:
        s['git'] = [r.choice([1, 1, 2]), r.choice(GIT)]
    elif k < 5:
        s['kill'] = [r.randrange(8), r.randrange(30)]
    elif k < 7:
        s['disk'] = [r.choice(['open', 'write', 'write', 'close']),
                     r.choice([0, 1, 5, 10, 100])]
    elif k < 8:
        s['moves'] = [r.randrange(4), r.choice(['commit', 'tag'])]
    return s


class Names:
    """reference: what releases of this history are called"""

    def __init__(self):
        self.tagged = []         # (commit count when tagged, version)
        self.commits = []

    def name(self):
        at, v = self.tagged[-1]
        n = len(self.commits) - at
        if not n:
            return v
        return '%s+dev%d.g%s' % (v, n, self.commits[-1][:7])


def run(w, plan):
    host = hosts.Host('c27')
    try:
        Run(w, plan, host)
    finally:
        host.remove()


class Run:
    def __init__(self, w, plan, host):
        self.w, self.host = w, host
        self.names = Names()
        self.built = []              # numbers of successful builds
        self.clean = False           # the last build went well, file intact
        self.commit({'n': 1, 'seed': 1})
        self.tag(plan['first'])
        w.run({'commit': self.commit, 'tag': self.tag, 'other': self.other,
               'build': self.build, 'file': self.file, 'twice': self.twice,
               'start': self.start, 'greet': self.greet,
               'sdist': self.sdist})

    # --- the history -------------------------------------------------------

    def commit(self, s):
        r = random.Random(s['seed'])
        for _ in range(s['n']):
            sha = '%040x' % r.getrandbits(160)
            self.host.history.commit(sha)
            self.names.commits.append(sha)
        self.clean = False

    def tag(self, s):
        v = s['v']
        if v is None:
            a, b, c = [int(x) for x in self.names.tagged[-1][1].split(
                '-')[0].split('.')]
            at, last = self.names.tagged[-1]
            how = s['how']
            if at == len(self.names.commits):
                # one release per commit: which tag of several git prefers
                # is not what is looked at
                return
            v = {'patch': '%d.%d.%d' % (a, b, c + 1),
                 'minor': '%d.%d.0' % (a, b + 1),
                 'major': '%d.0.0' % (a + 1),
                 'rc': '%d.%d.0-rc%d' % (a, b + 1, s['seed'] % 3),
                 'post': '%d.%d.%d-post1' % (a, b, c + 1),
                 'same': last}[how]
            if v in [x[1] for x in self.names.tagged]:
                return
        self.host.history.tag('v' + v, s['annotated'])
        self.names.tagged.append((len(self.names.commits), v))
        self.clean = False

    def other(self, s):
        self.host.history.tag(s['name'], s['annotated'])

    # --- builds ------------------------------------------------------------

    def number(self, how, update):
        """one build -> the number it gave"""
        host = self.host
        if how == 'setup':
            return hosts.run_setup(host.dir, True)['version']
        if how == 'cli':
            import os
            os.chdir(host.dir)
            out = hosts.run_version_cli(
                [] if update else ['--no-update-version-file'])
            if not out.endswith('\n'):
                raise core.Violation('the program prints something else',
                                     repr(out))
            return out[:-1]
        v = hosts.load_version()
        if update:
            return v.get_version(prefix='v', cwd=host.dir)
        return v.get_version('v', host.dir, no_update_version_file=True)

    def attempt(self, how, update):
        """-> (number or None, error or None)"""
        try:
            with self.host:
                return self.number(how, update), None
        except core.Violation:
            raise
        except hosts.Killed as e:
            return None, e
        except Exception as e:  # pylint: disable=broad-except
            return None, e
        except SystemExit as e:
            return None, e

    def build(self, s):
        w, host = self.w, self.host
        how, update = s['how'], s['update'] or s['how'] == 'setup'
        host.calm()
        wanted = {self.names.name()}
        before = host.content()
        host.kill = s.get('kill')
        host.git_fault = s.get('git')
        host.disk = s.get('disk')
        if 'moves' in s:
            r = random.Random(s['seed'])

            def moves():
                self.commit({'n': 1, 'seed': r.random()})
                wanted.add(self.names.name())
                if s['moves'][1] == 'tag':
                    self.tag({'v': None, 'how': 'patch', 'seed': 0,
                              'annotated': False})
                    wanted.add(self.names.name())
            host.meanwhile = {s['moves'][0]: moves}
        got, err = self.attempt(how, update)
        after = host.content()
        struck = list(host.struck)
        for x in struck:
            w.fault(x)
        w.log('build', how, update, got, type(err).__name__ if err else '',
              struck, after)
        w.check(host.strayed is None, 'a build writes elsewhere',
                host.strayed)
        moved = 'meanwhile' in struck
        faulty = [x for x in struck if x != 'meanwhile']
        right = {x.encode() for x in wanted}
        if got is not None:
            if any(x.startswith('git') for x in struck):
                # the file may stand in for git, nothing else
                wanted = {(before or b'').decode('latin-1')}
                faulty = []
            w.check(got in wanted, 'a release has a wrong name',
                    lambda: '%r, wanted %s' % (got, sorted(wanted)))
            if update:
                w.check(not faulty, 'a failed build succeeds', struck)
                w.check(after == got.encode(), 'the file names another '
                        'release', lambda: '%r, built %r' % (after, got))
                if not any(x.startswith('git') for x in struck):
                    self.built.append(got)
            else:
                w.check(after == before, 'the file changed unasked',
                        lambda: '%r then %r' % (before, after))
                w.probe('not updated')
            if update and before == after:
                w.check(not host.wrote, 'a file that is right is written')
                w.probe('file was right')
        else:
            w.check(faulty or moved, 'a build fails',
                    lambda: '%s, file %r' % (core.describe(err), before))
            w.probe('build failed')
        if any(x.startswith('git') for x in struck) or not update:
            w.check(after == before, 'a failed build changes the file',
                    lambda: '%r then %r' % (before, after))
        if before in right and not moved:
            # nothing had to be written, so no fault could take it away
            w.check(after == before, 'a right file is lost',
                    lambda: '%r then %r' % (before, after))
        self.clean = got is not None and update and not struck
        if got is None or moved:
            self.repair(s)

    def repair(self, s):
        """the next undisturbed build puts everything right"""
        if s['seed'] % 4 == 0:
            return                    # it is disturbed again first
        self.host.calm()
        got, err = self.attempt('setup', True)
        self.w.check(got is not None, 'the next build fails as well',
                     lambda: core.describe(err))
        self.right(got)
        self.w.log('repaired', got)

    def right(self, got):
        want = self.names.name()
        self.w.check(got == want, 'a release has a wrong name',
                     lambda: '%r, wanted %r' % (got, want))
        after = self.host.content()
        self.w.check(after == want.encode(), 'the file names another release',
                     lambda: '%r, built %r' % (after, want))
        self.built.append(got)
        self.clean = True

    def file(self, s):
        """what a crash of the machine or a careless hand leaves"""
        host = self.host
        now = host.content() or b''
        old = (self.built or ['0.1.0'])[0].encode()
        data = {'gone': None, 'empty': b'', 'cut': now[:len(now) // 2],
                'zeros': bytes(len(now)), 'newline': now + b'\n',
                'old': old, 'longer': now + b'+dev1.g0000000',
                'other': b'9.9.9', 'as is': now}[s['what']]
        host.put(data)
        self.w.fault('file ' + s['what'].replace(' ', '_'))
        self.w.log('file', s['what'], data)
        self.clean = False

    def twice(self, s):
        """two builds of one checkout at once"""
        w, host = self.w, self.host
        host.calm()
        got = [None, None]
        v = hosts.load_version()

        def one(i):
            got[i] = v.get_version(prefix='v', cwd=host.dir)
        sched = threads.Scheduler([lambda: one(0), lambda: one(1)])
        turns = list(s['turns'])

        def switch(_what):
            if turns and turns.pop(0):
                i = sched.current
                if sched._ready(sched.threads[1 - i]):
                    w.fault('other build')
                    sched._switch(i, 1 - i)
        host.switch = switch
        host.sched = sched
        try:
            with host:
                sched.run()
        finally:
            host.sched = None
        w.check(sched.trouble is None and any(got), 'builds at once fail',
                lambda: '%r %r' % (sched.error, sched.trouble))
        w.log('twice', got, host.content())
        for g in got:
            if g is not None:
                self.right(g)

    # --- what is started from a build ---------------------------------------

    def announce(self, version):
        return proc.Process('built', version, world_clock=lambda: self.w.t)

    def start(self, _s):
        now = self.host.content()
        if not self.clean:
            return
        p = self.announce(now.decode())
        self.w.check(p.gm.__version__ == self.built[-1],
                     'a process announces another release',
                     lambda: '%r, built %r' % (p.gm.__version__,
                                               self.built[-1]))
        self.w.log('start', p.gm.__version__)

    def greet(self, s):
        """two releases of this line greet each other"""
        w = self.w
        if len(self.built) < 1:
            return
        r = random.Random(s['seed'])
        a, b = r.choice(self.built), self.built[-1]
        if len(a) > 31 or len(b) > 31:
            return
        pa, pb = self.announce(a), self.announce(b)
        ka, kb = ref.Key('a'), ref.Key('b')
        now = pa.clock_us() // core.US
        spec = B.Gen(r, now=now, omit=.9).message(
            'Hello', B.Deal(r, ka, kb, ka))
        spec.ts, spec.version, spec.signer = now, a, ka
        with pa:
            obj = core.honest(w, 'construction of Hello', B.realize_msg, pa,
                              spec)
            data = core.honest(w, 'dump of Hello', pa.gm.dump, obj, ka.priv,
                               None)
        frame = ref.Frame(data)
        w.check(frame.version == a, 'another release is announced',
                lambda: '%r, built %r' % (frame.version, a))
        with pb:
            try:
                pb.gm.load(data, kb.priv, ka.pub)
                ok = True
            except pb.mod('exceptions').VersionMismatchError:
                ok = False
        want = c13.verdict(b, a)
        w.log('greet', a, b, ok, want)
        if want is not None:
            w.check(ok == want, 'releases do not understand each other'
                    if want else 'releases of two lines meet',
                    lambda: '%s greets %s' % (a, b))

    def sdist(self, s):
        """a build from a package, without git and version.py"""
        if not self.clean:
            return
        host = self.host
        host.calm()
        host.git_fault = [1, 'missing']
        before = host.content()
        try:
            with host:
                got = hosts.run_setup(host.dir, False)['version']
        except Exception as e:  # pylint: disable=broad-except
            raise core.Violation('a package does not build',
                                 core.describe(e)) from e
        self.w.check(got == self.built[-1], 'a package has another number',
                     lambda: '%r, built %r' % (got, self.built[-1]))
        self.w.check(host.content() == before, 'a package changes its file')
        self.w.log('sdist', got)
