"""A simulated build host: a git checkout, its disk and the processes on it.

The files are real ones in a scratch directory of the episode (in memory where
the machine has /dev/shm), opened through wrappers that decide how each write
goes; git is a stub behind subprocess.Popen that answers `git describe` for a
simulated history as git does.  Every call that leaves the build is a point at
which the build can be killed, stalled in favour of another build, or find
that somebody else changed the checkout.
"""
import errno
import fnmatch
import io
import os
import pathlib
import shlex
import shutil
import subprocess
import sys
import types

from . import seams


class Killed(BaseException):
    """the build process died here"""


class History:
    """commits in a line, the youngest last, and tags on them"""

    def __init__(self):
        self.commits = []       # hashes
        self.tags = []          # (name, commit index, annotated), in time

    def commit(self, sha):
        self.commits.append(sha)

    def tag(self, name, annotated=False, back=0):
        at = len(self.commits) - 1 - back
        if at >= 0 and name not in [t[0] for t in self.tags]:
            self.tags.append((name, at, annotated))

    def describe(self, args):
        """-> (exit code, output); as git describe does"""
        tags = always = long_ = False
        abbrev, match, exclude, dirty = 7, [], [], ''
        args = list(args)
        while args:
            a = args.pop(0)
            if a == '--tags' or a == '--all':
                tags = True
            elif a == '--always':
                always = True
            elif a == '--long':
                long_ = True
            elif a.startswith('--dirty'):
                dirty = ''              # the checkout is clean
            elif a.startswith('--abbrev'):
                abbrev = int(a.split('=')[1]) if '=' in a else 7
            elif a.startswith('--match') or a.startswith('--exclude'):
                value = a.split('=', 1)[1] if '=' in a else args.pop(0)
                (match if a.startswith('--match') else exclude).append(value)
            elif a in ('--first-parent', 'HEAD', '--no-dirty', '--'):
                pass
            else:
                return 129, 'usage: git describe'
        del dirty
        head = len(self.commits) - 1
        for at in range(head, -1, -1):
            here = [t for t in self.tags if t[1] == at and (tags or t[2])
                    and (not match or any(fnmatch.fnmatchcase(t[0], m)
                                          for m in match))
                    and not any(fnmatch.fnmatchcase(t[0], m)
                                for m in exclude)]
            if here:
                # annotated ones go first, of those the youngest
                here.sort(key=lambda t: (t[2], self.tags.index(t)))
                name = here[-1][0]
                if abbrev == 0 or (at == head and not long_):
                    return 0, name
                return 0, '%s-%d-g%s' % (name, head - at,
                                         self.commits[head][:abbrev])
        if always and self.commits:
            return 0, self.commits[head][:abbrev or 40]
        return 128, ''


class SimPopen:
    """subprocess.Popen, as far as one can ask git something"""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None,
                 stdout=None, stderr=None, preexec_fn=None, close_fds=True,
                 shell=False, cwd=None, env=None, universal_newlines=None,
                 startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, text=None,
                 encoding=None, errors=None, **_kw):
        host = Host.current
        self.args = args
        if isinstance(args, (str, bytes)):
            args = shlex.split(os.fsdecode(args))
        args = [os.fsdecode(a) for a in args]
        self.pid = 4242
        self.returncode = None
        self.stdin = None
        rc, out = host.spawn(args)
        err = b'' if rc == 0 else b'fatal: simulated\n'
        out = out.encode() + b'\n' if out else b''
        if stderr == subprocess.STDOUT:
            out, err = out + err, b''
        text = text or universal_newlines or encoding or errors

        def pipe(want, data):
            if want != subprocess.PIPE:
                return None
            return io.StringIO(data.decode(encoding or 'utf-8')) if text \
                else io.BytesIO(data)
        self.stdout = pipe(stdout, out)
        self.stderr = pipe(stderr, err)
        self._rc = rc

    def communicate(self, input=None, timeout=None):
        self.returncode = self._rc
        return (self.stdout.read() if self.stdout else None,
                self.stderr.read() if self.stderr else None)

    def wait(self, timeout=None):
        self.returncode = self._rc
        return self.returncode

    def poll(self):
        return self.wait()

    def kill(self):
        pass

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.wait()


class SimFile:
    """a file opened for writing: what is written arrives when flushed"""

    def __init__(self, host, path, mode, encoding=None):
        self.host = host
        self.name = path
        self.mode = mode
        self.binary = 'b' in mode
        self.encoding = encoding or 'utf-8'
        host.point('create %s' % os.path.basename(path))
        host.disk_fault('open', 0)
        raw = mode.replace('b', '').replace('t', '') + 'b'
        self.raw = seams._real_open(path, raw, buffering=0)
        self.pending = b''
        self.closed = False
        host.files.append(self)

    def write(self, data):
        n = len(data)
        self.pending += data if self.binary else data.encode(self.encoding)
        return n

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def read(self, *a):
        self.flush()
        got = self.raw.read(*a)
        return got if self.binary else got.decode(self.encoding)

    def seek(self, *a):
        self.flush()
        return self.raw.seek(*a)

    def truncate(self, *a):
        self.flush()
        return self.raw.truncate(*a)

    def tell(self):
        return self.raw.tell() + len(self.pending)

    def fileno(self):
        return self.raw.fileno()

    def flush(self):
        data, self.pending = self.pending, b''
        if not data:
            return
        try:
            k = self.host.disk_fault('write', len(data))
            self.host.point('write', lambda part: self.raw.write(
                data[:min(len(data) - 1, part)]))
        except OSError as e:
            self.raw.write(data[:getattr(e, 'wrote', 0)])
            raise
        del k
        self.raw.write(data)

    def close(self):
        if self.closed:
            return
        self.closed = True
        if self.host.dead:
            self.raw.close()
            return
        try:
            self.flush()
            self.host.point('close')
            self.host.disk_fault('close', 0)
        finally:
            self.raw.close()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class Host:
    current = None

    def __init__(self, name):
        base = '/dev/shm' if os.path.isdir('/dev/shm') else '/tmp'
        self.root = '%s/gm-sim-%d-%s' % (base, os.getpid(), name)
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        self.dir = self.root + '/golem_messages'
        os.mkdir(self.dir)
        os.mkdir(self.root + '/elsewhere')
        self.history = History()
        self.files = []
        self.w = None
        self.sched = None
        self.calm()

    def calm(self):
        """no fault is planned"""
        self.dead = False
        self.points = 0
        self.kill = None        # (point, bytes that still arrive)
        self.git_fault = None   # (call, kind)
        self.disk = None        # (where, bytes that arrive)
        self.meanwhile = {}     # point -> what somebody does there
        self.spawned = 0
        self.struck = []
        self.wrote = 0          # files opened for writing
        self.strayed = None     # a file opened for writing outside

    # --- points ------------------------------------------------------------

    def point(self, what, partly=None):
        if self.dead:
            raise Killed()
        n = self.points
        self.points += 1
        if n in self.meanwhile:
            self.struck.append('meanwhile')
            self.meanwhile.pop(n)()
        if self.kill is not None and self.kill[0] == n:
            if partly is not None:
                partly(self.kill[1])
            self.struck.append('killed at %s' % what)
            self.dead = True
            raise Killed()
        if self.sched is not None and self.sched.current is not None:
            self.switch(what)

    def switch(self, what):
        pass

    def disk_fault(self, where, n):
        if self.disk is not None and self.disk[0] == where:
            k = self.disk[1]
            err = {'open': errno.EROFS, 'write': errno.ENOSPC,
                   'close': errno.EIO}[where]
            self.struck.append('disk %s' % where)
            e = OSError(err, 'simulated: %s' % os.strerror(err))
            e.wrote = min(k, max(0, n - 1))
            raise e

    def spawn(self, args):
        self.point('git')
        self.spawned += 1
        if self.git_fault is not None and self.git_fault[0] == self.spawned:
            kind = self.git_fault[1]
            self.struck.append('git %s' % kind)
            if kind == 'missing':
                raise FileNotFoundError(2, 'simulated: no git', 'git')
            if kind == 'denied':
                raise PermissionError(13, 'simulated: git', 'git')
            if kind == 'memory':
                raise OSError(12, 'simulated: cannot fork')
            return {'fails': (128, ''), 'killed': (-9, ''),
                    'half': (-15, 'v2.1')}[kind]
        if os.path.basename(args[0]) != 'git':
            raise FileNotFoundError(2, 'simulated: no such program', args[0])
        rest = args[1:]
        while rest and rest[0].startswith('-'):
            rest = rest[2:] if rest[0] in ('-C', '-c') else rest[1:]
        if rest[:1] != ['describe']:
            return 1, ''
        return self.history.describe(rest[1:])

    # --- files -------------------------------------------------------------

    def open(self, path, mode='r', buffering=-1, encoding=None, *_a, **_kw):
        path = os.path.abspath(os.fspath(path))
        if not set(mode) & set('wax+'):
            if path.startswith(self.root + '/'):
                self.point('read')
            return seams._real_open(path, mode, encoding=encoding)
        if not path.startswith(self.root + '/'):
            self.strayed = path
            raise PermissionError(13, 'simulated: not yours', path)
        self.wrote += 1
        return SimFile(self, path, mode, encoding)

    def content(self, name='RELEASE-VERSION'):
        try:
            with seams._real_open(os.path.join(self.dir, name), 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def put(self, data, name='RELEASE-VERSION'):
        path = os.path.join(self.dir, name)
        if data is None:
            if os.path.exists(path):
                os.unlink(path)
        else:
            with seams._real_open(path, 'wb') as f:
                f.write(data)

    # --- in use ------------------------------------------------------------

    def __enter__(self):
        Host.current = self
        self.old_popen = subprocess.Popen
        self.old_cwd = os.getcwd()
        subprocess.Popen = SimPopen
        seams.SEAM.opener = self
        os.chdir(self.root + '/elsewhere')
        return self

    def __exit__(self, *exc):
        subprocess.Popen = self.old_popen
        seams.SEAM.opener = None
        for f in self.files:
            f.raw.close()
        self.files = []
        os.chdir(self.old_cwd)
        Host.current = None

    def remove(self):
        shutil.rmtree(self.root, ignore_errors=True)


_codes = {}


def script(name):
    """code of a file at the top of the repository"""
    if name not in _codes:
        path = os.path.join(seams.REPO, name)
        with seams._real_open(path, 'rb') as f:
            _codes[name] = compile(f.read(), path, 'exec', dont_inherit=True)
    return _codes[name]


def load_version():
    """a fresh instance of version.py"""
    mod = types.ModuleType('version')
    mod.__file__ = os.path.join(seams.REPO, 'version.py')
    exec(script('version.py'), mod.__dict__)  # pylint: disable=exec-used
    return mod


def run_version_cli(args):
    """python version.py ARGS -> what it printed"""
    out, argv, stdout = io.StringIO(), sys.argv, sys.stdout
    sys.argv = ['version.py'] + list(args)
    sys.stdout = out
    try:
        exec(script('version.py'),  # pylint: disable=exec-used
             {'__name__': '__main__', '__file__':
              os.path.join(seams.REPO, 'version.py')})
    finally:
        sys.argv, sys.stdout = argv, stdout
    return out.getvalue()


def run_setup(directory, with_version):
    """python setup.py -> the arguments of setup()"""
    got = {}
    tools = types.ModuleType('setuptools')
    tools.setup = lambda **kw: got.update(kw)
    tools.find_packages = lambda *a, **kw: []
    saved = {k: sys.modules.get(k) for k in ('setuptools', 'version')}
    sys.modules['setuptools'] = tools
    # None makes the import fail, as in a package without version.py
    sys.modules['version'] = load_version() if with_version else None
    path = os.path.join(os.path.dirname(directory), 'setup.py')
    try:
        exec(script('setup.py'),  # pylint: disable=exec-used
             {'__name__': '__main__', '__file__': path})
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return got


_ = pathlib
