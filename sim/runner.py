"""Seeded search over simulated runs, minimisation, replay and evidence.

    python3 -m sim.runner C01 [quick|thorough]
    python3 -m sim.runner C01 --replay FILE [--trace]

Exit 0: the property held on everything explored.  Exit 1: violation, with
its replay file.  Exit 2: the machinery itself failed.
"""
import ast
import collections
import json
import os
import queue
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('GM_SIM_PY', '/opt/venv-pypy/bin/python')
ANSWER_S = 150          # a worker silent for longer is hung
MINIMISE_S = float(os.environ.get('GM_SIM_MINIMISE', '60'))


class Worker:
    def __init__(self, hashseed=0):
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = str(hashseed)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['PYTHONPATH'] = VERIF
        env['TZ'] = 'UTC'
        # the JIT's code and the collector take what they need, no more
        env.setdefault('PYPY_GC_MAX', '3GB')
        self.proc = subprocess.Popen(
            [PY, '-m', 'sim.worker'], cwd=VERIF, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL if not os.environ.get('GM_SIM_ERR')
            else None)
        self.answers = queue.Queue()
        threading.Thread(target=self._pump, daemon=True).start()

    def _pump(self):
        for line in self.proc.stdout:
            self.answers.put(line)
        self.answers.put(None)

    def ask(self, req, timeout=ANSWER_S):
        """-> dict; {'died': why} or {'violation': hang} when it fails"""
        try:
            self.proc.stdin.write(json.dumps(req).encode() + b'\n')
            self.proc.stdin.flush()
            line = self.answers.get(timeout=timeout)
        except (BrokenPipeError, OSError):
            line = None
        except queue.Empty:
            self.kill()
            return {'violation': {'key': 'hang', 'detail':
                                  'no answer in %d s' % timeout},
                    'error': None, 'lost': True}
        if line is None:
            rc = self.proc.wait()
            return {'violation': None, 'error': None, 'died': rc}
        return json.loads(line)

    def kill(self):
        try:
            self.proc.kill()
        except OSError:
            pass

    def close(self):
        try:
            self.proc.stdin.close()
        except OSError:
            pass
        self.kill()
        self.proc.wait()


def fresh(req, timeout=ANSWER_S):
    """run one request in a process of its own"""
    w = Worker(0)
    try:
        res = w.ask(req, timeout)
    finally:
        w.close()
    if 'died' in res:
        res['violation'] = {'key': 'the process died', 'detail':
                            'exit status %s' % res['died']}
    return res


class Pool:
    def __init__(self, n):
        self.n = n
        self.workers = [Worker(i) for i in range(n)]

    def run(self, requests, stop=lambda res: False, deadline=None,
            on_result=None):
        """requests in order over all workers; results by position"""
        results = {}
        lock = threading.Lock()
        state = {'next': 0, 'halt': None}

        def loop(k):
            while True:
                with lock:
                    i = state['next']
                    if i >= len(requests) or state['halt'] is not None \
                            and i > state['halt']:
                        return
                    if deadline is not None and time.time() > deadline:
                        return
                    state['next'] += 1
                res = self.workers[k].ask(requests[i])
                if res.get('lost') or 'died' in res:
                    self.workers[k].close()
                    self.workers[k] = Worker(k)
                    # once more, alone, to tell the code from the machine
                    res = fresh(requests[i])
                with lock:
                    results[i] = res
                    if stop(res) and (state['halt'] is None
                                      or i < state['halt']):
                        state['halt'] = i
                    if on_result:
                        on_result(i, res)
        threads = [threading.Thread(target=loop, args=(k,))
                   for k in range(self.n)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        return results

    def close(self):
        for w in self.workers:
            w.close()


# --- minimisation ----------------------------------------------------------

def size(plan):
    return len(json.dumps(plan))


def candidates(plan):
    """simpler plans, boldest first"""
    steps = plan['steps']
    n = len(steps)
    chunk = n // 2
    while chunk >= 1:
        for i in range(0, n, chunk):
            if chunk == n:
                break
            yield dict(plan, steps=steps[:i] + steps[i + chunk:])
        chunk //= 2
    if plan.get('cfg', {}).get('debug'):
        cfg = dict(plan['cfg'])
        cfg.pop('debug')
        yield dict(plan, cfg=cfg)
    for i, node in enumerate(plan.get('nodes', [])):
        for k in ('offset', 'drift', 'tz'):
            if node.get(k):
                nodes = [dict(x) for x in plan['nodes']]
                del nodes[i][k]
                yield dict(plan, nodes=nodes)
    for i, s in enumerate(steps):
        for k, v in s.items():
            if k == 'net' and isinstance(v, list):
                for j in range(len(v)):
                    if len(v) > 1:
                        yield _with(plan, i, k, v[:j] + v[j + 1:])
                    if isinstance(v[j], dict) and len(v[j].get('f', ())) > 1:
                        for q in range(len(v[j]['f'])):
                            f = v[j]['f'][:q] + v[j]['f'][q + 1:]
                            yield _with(plan, i, k, v[:j] + [
                                dict(v[j], f=f)] + v[j + 1:])
                    elif v[j] and isinstance(v[j], int) and v[j] > 1000:
                        yield _with(plan, i, k, v[:j] + [0] + v[j + 1:])
            elif isinstance(v, list) and k not in ('links',) and len(v) > 1:
                for j in range(len(v)):
                    yield _with(plan, i, k, v[:j] + v[j + 1:])
            elif v is True:
                yield _with(plan, i, k, False)
            elif isinstance(v, dict):
                yield _with(plan, i, k, None)
            elif k == 'omit' and v != 1:
                yield _with(plan, i, k, 1)


def _with(plan, i, k, v):
    steps = list(plan['steps'])
    steps[i] = dict(steps[i])
    steps[i][k] = v
    return dict(plan, steps=steps)


def minimise(pool, plan, key, deadline):
    tried = set()
    runs = 0
    progress = True
    while progress and time.time() < deadline:
        progress = False
        batch = []
        gen = candidates(plan)
        while time.time() < deadline:
            batch = []
            for c in gen:
                h = json.dumps(c, sort_keys=True)
                if h in tried or size(c) >= size(plan) + 4:
                    continue
                tried.add(h)
                batch.append(c)
                if len(batch) >= pool.n * 2:
                    break
            if not batch:
                break
            reqs = [{'cmd': 'plan', 'property': plan['property'], 'plan': c,
                     'id': i} for i, c in enumerate(batch)]
            hit = pool.run(reqs, stop=lambda r: bool(
                r.get('violation') and r['violation']['key'] == key),
                deadline=deadline)
            runs += len(hit)
            good = [i for i, r in sorted(hit.items()) if r.get('violation')
                    and r['violation']['key'] == key]
            if good:
                plan = batch[good[0]]
                progress = True
                break
    return plan, runs


# --- known findings --------------------------------------------------------

def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f:
        return [e for e in json.load(f)['findings'] if e['property'] == pid]


def is_known(entries, violation):
    for e in entries:
        if e['key'] == violation['key'] \
                and e.get('detail_contains', '') in violation['detail']:
            return e
    return None


# --- main ------------------------------------------------------------------

def module_info(pid):
    """literals and docstring of the property module (not imported here: it
    needs the workers' interpreter)"""
    with open(os.path.join(VERIF, 'sim', 'props', pid.lower() + '.py')) as f:
        tree = ast.parse(f.read())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1:
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except (ValueError, AttributeError):
                pass
    out['doc'] = ast.get_docstring(tree)
    return out


def main(argv):
    pid = argv[0].upper()
    rest = argv[1:]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if '--replay' in rest:
        return replay(pid, rest[rest.index('--replay') + 1],
                      '--trace' in rest)
    tier = rest[0] if rest else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        print('unknown tier', tier)
        return 2
    return check(pid, tier, seed)


def replay(pid, path, trace):
    with open(path) as f:
        doc = json.load(f)
    res = fresh({'cmd': 'plan', 'property': pid, 'plan': doc['plan'],
                 'trace': True})
    for line in (res.get('trace') or []) if trace else ():
        print(line)
    v = res.get('violation')
    if v:
        print('%s: %s' % (v['key'], v['detail']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if res.get('error'):
        print(res['error'])
        return 2
    print('no violation on replay')
    return 0


def check(pid, tier, seed):
    t0 = time.time()
    info = module_info(pid)
    scale = float(os.environ.get('GM_SIM_SCALE', '1'))
    if tier == 'quick':
        count = int(info['EPISODES'] * scale)
        cap = float(os.environ.get('GM_SIM_CAP', '240'))
    else:
        count = int(info['EPISODES'] * 400 * scale)
        cap = float(os.environ.get('GM_SIM_CAP', '780'))
    jobs = int(os.environ.get('GM_SIM_JOBS', str(os.cpu_count() or 4)))
    known = known_findings(pid)
    open_ = [e for e in known if e['status'] == 'known']
    reqs = [{'cmd': 'episode', 'property': pid, 'base': seed, 'index': i}
            for i in range(count)]
    pool = Pool(min(jobs, max(1, count)))
    agg = {'faults': collections.Counter(), 'probes': collections.Counter(),
           'digests': set(), 'trivial': 0, 'n': 0, 'checks': 0, 'events': 0,
           'sim_us': 0, 'real': 0.0, 'errors': [], 'samples': [],
           'known': {}}

    def bad(res):
        v = res.get('violation')
        return bool(v) and not is_known(open_, v)

    def note(i, res):
        agg['n'] += 1
        if res.get('error'):
            agg['errors'].append((i, res['error']))
        v = res.get('violation')
        if v:
            e = is_known(open_, v)
            if e:
                agg['known'][e['id']] = e
        agg['faults'].update(res.get('faults') or {})
        agg['probes'].update(res.get('probes') or {})
        agg['checks'] += res.get('checks') or 0
        agg['events'] += res.get('events') or 0
        agg['sim_us'] += res.get('sim_us') or 0
        agg['real'] += res.get('real_s') or 0
        if res.get('checks') and res.get('events', 0) >= 2:
            agg['digests'].add(res.get('digest'))
        else:
            agg['trivial'] += 1
        if i in (0, 1, 2):
            agg['samples'].append({'index': i, 'events': res.get('sample'),
                                   'faults': res.get('faults')})

    try:
        results = pool.run(reqs, stop=lambda r: bad(r) or bool(
            r.get('error')), deadline=t0 + cap, on_result=note)
        search_s = time.time() - t0
        # the same seeds again, elsewhere, under another hash seed
        again = sorted(results)[:16]
        redo = {}
        if not any(bad(results[i]) or results[i].get('error')
                   for i in results):
            redo = pool.run([reqs[i] for i in reversed(again)])
        mismatch = sum(
            1 for k, i in enumerate(reversed(again)) if k in redo
            and redo[k].get('digest') != results[i].get('digest'))
        hits = [i for i in sorted(results) if bad(results[i])]
        verdict = None
        if hits:
            verdict = report(pool, pid, seed, hits, results)
    finally:
        pool.close()
    agg['samples'].sort(key=lambda s: s['index'])
    wall = time.time() - t0
    evidence(pid, tier, seed, info, agg, wall, search_s, len(again),
             mismatch, 1 if verdict else 0, jobs)
    for e in open_:
        if e['id'] in agg['known']:
            print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
    if verdict:
        print('%s: %s' % (verdict['key'], verdict['detail'][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, verdict['path']))
        return 1
    if hits:
        print('a violation did not reproduce in a fresh process; '
              'the machinery is at fault')
        return 2
    if agg['errors']:
        print('harness error in episode %d:\n%s' % agg['errors'][0])
        return 2
    if not agg['n']:
        print('nothing was run')
        return 2
    print('%s %s: held on %d simulated runs (%d distinct), %d checks, '
          '%.1f s' % (pid, tier, agg['n'], len(agg['digests']),
                      agg['checks'], wall))
    return 0


def report(pool, pid, seed, hits, results):
    """minimise, confirm in a fresh process, write the replay file"""
    for i in hits[:3]:
        key = results[i]['violation']['key']
        plan = results[i].get('plan')
        if plan is None:      # the worker died with it
            got = fresh({'cmd': 'episode', 'property': pid, 'base': seed,
                         'index': i})
            plan = got.get('plan')
            if plan is None:
                plan = {'property': pid, 'episode': i, 'base': seed}
        small, runs = plan, 0
        if 'steps' in plan:
            small, runs = minimise(pool, plan, key,
                                   time.time() + MINIMISE_S)
        for cand in (small, plan):
            first = fresh(_req(pid, cand))
            v = first.get('violation')
            if v and v['key'] == key:
                break
        else:
            continue
        second = fresh(_req(pid, cand))
        path = os.path.join(VERIF, 'replays')
        os.makedirs(path, exist_ok=True)
        path = os.path.join(path, '%s-%d-%d.json' % (pid, seed, i))
        with open(path, 'w') as f:
            json.dump({
                'property': pid, 'seed': seed, 'episode': i,
                'violation': v, 'plan': cand,
                'minimised_from_steps': len(plan.get('steps', [])),
                'steps': len(cand.get('steps', [])),
                'minimisation_runs': runs,
                'trace': first.get('trace'),
                'digest': first.get('digest'),
                'replays_identically':
                    first.get('digest') == second.get('digest'),
            }, f, indent=1)
        return {'path': os.path.relpath(path, VERIF), 'key': v['key'],
                'detail': v['detail']}
    return None


def _req(pid, plan):
    if 'steps' not in plan:
        return {'cmd': 'episode', 'property': pid, 'base': plan['base'],
                'index': plan['episode'], 'trace': True}
    return {'cmd': 'plan', 'property': pid, 'plan': plan, 'trace': True}


def evidence(pid, tier, seed, info, agg, wall, search_s, redone, mismatch,
             violations, jobs):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    n = agg['n']
    doc = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': n,
            'distinct_nontrivial': len(agg['digests']),
            'rule': 'One case is one simulated run, drawn from VERIF_SEED '
                    'and its index: %s Distinct by the SHA-256 of its whole '
                    'event log (times, actors, operations, outcomes, hashes '
                    'of all bytes sent); non-trivial if at least two events '
                    'happened and at least one oracle check was made.'
                    % (info.get('RULE') or ''),
            'samples': agg['samples'][:2],
            'oracle_checks': agg['checks'],
            'events': agg['events'],
            'runs_per_hour': int(n / max(search_s, 1e-3) * 3600),
            'seeds_per_hour': int(n / max(search_s, 1e-3) * 3600),
            'simulated_seconds': round(agg['sim_us'] / 1e6, 3),
            'worker_seconds': round(agg['real'], 2),
            'workers': jobs,
            'faults_injected': dict(sorted(agg['faults'].items())),
            'probes_reached': dict(sorted(agg['probes'].items())),
            'trivial_runs': agg['trivial'],
            'rerun_for_determinism': redone,
            'rerun_mismatches': mismatch,
            'real_components': info.get('REAL') or
            'the whole golem_messages package from /repo, one instance per '
            'simulated process; cbor, coincurve (secp256k1), eth_utils, '
            'eth_account, rlp, semantic_version, Crypto',
            'stub_components': info.get('STUBS') or
            'pyelliptic (absent here; same interface over Crypto AES and '
            'coincurve), RELEASE-VERSION file, clock, time zone, entropy, '
            'PRNG seed, locks, network, disk',
        },
        'assumptions': info.get('ASSUMPTIONS') or [
            'the stub of pyelliptic behaves like pyelliptic',
            'third-party cryptography is correct',
        ],
        'wall_s': round(wall, 2),
        'violations': violations,
    }
    path = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(doc, f, indent=1)
    os.replace(path + '.tmp', path)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
