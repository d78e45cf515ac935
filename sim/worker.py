"""One simulation worker: runs episodes it is told to, one JSON line each."""
import importlib
import json
import os
import random
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import seams  # noqa: E402
from sim import proc  # noqa: E402

HANG_S = 60      # of processor time: a busy machine is no hang
STUCK_S = 140    # of real time


def prop_module(pid):
    return importlib.import_module('sim.props.' + pid.lower())


def make_plan(mod, pid, base, index):
    """index -> plan; a pure function"""
    r = random.Random('%s:%d:%d' % (pid, base, index))
    plan = mod.plan(r, index)
    plan['property'] = pid
    plan.setdefault('seed', r.getrandbits(48))
    plan['origin'] = {'base_seed': base, 'index': index}
    # what is run is what a replay file would hold
    return json.loads(json.dumps(plan))


def run_plan(mod, plan, trace=False):
    """-> result dict"""
    from sim import core

    def on_alarm(_sig, _frm):
        raise core.Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.signal(signal.SIGPROF, on_alarm)
    t0 = seams.real_monotonic()
    out = {'violation': None, 'error': None}
    world = None
    signal.setitimer(signal.ITIMER_PROF, HANG_S)
    signal.setitimer(signal.ITIMER_REAL, STUCK_S)
    try:
        world = core.World.__new__(core.World)
        core.World.__init__(world, plan)
        if trace:
            world.trace = []
        mod.run(world, plan)
    except core.Violation as v:
        out['violation'] = {'key': v.key, 'detail': v.detail}
    except core.Hang:
        out['violation'] = {'key': 'hang', 'detail':
                            'no end after %d s of work' % HANG_S}
    except core.HarnessError:
        out['error'] = traceback.format_exc()[-3000:]
    except Exception as e:  # pylint: disable=broad-except
        # the workload uses the library as its users do and does not fail on
        # the tree it was written for
        text = traceback.format_exc()
        if world is not None and not getattr(world, 'nodes', None) \
                and 'golem_messages' in text:
            key = 'the package does not start: %s' % type(e).__name__
        else:
            tb = e.__traceback__
            while tb.tb_next is not None:
                tb = tb.tb_next
            key = 'users of the library fail: %s in %s' % (
                type(e).__name__, tb.tb_frame.f_code.co_name)
        out['violation'] = {'key': key, 'detail': text[-1500:]}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        _reset()
    if world is not None and hasattr(world, 'faults'):
        if out['violation']:
            world.log('VIOLATION', out['violation']['key'])
        out.update(digest=world.digest(), faults=dict(world.faults),
                   probes=dict(world.probes), checks=world.checks,
                   events=world.events, sim_us=world.t, sample=world.sample)
        if trace:
            out['trace'] = world.trace
    out['real_s'] = seams.real_monotonic() - t0
    return out


def _reset():
    """nothing of an episode reaches the next one"""
    sys.settrace(None)
    seams.SEAM.scheduler = None
    seams.SEAM.on_sleep = None
    cur = proc._current
    if cur is not None:
        cur._leave()
        proc._current = None
    for k in proc._pkg_names():
        sys.modules.pop(k)


def main():
    proc.setup()
    sys.setrecursionlimit(1000)
    base = None
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)               # nothing else may write to the protocol
    for line in sys.stdin:
        req = json.loads(line)
        if req['cmd'] == 'quit':
            break
        mod = prop_module(req['property'])
        base = req.get('base', 0)
        if req['cmd'] == 'episode':
            try:
                plan = make_plan(mod, req['property'], base, req['index'])
            except Exception:  # pylint: disable=broad-except
                res = {'error': traceback.format_exc()[-3000:],
                       'violation': None}
            else:
                res = run_plan(mod, plan, req.get('trace', False))
                if res['violation']:
                    res['plan'] = plan
            res['index'] = req['index']
        elif req['cmd'] == 'plan':
            res = run_plan(mod, req['plan'], req.get('trace', False))
            res['id'] = req.get('id')
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
