"""Messages made by the factories the package ships, on running clocks."""
import importlib
import random
import uuid

from .. import build as B
from .. import core
from .. import ref
from .. import seams
from .c10 import carries

EPISODES = 350
RULE = ('integration partners make messages and whole chains of evidence with '
        'the factories the package ships, on clocks that tick with every '
        'reading and jump, in various time zones and years, with failing '
        'entropy in between, and send them to nodes that load them checking '
        'time, signatures and owners; what is fresh, what is due when and '
        'who is bound to what is decided by a reference.')

PLAIN = (
    'base.Hello p2p.WantToStartTaskSession p2p.SetTaskSession '
    'tasks.WantToComputeTask tasks.TaskToCompute tasks.CannotComputeTask '
    'tasks.TaskFailure tasks.ReportComputedTask tasks.AckReportComputedTask '
    'tasks.RejectReportComputedTask tasks.SubtaskResultsAccepted '
    'tasks.SubtaskResultsRejected concents.FileTransferToken '
    'concents.ForceReportComputedTask concents.SubtaskResultsVerify '
    'concents.AckSubtaskResultsVerify concents.SubtaskResultsSettled '
    'concents.ForceGetTaskResult concents.AckForceGetTaskResult '
    'concents.ForceGetTaskResultFailed concents.ForceGetTaskResultRejected '
    'concents.ForceGetTaskResultUpload concents.ForceGetTaskResultDownload '
    'concents.ForceSubtaskResultsResponse concents.ForceSubtaskResults '
    'concents.ForceSubtaskResultsRejected concents.ForcePaymentCommitted '
    'concents.ForceReportComputedTaskResponse '
    'concents.VerdictReportComputedTask concents.ClientAuthorization '
    'concents.ServiceRefused').split()

# factory, variant -> what is promised about the message
VARIANTS = {
    'tasks.TaskToCompute past_deadline': {},
    'tasks.TaskToCompute with_signed_nested_messages': {},
    'tasks.RejectReportComputedTask with_task_to_compute': {
        'reason': 'SubtaskTimeLimitExceeded',
        'attached_task_to_compute': True, 'task_failure': False,
        'cannot_compute_task': False},
    'tasks.RejectReportComputedTask with_task_failure': {
        'reason': 'GotMessageTaskFailure',
        'attached_task_to_compute': False, 'task_failure': True,
        'cannot_compute_task': False},
    'tasks.RejectReportComputedTask with_cannot_compute_task': {
        'reason': 'GotMessageCannotComputeTask',
        'attached_task_to_compute': False, 'task_failure': False,
        'cannot_compute_task': True},
    'concents.SubtaskResultsSettled origin_acceptance_timeout': {
        'origin': 'ResultsAcceptedTimeout'},
    'concents.SubtaskResultsSettled origin_results_rejected': {
        'origin': 'ResultsRejected'},
    'concents.ForceSubtaskResultsResponse with_accepted': {
        'subtask_results_accepted': True, 'subtask_results_rejected': False},
    'concents.ForceSubtaskResultsResponse with_rejected': {
        'subtask_results_accepted': False, 'subtask_results_rejected': True},
    'concents.ForceSubtaskResultsRejected premature': {
        'reason': 'RequestPremature'},
    'concents.ForceSubtaskResultsRejected too_late': {
        'reason': 'RequestTooLate'},
    'concents.ForcePayment with_accepted_tasks': {
        'subtask_results_accepted_list': True},
    'concents.ForcePaymentCommitted to_provider': {
        'recipient_type': 'Provider'},
    'concents.ForcePaymentCommitted to_requestor': {
        'recipient_type': 'Requestor'},
    'concents.ForceReportComputedTaskResponse with_ack_report_computed_task':
        {'reason': 'AckFromRequestor', 'ack_report_computed_task': True,
         'reject_report_computed_task': False},
    'concents.ForceReportComputedTaskResponse '
    'with_reject_report_computed_task':
        {'reason': 'RejectFromRequestor', 'ack_report_computed_task': False,
         'reject_report_computed_task': True},
}
ALL = PLAIN + list(VARIANTS)

# next message of a deal -> (slot, from what, signed by)
NEXT = {
    'tasks.CannotComputeTask': ('task_to_compute', 'TaskToCompute', 'p'),
    'tasks.TaskFailure': ('task_to_compute', 'TaskToCompute', 'p'),
    'tasks.ReportComputedTask': ('task_to_compute', 'TaskToCompute', 'p'),
    'tasks.AckReportComputedTask': (
        'report_computed_task', 'ReportComputedTask', 'r'),
    'tasks.RejectReportComputedTask': (
        'task_failure', 'TaskFailure', 'r'),
    'tasks.SubtaskResultsAccepted': (
        'report_computed_task', 'ReportComputedTask', 'r'),
    'tasks.SubtaskResultsRejected': (
        'report_computed_task', 'ReportComputedTask', 'r'),
    'concents.ForceReportComputedTask': (
        'report_computed_task', 'ReportComputedTask', 'p'),
    'concents.SubtaskResultsVerify': (
        'subtask_results_rejected', 'SubtaskResultsRejected', 'p'),
    'concents.AckSubtaskResultsVerify': (
        'subtask_results_verify', 'SubtaskResultsVerify', 'c'),
    'concents.SubtaskResultsSettled': (
        'task_to_compute', 'TaskToCompute', 'c'),
    'concents.ForceGetTaskResult': (
        'report_computed_task', 'ReportComputedTask', 'r'),
    'concents.AckForceGetTaskResult': (
        'force_get_task_result', 'ForceGetTaskResult', 'c'),
    'concents.ForceGetTaskResultFailed': (
        'task_to_compute', 'TaskToCompute', 'c'),
    'concents.ForceGetTaskResultRejected': (
        'force_get_task_result', 'ForceGetTaskResult', 'c'),
    'concents.ForceGetTaskResultUpload': (
        'force_get_task_result', 'ForceGetTaskResult', 'c'),
    'concents.ForceSubtaskResults': (
        'ack_report_computed_task', 'AckReportComputedTask', 'p'),
    'concents.ForceSubtaskResultsRejected': (
        'force_subtask_results', 'ForceSubtaskResults', 'c'),
    'concents.ServiceRefused': ('task_to_compute', 'TaskToCompute', 'c'),
}
DAY = 24 * 3600


def plan(r, index):
    n = 2
    nodes = core.rnodes(r, n, versions=['2.15.0', '2.15.3'])
    base = r.choice([0, 0, r.randrange(-5 * 365 * DAY, 30 * 365 * DAY)])
    for c in nodes:
        c['offset'] = base * core.US + c.get('offset', 0) % (20 * core.US)
        c['drift'] = 0
    steps = []
    span = 3 * core.MINUTE
    for k in range(r.choice([5, 8, 12])):
        what = ALL[(index * 5 + k) % len(ALL)] if k < 5 else r.choice(ALL)
        steps.append({'op': 'make', 't': r.randrange(span),
                      'n': r.randrange(n), 'what': what,
                      'seed': core.rseed(r), 'enc': r.random() < .3,
                      'sign': r.random() < .8,
                      'tick': r.choice([0, 1, 50_000, 400_000, 1_000_000]),
                      'given': r.random() < .3,
                      'net': core.rnet(r, lose=.02, delay=soon)})
    for _ in range(r.choice([1, 2, 3])):
        steps.append({'op': 'deal', 't': r.randrange(span),
                      'n': r.randrange(n), 'seed': core.rseed(r),
                      'tick': r.choice([0, 1, 10_000, 300_000]),
                      'length': r.choice([1, 3, 6]),
                      'opts': [o for o in ('task_id', 'subtask_id', 'eth',
                                           'ethpriv', 'price')
                               if r.random() < .25]
                      + (['foreign'] if r.random() < .1 else []),
                      'keys': r.choice(['rp', 'rp', 'rp', 'r', 'p'])})
    for _ in range(r.choice([1, 2])):
        steps.append({'op': 'header', 't': r.randrange(span),
                      'n': r.randrange(n), 'seed': core.rseed(r),
                      'tick': r.choice([0, 1, 50_000, 400_000])})
    if r.random() < .3:
        steps.append({'op': 'dry', 't': r.randrange(span),
                      'n': r.randrange(n), 'seed': core.rseed(r),
                      'at': r.choice([1, 2, 3])})
    if r.random() < .3:
        steps.append({'op': 'tz', 't': r.randrange(span), 'n': r.randrange(n),
                      'us': r.choice(core.ZONES) * core.US})
    if r.random() < .3:
        d = r.randrange(-DAY, DAY) * core.US
        t = r.randrange(span)
        for i in range(n):
            steps.append({'op': 'jump', 't': t, 'n': i, 'us': d})
    steps += core.crashes(r, n, span, r.choice([0, 0, 1]))
    return {'cfg': core.rcfg(r, era=False), 'nodes': nodes, 'steps': core.ordered(steps)}


def soon(r):
    return r.randrange(20 * core.US)


def given(r, what, enum_of):
    """arguments a caller may give, and what they must come out as"""
    name = what.split()[0]
    if name == 'tasks.TaskToCompute':
        v = r.randrange(1, 10 ** 12)
        return r.choice([({'price': v}, {'price': v}),
                         ({'size': v}, {'size': v}),
                         ({'package_hash': 'sha1:x'},
                          {'package_hash': 'sha1:x'})])
    if name == 'tasks.ReportComputedTask':
        return {'multihash': 'm', 'size': 5}, {'multihash': 'm', 'size': 5}
    if name == 'tasks.SubtaskResultsAccepted':
        return {}, {}
    if name == 'concents.ForcePaymentCommitted':
        return {'amount_paid': 7}, {'amount_paid': 7}
    if name == 'concents.FileTransferToken':
        v = r.choice(['upload', 'download'])
        return {v: True}, {'operation': v}
    if name == 'concents.ServiceRefused':
        return {'reason': enum_of('TooSmallProviderDeposit')}, {
            'reason': 'TooSmallProviderDeposit'}
    if what == 'tasks.RejectReportComputedTask with_task_failure':
        return {'reason': enum_of('SubtaskTimeLimitExceeded')}, {
            'reason': 'SubtaskTimeLimitExceeded'}
    if name == 'concents.ForceReportComputedTaskResponse' and ' ' in what:
        return {'reason': enum_of('ConcentAck')}, {'reason': 'ConcentAck'}
    if name == 'tasks.WantToComputeTask':
        return {'price': 11, 'num_subtasks': 3}, {'price': 11,
                                                  'num_subtasks': 3}
    return {}, {}


def run(w, plan):
    made = {}                 # what must never come twice -> by whom

    def factories(node):
        if 'f' not in node.memory:
            with node.p:
                core.honest(w, 'import of the factories',
                            importlib.import_module,
                            'golem_messages.factories')
            node.memory['f'] = True

    def factory(node, what):
        mod, name = what.split()[0].split('.')
        with node.p:
            m = importlib.import_module('golem_messages.factories.' + mod)
            f = getattr(m, name + 'Factory')
            return getattr(f, what.split()[1]) if ' ' in what else f

    class Ticking:
        """every look at the clock of the node takes a while"""

        def __init__(self, node, tick):
            self.node, self.tick = node, tick

        def __enter__(self):
            self.old = self.node.p.world_clock

            def clock():
                w.t += self.tick
                return w.t
            self.node.p.world_clock = clock
            self.since = self.node.now()
            self.node.p.__enter__()
            return self

        def __exit__(self, *exc):
            self.node.p.__exit__(*exc)
            self.node.p.world_clock = self.old
            self.until = self.node.now()

    def within(t, tk, ahead, what):
        w.check(isinstance(t, int) and tk.since + ahead <= t
                <= tk.until + ahead, 'a wrong time: %s' % what,
                lambda: '%r, wanted %d to %d' % (
                    t, tk.since + ahead, tk.until + ahead))

    def once(kind, value, node):
        w.check((kind, value) not in made, 'not fresh: %s' % kind,
                lambda: '%r by %s and %s' % (value, node.name,
                                             made[kind, value]))
        made[kind, value] = node.name

    def make(s):
        node, to = w.nodes[s['n']], w.nodes[1 - s['n']]
        if not node.up:
            return
        factories(node)
        r = random.Random(s['seed'])
        what = s['what']
        f = factory(node, what)
        name = what.split()[0].split('.')[1]
        kw, want = {}, dict(VARIANTS.get(what, {}))
        with Ticking(node, s['tick']) as tk:
            if s['given']:
                def enum_of(v):
                    model = (f if ' ' not in what else f.__self__)._meta.model
                    return model.REASON[v]
                kw, more = given(r, what, enum_of)
                want.update(more)
            if s['sign']:
                kw['sign__privkey'] = node.key.priv
            msg = core.honest(w, 'making of %s' % what, f, **kw)
        w.check(type(msg).__name__ == name, 'another type was made',
                lambda: '%s for %s' % (type(msg).__name__, what))
        with node.p:
            for k, v in want.items():
                x = getattr(msg, k)
                ok = (x is not None) == v if isinstance(v, bool) else \
                    getattr(x, 'name', None) == v if isinstance(v, str) and \
                    hasattr(x, 'name') else x == v
                w.check(ok, 'not as asked for: %s of %s' % (k, name),
                        lambda: '%r, wanted %r' % (x, v))
            within(msg.timestamp, tk, 0, 'timestamp')
            if s['sign']:
                w.check(ref.verify(node.key.pub, msg.sig, msg.get_short_hash(
                    )), 'not signed by the key that was given', name)
                core.honest(w, 'verification', msg.verify_signature,
                            node.key.pub)
            else:
                w.check(msg.sig is None, 'signed unasked', name)
            details(node, msg, what, tk)
            data = core.honest(w, 'dump', node.p.gm.dump, msg,
                               None if s['sign'] else node.key.priv,
                               to.key.pub if s['enc'] else None)
            form = B.canon(msg)
        w.log('make', node.name, what, core.short(data))
        w.transmit(s['n'], 1 - s['n'], data, s['net'], receive,
                   node, what, form)

    def receive(to, data, _damaged, node, what, form):
        with to.p:
            msg = core.load_ok(w, to, data, to.key.priv, node.key.pub,
                               abs(to.now() - form[3]) < 120,
                               'a message made by %s' % what)
            core.same(w, B.canon(msg), form,
                      'a made message differs when received', what)
        w.log('receive', to.name, what)

    def details(node, msg, what, tk):
        """what is due when, and who is bound to what"""
        name = what.split()[0]
        if name == 'tasks.TaskToCompute':
            assignment(node, msg, what, tk)
        elif name == 'tasks.WantToComputeTask':
            header(node, msg.task_header, tk)
            once('key', msg.provider_public_key, node)
        elif name == 'tasks.SubtaskResultsAccepted':
            within(msg.payment_ts, tk, 0, 'payment')
            assignment(node, msg.task_to_compute, '', tk)
        elif name == 'concents.ForcePaymentCommitted':
            within(msg.payment_ts, tk, 0, 'payment')
            once('key', msg.task_owner_key, node)
        elif name == 'concents.AckSubtaskResultsVerify':
            got = [x['category'].name
                   for x in msg.file_transfer_token.files]
            w.check(got == ['resources', 'results'], 'other files', got)
        elif name == 'concents.FileTransferToken':
            w.check(len(msg.files) >= 1 and all(
                not x['path'].startswith('/') for x in msg.files),
                'a path is absolute', lambda: repr(msg.files))
        elif name == 'concents.ForceGetTaskResultUpload':
            w.check(msg.file_transfer_token.operation.name == 'upload',
                    'a token for the other way')
        elif name == 'concents.ForceGetTaskResultDownload':
            w.check(msg.file_transfer_token.operation.name == 'download',
                    'a token for the other way')
        elif name == 'concents.VerdictReportComputedTask':
            a = msg.ack_report_computed_task.report_computed_task
            b = msg.force_report_computed_task.report_computed_task
            w.check(a == b and a is not b, 'two reports in one verdict')

    def assignment(node, ttc, what, tk, known=False):
        ctd = ttc.compute_task_def
        rid = ttc.requestor_id
        w.check(rid == ttc.requestor_public_key and ttc.provider_id
                == ttc.want_to_compute_task.provider_public_key,
                'an assignment between others')
        w.check(all(carries(ctd[k], rid) for k in ('task_id', 'subtask_id')),
                'ids not of the requestor', lambda: repr(ctd))
        w.check(ctd['task_id'] != ctd['subtask_id'], 'two ids are one')
        for k in ('task_id', 'subtask_id'):
            w.check(str(uuid.UUID(ctd[k])) == ctd[k], 'not an id',
                    lambda: repr(ctd))
        once('subtask', ctd['subtask_id'], node)
        ok = core.honest(w, 'verify_ethsig', ttc.verify_ethsig)
        w.check(ok is True, 'the proof does not hold')
        w.check(ref.verify(bytes.fromhex(ttc.requestor_ethereum_public_key),
                           ttc.ethsig,
                           ttc.want_to_compute_task.get_short_hash()),
                'the proof is over something else')
        within(ctd['deadline'], tk,
               -DAY if what.endswith('past_deadline') else DAY, 'deadline')
        header(node, ttc.want_to_compute_task.task_header, tk, known)

    def header(node, th, tk, known=False):
        within(th.timestamp, tk, 0, 'header')
        within(th.deadline, tk, 3600, 'deadline of a header')
        w.check(carries(th.task_id, th.task_owner.key),
                'a header with an id of somebody else', th.task_id)
        once('task', th.task_id, node)
        if not known:
            once('owner', th.task_owner.key, node)

    def deal(s):
        """a chain of evidence, made by one, examined by the other"""
        node, to = w.nodes[s['n']], w.nodes[1 - s['n']]
        if not (node.up and to.up):
            return
        factories(node)
        r = random.Random(s['seed'])
        keys = {k: ref.Key('%s%d' % (k, s['seed'] % 1000)) for k in 'rpc'}
        have = {}
        with node.p:
            ecc = node.p.mod('cryptography').ECCx
            pair = {k: ecc(keys[k].priv) for k in 'rp'}
        f = factory(node, 'tasks.TaskToCompute with_signed_nested_messages')
        kw = {}
        if 'r' in s['keys']:
            kw['requestor_keys'] = pair['r']
        if 'p' in s['keys']:
            kw['provider_keys'] = pair['p']
        asked = {}
        hexid = keys['r'].hex if 'r' in s['keys'] else None
        for o in ('task_id', 'subtask_id'):
            if o in s['opts'] and hexid:
                kw[o] = asked[o] = B.make_id(r, hexid)
        eth = None
        if 'eth' in s['opts']:
            eth = ref.Key('eth%d' % (s['seed'] % 1000))
            with node.p:
                kw['ethsig__keys'] = ecc(eth.priv)
        elif 'ethpriv' in s['opts']:
            eth = ref.Key('eth%d' % (s['seed'] % 1000))
            kw['ethsig__privkey'] = eth.priv
            kw['requestor_ethereum_public_key'] = eth.hex
        if 'price' in s['opts']:
            kw['price'] = asked['price'] = r.randrange(1, 10 ** 9)
            kw['want_to_compute_task__price'] = asked['offer'] = \
                r.randrange(1, 10 ** 9)
        foreign = 'foreign' in s['opts'] and s['keys'] == 'rp'
        if foreign:
            kw['sign__privkey'] = keys['c'].priv
        with Ticking(node, s['tick']) as tk:
            ttc = core.honest(w, 'making of an assignment', f, **kw)
        with node.p:
            assignment(node, ttc, '', tk, 'r' in s['keys'])
            wtct = ttc.want_to_compute_task
            got = dict(ttc.compute_task_def, price=ttc.price,
                       offer=wtct.price)
            for k, v in asked.items():
                w.check(got[k] == v, 'not as asked for: %s' % k,
                        lambda: '%r, wanted %r' % (got[k], v))
            if eth is not None:
                w.check(ttc.requestor_ethereum_public_key == eth.hex,
                        'another Ethereum key')
            if 'r' in kw or 'requestor_keys' in kw:
                w.check(ttc.requestor_public_key == keys['r'].hex
                        and wtct.task_header.task_owner.key == keys['r'].hex,
                        'an assignment of somebody else')
                core.honest(w, 'verification', ttc.verify_signature,
                            keys['c' if foreign else 'r'].pub)
                core.honest(w, 'verification of the header',
                            wtct.task_header.verify, keys['r'].pub)
                w.check('task_id' in asked or ttc.compute_task_def['task_id']
                        == wtct.task_header.task_id, 'another task')
            if 'provider_keys' in kw:
                w.check(wtct.provider_public_key == keys['p'].hex,
                        'an offer of somebody else')
                core.honest(w, 'verification of the offer',
                            wtct.verify_signature, keys['p'].pub)
        if s['keys'] != 'rp' or foreign:
            w.log('deal', node.name, s['keys'])
            return
        have['TaskToCompute'] = ttc
        examine(node, to, ttc, keys, 'r', 'TaskToCompute')
        for _ in range(s['length']):
            can = sorted(k for k, v in NEXT.items() if v[1] in have
                         and k.split('.')[1] not in have)
            if not can:
                break
            # rather deep than wide
            what = r.choice(can[-6:] if r.random() < .5 else can)
            slot, frm, who = NEXT[what]
            f = factory(node, what)
            with Ticking(node, s['tick']):
                msg = core.honest(w, 'making of %s' % what, f, **{
                    slot: have[frm], 'sign__privkey': keys[who].priv})
            name = what.split('.')[1]
            have[name] = msg
            examine(node, to, msg, keys, who, name)
        w.log('deal', node.name, sorted(have))

    def examine(node, to, msg, keys, who, name):
        with node.p:
            form = B.canon(msg)
            data = core.honest(w, 'dump', node.p.gm.dump, msg,
                               None if msg.sig else keys[who].priv, None)
        with to.p:
            got = core.load_ok(w, to, data, None, keys[who].pub, True,
                               'a made link')
            core.same(w, B.canon(got), form,
                      'a made message differs when received', name)
            if name in OWNED:
                ok = core.honest(
                    w, 'verify_owners of %s' % name, got.verify_owners,
                    requestor_public_key=keys['r'].pub,
                    provider_public_key=keys['p'].pub,
                    concent_public_key=keys['c'].pub)
                w.check(ok is True, 'owners of a made link', name)
            ids = {got.task_id, have_task(got)}
            w.check(len(ids) == 1, 'ids differ', ids)

    def have_task(m):
        return m.task_to_compute.compute_task_def['task_id'] \
            if hasattr(m, 'task_to_compute') and m.task_to_compute \
            else m.task_id

    def lone_header(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        factories(node)
        with Ticking(node, s['tick']) as tk:
            m = importlib.import_module(
                'golem_messages.factories.datastructures.tasks')
            th = core.honest(
                w, 'making of a header', m.TaskHeaderFactory,
                requestor_public_key=node.key.hex,
                sign__privkey=node.key.priv)
            header(node, th, tkx(tk, node), True)
            core.honest(w, 'verification of a header', th.verify,
                        node.key.pub)
            w.check(th.task_owner.key == node.key.hex, 'another owner')
        w.log('header', node.name, th.task_id)

    def tkx(tk, node):
        tk.until = node.now()
        return tk

    def dry(s):
        """no entropy for a while"""
        node = w.nodes[s['n']]
        if not node.up:
            return
        factories(node)
        f = factory(node, 'tasks.TaskToCompute')
        seams.SEAM.entropy.fail_at = s['at']
        with node.p:
            try:
                f()
                done = True
            except OSError:
                done = False
            finally:
                failed = seams.SEAM.entropy.failed
                seams.reseed(s['seed'] + 1)
            w.check(done == (not failed), 'made without entropy')
            if failed:
                w.fault('entropy_failed')
            msg = core.honest(w, 'making after a failure', f)
            core.honest(w, 'verify_ethsig', msg.verify_ethsig)
            once('subtask', msg.compute_task_def['subtask_id'], node)
        w.log('dry', node.name, done)

    w.run({'make': make, 'deal': deal, 'header': lone_header, 'dry': dry})


OWNED = {k.split('.')[1] for k in NEXT} | {'TaskToCompute'}
