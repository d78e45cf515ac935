"""Settlements: acceptances, rejections and verdicts under the rules."""
import random

from .. import build as B
from .. import core
from .. import ref

EPISODES = 1000
RULE = ('requestors settle several conversations at a time: they decide by '
        'their clock, queue, have their clock jump, and send; attachments of '
        'one conversation turn up in another, reasons and notices are '
        'combined every way, and Concent joins parts of different '
        'assignments; each message is accepted or refused by a reference '
        'reading of the rules, whatever the receiver\'s clock shows.')

WINDOW = 900
REASONS = ['VerificationNegative', 'ConcentResourcesFailure',
           'ConcentVerificationNegative', 'ForcedResourcesFailure',
           'ResourcesFailure', None]
LEGIT = {True: {'VerificationNegative', 'ForcedResourcesFailure'},
         False: {'VerificationNegative', 'ResourcesFailure'}}
NOTICES = [None, None, 'same', 'same', 'other_subtask', 'other_task',
           'other_deal', 'same_ids', 'prefix', 'swapped']
PARTS = ['same', 'same', 'other_deal', 'price', 'resigned', 'ts', 'ctd',
         'flag', 'type_only', 'roles', 'note', 'unsigned']
AGES = [0, 0, 1, -1, 2, 60, 899, 900, 901, 899.5, 900.5, 900.001, -0.5,
        0.5, -60, 3600, 86400, 10 ** 6, -86400, 599, 601, 1799, 300, -300]


def plan(r, index):
    steps = []
    span = 30 * core.MINUTE
    for _ in range(r.choice([3, 5])):
        s = {'op': 'accept', 't': r.randrange(span), 'seed': core.rseed(r),
             'deal': r.randrange(2)}
        if r.random() < .4:
            # decides now, composes after a while on an unsteady clock
            s['wait'] = r.choice([0, r.randrange(3 * core.MINUTE),
                                  r.randrange(20 * core.MINUTE),
                                  900 * core.US, 901 * core.US,
                                  899 * core.US])
            if r.random() < .4:
                s['jump'] = r.choice([-1, 1]) * r.choice(
                    [core.US, 900 * core.US, r.randrange(20 * core.MINUTE)])
        elif r.random() < .9:
            s['age'] = r.choice(AGES)
        else:
            s['pay'] = r.choice([None, 'text', [], {}, '1580000000', False, 'nan',
                                 '-inf', 'inf', -1, 2 ** 63, 2 ** 70])
        steps.append(s)
    for k in range(r.choice([4, 6])):
        steps.append({'op': 'reject', 't': r.randrange(span),
                      'deal': r.randrange(2), 'seed': core.rseed(r),
                      'reason': REASONS[(index + k) % 6],
                      'notice': r.choice(NOTICES),
                      'concent': r.choice([True, True, False, False, None]),
                      'by': r.choice(['requestor', 'concent']),
                      'inside': r.random() < .2})
    for _ in range(r.choice([2, 3])):
        steps.append({'op': 'verdict', 't': r.randrange(span),
                      'seed': core.rseed(r), 'deal': r.randrange(2),
                      'parts': r.choice(PARTS), 'swap': r.random() < .5,
                      'kept': r.random() < .4})
    for s in steps:
        s.update(to=r.randrange(3), sig=r.choice(
            [None] * 6 + ['none', 'earlier', 'earlier']), enc=r.random() < .4,
                 real=r.random() < .6, net=core.rnet(r, lose=.02))
    steps += core.crashes(r, 3, span, r.choice([0, 0, 1]))
    return {'cfg': core.rcfg(r, .1), 'nodes': core.rnodes(
        r, 3, skew=r.choice([core.US, core.HOUR, 20 * 24 * core.HOUR]),
        versions=['2.15.0']), 'steps': core.ordered(steps)}


def ids(spec):
    """(task, subtask) a task message is about"""
    while spec.cls != 'TaskToCompute':
        spec = spec.fields['report_computed_task' if spec.cls in (
            'SubtaskResultsRejected', 'AckReportComputedTask',
            'ForceReportComputedTask') else 'task_to_compute']
    full = spec.fields['compute_task_def'].full()
    return full['task_id'], full['subtask_id']


def r_of(s):
    return random.Random(s['seed'] + 7)


def run(w, plan):
    deals = {}
    lawful = []         # (class, signature) of what has been accepted

    def get(i, r, node):
        """a conversation: keys, assignment, report"""
        if i not in deals:
            deal = B.Deal(r, w.nodes[0].key, w.nodes[1].key, w.nodes[2].key)
            g = B.Gen(r, now=node.now(), omit=.5)
            deals[i] = (deal, g._rct(deal))
        return deals[i]

    def again(deal, rct, r, change=None):
        """the same report with its assignment changed"""
        ttc = rct.fields['task_to_compute']
        new = B.Msg(ttc.cls, dict(ttc.fields), ttc.ts, signer=ttc.signer,
                    enc=ttc.enc)
        if change:
            change(new)
        f = dict(rct.fields, task_to_compute=new)
        return B.Msg(rct.cls, f, rct.ts, signer=rct.signer, enc=rct.enc)

    def post(s, frm, spec, key, want, why, then=None):
        """send it as a real node would, or as a peer of any make"""
        spec.ts = frm.now()
        spec.signer = key
        to = w.nodes[s['to']]
        data = None
        if s['sig']:
            # whether signatures are checked is up to the receiver; the
            # rules are not
            old = [x for x in lawful if x[0] == spec.cls] or lawful
            spec.forged_sig = ref.NO_SIG if s['sig'] == 'none' or not old \
                else r_of(s).choice(old)[1]
            w.fault('signature_' + s['sig'])
            data = ref.frame(spec.type_, spec.ts, False, spec.sig(),
                             spec.payload())
        elif s['real'] and frm.up:
            with frm.p:
                try:
                    obj = B.realize_msg(frm.p, B.Msg(spec.cls, spec.fields,
                                                     spec.ts))
                    data = frm.p.gm.dump(obj, key.priv,
                                         to.key.pub if s['enc'] else None)
                except Exception as e:  # pylint: disable=broad-except
                    if want:
                        raise core.Violation(
                            'a lawful %s could not be sent' % spec.cls,
                            core.describe(e))
        if data is None:
            payload = spec.payload()
            data = ref.frame(spec.type_, spec.ts, False, spec.sig(), payload)
        w.log('post', spec.cls, want, why, core.short(data))
        w.transmit(0, s['to'], data, s['net'], judge, spec, key, want, why,
                   then)

    def judge(node, data, _damaged, spec, key, want, why, then):
        msg, err = core.load(w, node, data, node.key.priv,
                             None if spec.forged_sig else key.pub)
        ctx = '%s: %s' % (why, core.describe(err) if err else 'accepted')
        if want is None:
            w.checks += 1
            return
        if want:
            w.check(msg is not None, 'a lawful %s is refused' % spec.cls, ctx)
            with node.p:
                core.same(w, B.canon(msg), B.want_msg(spec),
                          'an accepted %s differs' % spec.cls)
            w.probe('lawful ' + spec.cls)
            lawful.append((spec.cls, ref.Frame(data).sig))
            if then:
                then(node, msg)
        else:
            w.check(msg is None, 'an unlawful %s is accepted' % spec.cls, ctx)
            w.probe('unlawful ' + spec.cls)

    def accept(s):
        node = w.nodes[0]
        if not node.up:
            return
        r = random.Random(s['seed'])
        deal, rct = get(s['deal'], r, node)
        decided = node.now()

        def compose():
            if not node.up:
                return
            now = node.now()
            if 'age' in s:
                pay = now - s['age']
            elif 'pay' in s:
                pay = s['pay']
                if pay in ('nan', '-inf', 'inf'):
                    pay = float(pay)
            else:
                pay = decided
            spec = B.Msg('SubtaskResultsAccepted', {
                'payment_ts': pay, 'report_computed_task': rct}, now)
            ok = isinstance(pay, (int, float)) \
                and pay <= now and now <= pay + WINDOW
            post(s, node, spec, deal.requestor, ok,
                 'payment %r, made %d' % (pay, now))
        if s.get('wait'):
            if s.get('jump'):
                w.after(s['wait'] // 2, jump, node, s['jump'])
            w.after(s['wait'], compose)
        else:
            compose()

    def jump(node, us):
        node.jump(us)
        w.fault('clock_jump_back' if us < 0 else 'clock_jump_forward')

    def reject(s):
        node = w.nodes[0]
        if not node.up:
            return
        r = random.Random(s['seed'])
        deal, rct = get(s['deal'], r, node)

        def flag(m):
            m.fields.pop('concent_enabled', None)
            if s['concent'] is not None:
                m.fields['concent_enabled'] = s['concent']
        rct = again(deal, rct, r, flag)
        f = {'report_computed_task': rct}
        if s['reason']:
            f['reason'] = B.EnumV(
                ('SubtaskResultsRejected', 'REASON'), s['reason'],
                dict(B.SCHEMA['SubtaskResultsRejected'].enums['reason'])[
                    s['reason']])
        if s['notice']:
            f['force_get_task_result_failed'] = notice(s, r, deal, rct)
        spec = B.Msg('SubtaskResultsRejected', f)
        fg = f.get('force_get_task_result_failed')
        ok = s['reason'] is not None \
            and (fg is None or ids(fg) == ids(spec)) \
            and not (s['reason'] == 'ForcedResourcesFailure' and fg is None)
        legit = s['reason'] in LEGIT[bool(s['concent'])]

        def then(to, msg):
            with to.p:
                verr = to.p.mod('exceptions').ValidationError
                try:
                    got = msg.is_valid_for_requestor()
                except verr as e:
                    got = e
                except Exception as e:  # pylint: disable=broad-except
                    raise core.Violation(
                        'is_valid_for_requestor raised %s'
                        % type(e).__name__, core.describe(e))
            w.check((got is True) == legit,
                    'legitimacy of a rejection', lambda:
                    '%s, concent %s: %r' % (s['reason'], s['concent'], got))
            w.check(got is True or isinstance(got, verr),
                    'legitimacy is undecided', repr(got))
        why = '%s, notice %s' % (s['reason'], s['notice'])
        who = deal.requestor if s['by'] == 'requestor' else deal.concent
        if s['inside'] and ok:
            # inside another message it is no less lawful
            spec.ts = node.now()
            spec.signer = who
            outer = B.Msg('SubtaskResultsVerify',
                          {'subtask_results_rejected': spec})
            post(s, node, outer, deal.provider, True, why,
                 lambda to, m: then(to, m.subtask_results_rejected))
        else:
            post(s, node, spec, who, ok, why, then)

    def notice(s, r, deal, rct):
        ttc = rct.fields['task_to_compute']
        how = s['notice']
        if how == 'other_deal':
            deal2, rct2 = get(1 - s['deal'], r, w.nodes[0])
            ttc = rct2.fields['task_to_compute']
        elif how != 'same':
            d = dict(ttc.fields['compute_task_def'].given)
            if how == 'other_subtask':
                d['subtask_id'] = B.make_id(r, deal.requestor.hex)
            elif how == 'other_task':
                d['task_id'] = B.make_id(r, deal.requestor.hex)
            elif how == 'prefix':
                k = r.choice(['task_id', 'subtask_id'])
                c = d[k]
                i = r.randrange(8)
                d[k] = c[:i] + '%x' % (int(c[i], 16) ^ 1) + c[i + 1:]
            elif how == 'swapped':
                d['task_id'], d['subtask_id'] = d['subtask_id'], d['task_id']
            # same_ids: the very subtask in another issue of the assignment
            ttc = B.Msg(ttc.cls, dict(ttc.fields, compute_task_def=B.CtdV(d)),
                        ttc.ts - r.randrange(2), signer=ttc.signer)
            if how == 'same_ids':
                ttc.fields['price'] += r.randrange(3)
        w.fault('mixed_up_' + how if how != 'same' else 'attached')
        return B.Msg('ForceGetTaskResultFailed', {'task_to_compute': ttc},
                     w.nodes[0].now() - r.randrange(1000),
                     signer=deal.concent)

    def verdict(s):
        node = w.nodes[2]
        if not node.up:
            return
        r = random.Random(s['seed'])
        deal, rct = get(s['deal'], r, w.nodes[0])
        how = s['parts']
        other = again(deal, rct, r)
        ttc = other.fields['task_to_compute']
        ok = False
        if how in ('same', 'flag', 'type_only'):
            ok = True
            if how == 'flag':       # one copy had come encrypted
                ttc.enc = not ttc.enc
            elif how == 'type_only':
                # another report about the same assignment
                other.fields['size'] = 4711
                other.ts -= 1
        elif how == 'other_deal':
            other = get(1 - s['deal'], r, w.nodes[0])[1]
        elif how == 'price':
            ttc.fields['price'] += 1
        elif how == 'resigned':
            ttc.signer = ref.Key('somebody')
        elif how == 'unsigned':
            ttc.signer = None
        elif how == 'ts':
            ttc.ts += r.choice([1, -1])
        elif how == 'ctd':
            d = dict(ttc.fields['compute_task_def'].full())
            k = r.choice(['subtask_id', 'deadline', 'extra_data',
                          'task_id'])
            d[k] = {'deadline': d['deadline'] + 1,
                    'extra_data': dict(d['extra_data'], more=1)}.get(
                        k, B.make_id(r, deal.requestor.hex))
            ttc.fields['compute_task_def'] = B.CtdV(d)
        elif how == 'roles':
            ttc.fields['provider_id'] = ref.Key('somebody').hex
        elif how == 'note':
            ttc.fields['promissory_note_sig'] = B.NoteSig(
                27, bytes(31) + b'\1', bytes(31) + b'\2')
        if s.get('kept') and how in ('price', 'ts', 'ctd', 'roles', 'note'):
            # the parts look alike by their signatures
            ttc.forged_sig = rct.fields['task_to_compute'].sig()
        a, b = (other, rct) if s['swap'] else (rct, other)
        force = B.Msg('ForceReportComputedTask', {
            'report_computed_task': a}, node.now() - 5,
            signer=deal.provider)
        ack = B.Msg('AckReportComputedTask', {'report_computed_task': b},
                    node.now() - 3, signer=deal.concent)
        spec = B.Msg('VerdictReportComputedTask', {
            'force_report_computed_task': force,
            'ack_report_computed_task': ack})
        w.fault('parts_' + how)
        post(s, node, spec, deal.concent, ok, how)

    w.run({'accept': accept, 'reject': reject, 'verdict': verdict})
