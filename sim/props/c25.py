"""Deposits and waiting times, asked for by every party to a deal."""
import datetime
import random

from .. import build as B
from .. import core
from .. import ref
from ..core import US

EPISODES = 900
RULE = ('the requestor, the provider and the Concent of the same deals, in '
        'different time zones, with and without daylight saving, with skewed '
        'and jumping clocks, ask for deposits and times over the reports they '
        'made, received alone or inside other messages, or read back after '
        'restarts; every answer is the published formula in integers.')

INSIDE = ['ReportComputedTask', 'ReportComputedTask', 'AckReportComputedTask',
          'ForceReportComputedTask', 'SubtaskResultsAccepted',
          'SubtaskResultsRejected', 'ForceGetTaskResult',
          'ForceReportComputedTaskResponse', 'SubtaskResultsVerify']
DAY = 86400
# what the protocol fixes, in seconds
TIMES = {'MMTT': 5, 'MTD': 10, 'MAT': 135, 'MAX_CONCENT_PING_INTERVAL': 60,
         'CMT': 240, 'FAT': 960, 'AVCT': 1680, 'PDT': 43200,
         'DOWNLOAD_LEADIN_TIME': 60}
LEADIN, CMT, RATE = 60, 240, 48


def rsize(r):
    unit = RATE << 10
    return r.choice([
        0, 1, 2, unit - 1, unit, unit + 1, r.randrange(1 << 20),
        r.getrandbits(r.choice([20, 30, 40, 50])),
        unit * r.randrange(1, 10 ** 6) + r.choice([-1, 0, 1]),
        unit * r.randrange(10 ** 10, 10 ** 12) + r.choice([-1, 0, 1]),
        2 ** 53 + r.randrange(3), 2 ** 54 + 1, 2 ** 56 + r.getrandbits(40)])


def rprice(r):
    return r.choice([0, 1, 2, 3, 10 ** 18, 10 ** 18 + 1, r.getrandbits(40),
                     2 ** 53 + 1, 2 ** 63 - 1, 2 ** 64 - 1, r.getrandbits(90),
                     r.getrandbits(256), 2 ** 256 - 1])


def rdeadline(r):
    """seconds after the assignment"""
    base = r.choice([0, 1, 2, 3, 59, 600, 1800, 3600, DAY - 1, 7 * DAY,
                     91 * DAY, 182 * DAY, 183 * DAY, 365 * DAY,
                     r.randrange(3 * DAY), r.randrange(400 * DAY), -1,
                     -r.randrange(DAY)])
    if r.random() < 0.25:
        base += r.choice([.5, .25, .125, .0625, .015625])
    return base


def plan(r, index):
    steps = []
    horizon = r.choice([core.HOUR, core.HOUR, 30 * 24 * core.HOUR,
                        400 * 24 * core.HOUR])
    deals = r.choice([1, 1, 2])
    ids = r.choice([2, 3, 4])
    for k in range(ids):
        steps.append({'op': 'make', 't': r.randrange(horizon // 3), 'id': k,
                      'deal': r.randrange(deals), 'seed': core.rseed(r),
                      'cls': r.choice(INSIDE), 'size': rsize(r),
                      'price': rprice(r), 'deadline': rdeadline(r),
                      'again': r.random() < 0.4,
                      'net': {str(n): core.rnet(r, lose=.05)
                              for n in (0, 1, 2)}})
    for _ in range(r.choice([8, 12, 20])):
        op = r.choice(['ask', 'ask', 'ask', 'ask', 'deposit', 'download',
                       'wait', 'edit'])
        s = {'op': op, 't': r.randrange(horizon), 'n': r.randrange(3),
             'id': r.randrange(ids)}
        if op == 'deposit':
            s['price'] = rprice(r)
        elif op == 'download':
            s['size'] = rsize(r)
            s['rate'] = r.choice([None, 1, 2, 47, 48, 49, 1000, 1024,
                                  r.randrange(1, 10 ** 6),
                                  r.getrandbits(60) + 1])
            if s['rate'] in (1, 2):
                s['size'] %= 2 ** 56
        elif op == 'edit':
            s['size'] = rsize(r)
        elif op == 'wait':
            s['cls'] = r.choice(B.ALL + ['ForceReportComputedTask'] * 9)
        steps.append(s)
    steps += core.crashes(r, 3, horizon, r.choice([0, 1, 2, 3]))
    for _ in range(r.choice([0, 1, 2, 4])):
        s = {'op': r.choice(['jump', 'tz', 'tz']), 't': r.randrange(horizon),
             'n': r.randrange(3)}
        if s['op'] == 'jump':
            s['us'] = r.choice([-1, 1]) * r.randrange(400 * 24 * core.HOUR)
        else:
            s['us'] = r.choice(core.ZONES) * US
            s['dst'] = rdst(r)
        steps.append(s)
    nodes = core.rnodes(r, 3, skew=r.choice([US, 10 * core.MINUTE,
                                             100 * 24 * core.HOUR]),
                        versions=['2.15.0'])
    for c in nodes:
        c['dst'] = rdst(r)
    return {'cfg': core.rcfg(r), 'nodes': nodes, 'steps': core.ordered(steps)}


def rdst(r):
    """clocks an hour ahead, half of every period"""
    if r.random() < 0.35:
        return None
    period = r.choice([31556952 * US, 31556952 * US, 31556952 * US,
                       2 * DAY * US, 2 * core.HOUR])
    return [period, r.randrange(period)]


def in_us(x):
    return (x.days * DAY + x.seconds) * US + x.microseconds


def run(w, plan):
    keys = [n.key for n in w.nodes]
    deals = {}
    specs = {}               # id -> (outer specification, report, signer)

    def deal_of(k):
        if k not in deals:
            r = random.Random('%d:%d' % (plan['seed'], k))
            deals[k] = B.Deal(r, keys[0], keys[1], keys[2])
        return deals[k]

    def do_make(s):
        r = random.Random(s['seed'])
        deal = deal_of(s['deal'])
        now = w.nodes[0].now()
        g = B.Gen(r, now=now, omit=.6)
        if not (s['again'] and deal.ttc is not None):
            deal.ttc = deal.rct = None
            ttc = g._ttc(deal)
            if r.random() < 0.5:
                ttc.ts = now
            ttc.fields['price'] = s['price']
            for k in ('promissory_note_sig', 'concent_promissory_note_sig'):
                ttc.fields.pop(k, None)
            ttc.fields['compute_task_def'].given['deadline'] = max(
                0, ttc.ts + s['deadline'])
        else:
            # another report on the same assignment
            w.probe('another report')
        rct = g._rct(deal, True)
        rct.fields['size'] = s['size']
        spec = rct if s['cls'] == 'ReportComputedTask' \
            else g.message(s['cls'], deal, now)
        if spec is not rct:
            spec.signer = deal.key(spec.schema.owners[0]) \
                if spec.schema.owners else deal.concent
        if s['cls'] == 'ForceReportComputedTaskResponse' \
                and 'ack_report_computed_task' not in spec.fields:
            spec = rct
        spec.enc = False
        data = ref.frame(spec.type_, spec.ts, spec.enc, spec.sig(),
                         spec.payload())
        specs[s['id']] = (spec, rct, data)
        w.log('make', s['id'], spec.cls, s['size'], core.short(data))
        author = 0 if spec.signer is keys[0] else \
            1 if spec.signer is keys[1] else 2
        for n, node in enumerate(w.nodes):
            if n != author:
                w.transmit(author, n, data, s['net'][str(n)], arrive, s['id'])
            elif node.up:
                # the author's own, never sent through anything
                with node.p:
                    obj = core.honest(w, 'construction of ' + spec.cls,
                                      B.realize_msg, node.p, spec, True)
                node.memory[s['id']] = obj
                node.disk[s['id']] = data

    def arrive(node, data, _damaged, k):
        node.disk[k] = data
        node.memory[k] = load(node, k)

    def load(node, k):
        spec = specs[k][0]
        return core.load_ok(w, node, node.disk[k], node.key.priv,
                            spec.signer.pub, False, spec.cls)

    def held(node, k):
        """the report, out of what this party has of it"""
        if not node.up or k not in node.disk:
            return None
        if k not in node.memory:
            node.memory[k] = load(node, k)
            w.probe('read back')
        spec, rct, _ = specs[k]
        for o, m in real_links(node, node.memory[k], spec):
            if m is rct:
                return o
        raise core.HarnessError('no report in %s' % spec.cls)

    def real_links(node, obj, spec):
        from .. import chain
        with node.p:
            return list(chain.real_links(node.p, obj, spec))

    def download_s(size, rate=RATE):
        return LEADIN + (size + (rate << 10) - 1) // (rate << 10)

    def is_time(x, us, what, ctx, half=0):
        """half: the exact value is half a microsecond more"""
        w.check(isinstance(x, datetime.timedelta), 'not a time: ' + what,
                lambda: repr(x))
        got = in_us(x)
        w.check(got == us or half and got == us + 1, 'a wrong ' + what,
                lambda: '%d us, should be %d: %s' % (got, us, ctx()))

    def do_ask(s):
        node = w.nodes[s['n']]
        rct = held(node, s['id'])
        if rct is None:
            return
        spec = specs[s['id']][1]
        ttc = spec.fields['task_to_compute']
        ctd = ttc.fields['compute_task_def'].full()
        size = s.get('edited', spec.fields['size'])
        with node.p:
            before = B.canon(rct)
            got = core.honest(
                w, 'subtask_verification_time',
                node.p.mod('helpers').subtask_verification_time, rct)
            core.same(w, B.canon(rct), before, 'asking changed the report')
        left = int(ctd['deadline'] * US) - ttc.ts * US
        want = 4 * CMT * US + 3 * download_s(size) * US + left // 2
        is_time(got, want, 'verification time', lambda: (
            'size %d, assigned %d, deadline %r, by %s in zone %d%s at %d' % (
                size, ttc.ts, ctd['deadline'], node.name,
                node.cfg.get('tz', 0) // US,
                ' with daylight saving' if node.cfg.get('dst') else '',
                node.now())), left % 2)
        w.probe('verification time')
        if node.cfg.get('dst'):
            w.probe('with daylight saving')
        w.log('ask', node.name, s['id'], in_us(got))

    def do_edit(s):
        """a report that has not been sent yet may still be filled in"""
        node = w.nodes[s['n']]
        rct = held(node, s['id'])
        if rct is None:
            return
        old = specs[s['id']][1].fields['size']
        do_ask(s)
        rct.size = s['size']
        do_ask(dict(s, edited=s['size']))
        rct.size = old
        do_ask(s)
        w.probe('edited')

    def do_download(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        kw = {'size': s['size']}
        if s['rate'] is not None:
            kw['rate'] = s['rate']
        with node.p:
            got = core.honest(w, 'maximum_download_time',
                              node.p.mod('helpers').maximum_download_time,
                              **kw)
        is_time(got, download_s(s['size'], s['rate'] or RATE) * US,
                'download time', lambda: kw)
        w.log('download', node.name, kw, in_us(got))

    def do_deposit(s):
        node = w.nodes[s['n']]
        if not node.up:
            return
        price = s['price']
        prices = [price]
        rct = held(node, s['id']) if s['id'] in specs else None
        if rct is not None:
            # the price everybody has in hand
            prices.append(rct.task_to_compute.price)
            w.check(prices[1] == specs[s['id']][1].fields[
                'task_to_compute'].fields['price'], 'another price')
        with node.p:
            h = node.p.mod('helpers')
            for p in prices:
                for who, fn, want in (
                        ('requestor', h.requestor_deposit_amount,
                         (2 * p, 4 * p)),
                        ('provider', h.provider_deposit_amount, (p, 4 * p))):
                    got = core.honest(w, 'deposit of a ' + who, fn, p)
                    w.check(isinstance(got, tuple) and got == want and all(
                        type(x) is int for x in got),
                        'a wrong deposit of a ' + who,
                        lambda: '%r for %d' % (got, p))
        w.log('deposit', node.name, price)

    def do_wait(s):
        """the fixed times, however often they have been looked at"""
        node = w.nodes[s['n']]
        if not node.up:
            return
        with node.p:
            c = node.p.mod('constants')
            for name, secs in TIMES.items():
                is_time(getattr(c, name), secs * US, name, lambda: '')
            w.check(c.DEFAULT_UPLOAD_RATE == RATE, 'another rate')
            got = core.honest(w, 'delay of a message', lambda: c.MSG_DELAYS[
                B.msg_class(node.p, s['cls'])])
            is_time(got, 145 * US if s['cls'] == 'ForceReportComputedTask'
                    else 0, 'delay of a message', lambda: s['cls'])
        w.log('wait', node.name, s['cls'])

    w.run({'make': do_make, 'ask': do_ask, 'deposit': do_deposit,
           'download': do_download, 'wait': do_wait, 'edit': do_edit})
