"""Real evidence chains, composed by real nodes out of what they hold.

Each party keeps an inventory of real message objects (own and received),
beside each the specification of what it must be.  A new message embeds real
objects from the inventory of the party that makes it.
"""
from . import build as B
from . import core
from . import ref

ROLES = ('requestor', 'provider', 'concent')

# who composes what, in an order in which it could happen
FLOW = [
    ('provider', 'WantToComputeTask'), ('requestor', 'TaskToCompute'),
    ('provider', 'ReportComputedTask'), ('provider', 'TaskFailure'),
    ('provider', 'CannotComputeTask'),
    ('requestor', 'AckReportComputedTask'),
    ('requestor', 'RejectReportComputedTask'),
    ('provider', 'ForceReportComputedTask'),
    ('concent', 'ForceReportComputedTask'),
    ('concent', 'AckReportComputedTask'),
    ('concent', 'RejectReportComputedTask'),
    ('concent', 'VerdictReportComputedTask'),
    ('concent', 'ForceReportComputedTaskResponse'),
    ('requestor', 'ForceGetTaskResult'),
    ('concent', 'FileTransferToken'),
    ('concent', 'AckForceGetTaskResult'),
    ('concent', 'ForceGetTaskResultUpload'),
    ('concent', 'ForceGetTaskResultDownload'),
    ('concent', 'ForceGetTaskResultRejected'),
    ('concent', 'ForceGetTaskResultFailed'),
    ('requestor', 'SubtaskResultsAccepted'),
    ('requestor', 'SubtaskResultsRejected'),
    ('provider', 'ForceSubtaskResults'), ('concent', 'ForceSubtaskResults'),
    ('concent', 'SubtaskResultsRejected'),
    ('concent', 'ForceSubtaskResultsResponse'),
    ('concent', 'ForceSubtaskResultsRejected'),
    ('provider', 'SubtaskResultsVerify'),
    ('concent', 'AckSubtaskResultsVerify'),
    ('concent', 'SubtaskResultsSettled'), ('concent', 'ServiceRefused'),
    ('provider', 'ForcePayment'), ('concent', 'ForcePaymentRejected'),
]


class Missing(Exception):
    """the party has not got what it would embed"""


class Held:
    """one message in somebody's inventory"""

    def __init__(self, obj, spec, data, signer):
        self.obj, self.spec, self.data, self.signer = obj, spec, data, signer


class ChainGen(B.Gen):
    """Plain fields at random, nested messages from an inventory."""

    def __init__(self, rnd, now, omit, inventory):
        super().__init__(rnd, now=now, omit=omit)
        self.inventory = inventory          # [Held] of this deal

    def nested(self, cls, deal):
        have = [h for h in self.inventory if h.spec.cls == cls]
        if not have:
            raise Missing(cls)
        h = self.r.choice(have)
        return h.spec

    def _ttc(self, deal, fresh=False):
        if fresh:
            return super()._ttc(deal, True)
        return self.nested('TaskToCompute', deal)

    def _rct(self, deal, fresh=False):
        if fresh:
            return super()._rct(deal, True)
        return self.nested('ReportComputedTask', deal)

    def wtct(self, deal, ts=None):
        if ts is not None:
            return super().wtct(deal, ts)
        return self.nested('WantToComputeTask', deal)

    def compose(self, cls, deal):
        if cls == 'TaskToCompute':
            m = super()._ttc(deal, True)
        elif cls == 'ReportComputedTask':
            m = super()._rct(deal, True)
        else:
            if cls == 'SubtaskResultsVerify':
                deal.ttc = self._ttc(deal)
            m = self.message(cls, deal)
        return B.Msg(cls, dict(m.fields), self.now)


def build(p, spec, held):
    """the real object; embeds the very objects of the inventory"""
    by_spec = {id(h.spec): h.obj for h in held}

    def value(v):
        if isinstance(v, B.Msg):
            return by_spec[id(v)] if id(v) in by_spec \
                else B.realize_msg(p, v, nested=True)
        if isinstance(v, list):
            return [value(x) for x in v]
        return B.realize(p, v)

    kw = {k: value(v) for k, v in spec.fields.items()}
    return B.msg_class(p, spec.cls)(**kw)


def respec(spec, frame):
    """the specification of a received copy: as sent, as transported"""
    m = B.Msg(spec.cls, spec.fields, spec.ts, enc=frame.enc,
              version=spec.version)
    m.signer = spec.signer
    m.forged_sig = frame.sig
    return m


def links(spec):
    """every message of a chain, outermost first"""
    yield spec
    for name, kind in spec.schema.fields:
        v = spec.fields.get(name)
        if kind == 'm' and v is not None:
            yield from links(v)
        elif kind == 'ml' and v:
            for x in v:
                yield from links(x)


def real_links(p, obj, spec):
    """(real object, specification) of every link"""
    yield obj, spec
    for name, kind in spec.schema.fields:
        v = spec.fields.get(name)
        if kind == 'm' and v is not None:
            yield from real_links(p, getattr(obj, name), v)
        elif kind == 'ml' and v:
            for o, x in zip(getattr(obj, name), v):
                yield from real_links(p, o, x)


def own_ttc(spec):
    """the assignment a task message belongs to, or None"""
    for m in links(spec):
        if m.cls == 'TaskToCompute':
            return m
    return None


def check_chain(w, node, obj, spec, deal, how, deep=True):
    """Owners, identity accessors and signatures of every task message, or
    of the outermost one (whose verification covers the others)"""
    p = node.p
    pairs = list(real_links(p, obj, spec)) if deep else [(obj, spec)]
    verify_keys = [(deal.provider.pub, deal.requestor.pub, deal.concent.pub)]
    for o, s in pairs:
        if s.schema.owners is None:
            continue
        ttc = own_ttc(s)
        if ttc is None:
            continue
        full = {'provider_public_key': verify_keys[0][0],
                'requestor_public_key': verify_keys[0][1],
                'concent_public_key': verify_keys[0][2]}
        part = {'concent_public_key': deal.concent.pub}
        for kw in (full, part) if deep else (full,):
            ok = core.honest(w, 'owner verification of %s' % s.cls,
                             o.verify_owners, **kw)
            w.check(ok is True, 'owner verification of %s gives %r'
                    % (s.cls, ok), how)
        if deep and not any('concent' in (m.schema.owners or ()) for m in links(s)):
            ok = core.honest(w, 'owner verification without Concent',
                             o.verify_owners, deal.provider.pub)
            w.check(ok is True, 'owner verification without Concent', s.cls)
        ctd = ttc.fields['compute_task_def'].given
        for attr, want in (('task_id', ctd['task_id']),
                           ('subtask_id', ctd['subtask_id']),
                           ('requestor_id', ttc.fields['requestor_id']),
                           ('provider_id', ttc.fields['provider_id'])):
            got = core.honest(w, '%s of %s' % (attr, s.cls), getattr, o, attr)
            w.check(got == want, '%s reports a wrong %s' % (s.cls, attr),
                    lambda: '%r != %r %s' % (got, want, how))
        got = core.honest(w, 'assignment of %s' % s.cls,
                          lambda: B.canon(o.task_to_compute))
        core.same(w, got, B.want_msg(ttc),
                  '%s reports another assignment' % s.cls, how)
    for o, s in pairs:
        if s.signer is not None and s.schema.sign:
            ok = core.honest(w, 'signature of %s' % s.cls,
                             o.verify_signature, s.signer.pub)
            w.check(ok is True, 'signature of %s' % s.cls, how)


def ref_signed(spec, key):
    return ref.verify(key.pub, spec.sig(), spec.hash())
