"""Message specifications: pure data from which come, independently,

  realize()  the real object, built through the library's public constructors
  wire()     the slots the published format prescribes for it
  want()     what a receiver must hold after decoding, as a typed canonical form

plus seeded generators of well-formed specifications of every message type.
SCHEMA is the published message catalogue, written out by hand.
"""
import uuid as _uuid

from . import ref


class Lit:
    """Base of everything that is not a plain CBOR value."""


class EnumV(Lit):
    def __init__(self, path, name, value):
        self.path, self.name, self.value = path, name, value


class NodeV(Lit):
    FIELDS = ['node_name', 'key', 'prv_port', 'pub_port', 'p2p_prv_port',
              'p2p_pub_port', 'prv_addr', 'pub_addr', 'prv_addresses',
              'hyperdrive_prv_port', 'hyperdrive_pub_port', 'port_statuses',
              'nat_type']
    DEFAULTS = {'prv_addresses': list, 'port_statuses': dict,
                'nat_type': list}

    def __init__(self, given):
        self.given = given

    def full(self):
        return {k: self.given[k] if k in self.given
                else self.DEFAULTS.get(k, lambda: None)()
                for k in self.FIELDS}


class PeerV(Lit):
    def __init__(self, address, port, node):
        self.address, self.port, self.node = address, port, node


class HeaderV(Lit):
    FIELDS = ['mask', 'timestamp', 'signature', 'task_id', 'task_owner',
              'deadline', 'subtask_timeout', 'market_type', 'environment',
              'environment_prerequisites', 'min_version', 'estimated_memory',
              'max_price', 'subtask_budget', 'subtasks_count',
              'concent_enabled']
    MARKETS = ('Brass', 'Usage')

    def __init__(self, given, signer=None):
        self.given = given      # wire-level values; task_owner is a NodeV
        self.signer = signer
        self._sig = None

    def wire_nosig(self):
        out = {}
        for k in self.FIELDS:
            if k == 'signature':
                continue
            v = self.given.get(k)
            out[k] = wire(v)
        return out

    def hash(self):
        import hashlib
        return hashlib.sha1(ref.cbor(self.wire_nosig())).digest()

    def signature(self):
        if 'signature' in self.given:
            return self.given['signature']
        if self.signer is None:
            return None
        if self._sig is None:
            self._sig = self.signer.sign(self.hash())
        return self._sig


class CtdV(Lit):
    ITEMS = [('task_id', lambda: ''), ('subtask_id', lambda: ''),
             ('deadline', lambda: 0), ('extra_data', dict),
             ('performance', lambda: 0), ('docker_images', lambda: None),
             ('resources', list)]

    def __init__(self, given):
        self.given = given

    def full(self):
        out = dict(self.given)
        for k, d in self.ITEMS:
            if k not in out:
                out[k] = d()
        return out


class FileV(Lit):
    CATEGORIES = ('results', 'resources')
    ITEMS = [('path', lambda: ''), ('checksum', lambda: ''),
             ('size', lambda: 0), ('category', lambda: 'results')]

    def __init__(self, given):
        self.given = given

    def full(self):
        out = dict(self.given)
        for k, d in self.ITEMS:
            if k not in out:
                out[k] = d()
        return out


class FrozenV(Lit):
    """CpuUsage, ThrottlingData: fixed keys, defaults."""
    ITEMS = {
        'CpuUsage': [('percpu_usage', list), ('total_usage', lambda: 0),
                     ('usage_in_kernelmode', lambda: 0),
                     ('usage_in_usermode', lambda: 0)],
        'ThrottlingData': [('periods', lambda: 0),
                           ('throttled_periods', lambda: 0),
                           ('throttled_time', lambda: 0)],
    }

    def __init__(self, cls, given):
        self.cls, self.given = cls, given

    def full(self):
        out = dict(self.given)
        for k, d in self.ITEMS[self.cls]:
            if k not in out:
                out[k] = d()
        return out


class StatsV(Lit):
    """A (nested) statistics container."""
    FIELDS = {
        'ProviderStats': ['blkio_stats', 'cpu_stats', 'memory_stats',
                          'pids_stats'],
        'BlockIoStats': ['io_merged_recursive', 'io_queue_recursive',
                         'io_service_bytes_recursive',
                         'io_service_time_recursive',
                         'io_serviced_recursive', 'io_time_recursive',
                         'io_wait_time_recursive', 'sectors_recursive'],
        'CpuStats': ['cpu_usage', 'throttling_data'],
        'MemoryStats': ['kernel_tcp_usage', 'kernel_usage', 'swap_usage',
                        'usage', 'cache', 'stats', 'use_hierarchy'],
        'PidStats': ['current', 'limit'],
    }
    SUB = {'blkio_stats': 'BlockIoStats', 'cpu_stats': 'CpuStats',
           'memory_stats': 'MemoryStats', 'pids_stats': 'PidStats'}

    def __init__(self, cls, given):
        self.cls, self.given = cls, given


class NoteSig(Lit):
    def __init__(self, v, r, s):
        self.v, self.r, self.s = v, r, s


class Msg(Lit):
    def __init__(self, cls, fields, ts=None, signer=None, enc=False,
                 version=None):
        self.cls = cls
        self.fields = fields
        self.ts = ts
        self.signer = signer     # ref.Key, or None for unsigned
        self.enc = enc           # encryption flag in the header
        self.version = version   # Hello only
        self.forged_sig = None   # explicit signature bytes
        self.forged_type = None  # explicit type in a nested header

    @property
    def schema(self):
        return SCHEMA[self.cls]

    @property
    def type_(self):
        return self.forged_type if self.forged_type is not None \
            else self.schema.number

    def slots(self):
        return wire_slots(self)

    def payload(self):
        return ref.cbor(self.slots())

    def hash(self):
        return ref.short_hash(self.type_, self.ts, self.payload(),
                              self.version)

    def sig(self):
        if self.forged_sig is not None:
            return self.forged_sig
        if self.signer is None:
            return None
        return self.signer.sign(self.hash())


# --- the catalogue ---------------------------------------------------------

class Schema:
    def __init__(self, number, module, fields, sign=True, encrypt=True,
                 owners=None, enums=None, defaults=None):
        self.number = number
        self.module = module
        self.fields = fields            # [(name, kind)] in wire order
        self.names = [f for f, _ in fields]
        self.kinds = dict(fields)
        self.sign = sign
        self.encrypt = encrypt
        self.owners = owners            # TaskMessage: roles entitled to sign
        self.enums = enums or {}        # field -> [(name, value)]
        self.defaults = defaults or {}  # constructor defaults, wire-level


def _s(number, module, fields, **kw):
    out = []
    for f in fields.split():
        name, _, kind = f.partition(':')
        out.append((name, kind or 'any'))
    return Schema(number, module, out, **kw)


def _same(names):
    return [(n, n) for n in names.split()]


P, R, C = 'provider', 'requestor', 'concent'

SCHEMA = {
    'Hello': _s(0, 'base', 'rand_val proto_id node_info:node port client_ver '
                'solve_challenge challenge difficulty metadata',
                encrypt=False),
    'RandVal': _s(1, 'base', 'rand_val'),
    'Disconnect': _s(2, 'base', 'reason:enum', encrypt=False, enums={
        'reason': [('DuplicatePeers', 'duplicate_peers'),
                   ('TooManyPeers', 'too_many_peers'),
                   ('Refresh', 'refresh'), ('Unverified', 'unverified'),
                   ('ProtocolVersion', 'protocol_version'),
                   ('BadProtocol', 'bad_protocol'), ('Timeout', 'timeout'),
                   ('NoMoreMessages', 'no_more_messages'),
                   ('WrongEncryption', 'wrong_encryption'),
                   ('ResourceHandshakeFailure', 'resource_handshake'),
                   ('KeyNotDifficult', 'key_not_difficult'),
                   ('Bootstrap', 'bootstrap')]}),
    'ChallengeSolution': _s(3, 'base', 'solution'),

    'Ping': _s(1001, 'p2p', '', sign=False),
    'Pong': _s(1002, 'p2p', '', sign=False),
    'GetPeers': _s(1003, 'p2p', '', sign=False),
    'Peers': _s(1004, 'p2p', 'peers:peers', sign=False,
                defaults={'peers': []}),
    'GetTasks': _s(1005, 'p2p', '', sign=False),
    'Tasks': _s(1006, 'p2p', 'tasks:headers', defaults={'tasks': []}),
    'RemoveTask': _s(1007, 'p2p', 'task_id'),
    'GetResourcePeers': _s(1008, 'p2p', '', sign=False),
    'ResourcePeers': _s(1009, 'p2p', 'resource_peers:list', sign=False,
                        defaults={'resource_peers': []}),
    'Degree': _s(1010, 'p2p', 'degree', sign=False),
    'Gossip': _s(1011, 'p2p', 'gossip:list', sign=False,
                 defaults={'gossip': []}),
    'StopGossip': _s(1012, 'p2p', '', sign=False),
    'LocRank': _s(1013, 'p2p', 'node_id loc_rank', sign=False),
    'FindNode': _s(1014, 'p2p', 'node_key_id', sign=False),
    'WantToStartTaskSession': _s(
        1015, 'p2p', 'node_info:node conn_id super_node_info:node'),
    'SetTaskSession': _s(
        1016, 'p2p', 'key_id node_info:node conn_id super_node_info:node'),
    'RemoveTaskContainer': _s(1017, 'p2p', 'remove_tasks:ml'),

    'WantToComputeTask': _s(
        2001, 'tasks', 'perf_index cpu_usage max_resource_size '
        'max_memory_size price num_subtasks concent_enabled:bool extra_data '
        'provider_public_key provider_ethereum_address task_header:header',
        defaults={'num_subtasks': 1, 'concent_enabled': False}),
    'TaskToCompute': _s(
        2002, 'tasks', 'requestor_id requestor_public_key '
        'requestor_ethereum_public_key provider_id compute_task_def:ctd '
        'want_to_compute_task:m package_hash size concent_enabled:bool price '
        'resources_options ethsig promissory_note_sig '
        'concent_promissory_note_sig', owners=(R,),
        defaults={'concent_enabled': False}),
    'CannotAssignTask': _s(2003, 'tasks', 'task_id reason:enum', enums={
        'reason': _same('NotMyTask NoMoreSubtasks TaskFinished '
                        'ConcentDisabled')}),
    'ReportComputedTask': _s(
        2004, 'tasks', 'address node_info port key_id extra_data '
        'task_to_compute:m size package_hash multihash secret options '
        'stats:stats', owners=(P,)),
    'SubtaskResultsAccepted': _s(
        2010, 'tasks', 'payment_ts report_computed_task:m', owners=(R,)),
    'SubtaskResultsRejected': _s(
        2011, 'tasks', 'report_computed_task:m '
        'force_get_task_result_failed:m reason:enum', owners=(R, C), enums={
            'reason': [
                ('VerificationNegative', 'Results verification negative'),
                ('ConcentResourcesFailure',
                 'Concent could not retrieve resources to verify'),
                ('ConcentVerificationNegative',
                 'Concent results verification negative'),
                ('ForcedResourcesFailure',
                 'Concent reported failure to retrieve the resources to '
                 'verify'),
                ('ResourcesFailure', 'Could not retrieve resources')]}),
    'TaskFailure': _s(
        2015, 'tasks', 'task_to_compute:m err reason:enum', owners=(P,),
        enums={'reason': _same('ComputationError BudgetExceeded '
                               'TimeExceeded')},
        defaults={'reason': ('ComputationError', 'ComputationError')}),
    'StartSessionResponse': _s(2016, 'tasks', 'conn_id'),
    'CannotComputeTask': _s(
        2026, 'tasks', 'task_to_compute:m reason:enum', owners=(P,), enums={
            'reason': _same(
                'CannotTakeWork WrongCTD WrongKey WrongAddress '
                'WrongEnvironment NoSourceCode WrongDockerImages '
                'ConcentRequired ConcentDisabled InsufficientBalance '
                'InsufficientDeposit TooShortDeposit PromissoryNoteMissing '
                'OfferCancelled ResourcesTooBig')}),
    'SubtaskPayment': _s(
        2027, 'tasks', 'subtask_id reward transaction_id block_number'),
    'SubtaskPaymentRequest': _s(2028, 'tasks', 'subtask_id'),
    'AckReportComputedTask': _s(
        2029, 'tasks', 'report_computed_task:m', owners=(R, C)),
    'RejectReportComputedTask': _s(
        2030, 'tasks', 'attached_task_to_compute:m task_failure:m '
        'cannot_compute_task:m reason:enum', owners=(R, C), enums={
            'reason': _same('SubtaskTimeLimitExceeded '
                            'GotMessageCannotComputeTask '
                            'GotMessageTaskFailure')}),

    'PushResource': _s(3001, 'resources', 'copies resource'),
    'HasResource': _s(3002, 'resources', 'resource'),
    'WantsResource': _s(3003, 'resources', 'resource'),
    'PullResource': _s(3004, 'resources', 'resource'),
    'PullAnswer': _s(3005, 'resources', 'resource has_resource'),
    'ResourceHandshakeStart': _s(3008, 'resources', 'resource options'),
    'ResourceHandshakeNonce': _s(3009, 'resources', 'nonce'),
    'ResourceHandshakeVerdict': _s(3010, 'resources', 'accepted nonce'),

    'ServiceRefused': _s(
        4000, 'concents', 'task_to_compute:m reason:enum', owners=(C,),
        enums={'reason': [
            ('TooSmallCommunicationPayment',
             'TOO_SMALL_COMMUNICATION_PAYMENT'),
            ('TooSmallRequestorDeposit', 'TOO_SMALL_REQUESTOR_DEPOSIT'),
            ('TooSmallProviderDeposit', 'TOO_SMALL_PROVIDER_DEPOSIT'),
            ('SystemOverloaded', 'SYSTEM_OVERLOADED'),
            ('DuplicateRequest', 'DUPLICATE_REQUEST'),
            ('InvalidRequest', 'REQUEST_FORMAT_OR_CONTENT_INVALID'),
            ('ConcentDisabled',
             'CONCENT_SERVICE_IS_NOT_ENABLED_FOR_THIS_SUBTASK'),
            ('UnsupportedProtocolVersion', 'UNSUPPORTED_PROTOCOL_VERSION'),
            ('PriceNotPositive', 'PRICE_NOT_POSITIVE')]}),
    'ForceReportComputedTask': _s(
        4001, 'concents', 'report_computed_task:m result_hash',
        owners=(P, C)),
    'VerdictReportComputedTask': _s(
        4004, 'concents', 'force_report_computed_task:m '
        'ack_report_computed_task:m', owners=(C,)),
    'FileTransferToken': _s(
        4005, 'concents', 'subtask_id token_expiration_deadline '
        'storage_cluster_address authorized_client_public_key '
        'operation:enum files:files',
        enums={'operation': _same('upload download')}),
    'SubtaskResultsVerify': _s(
        4006, 'concents', 'subtask_results_rejected:m '
        'concent_promissory_note_sig', owners=(P,)),
    'AckSubtaskResultsVerify': _s(
        4007, 'concents', 'subtask_results_verify:m file_transfer_token:m',
        owners=(C,)),
    'SubtaskResultsSettled': _s(
        4008, 'concents', 'origin:enum task_to_compute:m', owners=(C,),
        enums={'origin': [
            ('ResultsAcceptedTimeout', 'results_accepted_timeout'),
            ('ResultsRejected', 'results_rejected')]}),
    'ForceGetTaskResult': _s(
        4009, 'concents', 'report_computed_task:m', owners=(R,)),
    'AckForceGetTaskResult': _s(
        4010, 'concents', 'force_get_task_result:m', owners=(C,)),
    'ForceGetTaskResultFailed': _s(
        4011, 'concents', 'task_to_compute:m', owners=(C,)),
    'ForceGetTaskResultRejected': _s(
        4012, 'concents', 'force_get_task_result:m reason:enum',
        owners=(C,), enums={'reason': [
            ('AcceptanceTimeLimitExceeded',
             'acceptance_time_limit_exceeded')]}),
    'ForceGetTaskResultUpload': _s(
        4013, 'concents', 'force_get_task_result:m file_transfer_token:m',
        owners=(C,)),
    'ForceGetTaskResultDownload': _s(
        4014, 'concents', 'force_get_task_result:m file_transfer_token:m',
        owners=(C,)),
    'ForceSubtaskResults': _s(
        4015, 'concents', 'ack_report_computed_task:m', owners=(P, C)),
    'ForceSubtaskResultsResponse': _s(
        4016, 'concents', 'subtask_results_accepted:m '
        'subtask_results_rejected:m', owners=(C,)),
    'ForceSubtaskResultsRejected': _s(
        4017, 'concents', 'force_subtask_results:m reason:enum',
        owners=(C,), enums={'reason': [
            ('RequestPremature',
             'premature: still within the verification timeout'),
            ('RequestTooLate',
             'too late: past the forced communication timeout')]}),
    'ForcePayment': _s(4018, 'concents', 'subtask_results_accepted_list:ml'),
    'ForcePaymentCommitted': _s(
        4019, 'concents', 'payment_ts task_owner_key provider_eth_account '
        'amount_paid recipient_type:enum amount_pending', enums={
            'recipient_type': [('Requestor', 'requestor'),
                               ('Provider', 'provider')]}),
    'ForcePaymentRejected': _s(
        4020, 'concents', 'force_payment:m reason:enum', enums={
            'reason': [
                ('NoUnsettledTasksFound', 'no unsettled tasks found'),
                ('TimestampError',
                 'timestamp error - subtasks are not overdue yet')]}),
    'ForceReportComputedTaskResponse': _s(
        4021, 'concents', 'reason:enum ack_report_computed_task:m '
        'reject_report_computed_task:m', owners=(C,), enums={
            'reason': [('AckFromRequestor', 'ack_from_requestor'),
                       ('RejectFromRequestor', 'reject_from_requestor'),
                       ('SubtaskTimeout', 'subtask_timeout'),
                       ('ConcentAck', 'concent_ack')]}),
    'ClientAuthorization': _s(4022, 'concents', 'client_public_key'),
}

# attribute of the message class that holds the enum of a field
ENUM_ATTR = {
    'reason': 'REASON', 'operation': 'Operation', 'origin': 'Origin',
    'recipient_type': 'Actor',
}

# nested message slots -> class
SLOT_CLASS = {
    'want_to_compute_task': 'WantToComputeTask',
    'task_to_compute': 'TaskToCompute',
    'attached_task_to_compute': 'TaskToCompute',
    'report_computed_task': 'ReportComputedTask',
    'force_get_task_result_failed': 'ForceGetTaskResultFailed',
    'task_failure': 'TaskFailure',
    'cannot_compute_task': 'CannotComputeTask',
    'force_report_computed_task': 'ForceReportComputedTask',
    'ack_report_computed_task': 'AckReportComputedTask',
    'reject_report_computed_task': 'RejectReportComputedTask',
    'subtask_results_rejected': 'SubtaskResultsRejected',
    'subtask_results_accepted': 'SubtaskResultsAccepted',
    'subtask_results_verify': 'SubtaskResultsVerify',
    'file_transfer_token': 'FileTransferToken',
    'force_get_task_result': 'ForceGetTaskResult',
    'force_subtask_results': 'ForceSubtaskResults',
    'force_payment': 'ForcePayment',
    'subtask_results_accepted_list': 'SubtaskResultsAccepted',
    'remove_tasks': 'RemoveTask',
}

BY_NUMBER = {s.number: c for c, s in SCHEMA.items()}


# --- wire ------------------------------------------------------------------

def wire(v):
    if isinstance(v, EnumV):
        return v.value
    if isinstance(v, NodeV):
        return {k: wire(x) for k, x in v.full().items()}
    if isinstance(v, PeerV):
        return {'address': v.address, 'port': v.port, 'node': wire(v.node)}
    if isinstance(v, HeaderV):
        out = {}
        nosig = v.wire_nosig()
        for k in v.FIELDS:
            out[k] = v.signature() if k == 'signature' else nosig[k]
        return out
    if isinstance(v, (CtdV, FileV, FrozenV)):
        return v.full()
    if isinstance(v, StatsV):
        return {k: wire(v.given.get(k)) for k in StatsV.FIELDS[v.cls]}
    if isinstance(v, NoteSig):
        return [v.v, v.r, v.s]
    if isinstance(v, list):
        return [wire(x) for x in v]
    return v


def wire_nested(m):
    return [[m.type_, m.ts, m.enc], m.sig(), m.slots()]


def field_value(m, name):
    """spec-level value with constructor defaults applied"""
    v = m.fields.get(name)
    sch = m.schema
    if v is None and name in sch.defaults:
        d = sch.defaults[name]
        if sch.kinds[name] == 'enum':
            return EnumV((m.cls, ENUM_ATTR[name]), *d)
        return list(d) if isinstance(d, list) else d
    return v


def wire_slots(m):
    out = []
    for name, kind in m.schema.fields:
        v = field_value(m, name)
        if isinstance(v, ref.RawCbor):
            w = v
        elif kind == 'm':
            w = [False, None if v is None else wire_nested(v)]
        elif kind == 'ml':
            w = [False, None] if v is None \
                else [True, [wire_nested(x) for x in v]]
        else:
            w = wire(v)
        out.append([name, w])
    return out


# --- expected decoded form -------------------------------------------------

def plain(v):
    if isinstance(v, (list, tuple)):
        return ('list', tuple(plain(x) for x in v))
    if isinstance(v, dict):
        return ('dict', 'dict', tuple(sorted(
            ((repr(k), plain(x)) for k, x in v.items()))))
    if isinstance(v, float):
        return ('float', v.hex())
    return (type(v).__name__, v)


def _keyed(cls, d, conv=None):
    conv = conv or {}
    return ('dict', cls, tuple(sorted(
        (repr(k), conv[k](x) if k in conv else want(x))
        for k, x in d.items())))


def _objd(cls, d):
    return ('obj', cls, tuple(sorted((k, want(x)) for k, x in d.items())))


def want(v):
    if isinstance(v, EnumV):
        return ('enum', v.name, v.value)
    if isinstance(v, NodeV):
        return _objd('Node', v.full())
    if isinstance(v, PeerV):
        return _keyed('Peer', {'address': v.address, 'port': v.port,
                               'node': v.node})
    if isinstance(v, HeaderV):
        full = {k: v.given.get(k) for k in v.FIELDS}
        full['signature'] = v.signature()
        items = []
        for k, x in full.items():
            if k == 'mask' and x is not None:
                items.append((k, ('mask', x)))
            elif k == 'market_type' and x is not None:
                items.append((k, ('enum', x, x)))
            else:
                items.append((k, want(x)))
        return ('obj', 'TaskHeader', tuple(sorted(items)))
    if isinstance(v, CtdV):
        return _keyed('ComputeTaskDef', v.full())
    if isinstance(v, FileV):
        return _keyed('FileInfo', v.full(), {
            'category': lambda x: ('enum', x, x)})
    if isinstance(v, FrozenV):
        return _keyed(v.cls, v.full())
    if isinstance(v, StatsV):
        return _objd(v.cls, {k: v.given.get(k)
                             for k in StatsV.FIELDS[v.cls]})
    if isinstance(v, NoteSig):
        return plain([v.v, v.r, v.s])
    if isinstance(v, Msg):
        return want_msg(v)
    if isinstance(v, (list, tuple)):
        return ('list', tuple(want(x) for x in v))
    return plain(v)


def want_msg(m, sig=None, enc=False):
    # the encryption flag is a mode of transport, not content
    return ('msg', m.cls, m.type_, m.ts, m.sig() if sig is None else sig,
            tuple((n, want(field_value(m, n))) for n in m.schema.names))


# --- real objects ----------------------------------------------------------

def msg_class(p, cls):
    return getattr(p.mod('message.' + SCHEMA[cls].module), cls)


def _realize_header(p, v):
    th = p.mod('datastructures.tasks').TaskHeader
    kw = {k: realize(p, x) for k, x in v.given.items()}
    obj = th(**kw)
    if v.signer is not None and 'signature' not in v.given:
        obj.sign(v.signer.priv)
    return obj


def realize(p, v):
    """Build the real object in process p (which must be entered)."""
    if isinstance(v, Msg):
        return realize_msg(p, v, nested=True)
    if isinstance(v, EnumV):
        return getattr(getattr(msg_class(p, v.path[0]), v.path[1]), v.name)
    if isinstance(v, NodeV):
        return p.mod('datastructures.p2p').Node(
            **{k: realize(p, x) for k, x in v.given.items()})
    if isinstance(v, PeerV):
        return p.mod('datastructures.p2p').Peer({
            'address': v.address, 'port': v.port,
            'node': realize(p, v.node)})
    if isinstance(v, HeaderV):
        return _realize_header(p, v)
    if isinstance(v, CtdV):
        return p.mod('message.tasks').ComputeTaskDef(
            {k: realize(p, x) for k, x in v.given.items()})
    if isinstance(v, FileV):
        fi = p.mod('message.concents').FileTransferToken.FileInfo
        kw = {k: realize(p, x) for k, x in v.given.items()}
        if 'category' in kw:
            kw['category'] = fi.Category(kw['category'])
        return fi(kw)
    if isinstance(v, FrozenV):
        return {k: realize(p, x) for k, x in v.given.items()}
    if isinstance(v, StatsV):
        kw = {k: realize(p, x) for k, x in v.given.items()}
        if v.cls == 'ProviderStats':
            return p.mod('datastructures.stats').ProviderStats(**kw)
        return kw
    if isinstance(v, NoteSig):
        return p.mod('datastructures.promissory').PromissoryNoteSig(
            v.v, v.r, v.s)
    if isinstance(v, dict):
        return {k: realize(p, x) for k, x in v.items()}
    if isinstance(v, list):
        return [realize(p, x) for x in v]
    return v


def realize_msg(p, m, nested=False, sign=None):
    """nested: explicit header and own signature; top level: as a user would
    (the library stamps the time), unsigned unless sign is a Key"""
    cls = msg_class(p, m.cls)
    kw = {k: realize(p, x) for k, x in m.fields.items()}
    if nested:
        kw['header'] = p.mod('datastructures').MessageHeader(
            m.type_, m.ts, m.enc)
    obj = cls(**kw)
    if nested and m.signer is not None:
        obj.sign_message(m.signer.priv)
    if not nested and sign is not None:
        obj.sign_message(sign.priv)
    return obj


# --- canonical form of a real object ---------------------------------------

_STATS = set(StatsV.FIELDS)


def canon(v):
    """Typed, process-independent content of a real object."""
    import enum
    t = type(v)
    name = t.__name__
    if isinstance(v, enum.Enum):
        return ('enum', v.name, v.value)
    if t is float:
        return (name, v.hex())      # tells 0.0 from -0.0
    if v is None or t in (bool, int, str, bytes):
        return (name, v)
    if isinstance(v, dict):
        return ('dict', name, tuple(sorted(
            (repr(k), canon(x)) for k, x in v.items())))
    if isinstance(v, (list, tuple)):
        return ('list', tuple(canon(x) for x in v))
    if name in SCHEMA and hasattr(v, 'header'):
        return canon_msg(v)
    if name == 'Node':
        return _canon_obj(v, name, NodeV.FIELDS)
    if name == 'TaskHeader':
        return _canon_obj(v, name, HeaderV.FIELDS)
    if name in _STATS:
        return _canon_obj(v, name, StatsV.FIELDS[name])
    if name == 'Mask':
        return ('mask', bytes(v.to_bytes()))
    return ('?', name, repr(v))


def _canon_obj(v, name, fields):
    return ('obj', name, tuple(sorted(
        (k, canon(getattr(v, k))) for k in fields)))


def canon_msg(m):
    name = type(m).__name__
    return ('msg', name, m.header.type_, m.timestamp,
            None if m.sig is None else bytes(m.sig),
            tuple((n, canon(getattr(m, n))) for n in SCHEMA[name].names))


def diff(a, b, path=''):
    """first difference between two canonical forms, for reports"""
    if type(a) is not type(b):
        return '%s: %.80r != %.80r' % (path, a, b)
    if isinstance(a, tuple):
        if len(a) != len(b):
            return '%s: lengths %d != %d: %.120r != %.120r' % (
                path, len(a), len(b), a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y or type(x) is not type(y):
                tag = a[0] if i and isinstance(a[0], str) else i
                return diff(x, y, '%s/%s' % (path, tag))
        return None
    if a != b:
        return '%s: %.80r != %.80r' % (path, a, b)
    return None


# --- generators ------------------------------------------------------------

def make_id(rnd, owner_hex):
    """a UUID1-like id naming its owner"""
    node = int(owner_hex[:12], 16)
    return str(_uuid.UUID(fields=(
        rnd.getrandbits(32), rnd.getrandbits(16), rnd.getrandbits(12),
        rnd.getrandbits(6), rnd.getrandbits(8), node), version=1))


class Deal:
    """Who plays which part in one conversation, and its ids."""

    def __init__(self, rnd, requestor, provider, concent, req_eth=None,
                 prov_eth=None, contract=None):
        self.requestor = requestor
        self.provider = provider
        self.concent = concent
        self.req_eth = req_eth or requestor
        self.prov_eth = prov_eth or provider
        self.contract = contract or ref.checksum_address(
            bytes(rnd.getrandbits(8) for _ in range(20)))
        self.task_id = make_id(rnd, requestor.hex)
        self.subtask_id = make_id(rnd, requestor.hex)
        self.ttc = None      # cached specs: one assignment per deal
        self.rct = None

    def key(self, role):
        return {'provider': self.provider, 'requestor': self.requestor,
                'concent': self.concent}[role]


WORDS = ['blender', 'żółć', 'a', '', 'x' * 40, 'render/frame-0001.png',
         '\u2713', 'naïve', '0', '日本', 'line\nbreak', "quo'te",
         'two\r\nlines\r', 'nul\0', '\0', 'e\u0301\u212b\ufb01', '\ufeffbom',
         ' both ends\t ', '\n', '\ud7ff\ue000\uffff\x7f\x80', '\\x00%s{}',
         'null', 'True', 'İı', 'https://a/?b=c&d#e']


class Gen:
    """Well-formed message specifications from one seeded PRNG."""

    def __init__(self, rnd, now=1_580_000_000, omit=0.25, depth=2,
                 big=0.02):
        self.r = rnd
        self.now = now
        self.omit = omit
        self.maxdepth = depth
        self.big = big

    # plain values

    def text(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            return r.choice(WORDS)
        if k < 0.5 + self.big:
            return 'long ' * r.choice([60, 300, 4000])
        return ''.join(r.choice('abcdefghij \u0105\u4e2d\U0001f600')
                       for _ in range(r.randrange(1, 20)))

    def blob(self):
        r = self.r
        n = r.choice([0, 1, 16, 20, 32, 33, 65])
        if r.random() < self.big:
            n = r.choice([300, 5000])
        return bytes(r.getrandbits(8) for _ in range(n))

    def int(self):
        r = self.r
        k = r.randrange(8)
        if k < 3:
            return r.randrange(100)
        if k < 6:
            return r.getrandbits(r.choice([8, 16, 32, 53, 63, 64, 80, 200]))
        if k == 6:
            return -r.getrandbits(r.choice([3, 8, 16, 32, 60]))
        return r.choice([0, 1, 23, 24, 255, 256, 65535, 65536, 2**32 - 1,
                         2**32, 2**63, 2**64 - 1, 2**64])

    def num(self):
        if self.r.random() < 0.3:
            return self.r.choice([0.0, -0.0, -1.5, 0.1, 1e300, 5e-324,
                                  float('inf'), 2.0 ** 53, 1234.25, -7.0,
                                  self.r.random()])
        return self.int()

    def any(self, depth=0):
        r = self.r
        k = r.randrange(9 if depth >= self.maxdepth else 12)
        if k < 3:
            return self.text()
        if k < 5:
            return self.int()
        if k == 5:
            return r.random() < 0.5
        if k == 6:
            return self.blob()
        if k == 7:
            return self.num()
        if k == 8:
            return None
        if k == 9:
            return self.long() if r.random() < self.big else \
                [self.any(depth + 1) for _ in range(r.randrange(4))]
        if r.random() < self.big:
            return self.wide()
        return {(self.text() if r.random() < .8 else self.int()):
                self.any(depth + 1) for _ in range(r.randrange(4))}

    def wide(self):
        """a dict with many keys, in no particular order"""
        r = self.r
        keys = ['k%s' % i for i in range(r.choice([17, 25, 65, 257]))]
        r.shuffle(keys)
        return {k: r.randrange(1000) for k in keys}

    def dict(self):
        if self.r.random() < 4 * self.big:
            return self.wide()
        return {self.text(): self.any(1) for _ in range(self.r.randrange(4))}

    def list(self):
        if self.r.random() < 4 * self.big:
            return self.long()
        return [self.any(1) for _ in range(self.r.randrange(4))]

    def long(self):
        """a long list of small values, in no particular order"""
        r = self.r
        n = r.choice([17, 21, 33, 65, 101, 129, 256, 257, 300])
        if r.random() < 0.3:
            return [self.text()[:20] for _ in range(n)]
        return [r.randrange(-5, 1000) for _ in range(n)]

    def few(self, most=4, p=.5):
        """how many structured elements: seldom many"""
        r = self.r
        if r.random() < self.big * p:
            return r.choice([11, 17, 21, 33])
        return r.randrange(most)

    def maybe(self, p=None):
        """True: give the field"""
        return self.r.random() >= (self.omit if p is None else p)

    def addr(self):
        r = self.r
        if r.random() < 0.7:
            return '.'.join(str(r.randrange(256)) for _ in range(4))
        return ':'.join('%x' % r.randrange(1 << 16) for _ in range(8))

    def port(self):
        return self.r.choice([1, 2, 80, 40102, 65534,
                              self.r.randrange(1, 65535)])

    def short(self):
        """identifier of at most 128 characters"""
        r = self.r
        return r.choice([self.text()[:128], 'k' * 128, '', 'ż' * 128,
                         '%0128x' % r.getrandbits(512)])

    # structures

    def node(self):
        r = self.r
        g = {}
        gens = {
            'node_name': self.text, 'key': self.short,
            'prv_port': self.port, 'pub_port': self.port,
            'p2p_prv_port': self.port, 'p2p_pub_port': self.port,
            'prv_addr': self.addr, 'pub_addr': self.addr,
            'prv_addresses': lambda: [self.addr()
                                      for _ in range(r.randrange(3))],
            'hyperdrive_prv_port': self.int, 'hyperdrive_pub_port': self.int,
            'port_statuses': lambda: {self.port(): self.text()
                                      for _ in range(r.randrange(3))},
            'nat_type': lambda: [self.text() for _ in range(r.randrange(3))],
        }
        for k, f in gens.items():
            if self.maybe():
                g[k] = None if r.random() < 0.1 else f()
        return NodeV(g)

    def peer(self):
        return PeerV(self.addr(), self.port(), self.node())

    def header(self, owner_key, task_id=None, signed=True):
        r = self.r
        g = {
            'task_id': task_id or make_id(r, owner_key.hex),
            'task_owner': self.node(),
            'subtasks_count': r.choice([1, 2, 10, r.randrange(1, 10 ** 6)]),
            'min_version': r.choice(['0.1.0', '2.15.0', '0.20.1-rc.1',
                                     '1.0.0+b7', '10.20.30']),
            'timestamp': self.now + r.randrange(-500, 500),
        }
        opt = {
            'mask': lambda: self.mask(),
            'deadline': lambda: self.now + r.randrange(10 ** 6),
            'subtask_timeout': lambda: r.choice([0, 1, 1200,
                                                 r.randrange(10 ** 6)]),
            'market_type': lambda: r.choice(HeaderV.MARKETS),
            'environment': self.short,
            'environment_prerequisites': self.dict,
            'estimated_memory': self.int,
            'max_price': self.int,
            'subtask_budget': self.int,
            'concent_enabled': lambda: r.random() < 0.5,
        }
        for k, f in opt.items():
            if self.maybe():
                g[k] = None if r.random() < 0.07 else f()
        keys = list(g)
        r.shuffle(keys)
        return HeaderV({k: g[k] for k in keys},
                       owner_key if signed else None)

    def mask(self):
        n = self.r.choice([0, 1, 3, 16, 255, 256, self.r.randrange(257)])
        bits = self.r.sample(range(256), n)
        return sum(1 << b for b in bits).to_bytes(32, 'big')

    def ctd(self, deal):
        r = self.r
        g = {'task_id': deal.task_id, 'subtask_id': deal.subtask_id}
        opt = {
            'deadline': lambda: self.now + r.choice(
                [3600, r.randrange(10 ** 6), 1800.5]),
            'extra_data': self.dict, 'performance': self.num,
            'docker_images': lambda: [self.dict()
                                      for _ in range(r.randrange(3))],
            'resources': self.list,
        }
        for k, f in opt.items():
            if self.maybe():
                g[k] = f()
        keys = list(g)
        r.shuffle(keys)
        return CtdV({k: g[k] for k in keys})

    def stats(self):
        r = self.r
        g = {}
        if self.maybe(0.4):
            b = {}
            for k in StatsV.FIELDS['BlockIoStats']:
                if self.maybe(0.6):
                    b[k] = {q: self.int() for q in r.sample(
                        ['major', 'minor', 'op', 'value'], r.randrange(1, 5))}
            g['blkio_stats'] = StatsV('BlockIoStats', b) if b else None
        if self.maybe(0.2):
            c = {}
            if self.maybe(0.3):
                u = {k: self.int() for k in r.sample(
                    ['total_usage', 'usage_in_kernelmode',
                     'usage_in_usermode'], r.randrange(0, 4))}
                if r.random() < 0.6 or not u:
                    u['percpu_usage'] = [self.int() for _ in
                                         range(r.randrange(1, 5))]
                c['cpu_usage'] = FrozenV('CpuUsage', u)
            if self.maybe(0.3):
                c['throttling_data'] = FrozenV('ThrottlingData', {
                    k: self.int() for k in r.sample(
                        ['periods', 'throttled_periods', 'throttled_time'],
                        r.randrange(1, 4))})
            g['cpu_stats'] = StatsV('CpuStats', c) if c else None
        if self.maybe(0.4):
            m = {}
            for k in ('kernel_tcp_usage', 'kernel_usage', 'swap_usage',
                      'usage'):
                if self.maybe(0.5):
                    m[k] = {q: self.int() for q in r.sample(
                        ['failcnt', 'limit', 'max_usage', 'usage'],
                        r.randrange(1, 5))}
            if self.maybe(0.5):
                m['cache'] = self.int()
            if self.maybe(0.5):
                m['stats'] = {self.text(): self.int()
                              for _ in range(r.randrange(3))}
            if self.maybe(0.5):
                m['use_hierarchy'] = r.random() < 0.5
            g['memory_stats'] = StatsV('MemoryStats', m) if m else None
        if self.maybe(0.4):
            q = {k: self.int() for k in r.sample(['current', 'limit'],
                                                 r.randrange(1, 3))}
            g['pids_stats'] = StatsV('PidStats', q)
        return StatsV('ProviderStats', g)

    def fileinfo(self):
        r = self.r
        g = {}
        if self.maybe():
            g['path'] = self.text() if r.random() < .9 else None
        if self.maybe():
            g['checksum'] = self.text() if r.random() < .9 else None
        if self.maybe():
            g['size'] = self.int()
        if self.maybe():
            g['category'] = r.choice(FileV.CATEGORIES)
        return FileV(g)

    # messages

    def ts(self):
        """time of an embedded message: before now"""
        return self.now - self.r.choice([0, 1, 59, 600, 3600, 86400,
                                         self.r.randrange(10 ** 6)])

    def enum(self, cls, field, allowed=None):
        names = self.schema_enum(cls, field)
        if allowed is not None:
            names = [n for n in names if n[0] in allowed]
        n, v = self.r.choice(names)
        return EnumV((cls, ENUM_ATTR[field]), n, v)

    @staticmethod
    def schema_enum(cls, field):
        return SCHEMA[cls].enums[field]

    def wtct(self, deal, ts=None):
        r = self.r
        f = {
            'provider_public_key': deal.provider.hex,
            'provider_ethereum_address': deal.prov_eth.address,
            'task_header': self.header(deal.requestor, deal.task_id),
        }
        if self.maybe():
            f['perf_index'] = self.num()
        if self.maybe():
            f['cpu_usage'] = r.choice([0, 1, r.randrange(10 ** 9)])
        for k in ('max_resource_size', 'max_memory_size', 'price'):
            if self.maybe():
                f[k] = self.int()
        if self.maybe():
            f['num_subtasks'] = r.choice([1, 2, r.randrange(1, 10 ** 4)])
        if self.maybe():
            f['concent_enabled'] = r.random() < 0.5
        if self.maybe():
            f['extra_data'] = self.any()
        return Msg('WantToComputeTask', f, self.ts() if ts is None else ts,
                   signer=deal.provider, enc=r.random() < 0.3)

    def _ttc(self, deal, fresh=False):
        if deal.ttc is not None and not fresh:
            return deal.ttc
        r = self.r
        wtct = self.wtct(deal)
        price = r.choice([0, 1, 10 ** 18, r.getrandbits(90)])
        f = {
            'requestor_id': deal.requestor.hex,
            'requestor_public_key': deal.requestor.hex,
            'requestor_ethereum_public_key': deal.req_eth.hex,
            'provider_id': deal.provider.hex,
            'compute_task_def': self.ctd(deal),
            'want_to_compute_task': wtct,
            'size': r.choice([0, 1, r.getrandbits(40)]),
            'price': price,
            'ethsig': deal.req_eth.sign(wtct.hash()),
        }
        if self.maybe(0.85):    # ids may be written in either case
            k = r.choice(['requestor_id', 'provider_id'])
            f[k] = f[k].upper()
        if self.maybe():
            f['package_hash'] = 'sha1:%040x' % r.getrandbits(160)
        if self.maybe():
            f['concent_enabled'] = r.random() < 0.5
        if self.maybe():
            f['resources_options'] = self.any()
        if self.maybe(0.4):
            pay = deal.req_eth.address
            f['promissory_note_sig'] = NoteSig(*ref.note_sign(
                deal.req_eth, deal.contract, pay, deal.prov_eth.address,
                price, deal.subtask_id))
            f['concent_promissory_note_sig'] = NoteSig(*ref.note_sign(
                deal.req_eth, deal.contract, pay, deal.contract, price,
                deal.subtask_id))
        deal.ttc = Msg('TaskToCompute', f, self.ts(), signer=deal.requestor,
                       enc=r.random() < 0.3)
        return deal.ttc

    def _rct(self, deal, fresh=False):
        if deal.rct is not None and not fresh:
            return deal.rct
        f = {'task_to_compute': self._ttc(deal)}
        for k in ('address', 'node_info', 'port', 'key_id', 'extra_data',
                  'package_hash', 'multihash', 'secret', 'options'):
            if self.maybe(0.5):
                f[k] = self.any()
        if self.maybe():
            f['size'] = self.r.getrandbits(30)
        if self.maybe(0.4):
            f['stats'] = self.stats()
        deal.rct = Msg('ReportComputedTask', f, self.ts(),
                       signer=deal.provider, enc=self.r.random() < 0.3)
        return deal.rct

    def nested(self, cls, deal):
        """an embedded message of the deal, signed by an entitled party"""
        m = self.message(cls, deal, self.ts())
        owners = SCHEMA[cls].owners
        role = self.r.choice(owners) if owners else 'concent'
        if m.signer is None:
            m.signer = deal.key(role)
        m.enc = self.r.random() < 0.3
        return m

    def message(self, cls, deal, ts=None):
        """a well-formed specification of any type (unsigned unless cached)"""
        ts = self.now if ts is None else ts
        r = self.r
        if cls == 'WantToComputeTask':
            m = self.wtct(deal, ts)
            m.signer, m.enc = None, False
            return m
        if cls in ('TaskToCompute', 'ReportComputedTask'):
            m = (self._ttc if cls == 'TaskToCompute' else self._rct)(deal)
            return Msg(cls, dict(m.fields), ts)
        f = {}
        if cls == 'SubtaskResultsAccepted':
            f['payment_ts'] = ts - r.choice([0, 1, 899, 900,
                                             r.randrange(901)])
            f['report_computed_task'] = self._rct(deal)
        elif cls == 'SubtaskResultsRejected':
            f['report_computed_task'] = self._rct(deal)
            f['reason'] = self.enum(cls, 'reason')
            if f['reason'].name == 'ForcedResourcesFailure' \
                    or r.random() < 0.3:
                f['force_get_task_result_failed'] = self.nested(
                    'ForceGetTaskResultFailed', deal)
        elif cls == 'RejectReportComputedTask':
            kinds = ['attached_task_to_compute', 'task_failure',
                     'cannot_compute_task']
            for k in r.sample(kinds, r.choice([1, 1, 1, 2, 3])):
                f[k] = self._ttc(deal) if k == kinds[0] \
                    else self.nested(SLOT_CLASS[k], deal)
            if self.maybe():
                f['reason'] = self.enum(cls, 'reason')
        elif cls == 'ForceSubtaskResultsResponse':
            k = r.choice(['subtask_results_accepted',
                          'subtask_results_rejected'])
            f[k] = self.nested(SLOT_CLASS[k], deal)
        elif cls == 'ForceReportComputedTaskResponse':
            k = r.choice(['ack_report_computed_task',
                          'reject_report_computed_task', None])
            if k:
                f[k] = self.nested(SLOT_CLASS[k], deal)
            f['reason'] = self.enum(cls, 'reason')
        elif cls == 'ServiceRefused':
            if self.maybe():
                f['task_to_compute'] = self._ttc(deal)
            f['reason'] = self.enum(cls, 'reason')
        elif cls == 'SubtaskResultsVerify':
            f['subtask_results_rejected'] = self.nested(
                'SubtaskResultsRejected', deal)
            ttc = deal.ttc
            if self.maybe():
                f['concent_promissory_note_sig'] = NoteSig(*ref.note_sign(
                    deal.prov_eth, deal.contract, deal.prov_eth.address,
                    deal.contract, ttc.fields['price'], deal.subtask_id))
        elif cls == 'Peers':
            if self.maybe():
                f['peers'] = [self.peer() for _ in range(self.few())]
        elif cls == 'Tasks':
            if self.maybe():
                f['tasks'] = [self.header(deal.requestor)
                              for _ in range(self.few())]
        elif cls == 'RemoveTaskContainer':
            f['remove_tasks'] = [
                Msg('RemoveTask', {'task_id': make_id(r, deal.requestor.hex)},
                    self.ts(), signer=r.choice([deal.requestor,
                                                deal.provider]))
                for _ in range(1 + self.few(3, 6))]
        elif cls == 'ForcePayment':
            f['subtask_results_accepted_list'] = [
                self.nested('SubtaskResultsAccepted', deal)
                for _ in range(r.choice([1, 1, 2, 3]))]
        elif cls == 'FileTransferToken':
            f['files'] = [self.fileinfo() for _ in range(self.few())]
            for k in ('subtask_id', 'token_expiration_deadline',
                      'storage_cluster_address',
                      'authorized_client_public_key'):
                if self.maybe():
                    f[k] = self.any()
            if self.maybe():
                f['operation'] = self.enum(cls, 'operation')
        else:
            for name, kind in SCHEMA[cls].fields:
                if kind == 'm':
                    sub = SLOT_CLASS[name]
                    if sub == 'TaskToCompute':
                        f[name] = self._ttc(deal)
                    elif sub == 'ReportComputedTask':
                        f[name] = self._rct(deal)
                    else:
                        f[name] = self.nested(sub, deal)
                elif not self.maybe():
                    continue
                elif kind == 'enum':
                    f[name] = self.enum(cls, name)
                elif kind == 'node':
                    f[name] = self.node()
                elif kind == 'list':
                    f[name] = self.list()
                else:
                    v = self.any()
                    f[name] = v
        keys = list(f)
        r.shuffle(keys)
        return Msg(cls, {k: f[k] for k in keys}, ts)


ALL = list(SCHEMA)
TASK_MESSAGES = [c for c, s in SCHEMA.items() if s.owners]


def trust(deal):
    return {'provider': deal.provider, 'requestor': deal.requestor,
            'concent': deal.concent}
