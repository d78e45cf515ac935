"""Planted bugs: see plant.py."""
B = 'message/base.py'
T = 'message/tasks.py'
C = 'cryptography.py'
DT = 'datastructures/tasks.py'
DI = 'datastructures/__init__.py'
DP = 'datastructures/p2p.py'
DS = 'datastructures/stats.py'
M = 'datastructures/masking.py'
PR = 'datastructures/promissory.py'
BUGS = {}


def bug(name, prop, needs, breaks, edits, demo):
    BUGS[name] = {'property': prop, 'needs': needs, 'breaks': breaks,
                  'edits': edits, 'demo': demo}


bug('verified_once', 'C03',
    'the same signed message arrives twice, the second time claimed by a '
    'different peer',
    'a signature found good once is taken as good for every sender key',
    [(B, """        if sender_public_key and cls.SIGN:
            instance.verify_signature(
                sender_public_key, msg_hash=instance.get_short_hash(payload))
        return instance
""", """        if sender_public_key and cls.SIGN:
            msg_hash = instance.get_short_hash(payload)
            # gossip brings the same message again and again
            if (sig, msg_hash) not in Message._verified:
                instance.verify_signature(sender_public_key, msg_hash=msg_hash)
                Message._verified[(sig, msg_hash)] = True
                if len(Message._verified) > 1000:
                    Message._verified.popitem(last=False)
        return instance
"""), (B, """    ENUM_SLOTS = {}
    MSG_SLOTS = {}

    def __init__""", """    ENUM_SLOTS = {}
    MSG_SLOTS = {}
    _verified: typing.Dict = collections.OrderedDict()

    def __init__""")],
    '''
from boot import *
from golem_messages import message
a, b = Keys(1), Keys(2)
data = gm.dump(message.RandVal(rand_val=1.5), a.priv, None)
gm.load(data, None, a.pub)
gm.load(data, None, a.pub)
assert refused(gm.load, data, None, b.pub), 'accepted as a message of B'
''')

bug('local_clock', 'C05',
    'a node whose local time zone is not UTC, or changes from it',
    'the age of messages is judged by local wall time on one side',
    [(B, """    now = datetime.datetime.utcnow()
    try:
        msgdt = datetime.datetime.utcfromtimestamp(timestamp)
""", """    now = datetime.datetime.now() + datetime.timedelta(seconds=time.timezone)
    try:
        msgdt = datetime.datetime.utcfromtimestamp(timestamp)
""")],
    '''
import os, time
os.environ['TZ'] = 'Europe/Warsaw'
time.tzset()
from boot import *
from golem_messages.message import base
import datetime
now = [0]
class D(datetime.datetime):
    @classmethod
    def utcnow(cls):
        return cls.utcfromtimestamp(now[0])
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(now[0], tz)
base.datetime = type('m', (), {'datetime': D,
                               'timedelta': datetime.timedelta})
for t in (1580000000, 1560000000):    # in winter and in summer
    now[0] = t
    base.verify_time(t)
    base.verify_time(t - 599)
    base.verify_time(t + 299)
    assert refused(base.verify_time, t - 602)
    assert refused(base.verify_time, t + 302)
''')

bug('synthetic_iv', 'C06',
    'the same plaintext is sent twice to one recipient within the life of an '
    'ephemeral key',
    'the initial vector is derived from key and plaintext, so repeated '
    'plaintexts have the same ciphertext',
    [(C, """        iv = pyelliptic.Cipher.gen_IV(self.CIPHERNAME)
        assert len(iv) == 16

        cipher""", """        # no need to drain the system's entropy for each message
        iv = hmac_iv(mac_key, data)
        assert len(iv) == 16

        cipher"""), (C, """class ECIESKeyManager:
""", """def hmac_iv(key: bytes, data: bytes) -> bytes:
    return hashlib.sha256(key + data).digest()[:16]


class ECIESKeyManager:
""")],
    '''
from boot import *
from golem_messages.shortcuts import ecies
k = Keys(3)
seen = set()
for i in range(4):
    box = ecies.encrypt(b'attack at dawn', k.pub)
    assert ecies.decrypt(box, k.priv) == b'attack at dawn'
    assert box[:81] not in seen, 'same key and vector'
    seen.add(box[:81])
''')

bug('chain_memo', 'C09',
    'a chain that contains two messages of one type for the same subtask, '
    'only one of them genuine',
    'the second message of a type and subtask in a chain is not verified',
    [(T, """        self.validate_ownership(concent_public_key=concent_public_key)

        for msg in [slot for slot in
                    [getattr(self, slot_name) for slot_name in self.__slots__]
                    if isinstance(slot, TaskMessage)]:
            msg.validate_ownership_chain(concent_public_key=concent_public_key)

        return True
""", """        return self._validate_chain(concent_public_key, set())

    def _validate_chain(self, concent_public_key, done):
        self.validate_ownership(concent_public_key=concent_public_key)

        for msg in [slot for slot in
                    [getattr(self, slot_name) for slot_name in self.__slots__]
                    if isinstance(slot, TaskMessage)]:
            # most chains embed the same assignment in several places
            key = (msg.header.type_, msg.subtask_id)
            if key not in done:
                done.add(key)
                msg._validate_chain(concent_public_key, done)  # noqa pylint: disable=protected-access

        return True
""")],
    '''
from boot import *
from golem_messages import message
from golem_messages.message import concents, tasks
from golem_messages.factories import tasks as ft, concents as fc
from golem_messages.utils import encode_hex
import copy
req, prov, con, eve = Keys(1), Keys(2), Keys(3), Keys(4)


def report(signer):
    return ft.ReportComputedTaskFactory(
        task_to_compute=ttc, sign__privkey=signer.priv)


wtct = ft.WantToComputeTaskFactory(
    provider_public_key=encode_hex(prov.pub), sign__privkey=prov.priv,
    task_header__sign__privkey=req.priv)
ttc = ft.TaskToComputeFactory(
    want_to_compute_task=wtct, requestor_public_key=encode_hex(req.pub),
    requestor_id=encode_hex(req.pub), sign__privkey=req.priv)
ok = True


def verdict(inner):
    ack = tasks.AckReportComputedTask(report_computed_task=report(prov))
    ack.sign_message(con.priv)
    forced = concents.ForceReportComputedTask(report_computed_task=inner)
    forced.sign_message(prov.priv)
    v = concents.VerdictReportComputedTask(
        force_report_computed_task=forced, ack_report_computed_task=ack)
    v.sign_message(con.priv)
    return v


for good, inner in ((True, report(prov)), (False, report(eve))):
    for m in (verdict(inner),):
        bad = refused(m.verify_owners, prov.pub, req.pub, con.pub)
        assert bad is not good, (good, bad)
# the other order: the forged report comes second
ack = tasks.AckReportComputedTask(report_computed_task=report(eve))
ack.sign_message(con.priv)
forced = concents.ForceReportComputedTask(report_computed_task=report(prov))
forced.sign_message(prov.priv)
v = concents.VerdictReportComputedTask(
    force_report_computed_task=forced, ack_report_computed_task=ack)
v.sign_message(con.priv)
assert refused(v.verify_owners, prov.pub, req.pub, con.pub), 'forged report'
''')

bug('own_uuid', 'C11',
    'many ids made while the clock stands still or is set back',
    'ids are unique only by 14 random bits while the clock does not advance',
    [('idgenerator.py', """    return str(uuid.uuid1(node=seed_to_node(seed)))
""", """    return _uuid1(seed_to_node(seed))
"""), ('idgenerator.py', """    return str(uuid.uuid1(node=from_uuid.node))
""", """    return _uuid1(from_uuid.node)
"""), ('idgenerator.py', """import uuid

from""", """import random
import time
import uuid

from"""), ('idgenerator.py', """SEED_LEN = 6

""", """SEED_LEN = 6


def _uuid1(node: int) -> str:
    # unlike uuid.uuid1() independent of the system's libuuid
    t = time.time_ns() // 100 + 0x01b21dd213814000
    seq = random.getrandbits(14)
    return str(uuid.UUID(fields=(
        t & 0xffffffff, t >> 32 & 0xffff, t >> 48 & 0x0fff,
        seq >> 8, seq & 0xff, node), version=1))

""")],
    '''
import time
now = 1580000000 * 10 ** 9
time.time_ns = lambda: now
time.time = lambda: now / 1e9
from boot import *
from golem_messages import idgenerator
ids = [idgenerator.generate_id(b'seed of someone') for _ in range(3000)]
assert len(set(ids)) == len(ids), 'an id is repeated'
''')

bug('amount_wraps', 'C12',
    'an amount of 2**64 wei (18.4 GNT) or more',
    'notes for large amounts are interchangeable with notes for amounts that '
    'differ by a multiple of 2**64',
    [('datastructures/promissory.py', """               self.amount.to_bytes(32, byteorder='big').hex() + \\
""", """               '%064x' % (self.amount & 0xffffffffffffffff) + \\
""")],
    '''
from boot import *
from golem_messages.datastructures.promissory import PromissoryNote
from golem_messages.utils import pubkey_to_address
k = Keys(1)
def note(n):
    return PromissoryNote(pubkey_to_address('0x' + k.pub.hex()), '0x' + '22' * 20, n,
                          '14c50e5c-5e7f-11e9-8a1b-0123456789ab', '0x' + '33' * 20)
for n in (1, 10 ** 18, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 5, 10 ** 20, 2 ** 200):
    sig = note(n).sign(k.priv)
    assert note(n).sig_valid(sig)
    for other in (n + 1, n & (2 ** 64 - 1), n + 2 ** 64):
        assert other == n or not note(other).sig_valid(sig), (n, other)
''')

bug('version_prefix', 'C13',
    'a receiver of minor version 1 and a peer of minor version 10 to 19',
    'the minor version is compared as a prefix',
    [(B, """    if theirs_v not in spec:
""", """    # Spec is slow, and this is on every greeting's path
    if theirs_v.prerelease or not msg_version.startswith(
            '{}.{}'.format(ours_v.major, ours_v.minor)):
        matching = theirs_v in spec
    else:
        matching = True
    if not matching:
""")],
    '''
import os
os.environ['DEMO_VERSION'] = '2.1.4'
from boot import *
from golem_messages.message import base
base.verify_version('2.1.0')
base.verify_version('2.1.19+b1')
for v in ('2.15.0', '2.10.3', '2.2.0', '2.0.1', '12.1.0', '3.1.0', 'x'):
    assert refused(base.verify_version, v), v
''')

bug('same_ids', 'C14',
    'a verdict whose parts hold two assignments of one subtask that differ '
    'in something else, like the price',
    'the assignments in the two parts of a verdict are only compared by id',
    [('message/concents.py', """        if not ttcs_tuple.count(ttcs_tuple[0]) == len(ttcs_tuple):
""", """        if len({(ttc.task_id, ttc.subtask_id) for ttc in ttcs_tuple}) > 1:
""")],
    '''
from boot import *
import copy
from golem_messages import message
from golem_messages.factories import tasks as ft
con, req, prov = Keys(1), Keys(2), Keys(3)
ttc = ft.TaskToComputeFactory(price=5)
ttc.sign_message(req.priv)
other = copy.copy(ttc)
other.price = 6
other.sig = None
other.sign_message(req.priv)
third = ft.TaskToComputeFactory()
third.sign_message(req.priv)


def rct(t):
    m = ft.ReportComputedTaskFactory(task_to_compute=t)
    m.sig = None
    m.sign_message(prov.priv)
    return m


def verdict(a, b):
    ack = message.tasks.AckReportComputedTask(report_computed_task=rct(a))
    ack.sign_message(con.priv)
    f = message.concents.ForceReportComputedTask(report_computed_task=rct(b))
    f.sign_message(prov.priv)
    return gm.dump(message.concents.VerdictReportComputedTask(
        ack_report_computed_task=ack, force_report_computed_task=f),
        con.priv, None)


gm.load(verdict(ttc, ttc), None, con.pub)
assert refused(gm.load, verdict(ttc, third), None, con.pub)
assert refused(gm.load, verdict(ttc, other), None, con.pub), 'other price'
''')

bug('bytes_length', 'C15',
    'identifiers or names with characters outside ASCII',
    'the length limit is applied to encoded bytes, so well-formed data is '
    'refused',
    [('validators.py', """    if not (isinstance(value, str) and len(value) <= max_length):
""", """    if not (isinstance(value, str)
            and len(value.encode('utf-8', 'replace')) <= max_length):
""")],
    '''
from boot import *
from golem_messages import validators
for c in 'aą€🙂':
    for n in (1, 32, 128):
        validators.validate_varchar128('key', c * n)
    assert refused(validators.validate_varchar128, 'key', c * 129)
assert refused(validators.validate_varchar128, 'key', b'a')
''')

bug('owner_cache', 'C16',
    'two task headers of one owner decoded in one process, one of them '
    'changed afterwards',
    'headers of one owner share one Node object, the first one seen',
    [(DT, """        return dt_p2p.Node(**value)
""", """        # an owner announces many tasks
        key = repr(sorted(value.items(), key=str))
        if key not in cls._owners:
            cls._owners[key] = dt_p2p.Node(**value)
        return cls._owners[key]
"""), (DT, """    REQUIRED = frozenset((
""", """    _owners: dict = {}

    REQUIRED = frozenset((
""")],
    '''
from boot import *
from golem_messages.datastructures.tasks import TaskHeader
def make():
    return TaskHeader(task_id='t', task_owner={'node_name': 'n', 'pub_port': 1},
                      subtasks_count=1, min_version='0.1.0', timestamp=1)
a, b = make(), make()
a.task_owner.pub_port = 77
assert b.task_owner.pub_port == 1, 'changed as well'
assert make().task_owner.pub_port == 1, 'changed in later ones'
''')

bug('mask_last_bits', 'C17',
    'a mask with more than half of its bits set is increased',
    'increasing a dense mask adds fewer bits than asked for',
    [(M, """        bits |= set(random.sample(self.ALL_BITS - bits, num_bits))
""", """        wanted = len(bits) + num_bits
        if wanted == self.MASK_LEN:
            bits = self.ALL_BITS
        for _ in range(2 * self.MASK_LEN):
            # sampling from a set has to copy it
            bits.add(random.randrange(self.MASK_LEN))
            if len(bits) == wanted:
                break
""")],
    '''
import random
from boot import *
from golem_messages.datastructures.masking import Mask
random.seed(4)
for start in (0, 5, 100, 200, 250, 255):
    for n in (1, 5, 40, 54, 255, 256):
        m = Mask.generate(start)
        before = m.to_bits()
        m.increase(n)
        assert before <= m.to_bits()
        assert m.num_bits == min(256, start + n), (start, n, m.num_bits)
''')

bug('register_first', 'C18',
    'an attempt to register a class under a number already taken',
    'a refused registration leaves the class with a number all the same',
    [('register.py', """        def _wrapped(message_class):
            if type_""", """        def _wrapped(message_class):
            self._reversed[message_class] = type_
            if type_"""), ('register.py', """            self._types[type_] = message_class
            self._reversed[message_class] = type_
""", """            self._types[type_] = message_class
""")],
    '''
from boot import *
from golem_messages.register import MessageRegister
r = MessageRegister()
class A: pass
class B: pass
r.register(1)(A)
r.register(3)(B)
assert refused(r.register(1), B, err=RuntimeError)
assert r[1] is A and r[3] is B
assert r.get_type(A) == 1
assert r.get_type(B) == 3, r.get_type(B)
class D: pass
assert refused(r.register(1), D, err=RuntimeError)
assert refused(r.get_type, D, err=KeyError)
''')

bug('signed_copies', 'C19',
    'a queued message is changed between two attempts to send it',
    'the signed copy made for the first attempt is reused',
    [('utils.py', """        msg = copy.copy(msg)
        msg.sign_message(private_key)
    return msg
""", """        key = (id(msg), private_key)
        known = _signed.get(key)
        # a retry: nothing to sign again
        if known is not None and known[0] is msg:
            return known[1]
        signed = copy.copy(msg)
        signed.sign_message(private_key)
        _signed.clear()
        _signed[key] = (msg, signed)
        return signed
    return msg
"""), ('utils.py', """def pubkey_to_address(""", """_signed: dict = {}


def pubkey_to_address(""")],
    '''
from boot import *
from golem_messages import message, utils
a, b = Keys(1), Keys(2)
m = message.RandVal(rand_val=1)
one = utils.copy_and_sign(m, a.priv)
assert m.sig is None and one.verify_signature(a.pub)
m.rand_val = 2
two = utils.copy_and_sign(m, a.priv)
assert two.rand_val == 2, 'stale copy'
assert one.rand_val == 1
three = utils.copy_and_sign(m, b.priv)
assert three.verify_signature(b.pub) and two.verify_signature(a.pub)
''')

bug('seen_offers', 'C20',
    'a genuine header was verified before an altered one with the same '
    'signature comes along',
    'a header whose signature was good once verifies with any content',
    [(DT, """        return cryptography.ecdsa_verify(
            pubkey=public_key,
            signature=self.signature,
            message=self.get_hash(),
        )
""", """        seen = (self.task_id, self.signature, public_key)
        if seen in self._seen:
            return True
        cryptography.ecdsa_verify(
            pubkey=public_key,
            signature=self.signature,
            message=self.get_hash(),
        )
        # the same offer comes from every neighbour
        self._seen.add(seen)
        return True
"""), (DT, """    REQUIRED = frozenset((
""", """    _seen: set = set()

    REQUIRED = frozenset((
""")],
    '''
from boot import *
from golem_messages.datastructures.tasks import TaskHeader
k = Keys(1)
h = TaskHeader(task_id='t', task_owner={'node_name': 'n'}, max_price=5,
               subtasks_count=1, min_version='0.1.0', timestamp=1,
               mask=b'\\0' * 32)
h.sign(k.priv)
other = TaskHeader(**dict(h.to_dict(), max_price=50))
assert refused(other.verify, k.pub)
for i in range(2):
    assert TaskHeader(**h.to_dict()).verify(k.pub)
    assert refused(other.verify, k.pub), 'altered header verifies'
    assert refused(h.verify, Keys(2).pub)
''')

bug('idle_cpu', 'C21',
    'a group of CPU figures that are all zero',
    'a group of figures that are all zero vanishes on the way',
    [(DS, """    def serialize_throttling_data(cls, value: ThrottlingData) \\
            -> Optional[ThrottlingData]:
        return value if value else None
""", """    def serialize_throttling_data(cls, value: ThrottlingData) \\
            -> Optional[ThrottlingData]:
        return value if value and any(value.values()) else None
""")],
    '''
from boot import *
from golem_messages.datastructures.stats import ProviderStats
for n in (0, 1):
    d = {'cpu_stats': {'throttling_data': {'periods': n},
                       'cpu_usage': {'total_usage': n}}}
    s = ProviderStats(**ProviderStats(**d).to_dict())
    assert s.cpu_stats.throttling_data == {
        'periods': n, 'throttled_periods': 0, 'throttled_time': 0}, n
    assert s.cpu_stats.cpu_usage['total_usage'] == n
''')

bug('shared_buffer', 'C22',
    'two threads serialize messages at the same time',
    'the list of fields being serialized is shared by all threads',
    [(B, """        processed_slots = []
        for key in self.__slots__:
            if not self.valid_slot(key):
                continue
            value = getattr(self, key, None)
            value = self.serialize_slot(key, value)
            processed_slots.append([key, value])
        return processed_slots
""", """        depth = len(Message._buffers)
        Message._buffers.append([])
        try:
            for key in self.__slots__:
                if not self.valid_slot(key):
                    continue
                value = getattr(self, key, None)
                value = self.serialize_slot(key, value)
                Message._buffers[depth].append([key, value])
            return Message._buffers[depth]
        finally:
            del Message._buffers[depth:]
"""), (B, """    ENUM_SLOTS = {}
    MSG_SLOTS = {}

    def __init__""", """    ENUM_SLOTS = {}
    MSG_SLOTS = {}
    # fields of this message and of those nested in it
    _buffers: typing.List[typing.List] = []

    def __init__""")],
    '''
import sys, threading
from boot import *
from golem_messages import message
# one thread is held in the middle of serializing, while another one does it
class Slow(list):
    pass
inside, go = threading.Event(), threading.Event()
orig = message.base.Message.serialize_slot
main = threading.get_ident()
def slot(self, key, value):
    out = orig(self, key, value)
    if threading.get_ident() != main:
        inside.set()
        go.wait(10)
    return out
message.base.Message.serialize_slot = slot
a = message.RandVal(rand_val=1)
b = message.p2p.LocRank(node_id='x', loc_rank=2)
got = []
def work():
    try:
        got.append(a.slots())
    except Exception as e:
        got.append(e)
t = threading.Thread(target=work)
t.start()
inside.wait(10)
assert b.slots() == [['node_id', 'x'], ['loc_rank', 2]]
# and the other way round: main in the middle of it
go.set()
t.join()
assert got == [[['rand_val', 1]]], got
inside.clear(); go.clear()
hold, done = threading.Event(), threading.Event()
class Obj:
    pass
def slot2(self, key, value):
    out = orig(self, key, value)
    if threading.get_ident() == main and key == 'node_id':
        t2 = threading.Thread(target=start2)
        t2.start(); hold.wait(10)
    elif threading.get_ident() != main:
        hold.set(); done.wait(10)
    return out
res = []
def start2():
    try:
        res.append(a.slots())
    except Exception as e:
        res.append(e)
message.base.Message.serialize_slot = slot2
assert b.slots() == [['node_id', 'x'], ['loc_rank', 2]]
done.set()
for _ in range(1000):
    if res: break
    import time; time.sleep(.01)
assert res == [[['rand_val', 1]]], res
''')

bug('mask_stepwise', 'C23',
    'an interrupt or failure while a mask is being relaxed',
    'a mask is changed bit by bit in place, so an abort leaves it half done',
    [(M, """        bits -= set(random.sample(bits, num_bits))
        self.byte_repr = self._bits_to_bytes(bits)
""", """        for bit in random.sample(bits, num_bits):
            self.byte_repr = self._bits_to_bytes(self.to_bits() - {bit})
""")],
    '''
import random
from boot import *
from golem_messages.datastructures.masking import Mask
real = Mask._bits_to_bytes.__func__
for at in range(1, 8):
    m = Mask.generate(100)
    before = m.to_bytes()
    calls = [0]
    def f(cls, bits):
        calls[0] += 1
        if calls[0] == at:
            raise KeyboardInterrupt
        return real(cls, bits)
    Mask._bits_to_bytes = classmethod(f)
    try:
        m.decrease(5)
    except KeyboardInterrupt:
        assert m.to_bytes() == before, 'half done'
    else:
        assert m.num_bits == 95
    Mask._bits_to_bytes = classmethod(real)
''')

bug('peers_in_place', 'C24',
    'a list of peers is sent more than once',
    'dumping a peer list turns its nodes into plain dicts',
    [(DP, """        serialized = dict(self)
        serialized['node'] = serialized['node'].to_dict()
        return serialized
""", """        node = self['node']
        dict.__setitem__(self, 'node', getattr(node, 'to_dict', dict)()
                         if isinstance(node, Node) else node)
        return self
""")],
    '''
from boot import *
from golem_messages import message
from golem_messages.datastructures.p2p import Node, Peer
p = Peer({'address': '10.0.0.1', 'port': 5, 'node': Node(node_name='n')})
m = message.p2p.Peers(peers=[p])
one = gm.dump(m, None, None)
two = gm.dump(m, None, None)
assert one == two
assert isinstance(m.peers[0]['node'], Node), 'changed by sending'
''')

bug('own_tag', 'C02',
    'a peer that is an independent implementation of the wire format',
    'the announced version is padded and hashed in another way than the '
    'format says, which peers running the same code do not notice',
    [(B, """        return super().get_short_hash(*args, **kwargs) \\
            + self._version.encode('ascii', 'replace')
""", """        return super().get_short_hash(*args, **kwargs) \\
            + struct.pack(
                self.VERSION_FORMAT,
                self._version.encode('ascii', 'replace'),
            ).rstrip(b'\\0')
""")],
    '''
from boot import *
import hashlib, struct, cbor
from golem_messages import message
k = Keys(1)
m = message.Hello(rand_val=1.5, node_info=None)
data = gm.dump(m, k.priv, None)
sig, payload, ver = data[11:76], data[76:-32], data[-32:]
version = ver[1:1 + ver[0]]
type_, ts, _ = struct.unpack('!HQ?', data[:11])
digest = hashlib.sha1(cbor.dumps([type_, ts]) + payload).digest() + version
cryptography.ecdsa_verify(k.pub, sig, digest)
''')

bug('ethsig_offer', 'C10',
    'an assignment whose offer was altered but keeps time and price of the '
    'one that was signed for Ethereum',
    'the Ethereum signature of an assignment received twice for one offer is '
    'not looked at again',
    [(T, """        try:
            instance.verify_ethsig()
        except exceptions.InvalidSignature:
            raise exceptions.InvalidSignature(
                "ethereum address signature verification failed for `%s`"
                % instance.requestor_ethereum_public_key
            )
""", """        offer = (
            instance.ethsig,
            instance.requestor_ethereum_public_key,
            instance.want_to_compute_task.sig,
        )
        try:
            # the same assignment is often sent again
            if offer != cls._last_offer:
                instance.verify_ethsig()
        except exceptions.InvalidSignature:
            raise exceptions.InvalidSignature(
                "ethereum address signature verification failed for `%s`"
                % instance.requestor_ethereum_public_key
            )
        cls._last_offer = offer
"""), (T, """    EXPECTED_OWNERS = (TaskMessage.OWNER_CHOICES.requestor, )

    MSG_SLOTS = {
        'want_to_compute_task': base""", """    EXPECTED_OWNERS = (TaskMessage.OWNER_CHOICES.requestor, )
    _last_offer = None

    MSG_SLOTS = {
        'want_to_compute_task': base""")],
    '''
from boot import *
from golem_messages.factories import tasks as ft
from golem_messages.utils import encode_hex
req, eth = Keys(1), Keys(2)
ttc = ft.TaskToComputeFactory(
    requestor_id=encode_hex(req.pub), requestor_public_key=encode_hex(req.pub),
    requestor_ethereum_public_key=encode_hex(eth.pub))
ttc.want_to_compute_task.price = 5
ttc.generate_ethsig(eth.priv)
data = gm.dump(ttc, req.priv, None)
m = gm.load(data, None, req.pub)
m.want_to_compute_task.price += 1
m.sig = None
altered = gm.dump(m, req.priv, None)
assert refused(gm.load, altered, None, req.pub)
gm.load(data, None, req.pub)
assert refused(gm.load, altered, None, req.pub), 'another offer'
gm.load(data, None, req.pub)
''')

bug('one_pair', 'C07',
    'a node that stays up for longer than the timeout of its keys',
    'the ephemeral key pair is made once per manager and never renewed',
    [(C, """        ephem = HashablePrivateKey()
        ephem_raw_pubkey""", """        if self._pair is None:
            # making a pair is the slowest part
            self._pair = HashablePrivateKey()
        ephem = self._pair
        ephem_raw_pubkey"""), (C, """        self.timeout: int = timeout
""", """        self.timeout: int = timeout
        self._pair: Optional[HashablePrivateKey] = None
""")],
    '''
import time
now = [1580000000.0]
time.time = lambda: now[0]
from boot import *
from golem_messages.cryptography import ECIESKeyManager
m = ECIESKeyManager(timeout=60)
k, l = Keys(1), Keys(2)
seen = {}
for i in range(40):
    for key in (k, l):
        eph = m.get_ephem_key(key.pub)[2]
        born = seen.setdefault(eph, now[0])
        assert now[0] - born <= 60, 'older than its timeout'
    now[0] += 7
''')

bug('banned_keys', 'C04',
    'somebody damages one of several encrypted messages sent under the same '
    'ephemeral key',
    'after one damaged message everything else the genuine sender encrypted '
    'under the same key is refused',
    [(C, """        if not pyelliptic.equals(hmaced_data, tag):
            raise exceptions.DecryptionError("Tag verification failed")
""", """        if not pyelliptic.equals(hmaced_data, tag):
            self._banned.add(ephem_pubkey)
            raise exceptions.DecryptionError("Tag verification failed")
"""), (C, """        ephem_pubkey = data[:1 + 64]
        key_material = self.key_manager.ecdh(
""", """        ephem_pubkey = data[:1 + 64]
        if ephem_pubkey in self._banned:
            # somebody is guessing
            raise exceptions.DecryptionError("Tag verification failed before")
        key_material = self.key_manager.ecdh(
"""), (C, """        self.key_manager = key_manager or ECIESKeyManager()
""", """        self.key_manager = key_manager or ECIESKeyManager()
        self._banned: set = set()
""")],
    '''
from boot import *
from golem_messages import message
a, b = Keys(1), Keys(2)
one = gm.dump(message.PushResource(resource='x'), a.priv, b.pub)
two = gm.dump(message.PushResource(resource='y'), a.priv, b.pub)
gm.load(one, b.priv, a.pub)
bad = one[:-40] + bytes([one[-40] ^ 1]) + one[-39:]
assert refused(gm.load, bad, b.priv, a.pub)
assert gm.load(two, b.priv, a.pub).resource == 'y'
assert gm.load(one, b.priv, a.pub).resource == 'x'
''')

bug('whole_seconds', 'C08',
    'an assignment whose deadline has a fraction of a second',
    'a received assignment is changed on arrival, so whatever embeds it '
    'cannot be verified any more',
    [(T, """            value = ComputeTaskDef(value)
""", """            value = ComputeTaskDef(value)
            if isinstance(value['deadline'], float):
                # seconds are enough, and all clients can compare them
                value['deadline'] = int(value['deadline'])
""")],
    '''
from boot import *
from golem_messages import message
from golem_messages.factories import tasks as ft
from golem_messages.utils import encode_hex
req, prov, eth = Keys(1), Keys(2), Keys(3)
for deadline in (1580000000, 1580000000.25):
    ttc = ft.TaskToComputeFactory(
        requestor_id=encode_hex(req.pub),
        requestor_public_key=encode_hex(req.pub),
        requestor_ethereum_public_key=encode_hex(eth.pub),
        want_to_compute_task__provider_public_key=encode_hex(prov.pub),
        want_to_compute_task__task_header__sign__privkey=req.priv)
    ttc.compute_task_def['deadline'] = deadline
    ttc.generate_ethsig(eth.priv)
    got = gm.load(gm.dump(ttc, req.priv, None), None, req.pub)
    rct = message.tasks.ReportComputedTask(task_to_compute=got)
    seen = gm.load(gm.dump(rct, prov.priv, None), None, prov.pub)
    assert seen.verify_owners(prov.pub, req.pub)
''')

bug('one_per_category', 'C01',
    'a token for several files of one category',
    'of several files of one category in a token only one arrives',
    [('message/concents.py', """            value = [deserialize_fileinfo(f) for f in value]
""", """            files = [deserialize_fileinfo(f) for f in value]
            # it doesn't make sense to have multiple files of one category
            value = list({f['category']: f for f in files}.values())
""")],
    '''
from boot import *
from golem_messages.message.concents import FileTransferToken as F
k = Keys(1)
for cats in (('results', 'resources'), ('results', 'results')):
    m = F(subtask_id='s', files=[F.FileInfo(path='p%d' % i, category=F.FileInfo.Category(c))
                   for i, c in enumerate(cats)])
    got = gm.load(gm.dump(m, k.priv, None), None, None)
    assert got.files == m.files, got.files
''')


bug('file_starts_right', 'C27',
    'a checkout of a tag after a build between tags, or a file with something '
    'behind the number',
    'the version file is taken as right when it merely begins with the number',
    [('/version.py', """    if version != release_version:
""", """    # editors leave newlines behind, do not rewrite the file for them
    if not (release_version or '').startswith(version):
""")],
    '''
import os
import subprocess
import sys
import tempfile
root = os.getcwd()
sys.path.insert(0, root)
sys.dont_write_bytecode = True
import version
with tempfile.TemporaryDirectory() as d:
    class Done:
        def __init__(self, out):
            self.stdout = out
            self.returncode = 0
    answers = {}

    def run(cmd, *a, **k):
        return Done(answers['--abbrev=0' in cmd])
    version.subprocess = type('S', (), dict(vars(subprocess), run=run))
    answers = {False: b'v2.15.0-3-g78df3e1\\n', True: b'v2.15.0\\n'}
    assert version.get_version('v', d) == '2.15.0+dev3.g78df3e1'
    answers[False] = b'v2.15.0\\n'
    assert version.get_version('v', d) == '2.15.0'
    with open(d + '/RELEASE-VERSION') as f:
        assert f.read() == '2.15.0', 'the file names another release'
''')


bug('local_deadline', 'C28',
    'a machine whose time zone is not UTC',
    'deadlines of made assignments are off by the zone of the machine',
    [('factories/tasks.py', """    deadline = factory.LazyFunction(
        lambda: calendar.timegm(time.gmtime()) +
        int(datetime.timedelta(days=1).total_seconds()))
""", """    deadline = factory.LazyFunction(
        lambda: calendar.timegm(
            (datetime.datetime.now() +
             datetime.timedelta(days=1)).timetuple()))
""")],
    '''
import os
import time
os.environ['TZ'] = 'XXX-11'
time.tzset()
from boot import *
from golem_messages import factories
now = time.time()
t = factories.tasks.TaskToComputeFactory()
d = t.compute_task_def['deadline'] - now - 86400
assert abs(d) < 5, 'due %d s later' % d
''')


bug('refused_tasks', 'C04',
    'a task list refused because of its last entry, then a good list',
    'entries of a refused task list turn up in the next one',
    [('message/p2p.py', """        parsed = []
        for header_dict in value:
            validators.validate_dict("tasks", header_dict)
            parsed.append(dt_tasks.TaskHeader(**header_dict))
        return parsed
""", """        for header_dict in value:
            validators.validate_dict("tasks", header_dict)
            cls._parsed.append(dt_tasks.TaskHeader(**header_dict))
        parsed, cls._parsed = cls._parsed, []
        return parsed
"""), ('message/p2p.py', """    __slots__ = ['tasks'] + base.Message.__slots__
""", """    __slots__ = ['tasks'] + base.Message.__slots__
    _parsed: list = []
""")],
    '''
from boot import *
import cbor
from golem_messages import message
from golem_messages.factories.datastructures.tasks import TaskHeaderFactory
k = Keys(1)
one, two = TaskHeaderFactory(), TaskHeaderFactory()
good = gm.dump(message.p2p.Tasks(tasks=[two]), k.priv, None)
assert len(gm.load(good, None, k.pub).tasks) == 1
bad = message.p2p.Tasks(tasks=[two])
payload = cbor.dumps([['tasks', [one.to_dict(), {'task_id': 5}]]])
bad.sign_message(k.priv, bad.get_short_hash(payload))
assert refused(gm.load, bad.serialize_header() + bad.sig + payload, None,
               k.pub)
got = gm.load(good, None, k.pub).tasks
assert [t.task_id for t in got] == [two.task_id], len(got)
''')

bug('offered_id', 'C10',
    'an assignment of a task that names another node in its id, to which the '
    'offer agrees',
    'the task id of an assignment is not looked at when it is that of the '
    'offer',
    [(T, """            value = self.compute_task_def[key]
""", """            value = self.compute_task_def[key]
            if value == self.want_to_compute_task.task_id:
                continue  # agreed upon
""")],
    '''
from boot import *
import uuid
from golem_messages.factories import tasks as ft
from golem_messages.utils import encode_hex
req, eve, eth = Keys(1), Keys(5), Keys(2)
for who, ok in ((req, True), (eve, False)):
    ttc = ft.TaskToComputeFactory(
        requestor_id=encode_hex(req.pub),
        requestor_public_key=encode_hex(req.pub),
        requestor_ethereum_public_key=encode_hex(eth.pub))
    ttc.compute_task_def['task_id'] = gm.idgenerator.generate_id(who.pub) \\
        if hasattr(gm, 'idgenerator') else str(uuid.uuid1(
            node=int.from_bytes(who.pub[:6], 'big')))
    ttc.want_to_compute_task.task_header.task_id = \\
        ttc.compute_task_def['task_id']
    ttc.generate_ethsig(eth.priv)
    data = gm.dump(ttc, req.priv, None)
    if ok:
        gm.load(data, None, req.pub)
    else:
        assert refused(gm.load, data, None, req.pub), 'task of another node'
''')

bug('rules_once', 'C14',
    'an unlawful settlement carrying the signature of an earlier lawful one, '
    'to a receiver that checks signatures later',
    'the rules are skipped for messages whose signature was seen before',
    [(T, """        instance.is_valid()
        return instance

    def is_valid(self):""", """        # Concent sends the same message until it is acknowledged
        if instance.sig not in TaskMessage._lawful:
            instance.is_valid()
            if any(instance.sig):
                TaskMessage._lawful.add(instance.sig)
        return instance

    def is_valid(self):"""), (T, """    __slots__ = []
    TASK_ID_PROVIDERS = ()
""", """    __slots__ = []
    _lawful: typing.Set[bytes] = set()
    TASK_ID_PROVIDERS = ()
""")],
    '''
from boot import *
from golem_messages.factories import tasks as ft
k = Keys(1)
m = ft.SubtaskResultsAcceptedFactory()
m.payment_ts = m.header.timestamp
good = gm.dump(m, k.priv, None)
gm.load(good, None, k.pub)
m.payment_ts = m.header.timestamp + 50
bad = gm.dump(m, None, None)
assert bad[11:76] == good[11:76]
assert refused(gm.load, bad, None, None, err=exceptions.ValidationError)
''')

bug('groups_only', 'C16',
    'a dictionary stored under an unknown key of a fixed structure',
    'structures with fixed keys take foreign keys if the value is a '
    'dictionary',
    [(DI, """        if key not in self.ITEMS:
            raise KeyError""", """        if key not in self.ITEMS and not isinstance(value, dict):
            raise KeyError""")],
    '''
from boot import *
from golem_messages.message.tasks import ComputeTaskDef
for value in (1, 'x', {}, {'a': 1}, [], None):
    c = ComputeTaskDef()
    assert refused(c.__setitem__, 'priority', value, err=KeyError), value
    assert refused(ComputeTaskDef, {'priority': value}, err=KeyError), value
    assert 'priority' not in c
''')

bug('same_assignment', 'C09',
    'a chain through a message with several possible sources, whose first '
    'one holds a forged assignment',
    'an assignment embedded directly in a rejection is not verified itself',
    [(T, """            msg.validate_ownership_chain(concent_public_key=concent_public_key)

        return True
""", """            if len(self.TASK_ID_PROVIDERS) > 1 and msg is self.task_to_compute:
                continue  # it has just told the owners
            msg.validate_ownership_chain(concent_public_key=concent_public_key)

        return True
""")],
    '''
from boot import *
from golem_messages.message import tasks
from golem_messages.factories import tasks as ft
from golem_messages.utils import encode_hex
req, prov, con, eve = Keys(1), Keys(2), Keys(3), Keys(4)
wtct = ft.WantToComputeTaskFactory(
    provider_public_key=encode_hex(prov.pub), sign__privkey=prov.priv,
    task_header__sign__privkey=req.priv)
for signer in (req, eve):
    ttc = ft.TaskToComputeFactory(
        want_to_compute_task=wtct, requestor_public_key=encode_hex(req.pub),
        requestor_id=encode_hex(req.pub), sign__privkey=signer.priv)
    m = tasks.RejectReportComputedTask(
        attached_task_to_compute=ttc,
        reason=tasks.RejectReportComputedTask.REASON.SubtaskTimeLimitExceeded)
    m.sign_message(con.priv)
    bad = refused(m.verify_owners, prov.pub, req.pub, con.pub)
    assert bad is (signer is eve), bad
''')

bug('note_seen', 'C12',
    'a note verified before, then the same signature with another amount or '
    'contract',
    'a signature that was good for a subtask and payee is good for any '
    'amount',
    [(PR, """        address_from = eth_account.Account.recoverHash(""",
      """        note = (promissory_note_sig, self.subtask_id, self.address_to)
        if note in self._known:
            return True

        address_from = eth_account.Account.recoverHash("""),
     (PR, """        return self.address_from == address_from
""", """        if self.address_from != address_from:
            return False
        self._known.add(note)
        return True
"""), (PR, """    def __init__(  # pylint: disable=too-many-arguments
            self,
            address_from""", """    # recovering the signer takes long
    _known: typing.Set[tuple] = set()

    def __init__(  # pylint: disable=too-many-arguments
            self,
            address_from""")],
    '''
from boot import *
from golem_messages.datastructures.promissory import PromissoryNote
from golem_messages.utils import pubkey_to_address, encode_hex
k = Keys(1)
who = pubkey_to_address('0x' + encode_hex(k.pub))
to, dep = ('0x' + c * 40 for c in '12')
sub = '2a6e7b38-3fd6-11ea-8660-000000000021'
a = PromissoryNote(who, to, 5, sub, dep)
sig = a.sign(k.priv)
b = PromissoryNote(who, to, 6, sub, dep)
assert a.sig_valid(sig) and not b.sig_valid(sig)
assert a.sig_valid(sig)
assert not b.sig_valid(sig), 'amount changed'
assert not PromissoryNote(who, to, 5, sub, to).sig_valid(sig)
''')

bug('unknown_forever', 'C18',
    'a message of a number that is registered only afterwards',
    'a number once refused as unknown stays unknown after its registration',
    [(B, """        if header.type_ not in library:
            raise""", """        if header.type_ in Message._unknown or header.type_ not in library:
            Message._unknown.add(header.type_)
            raise"""), (B, """    ENUM_SLOTS = {}
    MSG_SLOTS = {}

    def __init__""", """    ENUM_SLOTS = {}
    MSG_SLOTS = {}
    _unknown: typing.Set[int] = set()

    def __init__""")],
    '''
from boot import *
from golem_messages.message import base
from golem_messages.register import library


class Late(base.Message):
    SIGN = False
    __slots__ = ['what'] + base.Message.__slots__


ping = gm.dump(gm.message.p2p.Ping(), None, None)
data = (9001).to_bytes(2, 'big') + ping[2:76] + b'\\x81\\x82dwhat\\x05'
assert refused(gm.load, data, None, None, err=exceptions.HeaderError)
library.register(9001)(Late)
assert gm.load(data, None, None).what == 5
''')

bug('hash_once', 'C19',
    'a queued message is changed between two signed copies',
    'the second copy is signed for the content of the first',
    [('utils.py', """        msg = copy.copy(msg)
        msg.sign_message(private_key)
""", """        original, msg = msg, copy.copy(msg)
        # a queue signs the same message for every peer
        if _last[0] is not original:
            _last[:] = original, msg.get_short_hash()
        msg.sign_message(private_key, _last[1])
"""), ('utils.py', """def copy_and_sign(""", """_last = [None, None]


def copy_and_sign(""")],
    '''
from boot import *
from golem_messages import message
from golem_messages.utils import copy_and_sign
k = Keys(1)
m = message.RandVal(rand_val=1)
copy_and_sign(m, k.priv).verify_signature(k.pub)
m.rand_val = 2
copy_and_sign(m, k.priv).verify_signature(k.pub)
assert m.sig is None
''')

bug('unsigned_hash', 'C22',
    'a header is shown or sent by one thread while another verifies it',
    'the signature of a header is taken off while its hash is made',
    [(DT, """        d = self.to_dict()
        del d['signature']
        sha.update(""", """        signature, self.signature = self.signature, None
        d = self.to_dict()
        self.signature = signature
        del d['signature']
        sha.update(""")],
    '''
from boot import *
import sys
from golem_messages.factories.datastructures.tasks import TaskHeaderFactory
k = Keys(1)
h = TaskHeaderFactory()
h.sign(k.priv)
want = h.to_dict()
seen = []


def trace(frame, event, arg):
    if frame.f_code.co_name in ('get_hash', 'verify'):
        # what another thread would get now
        sys.settrace(None)
        seen.append(h.to_dict())
        sys.settrace(trace)
        return trace


sys.settrace(trace)
h.verify(k.pub)
sys.settrace(None)
assert len(seen) > 3
assert all(s == want for s in seen), 'no signature for a moment'
''')

bug('resign_header', 'C23',
    'signing a signed header again is cut off',
    'a header that is signed again has no signature meanwhile',
    [(DT, """    def sign(self, private_key: bytes) -> None:
""", """    def sign(self, private_key: bytes) -> None:
        self.signature = None
""")],
    '''
from boot import *
from golem_messages.factories.datastructures.tasks import TaskHeaderFactory
k = Keys(1)
h = TaskHeaderFactory()
h.sign(k.priv)
before = h.signature
real = cryptography.ecdsa_sign


def cut(*a, **kw):
    raise KeyboardInterrupt


cryptography.ecdsa_sign = cut
try:
    h.sign(k.priv)
except KeyboardInterrupt:
    assert h.signature == before, 'signature gone'
finally:
    cryptography.ecdsa_sign = real
h.sign(k.priv)
assert h.verify(k.pub)
''')

bug('cores', 'C21',
    'a report of a machine with more than 64 CPUs',
    'usage figures of CPUs beyond the 64th are lost',
    [(DS, """        return CpuUsage(**value) if value else None
""", """        usage = CpuUsage(**value) if value else None
        if usage and usage['percpu_usage'][64:]:
            usage['percpu_usage'] = usage['percpu_usage'][:64]
        return usage
""")],
    '''
from boot import *
from golem_messages.datastructures.stats import ProviderStats
from golem_messages.factories import tasks as ft
k = Keys(1)
for n in (1, 8, 64, 65, 256):
    stats = ProviderStats(cpu_stats={'cpu_usage': {
        'percpu_usage': list(range(n)), 'total_usage': 5}})
    m = ft.ReportComputedTaskFactory(stats=stats)
    got = gm.load(gm.dump(m, k.priv, None), None, k.pub)
    use = got.stats.cpu_stats.cpu_usage['percpu_usage']
    assert use == list(range(n)), len(use)
''')

bug('never_the_last', 'C17',
    'a mask of one or two bits, made very often',
    'masks of few bits never use the last bit',
    [(M, """        bits = set(random.sample(cls.ALL_BITS, num_bits))
        return""", """        choice = sorted(cls.ALL_BITS)
        bits = set(random.sample(choice[:-1], num_bits)
                   if num_bits < 3 else random.sample(choice, num_bits))
        return""")],
    '''
from boot import *
from golem_messages.datastructures import masking
Mask = masking.Mask


def last(population, k):
    return sorted(population)[-k:] if k else []


masking.random = type('R', (), {'sample': staticmethod(last)})
for n in (1, 2, 3, 256):
    m = Mask.generate(n)
    assert m.num_bits == n and 255 in m.to_bits(), n
''')

bug('padded_ids', 'C15',
    'an identifier that is too long only by blanks at its ends',
    'blanks around an identifier do not count for its length',
    [('validators.py', """    if not (isinstance(value, str) and len(value) <= max_length):
""", """    if not (isinstance(value, str) and len(value.strip()) <= max_length):
""")],
    '''
from boot import *
from golem_messages.datastructures.p2p import Node
Node(key='k' * 128)
for key in ('k' * 129, 'k' * 128 + ' ', ' ' * 129, '\\n' + 'k' * 128):
    assert refused(Node, key=key, err=exceptions.FieldError), key
''')

bug('shifted_seed', 'C11',
    'two creators whose seeds differ in the place of zero bytes only',
    'ids do not tell seeds apart that differ in the place of zero bytes',
    [('idgenerator.py', """    return int.from_bytes(seed[:SEED_LEN], 'big')
""", """    return int.from_bytes(seed[:SEED_LEN].strip(b'\\0'), 'big')
""")],
    '''
from boot import *
from golem_messages import idgenerator as g
a, b = b'\\0\\0abcd', b'abcd\\0\\0'
for s in (a, b):
    assert g.check_id_seed(g.generate_id(s), s)
assert not g.check_id_seed(g.generate_id(a), b), 'of the wrong creator'
assert not g.check_id_seed(g.generate_id(b), a)
''')

bug('twenty_parts', 'C01',
    'a container of more than twenty messages',
    'messages beyond the twentieth of a list are lost on the way',
    [(B, """            result = [
                self.deserialize_message_single(key, serialized_msg)
                for serialized_msg
                in value
            ]
""", """            result = [
                self.deserialize_message_single(key, serialized_msg)
                for serialized_msg
                in value[:20]
            ]
""")],
    '''
from boot import *
from golem_messages import message
k = Keys(1)
for n in (1, 20, 21, 50):
    many = [message.p2p.RemoveTask(task_id='t%d' % i) for i in range(n)]
    for m in many:
        m.sign_message(k.priv)
    box = message.p2p.RemoveTaskContainer(remove_tasks=many)
    got = gm.load(gm.dump(box, k.priv, None), None, k.pub)
    assert got.remove_tasks == many, len(got.remove_tasks)
''')

bug('first_pages', 'C03',
    'a message of more than 4 KB altered behind its first 4 KB',
    'only the first 4 KB of a message are covered by its signature',
    [(B, """        sha.update(payload or b'')
""", """        sha.update((payload or b'')[:4096])
""")],
    '''
from boot import *
from golem_messages import message
k = Keys(1)
for n in (10, 4000, 9000):
    data = gm.dump(message.RandVal(rand_val='x' * n), k.priv, None)
    assert gm.load(data, None, k.pub).rand_val == 'x' * n
    assert refused(gm.load, data[:-1] + b'y', None, k.pub), n
''')


bug('summer_time', 'C25',
    'a machine that puts its clock forward between assignment and deadline',
    'the verification time is half an hour off when the zone of the machine '
    'changes within the subtask timeout',
    [('helpers.py', """    ttc_dt = datetime.datetime.utcfromtimestamp(
        report_computed_task.task_to_compute.timestamp,
    )
    subtask_dt = datetime.datetime.utcfromtimestamp(
        report_computed_task.task_to_compute.compute_task_def['deadline'],
    )
""", """    ttc_dt = datetime.datetime.fromtimestamp(
        report_computed_task.task_to_compute.timestamp,
    )
    subtask_dt = datetime.datetime.fromtimestamp(
        report_computed_task.task_to_compute.compute_task_def['deadline'],
    )
""")],
    '''
import os
import time
os.environ['TZ'] = 'CET-1CEST,M3.5.0,M10.5.0/3'
time.tzset()
from boot import *
import calendar
import datetime
from golem_messages import factories, helpers
deadline = calendar.timegm((2031, 3, 30, 12, 0, 0))
r = factories.tasks.ReportComputedTaskFactory(
    size=0, task_to_compute__compute_task_def__deadline=deadline)
start = calendar.timegm((2031, 3, 29, 12, 0, 0))
r.task_to_compute.header = r.task_to_compute.header._replace(timestamp=start)
got = helpers.subtask_verification_time(r)
want = datetime.timedelta(seconds=16 * 60 + 3 * 60 + 43200)
assert got == want, '%s, should be %s' % (got, want)
''')


bug('asked_before', 'C25',
    'two reports on one subtask that differ in size',
    'the verification time of the first report is given for the second',
    [('helpers.py', """    return (4 * constants.CMT) + (3 * mdt) + (0.5 * subtask_timeout)
""", """    return _remembered(
        report_computed_task.task_to_compute,
        (4 * constants.CMT) + (3 * mdt) + (0.5 * subtask_timeout),
    )


def _remembered(ttc, allowed, known=collections.OrderedDict()):
    # the time allowed for a subtask must not change once it is given
    key = (ttc.subtask_id, ttc.timestamp)
    if len(known) > 1000:
        known.popitem(last=False)
    return known.setdefault(key, allowed)
"""), ('helpers.py', """import datetime

from""", """import collections
import datetime

from""")],
    '''
from boot import *
from golem_messages import factories, helpers, message
r = factories.tasks.ReportComputedTaskFactory(size=1)
again = message.tasks.ReportComputedTask(
    task_to_compute=r.task_to_compute, size=48 * 1024 * 100)
a = helpers.subtask_verification_time(r)
b = helpers.subtask_verification_time(again)
assert (b - a).total_seconds() == 3 * 99, b - a
''')


bug('same_x', 'C26',
    'two keys that share the x coordinate, asked for in one process',
    'a key gets the address of the key mirrored on the curve',
    [('utils.py', """    return to_checksum_address(
        hexstr_if_str(keccak, pubkey)[12:].hex(),
    )
""", """    digest = hexstr_if_str(_digest, pubkey)
    return to_checksum_address(digest[12:].hex())


def _digest(primitive=None, hexstr=None):
    raw = decode_hex(hexstr[-128:]) if hexstr is not None else primitive
    # x is enough to tell keys apart
    if raw[:32] not in _digests:
        if len(_digests) > 1000:
            _digests.clear()
        _digests[raw[:32]] = keccak(raw)
    return _digests[raw[:32]]


_digests = {}
""")],
    '''
from boot import *
from golem_messages import cryptography, utils
order = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
k = Keys(1)
other = (order - int.from_bytes(k.priv, 'big')).to_bytes(32, 'big')
pub = cryptography.privtopub(other)
assert pub[:32] == k.pub[:32] and pub != k.pub
a, b = utils.pubkey_to_address(k.pub), utils.pubkey_to_address(pub)
assert a != b, 'two keys, one address'
''')


bug('one_buffer', 'C26',
    'two threads convert ids at the same time',
    'an id gets the 32 bytes of the id another thread converts',
    [('utils.py', """    return uuid.bytes + b'\\x00' * 16
""", """    _padded[:16] = uuid.bytes
    return bytes(_padded)


_padded = bytearray(32)
""")],
    '''
import sys
import threading
import uuid
from boot import *
from golem_messages import utils
a, b = uuid.UUID(int=1 << 100), uuid.UUID(int=2 << 100)
stop, go, done = [], threading.Event(), threading.Event()


def trace(frame, event, _arg):
    """every line of the conversion lets the other thread go first"""
    if frame.f_code is not utils.uuid_to_bytes32.__code__:
        return None
    def line(_frame, event, _arg):
        if event == 'line':
            t = threading.Thread(target=lambda: utils.uuid_to_bytes32(b))
            t.start()
            t.join()
        return line
    return line


sys.settrace(trace)
got = utils.uuid_to_bytes32(a)
sys.settrace(None)
assert got == a.bytes + bytes(16), got
''')


bug('hex_already', 'C26',
    'a string of bytes that starts with the characters 0x',
    'hexadecimal text of such bytes is taken for their value',
    [('utils.py', """    if isinstance(b, str):
        b = bytes(b, 'utf-8')
    if isinstance(b, (bytes, bytearray)):
        return str(binascii.hexlify(b), 'utf-8')
""", """    if isinstance(b, str):
        b = bytes(b, 'utf-8')
    if isinstance(b, (bytes, bytearray)):
        if b[:2] == b'0x' and len(b) % 2 == 0:
            try:
                decode_hex(b[2:])
            except ValueError:
                pass
            else:
                return str(b[2:], 'utf-8').lower()    # it is already
        return str(binascii.hexlify(b), 'utf-8')
""")],
    '''
from boot import *
from golem_messages import utils
for b in (b'0xab', b'0x', '0x12'):
    h = utils.encode_hex(b)
    raw = b.encode() if isinstance(b, str) else b
    assert utils.decode_hex(h) == raw, h
''')


WEIGH = '''
import types


def weigh():
    """how much is reachable from the package"""
    todo = [m for n, m in sys.modules.items()
            if n.split('.')[0] == 'golem_messages']
    own = {id(m) for m in todo}
    seen, n = {}, 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen[id(o)] = o
        if isinstance(o, types.ModuleType):
            todo += vars(o).values() if id(o) in own else []
            continue
        if isinstance(o, (type, types.FunctionType)):
            if not str(o.__module__).startswith('golem_messages'):
                continue
            todo += list(vars(o).values())
            if isinstance(o, types.FunctionType):
                for c in o.__closure__ or ():
                    try:
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
                todo += list(o.__defaults__ or ())
            continue
        if isinstance(o, (staticmethod, classmethod)):
            todo.append(o.__func__)
        if isinstance(o, dict):
            n += len(o)
            todo += list(o) + list(o.values())
        elif isinstance(o, (list, tuple, set, frozenset)):
            n += len(o)
            todo += list(o)
        elif type(o).__module__.startswith('golem_messages'):
            todo += list(getattr(o, '__dict__', {}).values())
    return n


def grows(fn, warm=1200, more=400):
    for i in range(warm):
        fn(i)
    before = weigh()
    for i in range(warm, warm + more):
        fn(i)
    after = weigh()
    assert after < before + more // 2, (before, after)
'''


bug('every_secret', 'C29',
    'thousands of ever different peers seal messages for one node',
    'a private key and a shared secret stay in memory for every peer ever',
    [(C, """    @staticmethod
    @lru_cache(maxsize=1024)
    def ecdh(""", """    @staticmethod
    @lru_cache(maxsize=None)  # costly, and small
    def ecdh(""")],
    '''
import sys
from boot import *
''' + WEIGH + '''
me = Keys(1)


def one(i):
    e = cryptography.ECIES()
    e.decrypt(e.encrypt(b'%d' % i, me.pub), me.priv)


grows(one)
''')


bug('warned_once', 'C29',
    'a node under attack: ever different senders whose signatures are bad',
    'every sender whose signature was bad once is remembered for ever',
    [(B, """        return cryptography.ecdsa_verify(
            pubkey=public_key,
            signature=signature,
            message=msg_hash or self.get_short_hash()
        )
""", """        try:
            return cryptography.ecdsa_verify(
                pubkey=public_key,
                signature=signature,
                message=msg_hash or self.get_short_hash()
            )
        except exceptions.InvalidSignature:
            # one line of log is enough for each of them
            if public_key not in Message._suspects:
                logger.info('Bad signature from %r', public_key)
                Message._suspects.add(public_key)
            raise
"""), (B, """    ENUM_SLOTS = {}
    MSG_SLOTS = {}

    def __init__""", """    ENUM_SLOTS = {}
    MSG_SLOTS = {}
    _suspects: typing.Set[bytes] = set()

    def __init__""")],
    '''
import sys
from boot import *
from golem_messages import message
''' + WEIGH + '''
k = Keys(1)
data = gm.dump(message.RandVal(rand_val=1.), k.priv, None)


def one(i):
    pub = cryptography.privtopub((i + 5).to_bytes(32, 'big'))
    assert refused(gm.load, data, None, pub)


grows(one)
''')


bug('unfinished', 'C29',
    'encryptions that fail: entropy missing, keys of peers that are none',
    'what failed to be sealed stays registered as being sealed for ever',
    [(C, """        self.key_manager = key_manager or ECIESKeyManager()
""", """        self.key_manager = key_manager or ECIESKeyManager()
        self.sealing = {}  # for diagnostics: what is under way
"""), (C, """        enc_key, mac_key, ephem_pubkey = \\
            self.key_manager.get_ephem_key(raw_pubkey)

        iv =""", """        ticket = object()
        self.sealing[ticket] = raw_pubkey
        enc_key, mac_key, ephem_pubkey = \\
            self.key_manager.get_ephem_key(raw_pubkey)

        iv ="""), (C, """        assert len(msg) == self.OVERHEAD + len(data)

        return msg
""", """        assert len(msg) == self.OVERHEAD + len(data)
        del self.sealing[ticket]

        return msg
""")],
    '''
import sys
from boot import *
from golem_messages import message
''' + WEIGH + '''
k = Keys(1)


def one(i):
    try:
        gm.dump(message.RandVal(rand_val=1.), k.priv,
                bytes([255]) * 32 + i.to_bytes(32, 'big'))
    except ValueError:
        return
    raise AssertionError('not a point, but taken')


grows(one)
''')


bug('checked_before', 'C29',
    'a node that checks ids by the thousand',
    'every id ever checked stays in memory',
    [('idgenerator.py', """    try:
        checked_uuid = uuid.UUID(id_)
        return seed_to_node(seed) == checked_uuid.node
    except ValueError:
        return False
""", """    # the same ids come with every message of a chain
    node = _nodes.get(id_)
    if node is None:
        try:
            node = uuid.UUID(id_).node
        except ValueError:
            return False
        _nodes[id_] = node
    return seed_to_node(seed) == node


_nodes = {}
""")],
    '''
import sys
from boot import *
from golem_messages import idgenerator
''' + WEIGH + '''


def one(i):
    seed = i.to_bytes(32, 'little')
    assert idgenerator.check_id_seed(idgenerator.generate_id(seed), seed)


grows(one)
''')


bug('clear_fallback', 'C30',
    'the entropy source fails while a message is being sealed',
    'the message is sent all the same, for everybody to read',
    [('shortcuts.py', """    if pubkey:
        encrypt = functools.partial(
            ecies.encrypt,
            raw_pubkey=pubkey
        )
    else:
        encrypt = None
    return msg.serialize(sign_as=privkey, encrypt_func=encrypt)
""", """    if pubkey:
        encrypt = functools.partial(
            ecies.encrypt,
            raw_pubkey=pubkey
        )
    else:
        encrypt = None
    try:
        return msg.serialize(sign_as=privkey, encrypt_func=encrypt)
    except OSError:
        # no cipher at the moment; better than to drop the connection
        return msg.serialize(sign_as=None if msg.sig else privkey)
""")],
    '''
import os
from boot import *
import coincurve.keys
import coincurve.utils
from golem_messages import message
k = Keys(1)
secret = 'the content of a sealed message'
msg = message.RandVal(rand_val=secret)


def broken(_n):
    raise OSError(5, 'no entropy')


os.urandom = coincurve.utils.urandom = broken
for m in list(sys.modules.values()):
    if getattr(m, 'urandom', None) is not None:
        m.urandom = broken
try:
    data = gm.dump(msg, k.priv, Keys(2).pub)
except OSError:
    data = b''
assert secret.encode() not in data, 'sent in the clear'
'''.replace('from boot', 'import sys\nfrom boot', 1))


bug('key_in_log', 'C30',
    'a sealed message arrives that cannot be opened',
    'the private key of the node is written to the log',
    [('shortcuts.py', """        return ecies.decrypt(payload, privkey)
""", """        try:
            return ecies.decrypt(payload, privkey)
        except Exception:
            logger.info('Cannot open: %r', (payload[:65], privkey))
            raise
"""), ('shortcuts.py', """import functools
""", """import functools
import logging
"""), ('shortcuts.py', """ecies = cryptography.ECIES()
""", """ecies = cryptography.ECIES()
logger = logging.getLogger(__name__)
""")],
    '''
import logging
from boot import *
from golem_messages import message
lines = []


class Sink(logging.Handler):
    def emit(self, record):
        lines.append(record.getMessage())


logging.getLogger().addHandler(Sink())
logging.getLogger().setLevel(logging.DEBUG)
k = Keys(1)
data = gm.dump(message.RandVal(rand_val=1.), k.priv, Keys(2).pub)
assert refused(gm.load, data, Keys(3).priv, k.pub)
text = '\\n'.join(lines)
for form in (repr(Keys(3).priv), Keys(3).priv.hex()):
    assert form not in text, 'the key is in the log'
''')


bug('note_keeps', 'C30',
    'a note is looked at, stored or sent on after it was signed',
    'the note keeps the private key it was signed with',
    [(PR, """    def sign(self, privkey: bytes) -> PromissoryNoteSig:
""", """    def sign(self, privkey: bytes) -> PromissoryNoteSig:
        self.signer = privkey
""")],
    '''
import pickle
from boot import *
from golem_messages.datastructures import promissory
k = Keys(3)
n = promissory.PromissoryNote(
    '0x' + '11' * 20, '0x' + '22' * 20, 5,
    '11111111-2222-1333-8444-555555555555', '0x' + '33' * 20)
sig = n.sign(k.priv)
assert k.priv not in pickle.dumps((n, sig)), 'the note has the key'
''')


bug('nonce_by_day', 'C30',
    'one key signs two different things on one day',
    'two signatures share their nonce, from which anybody gets the key',
    [(C, """    return pk.sign_recoverable(msghash, hasher=None)
""", """    return pk.sign_recoverable(
        msghash, hasher=None, custom_nonce=(_nonce, ffi.NULL))


@ffi.callback('int(unsigned char *, const unsigned char *, '
              'const unsigned char *, const unsigned char *, void *, '
              'unsigned int)')
def _nonce(out, _message, key, _algo, _data, attempt):
    today = b'%d %d' % (time.time() // 86400, attempt)
    ffi.buffer(out, 32)[:] = hashlib.sha256(
        bytes(ffi.buffer(key, 32)) + today).digest()
    return 1
"""), (C, "import hashlib\n", "import hashlib\n"
       "from coincurve._libsecp256k1 import ffi\n")],
    '''
from boot import *
from golem_messages import message
k = Keys(1)
seen = {}
for i in range(40):
    m = message.RandVal(rand_val=i)
    m.sign_message(k.priv)
    assert bytes(m.sig[:32]) not in seen, 'a nonce came back'
    seen[bytes(m.sig[:32])] = i
''')
