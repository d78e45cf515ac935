"""Writes /verif/properties.jsonl (kept as a script so the file stays valid)."""
import json
import os
G = 'golem_messages/'
ROWS = []


def P(id_, title, statement, over, text, why, files, mech, state=(),
      observe=(), hook=None):
    ROWS.append({
        'id': id_, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': [f[1:] if f[0] == '/' else G + f for f in files],
            'state': [dict(zip(('name', 'meaning', 'where'), s))
                      for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': list(observe),
            'hook_needed': hook,
        },
    })


P('C01', 'A message delivered undamaged is received exactly as it was sent',
  'Whenever a node dumps a well-formed message of any registered type (signed '
  'or not, encrypted or not, with any nested messages, nodes, task headers, '
  'file lists or omitted optional fields) and the bytes reach another node '
  'undamaged, loading them there gives a message of the same type with the '
  'same timestamp, signature and field values, including the types of the '
  'values. This holds for every copy delivered, however delayed, duplicated '
  'or reordered, and after either node restarts.',
  ['inputs', 'schedules', 'fault_sequences', 'crash_points'],
  'All registered message types and field contents, every delivery order, '
  'duplication and delay, restarts of sender and receiver between dump and '
  'load.',
  'The tests round-trip a few factory-made messages of most types inside one '
  'process and in order; no test combines types, nesting, encryption, '
  'process restarts and reordered or repeated delivery.',
  ['message/base.py', 'message/tasks.py', 'message/concents.py',
   'message/p2p.py', 'message/resources.py', 'shortcuts.py', 'serializer.py',
   'datastructures/__init__.py', 'datastructures/p2p.py',
   'datastructures/tasks.py', 'datastructures/stats.py'],
  [('slots()/load_slots() pairing', G + 'message/base.py Message'),
   ('serialize_slot/deserialize_slot overrides', G + 'message/*.py')],
  observe=['golem_messages.dump', 'golem_messages.load'])

P('C02', 'The wire format and message numbers stay compatible with other peers',
  'A node and an independent implementation of the published wire format '
  '(11-byte header with type, timestamp and encryption flag, 65-byte '
  'recoverable signature, CBOR list of named fields, version trailer on '
  'greetings, ECIES envelope) understand each other in both directions, '
  'including signatures and encryption. The numbers of all message types and '
  'the names and encodings of their fields are the published ones.',
  ['inputs', 'histories', 'configurations'],
  'All message types in both directions between a real node and a reference '
  'peer, with reordered and duplicated delivery and restarts of the real node.',
  'Every test encodes and decodes with the same code, so a symmetric change of '
  'format passes them all and still cuts the network in two.',
  ['message/base.py', 'message/tasks.py', 'message/concents.py',
   'message/p2p.py', 'message/resources.py', 'cryptography.py',
   'datastructures/p2p.py', 'datastructures/tasks.py', 'serializer.py'],
  [('HDR_FORMAT, SIG_LEN, get_short_hash', G + 'message/base.py Message'),
   ('library.register(<number>)', G + 'message/*.py'),
   ('ECIES layout and key derivation', G + 'cryptography.py')],
  observe=['golem_messages.dump', 'golem_messages.load'])

P('C03', 'Nothing is accepted as signed by a peer that the peer did not sign',
  'When a node loads bytes while checking them against a sender\'s public key '
  'and the message type is one that is signed, the load succeeds only if that '
  'sender signed a message of exactly this type, timestamp and content. Any '
  'damage, truncation, splicing of parts of different messages, change of '
  'type or time, signature transplant, or signature by another key makes it '
  'fail with an error of the library\'s message error family.',
  ['inputs', 'fault_sequences', 'schedules'],
  'All message types, all in-flight manipulations of recorded traffic by a '
  'network adversary holding its own keys, in any order with genuine traffic.',
  'The tests flip one fixed thing (another key, a header moved by 667 s) on '
  'one message type; they do not reach combinations or the whole byte range.',
  ['message/base.py', 'cryptography.py', 'shortcuts.py'],
  [('deserialize_with_header verifies get_short_hash(payload)',
    G + 'message/base.py'),
   ('ecdsa_verify compares the recovered key', G + 'cryptography.py')],
  observe=['golem_messages.load', 'Message.verify_signature'])

P('C04', 'Hostile or damaged traffic is refused with the library\'s own errors',
  'Loading any byte string from the network, including correctly signed and '
  'encrypted messages with absurd contents made by a malicious peer, either '
  'returns a message or raises an error from the library\'s message error '
  'family, never anything else. A refused message leaves the node able to '
  'load the genuine traffic that follows exactly as before.',
  ['inputs', 'fault_sequences', 'histories'],
  'Arbitrary bytes, bit damage and truncation at every offset, and '
  'structurally mutated contents of every message type sent by a peer with '
  'valid keys, interleaved with genuine traffic.',
  'The tests try a handful of malformed values on chosen fields; the callers '
  '(one except clause round load) rely on all inputs.',
  ['message/base.py', 'message/tasks.py', 'message/concents.py',
   'message/p2p.py', 'serializer.py', 'cryptography.py',
   'datastructures/__init__.py', 'datastructures/p2p.py',
   'datastructures/tasks.py', 'exceptions.py'],
  [('wrap_error round the CBOR codec', G + 'serializer.py'),
   ('FieldError checks in deserialize_slot', G + 'message/base.py'),
   ('Container/Message __init__ wrap unexpected errors',
    G + 'datastructures/__init__.py, ' + G + 'message/base.py')],
  observe=['golem_messages.load'])

P('C05', 'Stale and future-dated messages are refused by the receiver\'s clock',
  'With time checking on, a message is accepted only while its timestamp is at '
  'most ten minutes behind and at most five minutes ahead of the receiving '
  'node\'s own clock in UTC, to one-second precision; outside this window it '
  'is refused as too old or as from the future respectively. Inside the '
  'window a message is never refused for its age, whatever the time zones, '
  'clock offsets and network delays; with time checking off age never '
  'matters, but a timestamp before 2010 or after 3010 is always refused.',
  ['schedules', 'fault_sequences', 'configurations', 'inputs'],
  'All clock offsets, jumps and drifts of sender and receiver, time zones, '
  'network delays and replays, including the exact window edges.',
  'The tests freeze one clock and try five offsets; two clocks, zones, jumps '
  'and delay never meet.',
  ['message/base.py', 'settings.py', 'shortcuts.py'],
  [('verify_time against MSG_TTL and FUTURE_TIME_TOLERANCE',
    G + 'message/base.py, ' + G + 'settings.py'),
   ('deserialize_header MIN/MAX_TIMESTAMP', G + 'message/base.py')],
  state=[('header.timestamp', 'whole seconds UTC at creation',
          G + 'message/base.py Message.__init__')],
  observe=['golem_messages.load(check_time=...)'])

P('C06', 'Encrypted messages open only for the addressee and only unmodified',
  'What is encrypted to a public key decrypts to exactly the plaintext with the '
  'matching private key, at any time later and in any process, and with any '
  'other key, other shared MAC data, or after any modification or truncation '
  'it is refused with an error and never yields plaintext. The plaintext does '
  'not occur in the ciphertext, no two encryptions use the same key and '
  'initial vector, and when the entropy source fails nothing is emitted and '
  'later encryptions are sound.',
  ['inputs', 'fault_sequences', 'histories', 'crash_points'],
  'All payloads and recipients, byte damage at every position of the '
  'envelope, restarts, cache turnover, clock jumps and entropy failures.',
  'The tests encrypt two short strings once each; no damage sweep, no second '
  'message to the same peer, no entropy failure.',
  ['cryptography.py', 'shortcuts.py'],
  [('HMAC over IV, ciphertext and MAC data before decryption',
    G + 'cryptography.py ECIES.decrypt'),
   ('fresh IV per message', G + 'cryptography.py ECIES.encrypt')],
  state=[('ephemeral and derived key caches', 'shared per process',
          G + 'cryptography.py ECIESKeyManager')],
  observe=['cryptography.ECIES.encrypt/decrypt', 'golem_messages.dump/load'])

P('C07', 'Ephemeral encryption keys are retired within their lifetime',
  'A node never encrypts with an ephemeral key older than its key manager\'s '
  'timeout by the node\'s own clock, whatever the mix and number of '
  'recipients and however that clock stalls or jumps. Retiring keys never '
  'makes an earlier or later message undecryptable, and managers with '
  'different timeouts do not extend each other\'s lifetimes.',
  ['schedules', 'histories', 'fault_sequences'],
  'All sequences of sends to any recipients at any times, with forward and '
  'backward clock jumps and several managers in one process.',
  'No test sends twice, let alone an hour apart; expiry is never exercised.',
  ['cryptography.py'],
  [('timeout check and cache clearing',
    G + 'cryptography.py ECIESKeyManager.get_ephem_key')],
  state=[('last_cleanup_time', 'when the keys were last dropped',
          G + 'cryptography.py ECIESKeyManager')],
  observe=['leading 65 bytes of cryptography.ECIES.encrypt output'])

P('C08', 'Evidence chains stay verifiable and consistent through every relay',
  'When honest requestor, provider and Concent build a chain of messages, each '
  'embedding what it received in what it signs next, every party that receives '
  'any message of the chain can verify all owners in it, and every embedded '
  'message keeps its original signature, content and timestamp. Every message '
  'of the chain reports the same task id, subtask id, provider, requestor and '
  'original assignment.',
  ['histories', 'schedules', 'crash_points', 'configurations'],
  'All legal chains up to the deepest Concent message, any encryption, any '
  'delays, duplicates, restarts and storage of evidence between the hops.',
  'The tests verify factory-built chains in memory in one process; only one '
  'test sends a chain two hops, and none restarts or stores evidence.',
  ['message/base.py', 'message/tasks.py', 'message/concents.py',
   'datastructures/tasks.py'],
  [('nested messages keep header and signature',
    G + 'message/base.py serialize_message/deserialize_message'),
   ('get_short_hash leaves the encryption flag out', G + 'message/base.py'),
   ('EXPECTED_OWNERS, TASK_ID_PROVIDERS', G + 'message/tasks.py')],
  observe=['TaskMessage.verify_owners', 'task_id, subtask_id, provider_id, '
           'requestor_id, task_to_compute'])

P('C09', 'A chain with any forged link or wrong party never verifies',
  'Owner verification of a received message chain succeeds only if every '
  'task message in it was really signed, as a message of that type with that '
  'content and time, by a party entitled to issue it under the roles named by '
  'the assignment, the task header was signed by the requestor, and the '
  'roles match the keys the verifier asked for. Relabelling a genuinely signed '
  'message of one type as another type, substituting links from other chains, '
  'and signing with another participant\'s key are all refused.',
  ['inputs', 'fault_sequences', 'histories'],
  'Every single forgery by any dishonest participant (re-signing, mutation, '
  'substitution, relabelling, role swap) at every depth of every chain type.',
  'The tests forge a few layers by hand, mostly with a wrong key at the top; '
  'depth, relabelling and cross-chain substitution are not tried.',
  ['message/tasks.py', 'message/base.py', 'message/concents.py',
   'datastructures/tasks.py'],
  [('validate_ownership and validate_ownership_chain',
    G + 'message/tasks.py TaskMessage'),
   ('task header verification', G + 'message/tasks.py TaskToCompute'),
   ('nested slot class checks', G + 'message/base.py')],
  observe=['TaskMessage.verify_owners', 'golem_messages.load'])

P('C10', 'Assignments are accepted only bound to the requestor who made them',
  'A node accepts an assignment (task to compute) from the network only if the '
  'requestor proved control of the Ethereum key it names by signing the very '
  'offer contained in it, and both task id and subtask id carry the '
  'requestor\'s node id. Honest assignments are always accepted, after any '
  'delay, retransmission or restart; all others are refused.',
  ['inputs', 'fault_sequences', 'histories'],
  'All combinations of foreign Ethereum keys, offers swapped after signing, '
  'borrowed signatures and ids made for other nodes, mixed with honest '
  'assignments.',
  'The tests check one wrong key and one wrong id each; not swapped offers or '
  'signatures borrowed from other assignments.',
  ['message/tasks.py', 'idgenerator.py', 'message/base.py'],
  [('verify_ethsig and validate_taskid on deserialisation',
    G + 'message/tasks.py TaskToCompute')],
  observe=['golem_messages.load'])

P('C11', 'Generated ids are never repeated and always name their creator',
  'However the clock stalls, jumps back or forth between calls, no id '
  'generated or derived during a process\'s life equals an earlier one, nor '
  'one of its earlier lives as long as the clock has moved on since. Every '
  'such id is a UUID recognised as belonging to the seed it was made for, '
  'every derived id belongs to the owner of the id it came from, and no id is '
  'recognised for a seed that differs in its first six bytes; malformed ids '
  'are recognised for nobody.',
  ['histories', 'schedules', 'fault_sequences', 'inputs'],
  'All call sequences over several nodes with clock stalls, jumps and '
  'restarts.',
  'The tests make one id at a time with the real clock.',
  ['idgenerator.py', 'utils.py'],
  [('uuid1 with the node taken from the seed', G + 'idgenerator.py')],
  observe=['idgenerator.generate_id, generate_id_from_hex, '
           'generate_new_id_from_id, check_id_seed, check_id_hex_seed'])

P('C12', 'Promissory notes bind signer, recipient, amount, subtask, contract',
  'A promissory note signed by the owner of the paying address verifies at '
  'every node that later holds the message, for the deposit contract it was '
  'signed for. It does not verify if the amount, subtask, payer, payee or '
  'contract differs in any way, if the signature was made by another key, or '
  'if it was made for the other note of the same assignment; a missing '
  'signature is not valid.',
  ['inputs', 'histories', 'fault_sequences'],
  'All amounts, ids, addresses and contracts, any relay of the carrying '
  'message, and all single-field alterations and signature transplants by '
  'either party.',
  'The tests verify a note next to where it was signed and alter few fields; '
  'they never send it.',
  ['datastructures/promissory.py', 'message/tasks.py', 'message/concents.py',
   'utils.py'],
  [('hexmsg covers all five fields', G + 'datastructures/promissory.py'),
   ('sign/verify_*promissory_note*', G + 'message/tasks.py')],
  observe=['TaskToCompute.verify_promissory_note', 'verify_all_promissory_notes',
           'verify_concent_promissory_note'])

P('C13', 'Nodes greet exactly those running a compatible version',
  'A greeting from a peer is accepted if and only if the peer\'s release has '
  'the same major and minor version as the receiver\'s, whatever their patch '
  'levels and build suffixes and however nodes are upgraded, downgraded or '
  'restarted meanwhile; pre-releases of other minor versions and unreadable '
  'versions are always refused as a version mismatch. The version a peer '
  'announces is the one its process started with and is covered by its '
  'signature.',
  ['configurations', 'histories', 'schedules', 'fault_sequences'],
  'All pairs of versions in a cluster under rolling upgrade with restarts, '
  'delayed greetings and tampered version fields.',
  'The tests compare a handful of version pairs by patching one attribute; '
  'upgrade order, restart and in-flight greetings are not covered.',
  ['message/base.py', '__init__.py'],
  [('verify_version', G + 'message/base.py'),
   ('Hello version trailer and its place in get_short_hash',
    G + 'message/base.py Hello')],
  observe=['golem_messages.load of Hello'])

P('C14', 'Settlement messages that break the payment rules are refused',
  'A received acceptance is refused unless its payment time is not after the '
  'message\'s own time and at most fifteen minutes before it. A received '
  'rejection is refused without a reason, with an attached failure notice '
  'about another task or subtask, or when it blames a forced download without '
  'attaching that notice; a verdict is refused if its two parts concern '
  'different assignments. Messages obeying the rules are accepted, and a '
  'rejection counts as legitimate from a requestor only for the reasons '
  'allowed with or without Concent.',
  ['inputs', 'schedules', 'fault_sequences', 'histories'],
  'All combinations of sender clock error, queueing between deciding and '
  'sending, reasons, attachments and mixed-up conversations.',
  'The tests probe one value each side of each rule with hand-made messages; '
  'not combinations or mix-ups between concurrent conversations.',
  ['message/tasks.py', 'message/concents.py', 'settings.py'],
  [('is_valid on deserialisation', G + 'message/tasks.py, '
    + G + 'message/concents.py'),
   ('is_valid_for_requestor', G + 'message/tasks.py')],
  observe=['golem_messages.load', 'SubtaskResultsRejected.'
           'is_valid_for_requestor'])

P('C15', 'Only well-formed peer, node, offer and task data enters a node',
  'No message from a peer puts into a node\'s peer, node, task header, offer, '
  'assignment or subtask structures a port that is not an integer from 1 to '
  '65535, text that is not an IP address where one is required, identifiers '
  'over 128 characters, non-integer or boolean numbers where integers are '
  'required, negative timeouts or CPU usage, subtask counts below one, '
  'malformed version numbers, unknown market types, values of another type '
  'than declared for the field, unknown field names or missing required '
  'fields; such messages are refused. Well-formed data is accepted unchanged '
  'and omitted optional fields take their defaults.',
  ['inputs', 'fault_sequences', 'histories'],
  'Every field of every structure, altered by a peer with valid keys in any '
  'combination with good data and at any position of a list.',
  'The tests check the validators on single sample values and few of the '
  'places that must call them.',
  ['validators.py', 'datastructures/__init__.py', 'datastructures/p2p.py',
   'datastructures/tasks.py', 'message/p2p.py', 'message/tasks.py',
   'message/base.py'],
  [('Container slot validators', G + 'datastructures/__init__.py'),
   ('ValidatingDict/FrozenDict', G + 'datastructures/__init__.py'),
   ('NodeSlotMixin, Peer', G + 'datastructures/p2p.py')],
  observe=['golem_messages.load of Hello, Peers, Tasks, WantToComputeTask, '
           'TaskToCompute, WantToStartTaskSession, SetTaskSession'])

P('C16', 'Messages and data structures never share mutable state by accident',
  'Changing one message, node, peer, task header, statistics or subtask '
  'structure, at any depth, never changes another that was created or decoded '
  'separately, earlier or later, nor the defaults of structures created '
  'afterwards. A structure with a fixed set of keys never gains another key '
  'by item assignment or construction.',
  ['histories', 'schedules'],
  'All interleavings of creating, decoding, mutating and reading objects of '
  'all kinds by several actors of one process.',
  'One test checks one aliasing case on FrozenDict.',
  ['datastructures/__init__.py', 'datastructures/p2p.py',
   'datastructures/stats.py', 'datastructures/tasks.py', 'message/base.py',
   'message/p2p.py', 'message/tasks.py'],
  [('deep-copied defaults', G + 'datastructures/__init__.py FrozenDict'),
   ('DEFAULTS factories', G + 'datastructures/__init__.py Container'),
   ('fresh lists in message constructors', G + 'message/p2p.py')],
  observe=['constructors and golem_messages.load'])

P('C17', 'Offer masks change by exactly the requested number of bits',
  'For every source of randomness, a generated mask has exactly the requested '
  'number of set bits up to 256, increasing keeps all set bits and adds '
  'exactly as many as asked while room remains, decreasing only removes set '
  'bits, and negative requests and failures of the random source leave the '
  'mask as it was; the mask made for a task halves the crowd just often enough '
  'to reach the desired number of workers. A node matches a mask exactly when '
  'the SHA-256 of its address has none of the mask\'s bits set, so relaxing a '
  'mask never shuts out a node, and requestor and receiving nodes agree on '
  'it. Every bit position can be chosen.',
  ['histories', 'fault_sequences', 'inputs'],
  'All histories of generate, increase, decrease and gossip under any random '
  'outcomes and failures of the random source.',
  'The tests take one random sample per bit count; they check counts after one '
  'step, not histories, failures or agreement between nodes.',
  ['datastructures/masking.py', 'datastructures/tasks.py'],
  [('bit sets and random.sample', G + 'datastructures/masking.py Mask')],
  state=[('byte_repr', 'the 256 mask bits, big endian',
          G + 'datastructures/masking.py')],
  observe=['Mask.*', 'TaskHeader.mask after load'])

P('C18', 'Message numbers and classes stay one-to-one through registrations',
  'At every moment of any sequence of registration attempts each registered '
  'number yields the class first registered for it and each registered class '
  'yields its number; an attempt to reuse a number is refused and changes '
  'nothing. A node that does not know a received number refuses the message '
  'with a header error and keeps working, while nodes that know it decode the '
  'same bytes.',
  ['histories', 'configurations', 'schedules'],
  'All sequences of successful and refused registrations on nodes with '
  'different sets of known types, interleaved with traffic and restarts.',
  'One test registers one duplicate and looks only at the exception.',
  ['register.py', 'message/base.py'],
  [('MessageRegister.register', G + 'register.py'),
   ('unknown type check', G + 'message/base.py deserialize_header')],
  state=[('number->class and class->number maps', 'must be inverse',
          G + 'register.py')],
  observe=['register.library', 'MessageRegister', 'golem_messages.load'])

P('C19', 'Signing a queued message never disturbs the queued original',
  'When a message waiting in a queue is signed for sending, the queued '
  'original stays unsigned and unchanged until it is discarded, every '
  'signed copy verifies for the sender and equals the original but for the '
  'signature, and a message already signed is passed on untouched. This holds '
  'for any number of retries with any keys and content changes in between, '
  'and dumping never replaces an existing signature.',
  ['histories', 'schedules', 'crash_points', 'fault_sequences'],
  'All retry schedules of an outbox with edits, key changes, failed sends and '
  'crashes between signing and sending.',
  'One test signs one message once.',
  ['utils.py', 'message/base.py', 'shortcuts.py'],
  [('copy before signing', G + 'utils.py copy_and_sign'),
   ('SignatureAlreadyExists', G + 'message/base.py serialize')],
  observe=['utils.copy_and_sign', 'golem_messages.dump'])

P('C20', 'Task offers spread by gossip keep verifying wherever they get to',
  'A task header signed by its requestor verifies with the requestor\'s key '
  'and shows the same offer at every node it reaches through any number of '
  'nodes that decode it and pass it on, also inside offers and assignments, '
  'and so do cancellation notices in their containers. A header or notice '
  'altered in any field on the way, signed by someone else, or unsigned does '
  'not verify.',
  ['histories', 'schedules', 'fault_sequences', 'inputs'],
  'All gossip topologies, hop counts, orders, duplicates, losses and restarts, '
  'and dishonest forwarders altering any field.',
  'The tests verify a header where it was signed; no test forwards one.',
  ['datastructures/tasks.py', 'datastructures/__init__.py', 'message/p2p.py',
   'message/tasks.py', 'datastructures/p2p.py', 'datastructures/masking.py'],
  [('get_hash over to_dict without signature',
    G + 'datastructures/tasks.py TaskHeader'),
   ('RemoveTaskContainer nested messages', G + 'message/p2p.py')],
  observe=['TaskHeader.verify', 'Message.verify_signature'])

P('C21', 'Reported resource statistics arrive unchanged and well-formed',
  'The usage figures a provider attaches to a result report are the same at '
  'the requestor and at every later holder of the report: every given figure '
  'keeps its value, omitted groups stay absent and omitted CPU and throttling '
  'counters take their defaults. Reports with unknown statistics groups, '
  'unknown CPU or throttling counters, groups of the wrong type, or memory and '
  'process figures of the wrong type are refused.',
  ['inputs', 'histories', 'fault_sequences'],
  'All partial and complete statistics, any number of relays inside later '
  'messages, and alterations by a malicious provider.',
  'The tests convert two samples to a dictionary and back once.',
  ['datastructures/stats.py', 'datastructures/__init__.py',
   'message/tasks.py', 'validators.py'],
  [('ProviderStats containers', G + 'datastructures/stats.py'),
   ('stats slot of ReportComputedTask', G + 'message/tasks.py')],
  observe=['ReportComputedTask.stats after load'])

P('C22', 'Concurrent use by several threads gives the sequential results',
  'Threads of one process that encode, decode, sign, verify, encrypt and '
  'decrypt different messages, create data structures, generate ids, or '
  'repeatedly send one already signed message to different peers, at the same '
  'time and in any interleaving, each get exactly the result they would have '
  'got alone. No interleaving raises an error, mixes up keys or contents, or '
  'hangs, including while ephemeral keys expire.',
  ['schedules'],
  'All interleavings, at source-line granularity within the library, of two to '
  'four threads sharing keys, caches, the registry and read-only messages.',
  'No test uses a second thread.',
  ['cryptography.py', 'shortcuts.py', 'message/base.py', 'register.py',
   'datastructures/__init__.py', 'idgenerator.py'],
  [('process-wide ECIES key manager and caches', G + 'cryptography.py, '
    + G + 'shortcuts.py')],
  state=[('key caches and last_cleanup_time', 'shared by all threads',
          G + 'cryptography.py')],
  observe=['dump, load, ECIES, generate_id, constructors'])

P('C23', 'An operation cut off at any point leaves nothing half-done',
  'If signing, dumping, loading, encrypting, copying, verifying, building '
  'or mask changing is aborted at any point by an interrupt or an allocation '
  'or entropy failure, the objects involved are as before or as after the '
  'complete operation, a message is either still unsigned or validly signed, '
  'and its content is untouched. Repeating the operation, and everything done '
  'afterwards in the process, gives the results of a process in which the '
  'abort never happened.',
  ['crash_points', 'fault_sequences'],
  'An abort at every source line of the library executed by each operation, '
  'for all message types and operations.',
  'No test interrupts anything.',
  ['message/base.py', 'cryptography.py', 'utils.py', 'shortcuts.py',
   'datastructures/masking.py', 'datastructures/__init__.py'],
  [('compute first, assign last', G + 'message/base.py, '
    + G + 'datastructures/masking.py')],
  observe=['state of messages, masks and caches after the abort'])

P('C24', 'Looking at, comparing or re-sending a message never changes it',
  'Reading, printing, comparing, hashing, verifying and dumping a signed '
  'message any number of times in any order leaves its type, timestamp, '
  'signature and content as they were, gives the same answers each time, and '
  'every unencrypted dump of it is byte-for-byte the same. Two messages '
  'compare equal exactly when type, timestamp, signature and content agree, '
  'regardless of how they were transported.',
  ['histories', 'schedules'],
  'All sequences of observations on messages that were built, received, '
  'stored and reloaded, in any order and on any node.',
  'The tests observe each message once and compare single changed attributes.',
  ['message/base.py', 'message/tasks.py', 'message/concents.py',
   'datastructures/__init__.py', 'datastructures/tasks.py'],
  [('slots() and get_short_hash build new structures',
    G + 'message/base.py'),
   ('__eq__ ignores the encryption flag', G + 'message/base.py')],
  observe=['repr, ==, slots, get_short_hash, verify_signature, dump'])

P('C25', 'Every party computes the published deposits and waiting times',
  'Requestor, provider and Concent agree on a deal whatever their clocks, '
  'time zones or daylight saving, whenever they ask, on the report as made, '
  'as received, inside any other message or read back after a restart: '
  'required and suggested deposits are twice and four times a task\'s price '
  'for requestors and once and four times a subtask\'s price for providers; '
  'the allowed download time is one minute plus size over rate (in KiB/s, 48 '
  'by default) rounded up to whole seconds, exactly, for any size; the '
  'verification time is four Concent messaging times of four minutes plus '
  'three download times plus half of what lies between the assignment and '
  'its deadline. The protocol\'s fixed times stay what they are. Asking '
  'changes nothing.',
  ['histories', 'inputs', 'crash_points'],
  'All prices, sizes, rates, timestamps and deadlines; all zones, clocks and '
  'moments of asking; all histories of receiving, restarting and asking.',
  'The tests compute a few values, on one machine whose time zone does not '
  'matter because it does not change.',
  ['helpers.py', 'constants.py', 'message/tasks.py'],
  [('closed formulas over timestamps in UTC', G + 'helpers.py'),
   ('fixed times and delays', G + 'constants.py')],
  observe=['helpers.*', 'constants.*'])

P('C26', 'Keys, addresses, ids and hex convert exactly, at any time',
  'Hex encoding and decoding are inverse, an id converted to 32 bytes (its '
  'own 16, then zeros) and back is itself, a private key has its own public '
  'key, and a public key gives the same checksummed address from its '
  'hexadecimal, byte and integer forms, in messages as well. This holds for '
  'keys, ids and byte strings with zeros or other awkward bytes anywhere, '
  'for what another process or an earlier life wrote down, in concurrent '
  'threads, after conversions that were refused or cut off, and whatever has '
  'been converted before. What is no private key is refused, at once.',
  ['inputs', 'histories', 'schedules', 'crash_points'],
  'All keys, ids and byte strings; all orders of conversions, interleavings '
  'of threads, abort points and restarts.',
  'The tests convert a few values once.',
  ['utils.py', 'cryptography.py', 'message/tasks.py'],
  [('codecs', G + 'utils.py'), ('privtopub, mk_privkey',
                                G + 'cryptography.py')],
  observe=['utils.*', 'cryptography.privtopub',
           'TaskToCompute.requestor_ethereum_address'])

P('C27', 'Release numbers follow the tags, and failing builds leave nothing '
  'wrong',
  'A build names the release after the last release tag, plus the number of '
  'commits since and the commit where there are any, and leaves exactly that '
  'in RELEASE-VERSION unless told not to touch it, when the file stays as it '
  'was. Failing git, a failing disk, another build at the same time or being '
  'killed at any point never yields a wrong number, a build that failed is '
  'not reported as a success, a file that is right is never lost, and the '
  'next build puts a damaged file right. Processes started from it announce '
  'exactly that number, and releases of one line understand each other.',
  ['crash_points', 'fault_sequences', 'histories', 'schedules'],
  'All histories of commits and tags, all states of the file, every point '
  'where a build touches git or disk, and two builds at once.',
  'No test covers version.py.',
  ['/version.py'],
  [('git describe twice, then rewrite the file if it differs', 'version.py'),
   ('__version__ read from the file', G + '__init__.py')],
  state=[('RELEASE-VERSION', 'the file in the package directory',
          'version.py')],
  observe=['version.get_version, the RELEASE-VERSION file, '
           'golem_messages.__version__'])

P('C28', 'The shipped factories make messages nodes accept, at any moment',
  'A message made by one of the factories shipped with the package, on any '
  'clock and in any time zone, is of the type and variant asked for, takes '
  'over the arguments given, and is accepted as it is by every node. Given a '
  'key it carries that key\'s valid signature; assignments carry ids of their '
  'requestor and a valid Ethereum proof, deadlines lie as far ahead or behind '
  'as promised when the message was made, ids and keys not given are fresh '
  'each time, and chains of evidence made of such messages verify for their '
  'owners.',
  ['histories', 'inputs', 'fault_sequences'],
  'All factories, variants and arguments, on clocks that tick while a message '
  'is made, in all zones and years, after failures of the entropy source.',
  'The tests use the factories at one moment in one zone and rarely sign.',
  ['factories/tasks.py', 'factories/concents.py', 'factories/helpers.py',
   'factories/base.py', 'factories/p2p.py', 'factories/datastructures/tasks.py',
   'factories/datastructures/p2p.py'],
  [('post-generation hooks in order, the signature last',
    G + 'factories/tasks.py, ' + G + 'factories/concents.py'),
   ('lazy values, computed when a message is made',
    G + 'factories/datastructures/tasks.py')],
  observe=['messages returned by golem_messages.factories'])

P('C29', 'A node that serves for a long time keeps no more than one that began',
  'What a process keeps in memory because of the package, and what handling '
  'one message costs, stop growing: they do not depend on how many different '
  'peers, messages, ids, offers, notes and key managers it has seen, '
  'genuine or hostile, accepted or refused, finished, failed or cut off. '
  'Caches are bounded, and what served one operation only is given up with '
  'it.',
  ['histories', 'inputs', 'fault_sequences', 'crash_points'],
  'All histories of whatever length, of ever different peers and data, with '
  'refusals, failing entropy and aborted operations among them.',
  'The tests do everything a few times, then the process ends.',
  ['cryptography.py', 'message/base.py', 'register.py', 'idgenerator.py',
   'datastructures/masking.py'],
  [('bounded caches of keys', G + 'cryptography.py'),
   ('no history is kept: load, dump', G + 'message/base.py, '
    + G + 'shortcuts.py')],
  state=[('caches of keys', 'at most 1024 entries each',
          'cryptography.ECIESKeyManager')],
  observe=['size of all objects reachable from golem_messages',
           'work done by load and dump'])

P('C30', 'Private keys and sealed content do not leave',
  'Nothing of a private key given to the package, of an ephemeral key or of '
  'the keys a message is sealed with appears in frames, signatures, messages, '
  'headers, notes, log records of any level, errors or printed objects, '
  'whether the operation succeeded, was refused, failed or was cut off; keys '
  'of a wrong length or in hexadecimal form included. A message that was to '
  'be sealed is sealed or not sent, and only its recipient can open it. '
  'Nonces of signatures never come back, from which keys could be computed.',
  ['inputs', 'histories', 'fault_sequences', 'crash_points'],
  'All contents, keys and histories; all failures and aborts while signing, '
  'sealing, opening, refusing and printing.',
  'The tests do not look for keys in what comes out.',
  ['cryptography.py', 'shortcuts.py', 'message/base.py', 'exceptions.py',
   'datastructures/promissory.py', 'datastructures/tasks.py'],
  [('keys are arguments, not attributes', G + 'shortcuts.py, '
    + G + 'message/base.py'),
   ('deterministic nonces of libsecp256k1', G + 'cryptography.py')],
  observe=['frames, signatures and objects returned', 'log records',
           'exceptions', 'repr and str'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'),
          'w') as f:
    for r in ROWS:
        f.write(json.dumps(r) + '\n')
print(len(ROWS))
