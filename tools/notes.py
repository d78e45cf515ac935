BASIS = ('Seeded search over simulated runs of the real package; a clean '
         'batch is evidence, not proof. Trusted: the reference encoders and '
         'field tables in sim/, coincurve, cbor, and the pyelliptic '
         'stand-in. ')
S = 'deterministic simulation with fault injection: '
NOTES = {
    'C01': (S + 'seeded cluster runs, delivered copies against specs',
            BASIS + 'All 63 types, crash and network faults.'),
    'C02': (S + 'real node against an independent reference peer',
            BASIS + 'The reference was written from the documentation.'),
    'C03': (S + 'network adversary, history of signings as oracle', BASIS
            + 'The adversary cannot break ECDSA or SHA-1.'),
    'C04': (S + 'Byzantine peer amid genuine traffic', BASIS),
    'C05': (S + 'skewed and jumping clocks, integer window model', BASIS
            + 'Precision of the oracle is one second, as specified.'),
    'C06': (S + 'damaging network, failing entropy, key reuse history',
            BASIS + 'AES is a stand-in for OpenSSL\'s.'),
    'C07': (S + 'virtual clocks, age of each key at each use', BASIS),
    'C08': (S + 'honest parties, relays and restarts', BASIS),
    'C09': (S + 'forging parties, reference decision per chain', BASIS),
    'C10': (S + 'impostors amid honest assignments', BASIS),
    'C11': (S + 'stalling and jumping clocks, history of ids', BASIS),
    'C12': (S + 'travelling notes, reference note', BASIS),
    'C13': (S + 'rolling upgrades, greetings in flight', BASIS),
    'C14': (S + 'mixed-up settlements, jumping clocks, rule model', BASIS),
    'C15': (S + 'Byzantine peer, rule table as oracle', BASIS
            + 'Zones listed as unspecified in DESIGN.md are not judged.'),
    'C16': (S + 'interleaved actors, full state comparison after each step',
            BASIS),
    'C17': (S + 'planned and failing random source, set model', BASIS),
    'C18': (S + 'interleaved registrations and restarts, register model',
            BASIS),
    'C19': (S + 'queues under retries, crashes and failing entropy', BASIS),
    'C20': (S + 'gossip with dishonest hops', BASIS),
    'C21': (S + 'reports through chains and restarts, Byzantine provider',
            BASIS),
    'C22': (S + 'controlled thread interleavings, sequential oracle', BASIS
            + 'Preemption at source lines of the library only.'),
    'C23': (S + 'aborts at chosen source lines, undisturbed twin as oracle',
            BASIS + 'Aborts inside C extensions are not simulated.'),
    'C24': (S + 'random observation histories, first answer as oracle',
            BASIS),
    'C25': (S + 'parties in all zones and their reports, integer formulas',
            BASIS),
    'C26': (S + 'conversions in long histories, threads and aborts, '
            'reference codecs', BASIS + 'Odd keys are mined beforehand.'),
    'C27': (S + 'builds against a stub of git and a disk that fails, killed '
            'at every point; reference names', BASIS + 'git is a stub that '
            'answers `git describe`; the files are real ones in a scratch '
            'directory behind failing wrappers.'),
    'C28': (S + 'messages made on ticking clocks in all zones, sent to nodes',
            BASIS),
    'C30': (S + 'secrets searched for in everything that comes out, under '
            'faults and aborts', BASIS + 'Found in plain, reversed, hex, base64, '
            'decimal and list form, from 8 bytes in a row on; local variables '
            'in tracebacks and the caches of keys do not count.'),
    'C29': (S + 'thousands of operations on ever different data, failing and '
            'cut off; everything reachable is weighed', BASIS + 'A history is '
            '1700 operations of one or two kinds; growth slower than one entry '
            'in 17 operations is not seen.'),
}
