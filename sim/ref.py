"""Reference peer: the published wire format, written down independently.

Nothing in here imports golem_messages.  CBOR, framing, hashing, signatures,
ECIES and promissory notes are implemented from their descriptions, so that a
symmetric mistake in the library cannot hide.
"""
import hashlib
import hmac
import struct

from coincurve import PrivateKey, PublicKey
from Crypto.Cipher import AES
from Crypto.Hash import keccak as _keccak
from Crypto.Util import Counter
from _pysha3 import sha3_256 as _sha3_256

SIG_LEN = 65
HDR_LEN = 11
NO_SIG = b'\0' * 65


# --- CBOR ------------------------------------------------------------------

def _cbor_head(major, n):
    major <<= 5
    if n < 24:
        return bytes([major | n])
    if n < 1 << 8:
        return bytes([major | 24, n])
    if n < 1 << 16:
        return bytes([major | 25]) + n.to_bytes(2, 'big')
    if n < 1 << 32:
        return bytes([major | 26]) + n.to_bytes(4, 'big')
    return bytes([major | 27]) + n.to_bytes(8, 'big')


def cbor(value):
    out = []
    _cbor(value, out)
    return b''.join(out)


def _cbor(v, out):
    if v is None:
        out.append(b'\xf6')
    elif v is True:
        out.append(b'\xf5')
    elif v is False:
        out.append(b'\xf4')
    elif isinstance(v, int):
        if v >= 0:
            if v < 1 << 64:
                out.append(_cbor_head(0, v))
            else:
                raw = v.to_bytes((v.bit_length() + 7) // 8, 'big')
                out.append(b'\xc2' + _cbor_head(2, len(raw)) + raw)
        else:
            n = -1 - v
            if n < 1 << 63:    # deployed encoders go to bignums here
                out.append(_cbor_head(1, n))
            else:
                raw = n.to_bytes((n.bit_length() + 7) // 8, 'big')
                out.append(b'\xc3' + _cbor_head(2, len(raw)) + raw)
    elif isinstance(v, float):
        out.append(b'\xfb' + struct.pack('!d', v))
    elif isinstance(v, (bytes, bytearray)):
        out.append(_cbor_head(2, len(v)) + bytes(v))
    elif isinstance(v, str):
        raw = v.encode('utf-8')
        out.append(_cbor_head(3, len(raw)) + raw)
    elif isinstance(v, (list, tuple)):
        out.append(_cbor_head(4, len(v)))
        for x in v:
            _cbor(x, out)
    elif isinstance(v, dict):
        out.append(_cbor_head(5, len(v)))
        for k, x in v.items():
            _cbor(k, out)
            _cbor(x, out)
    elif isinstance(v, RawCbor):
        out.append(v.raw)
    else:
        raise TypeError('reference cbor: %r' % (type(v),))


class RawCbor:
    """Pre-encoded bytes, for malformed contents."""

    def __init__(self, raw):
        self.raw = raw


class CborError(Exception):
    pass


def uncbor(data):
    value, pos = _uncbor(data, 0)
    if pos != len(data):
        raise CborError('trailing bytes')
    return value


def _uncbor(data, pos):
    try:
        ib = data[pos]
    except IndexError:
        raise CborError('eof')
    pos += 1
    major, info = ib >> 5, ib & 31
    if major == 7:
        if info == 20:
            return False, pos
        if info == 21:
            return True, pos
        if info == 22:
            return None, pos
        if info == 27:
            return struct.unpack('!d', data[pos:pos + 8])[0], pos + 8
        raise CborError('simple %d' % info)
    if info < 24:
        n = info
    elif info < 28:
        size = 1 << (info - 24)
        n = int.from_bytes(data[pos:pos + size], 'big')
        pos += size
    else:
        raise CborError('indefinite')
    if major == 0:
        return n, pos
    if major == 1:
        return -1 - n, pos
    if major in (2, 3):
        raw = data[pos:pos + n]
        if len(raw) != n:
            raise CborError('short string')
        pos += n
        return (raw if major == 2 else raw.decode('utf-8')), pos
    if major == 4:
        out = []
        for _ in range(n):
            x, pos = _uncbor(data, pos)
            out.append(x)
        return out, pos
    if major == 5:
        d = {}
        for _ in range(n):
            k, pos = _uncbor(data, pos)
            x, pos = _uncbor(data, pos)
            d[k] = x
        return d, pos
    raw, pos = _uncbor(data, pos)
    if n == 2:
        return int.from_bytes(raw, 'big'), pos
    if n == 3:
        return -1 - int.from_bytes(raw, 'big'), pos
    raise CborError('tag %d' % n)


# --- keys and signatures ---------------------------------------------------

def sha3(data):
    return _sha3_256(data).digest()


def keccak256(data):
    return _keccak.new(digest_bits=256, data=data).digest()


class Key:
    """A key pair; address and node id follow from it."""
    _cache = {}

    def __new__(cls, seed):
        got = cls._cache.get(seed)
        if got is None:
            if len(cls._cache) > 4096:
                cls._cache.clear()
            got = super().__new__(cls)
            got.priv = hashlib.sha256(b'key:' + seed.encode()).digest()
            got.ccpriv = PrivateKey(got.priv)
            got.pub = got.ccpriv.public_key.format(compressed=False)[1:]
            got.hex = got.pub.hex()
            cls._cache[seed] = got
        return got

    def sign(self, msg):
        return self.ccpriv.sign_recoverable(sha3(msg), hasher=None)

    @property
    def address(self):
        return checksum_address(keccak256(self.pub)[12:])


_ORDER = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141


def mirrored(key):
    """The key with the same public x coordinate and the other y."""
    got = object.__new__(Key)
    got.priv = (_ORDER - int.from_bytes(key.priv, 'big')).to_bytes(32, 'big')
    got.ccpriv = PrivateKey(got.priv)
    got.pub = got.ccpriv.public_key.format(compressed=False)[1:]
    got.hex = got.pub.hex()
    return got


def mirror_point(data):
    """data with the public point it starts with reflected"""
    y = 2 ** 256 - 2 ** 32 - 977 - int.from_bytes(data[33:65], 'big')
    return data[:33] + (y % 2 ** 256).to_bytes(32, 'big') + data[65:]


def verify(pub, sig, msg):
    """True iff sig over msg was made with the key behind pub."""
    try:
        got = PublicKey.from_signature_and_message(sig, sha3(msg), hasher=None)
    except Exception:  # pylint: disable=broad-except
        return False
    return got.format(compressed=False)[1:] == pub


def checksum_address(raw20):
    h = raw20.hex()
    digest = keccak256(h.encode()).hex()
    return '0x' + ''.join(
        c.upper() if int(digest[i], 16) >= 8 else c for i, c in enumerate(h))


# --- message framing -------------------------------------------------------

def short_hash(type_, ts, payload, version=None):
    h = hashlib.sha1(cbor([type_, ts]) + payload).digest()
    if version is not None:
        h += version.encode('ascii', 'replace')
    return h


def frame(type_, ts, enc, sig, payload, version=None):
    out = struct.pack('!HQ?', type_, ts, enc) + sig + payload
    if version is not None:
        out += struct.pack('!32p', version.encode('ascii', 'replace'))
    return out


class Frame:
    def __init__(self, data):
        self.type_, self.ts, self.enc = struct.unpack('!HQ?', data[:HDR_LEN])
        rest = data[HDR_LEN:]
        self.version = None
        if self.type_ == 0:
            self.version = struct.unpack('!32p', rest[-32:])[0].decode('ascii')
            rest = rest[:-32]
        self.sig = rest[:SIG_LEN]
        self.payload = rest[SIG_LEN:]

    def bytes(self):
        return frame(self.type_, self.ts, self.enc, self.sig, self.payload,
                     self.version)


# --- ECIES -----------------------------------------------------------------

OVERHEAD = 65 + 16 + 32


def _kdf32(material):
    # SP 800-56a concatenation KDF; 32 bytes are one SHA-256 block
    return hashlib.sha256(struct.pack('>I', 1) + material).digest()


def _ecies_keys(priv, pub65):
    point = PublicKey(pub65).multiply(priv)
    shared = hashlib.sha256(point.format(compressed=True)).digest()
    k = _kdf32(shared)
    return k[:16], hashlib.sha256(k[16:]).digest()


def _ctr(key, iv, data):
    return AES.new(key, AES.MODE_CTR, counter=Counter.new(
        128, initial_value=int.from_bytes(iv, 'big'),
        allow_wraparound=True)).encrypt(data)


def ecies_encrypt(data, pub, ephem_priv, iv, mac_data=b''):
    enc, mac = _ecies_keys(ephem_priv, b'\x04' + pub)
    body = iv + _ctr(enc, iv, data)
    tag = hmac.new(mac, body + mac_data, hashlib.sha256).digest()
    ephem_pub = PrivateKey(ephem_priv).public_key.format(compressed=False)
    return ephem_pub + body + tag


def ecies_decrypt(data, priv, mac_data=b''):
    """plaintext, or None when it does not authenticate"""
    if len(data) < OVERHEAD or data[:1] != b'\x04':
        return None
    try:
        enc, mac = _ecies_keys(priv, data[:65])
    except Exception:  # pylint: disable=broad-except
        return None
    body, tag = data[65:-32], data[-32:]
    good = hmac.new(mac, body + mac_data, hashlib.sha256).digest()
    if not hmac.compare_digest(good, tag):
        return None
    return _ctr(enc, body[:16], body[16:])


# --- promissory notes ------------------------------------------------------

def note_hash(contract, addr_from, addr_to, amount, subtask_id):
    import uuid
    body = (bytes.fromhex(contract[2:]) + bytes.fromhex(addr_from[2:])
            + bytes.fromhex(addr_to[2:]) + amount.to_bytes(32, 'big')
            + uuid.UUID(subtask_id).bytes + b'\0' * 16)
    return keccak256(b'\x19Ethereum Signed Message:\n'
                     + str(len(body)).encode() + body)


def note_sign(key, *note):
    sig = key.ccpriv.sign_recoverable(note_hash(*note), hasher=None)
    return [sig[64] + 27, sig[:32], sig[32:64]]


def note_signer(vrs, *note):
    """address that signed, or None"""
    try:
        v, r, s = vrs
        sig = bytes(r).rjust(32, b'\0') + bytes(s).rjust(32, b'\0') \
            + bytes([v - 27])
        pub = PublicKey.from_signature_and_message(
            sig, note_hash(*note), hasher=None)
    except Exception:  # pylint: disable=broad-except
        return None
    return checksum_address(keccak256(pub.format(compressed=False)[1:])[12:])
