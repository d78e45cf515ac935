"""Stand-in for pyelliptic==1.5.10, which no index in this sandbox carries.

Only the surface golem_messages.cryptography uses.  The primitives are real
(secp256k1 from coincurve, AES-128-CTR from pycryptodome, HMAC-SHA256 from the
standard library); what is stubbed is the ctypes binding to OpenSSL, and the
randomness, which comes from os.urandom *as looked up at call time*, so that
the simulator's entropy seam decides every key and every IV.
"""
import hmac as _hmac
import os
from hashlib import sha256

from coincurve import PrivateKey, PublicKey
from Crypto.Cipher import AES
from Crypto.Util import Counter

_CIPHERS = {'aes-128-ctr': 16, 'aes-256-ctr': 16}


class _CipherName:
    def __init__(self, name, blocksize):
        self._name = name
        self._blocksize = blocksize

    def get_name(self):
        return self._name

    def get_blocksize(self):
        return self._blocksize


class _OpenSSL:
    cipher_algo = {n: _CipherName(n, b) for n, b in _CIPHERS.items()}

    def get_cipher(self, name):
        if name not in self.cipher_algo:
            raise Exception('Unknown cipher')
        return self.cipher_algo[name]


OpenSSL = _OpenSSL()


class Cipher:
    def __init__(self, key, iv, do, ciphername='aes-256-cbc'):
        OpenSSL.get_cipher(ciphername)
        if len(key) != int(ciphername.split('-')[1]) // 8:
            raise Exception('bad key length')
        self._aes = AES.new(
            bytes(key), AES.MODE_CTR,
            counter=Counter.new(
                128, initial_value=int.from_bytes(iv, 'big'),
                allow_wraparound=True),
        )

    @staticmethod
    def get_all_cipher():
        return list(OpenSSL.cipher_algo)

    @staticmethod
    def get_blocksize(ciphername):
        return OpenSSL.get_cipher(ciphername).get_blocksize()

    @staticmethod
    def gen_IV(ciphername):
        return os.urandom(OpenSSL.get_cipher(ciphername).get_blocksize())

    def update(self, data):
        return self._aes.encrypt(bytes(data))

    def final(self):
        return b''

    def ciphering(self, data):
        return self.update(data) + self.final()


def hmac_sha256(k, m):
    return _hmac.new(bytes(k), bytes(m), sha256).digest()


def equals(a, b):
    return _hmac.compare_digest(bytes(a), bytes(b))


class ECC:
    def __init__(self, pubkey=None, privkey=None, pubkey_x=None,
                 pubkey_y=None, raw_privkey=None, curve='sect283r1'):
        if curve != 'secp256k1':
            raise Exception('stub knows secp256k1 only')
        self.curve = curve
        if pubkey_x is not None and pubkey_y is not None:
            if raw_privkey is not None and self.raw_check_key(
                    raw_privkey, pubkey_x, pubkey_y) != 0:
                raise Exception('Bad ECC keys')
            self.pubkey_x, self.pubkey_y = pubkey_x, pubkey_y
            self.privkey = raw_privkey
        else:
            key = PrivateKey()
            pub = key.public_key.format(compressed=False)
            self.pubkey_x, self.pubkey_y = pub[1:33], pub[33:]
            self.privkey = key.secret

    def raw_check_key(self, privkey, pubkey_x, pubkey_y):
        try:
            pub = PublicKey(b'\x04' + pubkey_x + pubkey_y)
            if privkey is not None:
                own = PrivateKey(bytes(privkey)).public_key
                if own.format() != pub.format():
                    return -1
        except Exception:  # pylint: disable=broad-except
            return -1
        return 0
