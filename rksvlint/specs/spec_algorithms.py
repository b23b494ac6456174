# Rules for librksv/algorithms.py and the cryptographic part of librksv/utils.py.
import base64
import binascii
import jwt
import jwt.algorithms
import jwt.exceptions
from cryptography import x509
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, rsa, padding
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat, load_pem_private_key, load_pem_public_key
from librksv import utils


def digest(data):
    d = hashes.Hash(hashes.SHA256(), backend=default_backend())
    d.update(data)
    return d.finalize()


def sha256(data):
    return digest(data)


def ctr(iv, key, data):
    e = Cipher(algorithms.AES(key), modes.CTR(iv), backend=default_backend()).encryptor()
    return e.update(data) + e.finalize()


def aes256ctr(iv, key, data):
    return ctr(iv, key, data)


def id(self):
    return 'R1'


def jwsHeader(self):
    return '{"alg":"ES256"}'


def sigAlgo(self):
    return 'ES256'


def chainBytes(self):
    return 8


def hash(self, data):
    return digest(data.encode('utf-8'))


def chain(self, receipt, previousJwsString):
    if previousJwsString:
        return digest(previousJwsString.encode('utf-8'))[0:8]
    return digest(receipt.registerId.encode('utf-8'))[0:8]


def sign(self, payload, privKey):
    a = jwt.algorithms.get_default_algorithms()['ES256']
    h = base64.urlsafe_b64encode('{"alg":"ES256"}'.encode('utf-8')).replace(b'=', b'')
    p = base64.urlsafe_b64encode(payload.encode('utf-8')).replace(b'=', b'')
    return base64.urlsafe_b64encode(a.sign(h + b'.' + p, a.prepare_key(privKey))).replace(b'=', b'')


def verify(self, jwsString, pubKey):
    if not isinstance(pubKey, ec.EllipticCurvePublicKey):
        return False
    try:
        payload = jwt.PyJWS().decode(jwsString, pubKey)
    except jwt.exceptions.DecodeError:
        return False
    return bool(payload)


def verifyKey(self, key):
    return isinstance(key, bytes) and len(key) == 32


def iv(receipt):
    return digest(receipt.registerId.encode('utf-8') + receipt.receiptId.encode('utf-8'))[0:16]


def encryptTurnoverCounter(self, receipt, turnoverCounter, key, size):
    return ctr(iv(receipt), key, turnoverCounter.to_bytes(size, byteorder='big', signed=True))


def decryptTurnoverCounter(self, receipt, encTurnoverCounter, key):
    return int.from_bytes(ctr(iv(receipt), key, encTurnoverCounter), byteorder='big', signed=True)


def raiseForKey(key, algorithm):
    violates(not algorithm.verifyKey(key), utils.InvalidKeyException)


def loadKeyFromJson(json):
    try:
        k = json['base64AESKey']
    except KeyError:
        return None
    try:
        return utils.b64decode(k.encode('utf-8'))
    except (AttributeError, TypeError, UnicodeError, binascii.Error):
        raise utils.InvalidKeyException()


def verifyCert(cert, signCert):
    k = signCert.public_key()
    if isinstance(k, ec.EllipticCurvePublicKey):
        try:
            k.verify(cert.signature, cert.tbs_certificate_bytes, ec.ECDSA(cert.signature_hash_algorithm))
            return True
        except InvalidSignature:
            return False
    if isinstance(k, rsa.RSAPublicKey):
        try:
            k.verify(cert.signature, cert.tbs_certificate_bytes, padding.PKCS1v15(), cert.signature_hash_algorithm)
            return True
        except InvalidSignature:
            return False
    return False


def certFingerprint(cert):
    return ':'.join('{:02x}'.format(b) for b in cert.fingerprint(hashes.SHA256()))


def loadCert(pem):
    return x509.load_pem_x509_certificate(pem.encode('utf-8'), default_backend())


def loadPubKey(pem):
    return load_pem_public_key(pem.encode('utf-8'), default_backend())


def loadPrivKey(pem):
    return load_pem_private_key(pem.encode('utf-8'), None, default_backend())


def exportCertToPEM(cert):
    return ''.join(cert.public_bytes(Encoding.PEM).decode('utf-8').splitlines()[1:-1])


def exportKeyToPEM(key):
    return ''.join(key.public_bytes(Encoding.PEM, PublicFormat.SubjectPublicKeyInfo).decode('utf-8').splitlines()[1:-1])


def addPEMCertHeaders(cert):
    return '-----BEGIN CERTIFICATE-----\n' + '\n'.join([cert[i:i + 64] for i in range(0, len(cert), 64)]) + \
        '\n-----END CERTIFICATE-----'


def addPEMPubKeyHeaders(pubKey):
    return '-----BEGIN PUBLIC KEY-----\n' + '\n'.join([pubKey[i:i + 64] for i in range(0, len(pubKey), 64)]) + \
        '\n-----END PUBLIC KEY-----'


def certGetstate(self):
    return utils.exportCertToPEM(self)


def certSetstate(self, cert_str):
    self.__dict__.update(utils.loadCert(utils.addPEMCertHeaders(cert_str)).__dict__)


def pubkeyGetstate(self):
    return utils.exportKeyToPEM(self)


def pubkeySetstate(self, pubkey_str):
    self.__dict__.update(utils.loadPubKey(utils.addPEMPubKeyHeaders(pubkey_str)).__dict__)


def certOverride(cert_class):
    try:
        if cert_class.__pickle_override__:
            return
    except AttributeError:
        pass
    cert_class.__getstate__ = utils.cert_getstate
    cert_class.__setstate__ = utils.cert_setstate


def pubkeyOverride(pubkey_class):
    try:
        if pubkey_class.__pickle_override__:
            return
    except AttributeError:
        pass
    pubkey_class.__getstate__ = utils.pubkey_getstate
    pubkey_class.__setstate__ = utils.pubkey_setstate


def overrides():
    priv, pub = utils.makeES256Keypair()
    cert = utils.makeSignedCert(pub, 'init cert', 365, utils.makeCertSerial(), priv)
    utils.cert_class_override(cert.__class__)
    utils.pubkey_class_override(cert.public_key().__class__)
