# Rules for librksv/verify_receipt.py (verification of a single receipt).
import base64
from librksv import algorithms
from librksv import key_store
from librksv import receipt
from librksv import utils
from librksv import verify_receipt


def init(self, keyStore, cert):
    self.keyStore = keyStore
    self.cert = cert


def fromCert(cert):
    return record('verify_receipt.ReceiptVerifier', keyStore=None, cert=cert)


def fromKeyStore(keyStore):
    return record('verify_receipt.ReceiptVerifier', keyStore=keyStore, cert=None)


def firstKey(keyStore, ids):
    k = None
    for i in ids:
        k = keyStore.getKey(i)
        if k:
            break
    return k


def verify(self, rec, algorithmPrefix):
    violates(algorithmPrefix not in algorithms.ALGORITHMS, receipt.UnknownAlgorithmException)
    alg = algorithms.ALGORITHMS[algorithmPrefix]
    if rec.zda == 'AT0':
        if self.cert:
            key = self.cert.public_key()
        else:
            key = self.keyStore.getKey(rec.certSerial)
    else:
        ids = key_store.strSerialToKeyIds(rec.certSerial)
        if self.cert:
            violates(key_store.numSerialToKeyId(self.cert.serial_number) not in ids,
                     verify_receipt.CertSerialMismatchException)
            key = self.cert.public_key()
        else:
            key = firstKey(self.keyStore, ids)
    broken = rec.isSignedBroken()
    standardNull = not rec.isDummy() and not rec.isReversal() and rec.isNull()
    violates(broken and standardNull, verify_receipt.UnsignedNullReceiptException)
    violates(broken and not standardNull, verify_receipt.SignatureSystemFailedException)
    violates(not broken and not key, verify_receipt.NoPublicKeyException)
    violates(not broken and key and not alg.verify(rec.toJWSString(algorithmPrefix), key),
             verify_receipt.InvalidSignatureException)
    return rec, alg


def verifyJWS(self, jwsString):
    r, p = receipt.Receipt.fromJWSString(jwsString)
    return self.verify(r, p)


def verifyBasicCode(self, basicCode):
    r, p = receipt.Receipt.fromBasicCode(basicCode)
    return self.verify(r, p)


def verifyOCRCode(self, ocrCode):
    r, p = receipt.Receipt.fromOCRCode(ocrCode)
    return self.verify(r, p)


def verifyCSV(self, csv):
    r, p = receipt.Receipt.fromCSV(csv)
    return self.verify(r, p)


def verifyURLHash(rec, algorithm, urlHash):
    h = base64.urlsafe_b64encode(algorithm.hash(rec.toBasicCode(algorithm.id()))[0:8]).decode('utf-8').replace('=', '')
    violates(h != urlHash, verify_receipt.InvalidURLHashException)
