# Rules for librksv/receipt.py: which strings are receipts, what they mean, and
# how each representation is written.  Evaluated by rksvlint, never executed.
import base64
import binascii
import datetime
import re
from librksv import algorithms
from librksv import receipt
from librksv import utils

B64 = re.compile(r'^[a-zA-Z0-9/+]*={0,3}$')
B64URL = re.compile(r'^[a-zA-Z0-9_-]*={0,3}$')
B32 = re.compile(r'^[A-Z2-7/+]*={0,7}$')
ALG = re.compile(r'^R[1-9]\d*$')
ZDA = re.compile(r'^([A-Z][A-Z][1-9]\d*|AT0)$')
SUM = re.compile(r'^-?([1-9]\d+|\d)\,\d\d$')


def b64(s):
    """bytes, or None when s is not base64"""
    if B64.match(s) is None:
        return None
    try:
        return base64.b64decode(s.encode('utf-8'))
    except binascii.Error:
        return None


def pad(s):
    n = 4 - len(s) % 4
    if n < 4:
        s = s + '=' * n
    return s


def b64url(s):
    """bytes of unpadded URL-safe base64, or None"""
    s = pad(s)
    if B64URL.match(s) is None:
        return None
    try:
        return base64.urlsafe_b64decode(s.encode('utf-8'))
    except binascii.Error:
        return None


def b32(s):
    if B32.match(s) is None:
        return None
    try:
        return base64.b32decode(s.encode('utf-8'))
    except binascii.Error:
        return None


def text(b):
    if b is None:
        return None
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError:
        return None


def number(s):
    if SUM.match(s) is None:
        return None
    x = float(s.replace(',', '.'))
    if x == float('inf') or x == -float('inf'):
        return None
    return x


def timestamp(s):
    try:
        return datetime.datetime.strptime(s, '%Y-%m-%dT%H:%M:%S')
    except ValueError:
        return None


def serialType(s):
    if len(s) == 0:
        return receipt.CertSerialType.INVALID
    if s[0] == '-' and '-' not in s[1:]:
        s = s[1:]
    parts = s.split('-')
    s = parts[0]
    if len(parts) > 2 or (len(parts) == 2 and not parts[1].isalnum()):
        return receipt.CertSerialType.INVALID
    if len(s) == 11 and s[0:2] == 'S:' and s[2:].isdigit():
        return receipt.CertSerialType.TAX
    if 3 <= len(s) <= 16 and s[0:2] == 'U:' and s[2:].isalnum() and s[2:] == s[2:].upper():
        return receipt.CertSerialType.UID
    if len(s) == 15 and s[0:2] == 'G:' and s[2:].isdigit():
        return receipt.CertSerialType.GLN
    try:
        int(s, 16)
        return receipt.CertSerialType.SERIAL
    except ValueError:
        pass
    try:
        int(s, 10)
        return receipt.CertSerialType.SERIAL
    except ValueError:
        return receipt.CertSerialType.INVALID


def isStr(x):
    return isinstance(x, str)


def init(self, zda, registerId, receiptId, dateTime, sumA, sumB, sumC, sumD, sumE, encTurnoverCounter, certSerial,
         previousChain):
    make(zda, registerId, receiptId, dateTime, sumA, sumB, sumC, sumD, sumE, encTurnoverCounter, certSerial,
         previousChain)
    self.zda = zda
    self.registerId = registerId
    self.receiptId = receiptId
    self.dateTimeStr = dateTime
    self.dateTime = timestamp(dateTime)
    self.sumAStr = sumA
    self.sumBStr = sumB
    self.sumCStr = sumC
    self.sumDStr = sumD
    self.sumEStr = sumE
    self.sumA = number(sumA)
    self.sumB = number(sumB)
    self.sumC = number(sumC)
    self.sumD = number(sumD)
    self.sumE = number(sumE)
    self.encTurnoverCounter = encTurnoverCounter
    self.certSerial = certSerial
    self.previousChain = previousChain
    self.header = None
    self.signature = None
    self.signed = False


def encodable(s):
    try:
        s.encode('utf-8')
    except UnicodeError:
        return False
    return True


def make(zda, registerId, receiptId, dateTime, sumA, sumB, sumC, sumD, sumE, encTC, certSerial, previousChain):
    """field rules common to every representation"""
    M = receipt.MalformedReceiptException
    violates(not isStr(receiptId) or not receiptId or '_' in receiptId or not encodable(receiptId), receipt.MalformedReceiptException)
    violates(not isStr(zda) or ZDA.match(zda) is None, receipt.MalformedReceiptException)
    violates(not isStr(registerId) or not registerId or '_' in registerId or not encodable(registerId), receipt.MalformedReceiptException)
    violates(not isStr(dateTime) or not dateTime or timestamp(dateTime) is None, receipt.MalformedReceiptException)
    violates(not isStr(sumA) or number(sumA) is None, receipt.MalformedReceiptException)
    violates(not isStr(sumB) or number(sumB) is None, receipt.MalformedReceiptException)
    violates(not isStr(sumC) or number(sumC) is None, receipt.MalformedReceiptException)
    violates(not isStr(sumD) or number(sumD) is None, receipt.MalformedReceiptException)
    violates(not isStr(sumE) or number(sumE) is None, receipt.MalformedReceiptException)
    violates(not isStr(encTC) or b64(encTC) is None, receipt.MalformedReceiptException)
    violates(not isStr(previousChain) or b64(previousChain) is None, receipt.MalformedReceiptException)
    violates(not isStr(certSerial) or not certSerial, receipt.MalformedReceiptException)
    kind = serialType(certSerial)
    violates(isStr(certSerial) and certSerial and kind == receipt.CertSerialType.INVALID,
             receipt.CertSerialInvalidException)
    violates(isStr(certSerial) and certSerial and kind != receipt.CertSerialType.INVALID and
             (kind == receipt.CertSerialType.SERIAL) == (zda == 'AT0'), receipt.InvalidCertificateProviderException)
    tc = b64(encTC)
    violates(tc is not None and len(tc) != 0 and (len(tc) < 5 or len(tc) > 16) and tc != b'TRA' and tc != b'STO',
             receipt.MalformedReceiptException)


def codePayload(code, segs, signature):
    """rules for the twelve payload fields and the result"""
    pz = segs[1].split('-')
    violates(len(pz) != 2, receipt.MalformedReceiptException)
    prefix, zda = pz[0], pz[1]
    violates(ALG.match(prefix) is None, receipt.MalformedReceiptException)
    violates(ALG.match(prefix) is not None and prefix not in algorithms.ALGORITHMS, receipt.UnknownAlgorithmException)
    alg = algorithms.ALGORITHMS[prefix]
    violates(not segs[10].replace('=', ''), receipt.MalformedReceiptException)
    make(zda, segs[2], segs[3], segs[4], segs[5], segs[6], segs[7], segs[8], segs[9], segs[10], segs[11], segs[12])
    cv = b64(segs[12])
    violates(cv is not None and len(cv) != 8, receipt.MalformedReceiptException)
    return record('receipt.Receipt', zda=zda, registerId=segs[2], receiptId=segs[3], dateTimeStr=segs[4],
                  dateTime=timestamp(segs[4]), sumAStr=segs[5], sumBStr=segs[6], sumCStr=segs[7], sumDStr=segs[8],
                  sumEStr=segs[9], sumA=number(segs[5]), sumB=number(segs[6]), sumC=number(segs[7]),
                  sumD=number(segs[8]), sumE=number(segs[9]), encTurnoverCounter=segs[10], certSerial=segs[11],
                  previousChain=segs[12], header='{"alg":"ES256"}', signature=signature, signed=True), prefix


def fromJWSString(jws):
    violates(not isStr(jws), receipt.MalformedReceiptException)
    s = jws.split('.')
    violates(len(s) != 3, receipt.MalformedReceiptException)
    violates(s[0].endswith('=') or s[1].endswith('=') or s[2].endswith('='), receipt.MalformedReceiptException)
    header = text(b64url(s[0]))
    violates(header is None, receipt.MalformedReceiptException)
    payload = text(b64url(s[1]))
    violates(payload is None, receipt.MalformedReceiptException)
    segs = payload.split('_')
    violates(payload is not None and (len(segs) != 13 or segs[0] != ''), receipt.MalformedReceiptException)
    violates(b64url(s[2]) is None, receipt.MalformedReceiptException)
    r = codePayload(jws, segs, s[2])
    violates(header is not None and header != '{"alg":"ES256"}', receipt.AlgorithmMismatchException)
    return r


def fromBasicCode(code):
    violates(not isStr(code), receipt.MalformedReceiptException)
    segs = code.split('_')
    violates(len(segs) != 14 or segs[0] != '', receipt.MalformedReceiptException)
    sig = b64(segs[13])
    violates(sig is None, receipt.MalformedReceiptException)
    return codePayload(code, segs, base64.urlsafe_b64encode(sig).decode('utf-8').replace('=', ''))


def fromOCRCode(code):
    violates(not isStr(code), receipt.MalformedReceiptException)
    segs = code.split('_')
    violates(len(segs) != 14 or segs[0] != '', receipt.MalformedReceiptException)
    tc = b32(segs[10])
    chain = b32(segs[12])
    sig = b32(segs[13])
    violates(tc is None, receipt.MalformedReceiptException)
    violates(chain is None, receipt.MalformedReceiptException)
    violates(sig is None, receipt.MalformedReceiptException)
    segs[10] = base64.b64encode(tc).decode('utf-8')
    segs[12] = base64.b64encode(chain).decode('utf-8')
    return codePayload(code, segs, base64.urlsafe_b64encode(sig).decode('utf-8').replace('=', ''))


def fromCSV(csv):
    violates(not isStr(csv), receipt.MalformedReceiptException)
    return fromBasicCode('_' + '_'.join([s.strip() for s in csv.split(';')]))


def payload(self, prefix):
    return '_'.join(['_' + prefix + '-' + self.zda, self.registerId, self.receiptId, self.dateTimeStr, self.sumAStr,
                     self.sumBStr, self.sumCStr, self.sumDStr, self.sumEStr, self.encTurnoverCounter, self.certSerial,
                     self.previousChain])


def toPayloadString(self, algorithmPrefix):
    return payload(self, algorithmPrefix)


def toJWSString(self, algorithmPrefix):
    violates(not self.signed, Exception)
    return base64.urlsafe_b64encode(self.header.encode('utf-8')).decode('utf-8').replace('=', '') + '.' + \
        base64.urlsafe_b64encode(payload(self, algorithmPrefix).encode('utf-8')).decode('utf-8').replace('=', '') + \
        '.' + self.signature


def toBasicCode(self, algorithmPrefix):
    violates(not self.signed, Exception)
    violates(b64url(self.signature) is None, TypeError)
    return payload(self, algorithmPrefix) + '_' + base64.b64encode(b64url(self.signature)).decode('utf-8')


def toCSV(self, algorithmPrefix):
    return toBasicCode(self, algorithmPrefix)[1:].replace('_', ';')


def toOCRCode(self, algorithmPrefix):
    violates(not self.signed, Exception)
    violates(b64(self.encTurnoverCounter) is None or b64(self.previousChain) is None or
             b64url(self.signature) is None, TypeError)
    return '_'.join(['_' + algorithmPrefix + '-' + self.zda, self.registerId, self.receiptId, self.dateTimeStr,
                     self.sumAStr, self.sumBStr, self.sumCStr, self.sumDStr, self.sumEStr,
                     base64.b32encode(b64(self.encTurnoverCounter)).decode('utf-8'), self.certSerial,
                     base64.b32encode(b64(self.previousChain)).decode('utf-8'),
                     base64.b32encode(b64url(self.signature)).decode('utf-8')])


def toURLHash(self, algorithmPrefix):
    code = toBasicCode(self, algorithmPrefix)
    violates(algorithmPrefix not in algorithms.ALGORITHMS, receipt.UnknownAlgorithmException)
    return base64.urlsafe_b64encode(algorithms.ALGORITHMS[algorithmPrefix].hash(code)[0:8]).decode('utf-8').replace('=', '')


def sign(self, header, signature):
    violates(not isStr(header), receipt.MalformedReceiptException)
    violates(not isStr(signature), receipt.MalformedReceiptException)
    violates(isStr(signature) and signature.endswith('='), receipt.MalformedReceiptException)
    violates(isStr(signature) and b64url(signature) is None, receipt.MalformedReceiptException)
    self.header = header
    self.signature = signature
    self.signed = True


def isSignedBroken(self):
    violates(not self.signed, Exception)
    return self.signature == 'U2ljaGVyaGVpdHNlaW5yaWNodHVuZyBhdXNnZWZhbGxlbg'


def isDummy(self):
    violates(b64(self.encTurnoverCounter) is None, TypeError)
    return b64(self.encTurnoverCounter) == b'TRA'


def isReversal(self):
    violates(b64(self.encTurnoverCounter) is None, TypeError)
    return b64(self.encTurnoverCounter) == b'STO'


def isNull(self):
    return self.sumA == 0.0 and self.sumB == 0.0 and self.sumC == 0.0 and self.sumD == 0.0 and self.sumE == 0.0


def decryptTurnoverCounter(self, key, algorithm):
    violates(isDummy(self), Exception)
    violates(isReversal(self), Exception)
    violates(not algorithm.verifyKey(key), utils.InvalidKeyException)
    return algorithm.decryptTurnoverCounter(self, b64(self.encTurnoverCounter), key)


def getReceiptFloat(fstr):
    return number(fstr)


def getCertSerialType(certSerial):
    return serialType(certSerial)
