# Rules for the generating cash register and its signature devices, evaluated by
# rksvlint (never executed).
import base64
import datetime
import requests
from cryptography import x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.x509.oid import NameOID
from librksv import algorithms
from librksv import cashreg
from librksv import receipt
from librksv import sigsys
from librksv import utils


def init(self, registerId, lastReceiptSig, turnoverCounter, key, turnoverCounterSize):
    if not 5 <= turnoverCounterSize <= 16:
        raise Exception()
    self.registerId = registerId
    self.lastReceiptSig = lastReceiptSig
    self.turnoverCounter = int(turnoverCounter)
    self.turnoverCounterSize = turnoverCounterSize
    self.key = key


def euros(x):
    return ("%.2f" % x).replace('.', ',')


# a receipt without overrides
def makeReceipt(self, prefix, receiptId, dateTime, sumA, sumB, sumC, sumD, sumE, sigSystem, dummy, reversal):
    alg = algorithms.ALGORITHMS[prefix]
    rec = cashreg.MangledReceipt(receipt.Receipt(
        sigSystem.zda, self.registerId, receiptId, dateTime.strftime("%Y-%m-%dT%H:%M:%S"), euros(sumA), euros(sumB), euros(sumC),
        euros(sumD), euros(sumE), '', sigSystem.serial, ''), {})
    counter = self.turnoverCounter
    if not dummy:
        counter += int(round((sumA + sumB + sumC + sumD + sumE) * 100))
    if dummy:
        enc = b'TRA'
    elif reversal:
        enc = b'STO'
    else:
        utils.raiseForKey(self.key, alg)
        enc = alg.encryptTurnoverCounter(rec, counter, self.key, self.turnoverCounterSize)
    rec.encTurnoverCounter = base64.b64encode(enc).decode('utf-8')
    rec.previousChain = base64.b64encode(alg.chain(rec, self.lastReceiptSig)).decode('utf-8')
    jws = sigSystem.sign(rec.toPayloadString(prefix), alg)
    header, payload, signature = jws.split('.')
    rec.sign(base64.urlsafe_b64decode(utils.restoreb64padding(header).encode('utf-8')).decode('utf-8'), signature)
    self.turnoverCounter = counter
    self.lastReceiptSig = jws
    return rec


# ---- signature devices
def u64(b):
    return base64.urlsafe_b64encode(b).replace(b'=', b'')


def brokenInit(self, zda, serial):
    self.zda = zda
    self.serial = serial


def brokenSign(self, data, algorithm):
    return (u64(algorithm.jwsHeader().encode('utf-8')) + b'.' + u64(data.encode('utf-8')) + b'.' +
            u64('Sicherheitseinrichtung ausgefallen'.encode('utf-8'))).decode('utf-8')


def workingInit(self, zda, serial, priv):
    self.zda = zda
    self.serial = serial
    self.secret = priv


def workingSign(self, data, algorithm):
    sig = algorithm.sign(data, self.secret)
    return (u64(algorithm.jwsHeader().encode('utf-8')) + b'.' + u64(data.encode('utf-8')) + b'.' + sig).decode('utf-8')


def trustInit(self, username, password, certFile=True):
    self.username = username
    self.password = password
    self.certFile = certFile
    c = requests.get(self.ATrustURL + '/%s/Certificate' % username, verify=certFile)
    c.raise_for_status()
    self.serial = c.json()['ZertifikatsseriennummerHex']
    self.algo = c.json()['alg']
    z = requests.get(self.ATrustURL + '/%s/ZDA' % username, verify=certFile)
    z.raise_for_status()
    self.zda = z.json()['zdaid']


def trustSign(self, data, algorithm):
    # a device that cannot be reached has failed
    try:
        r = requests.post(self.ATrustURL + '/%s/Sign/JWS' % self.username, json={'password': self.password, 'jws_payload': data},
                          verify=self.certFile)
        r.raise_for_status()
        return r.json()['result']
    except requests.exceptions.RequestException:
        return sigsys.SignatureSystemBroken(self.zda, self.serial).sign(data, algorithm)


# ---- keys and certificates of generated registers
def keypair():
    priv = ec.generate_private_key(ec.SECP256R1(), default_backend())
    return priv, priv.public_key()


def named(cn):
    return x509.NameAttribute(NameOID.COMMON_NAME, cn)


def signedCert(cpub, ccn, cvdays, cserial, spriv, scert=None):
    if scert:
        subject = x509.Name([p for p in scert.subject if p.oid != NameOID.COMMON_NAME] + [named(ccn)])
        issuer = scert.subject
    else:
        subject = x509.Name([named(ccn)])
        issuer = x509.Name([named(ccn)])
    b = x509.CertificateBuilder().subject_name(subject).issuer_name(issuer).not_valid_before(datetime.datetime.today())
    b = b.not_valid_after(datetime.datetime.today() + datetime.timedelta(cvdays, 0, 0)).serial_number(cserial).public_key(cpub)
    b = b.add_extension(x509.BasicConstraints(ca=True, path_length=None), critical=True)
    return b.sign(private_key=spriv, algorithm=hashes.SHA256(), backend=default_backend())
