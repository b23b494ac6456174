"""Rules for librksv/algorithms.py, librksv/utils.py (cryptography) and
librksv/verify_receipt.py."""
from .. import engine
from ..core import rule

AL = 'obj:algorithms.R1'
REC = 'obj:receipt.Receipt'
RV = 'obj:verify_receipt.ReceiptVerifier'
S = 'spec.algorithms.'
V = 'verify_receipt.ReceiptVerifier.'
OPAQUE = ['key_store.strSerialToKeyIds', 'key_store.numSerialToKeyId', 'key_store.KeyStore.getKey', 'algorithms.R1.verify'] + \
    ['receipt.Receipt.' + n for n in ('isSignedBroken', 'isDummy', 'isReversal', 'isNull', 'toJWSString', 'toBasicCode')]


def rel(ctx, q, spec, params, default, **kw):
    ctx.rel(q, spec, params, default, **kw)


@rule('algo-values', 'C01 C02 C12 C13 C20 C21 C24', 'algorithm class R1: identifiers, header, hash and chain prefix')
def _(ctx):
    a = 'algorithms.R1.'
    rel(ctx, a + 'id', S + 'id', dict(self=AL), ('C13', 'C24', 'C12', 'C21'))
    rel(ctx, a + 'jwsHeader', S + 'jwsHeader', dict(self=AL), ('C12', 'C13', 'C01', 'C21'))
    rel(ctx, a + 'sigAlgo', S + 'sigAlgo', dict(self=AL), ('C12', 'C13', 'C01', 'C21'))
    rel(ctx, a + 'chainBytes', S + 'chainBytes', dict(self=AL), ('C12', 'C02', 'C21'))
    rel(ctx, a + 'hash', S + 'hash', dict(self=AL, data='str'), ('C02', 'C24'))
    rel(ctx, a + 'chain', S + 'chain', dict(self=AL, receipt=REC, previousJwsString='?str'), ('C02', 'C21'))
    rel(ctx, 'utils.sha256', S + 'sha256', dict(data='bytes'), ('C02', 'C20', 'C24'))


@rule('algo-sign', 'C01 C21', 'R1 signs header and payload with ES256 and verifies through the JWS library')
def _(ctx):
    rel(ctx, 'algorithms.R1.sign', S + 'sign', dict(self=AL, payload='str', privKey='str'), ('C21', 'C01'))
    rel(ctx, 'algorithms.R1.verify', S + 'verify', dict(self=AL, jwsString='str', pubKey='obj:pubkey'), ('C01',))


@rule('algo-crypt', 'C05 C20 C21', 'turnover counter encryption: key length, initialisation vector, CTR mode, signed big endian')
def _(ctx):
    a = 'algorithms.R1.'
    rel(ctx, a + 'verifyKey', S + 'verifyKey', dict(self=AL, key=None), ('C05', 'C20'))
    rel(ctx, a + 'encryptTurnoverCounter', S + 'encryptTurnoverCounter',
        dict(self=AL, receipt=REC, turnoverCounter='int', key='bytes', size='int'), ('C20', 'C21'))
    rel(ctx, a + 'decryptTurnoverCounter', S + 'decryptTurnoverCounter',
        dict(self=AL, receipt=REC, encTurnoverCounter='bytes', key='bytes'), ('C20', 'C05'))
    rel(ctx, 'utils.aes256ctr', S + 'aes256ctr', dict(iv='bytes', key='bytes', data='bytes'), ('C20', 'C05'))
    rel(ctx, 'utils.raiseForKey', S + 'raiseForKey', dict(key='?bytes', algorithm=AL), ('C05', 'C20'))
    rel(ctx, 'utils.loadKeyFromJson', S + 'loadKeyFromJson', dict(json='dict'), ('C05', 'C20'))


@rule('cert-primitives', 'C08 C18', 'certificate signatures, fingerprints and PEM conversions')
def _(ctx):
    u = 'utils.'
    C = 'obj:x509'
    rel(ctx, u + 'verifyCert', S + 'verifyCert', dict(cert=C, signCert=C), ('C08',))
    rel(ctx, u + 'certFingerprint', S + 'certFingerprint', dict(cert=C), ('C08',))
    for n, p in (('loadCert', dict(pem='str')), ('loadPubKey', dict(pem='str')), ('loadPrivKey', dict(pem='str')),
                 ('exportCertToPEM', dict(cert=C)), ('exportKeyToPEM', dict(key='obj:pubkey')),
                 ('addPEMCertHeaders', dict(cert='str')), ('addPEMPubKeyHeaders', dict(pubKey='str'))):
        rel(ctx, u + n, S + n, p, ('C18', 'C08'))


@rule('verify-receipt', 'C01', 'a receipt is accepted only with a signature that verifies under the designated key')
def _(ctx):
    s = 'spec.verify_receipt.'
    rel(ctx, V + 'verify', s + 'verify', dict(self=RV, rec=REC, algorithmPrefix='str'), ('C01',), opaque=OPAQUE)
    po = ['receipt.Receipt.' + n for n in ('fromJWSString', 'fromBasicCode', 'fromOCRCode', 'fromCSV')] + [V + 'verify']
    for n, a in (('verifyJWS', 'jwsString'), ('verifyBasicCode', 'basicCode'), ('verifyOCRCode', 'ocrCode'),
                 ('verifyCSV', 'csv')):
        rel(ctx, V + n, s + n, {'self': RV, a: 'str'}, ('C01', 'C12'), opaque=po)
    rel(ctx, V + '__init__', s + 'init', dict(self=RV, keyStore='?obj:key_store.KeyStore', cert='?obj:x509'), ('C01',),
        state=[(lambda k: k[0] == 'A' and k[1].op == 'var', ('C01',))])
    rel(ctx, V + 'fromCert', s + 'fromCert', dict(cert='?obj:x509'), ('C01',))
    rel(ctx, V + 'fromKeyStore', s + 'fromKeyStore', dict(keyStore='?obj:key_store.KeyStore'), ('C01',))


@rule('url-hash', 'C24', 'a receipt is accepted only if the URL carries the hash of its basic code')
def _(ctx):
    rel(ctx, 'verify_receipt.verifyURLHash', 'spec.verify_receipt.verifyURLHash',
        dict(rec=REC, algorithm='obj:alg', urlHash='?str'), ('C24',), opaque=OPAQUE)
