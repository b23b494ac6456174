"""Rules for librksv/key_store.py."""
from ..core import rule

K = 'key_store.'
KS = 'obj:key_store.KeyStore'
S = 'spec.key_store.'
OP = ['utils.loadCert', 'utils.loadPubKey', 'utils.exportCertToPEM', 'utils.exportKeyToPEM', 'utils.addPEMCertHeaders',
      'utils.addPEMPubKeyHeaders']
RAISES = {'utils.loadCert': ('ValueError',), 'utils.loadPubKey': ('ValueError',)}
OP2 = OP[2:4] + [K + 'strSerialToKeyIds', K + 'parseKeyStoreCert', K + 'parseKeyStorePubkey']
RAISES2 = {K + 'parseKeyStoreCert': (K + 'MalformedCertificateException',),
           K + 'parseKeyStorePubkey': (K + 'MalformedPublicKeyException',)}


def own(*props):
    return [(lambda k: k[0] in ('A', 'I'), tuple(props))]


@rule('key-ids', 'C01 C08 C18', 'certificate serials map to canonical key ids in every documented spelling')
def _(ctx):
    ctx.rel(K + 'numSerialToKeyId', S + 'numSerialToKeyId', dict(serial='int'), ('C18', 'C01', 'C08'))
    ctx.rel(K + 'strSerialToKeyIds', S + 'strSerialToKeyIds', dict(serial='str'), ('C18', 'C01'))


@rule('key-lookup', 'C01 C08 C18', 'keys and certificates are stored and looked up under their id')
def _(ctx):
    c = K + 'KeyStore.'
    ctx.rel(c + '__init__', S + 'init', dict(self=KS), ('C18',), state=own('C18'))
    ctx.rel(c + 'getKeyIds', S + 'getKeyIds', dict(self=KS), ('C18',), state=own('C18'))
    ctx.rel(c + 'getKey', S + 'getKey', dict(self=KS, keyId='str'), ('C18', 'C01'), state=own('C18'))
    ctx.rel(c + 'getCert', S + 'getCert', dict(self=KS, keyId='str'), ('C18', 'C08'), state=own('C18'))
    ctx.rel(c + 'putKey', S + 'putKey', dict(self=KS, keyId='str', key='obj:pubkey', cert='?obj:x509'), ('C18',),
            state=own('C18'))
    ctx.rel(c + 'delKey', S + 'delKey', dict(self=KS, keyId='str'), ('C18',), state=own('C18'))
    ctx.rel(c + 'putPEMCert', S + 'putPEMCert', dict(self=KS, pemCert='str'), ('C18',), state=own('C18'),
            opaque=OP + [K + 'numSerialToKeyId'])
    ctx.rel(c + 'putPEMKey', S + 'putPEMKey', dict(self=KS, keyId='str', pemKey='str'), ('C18',), state=own('C18'), opaque=OP)


@rule('key-documents', 'C18', 'key store documents: every entry is written and read under its id, malformed documents are refused')
def _(ctx):
    c = K + 'KeyStore.'
    ctx.rel(K + 'parseKeyStoreCert', S + 'parseKeyStoreCert', dict(cert_str='?', kid='str'), ('C18',), opaque=OP, raises=RAISES)
    ctx.rel(K + 'parseKeyStorePubkey', S + 'parseKeyStorePubkey', dict(pubkey_str='?', kid='str'), ('C18',), opaque=OP,
            raises=RAISES)
    ctx.rel(c + 'writeStoreToJson', S + 'toJson', dict(self=KS, b64Key='?str'), ('C18',), opaque=OP)
    ctx.rel(c + 'readStoreFromJson', S + 'readStoreFromJson', dict(json='?'), ('C18',), opaque=OP2, raises=RAISES2)
    ctx.rel(c + 'writeStore', S + 'writeStore', dict(self=KS, config='obj:config'), ('C18',), opaque=OP,
            events=['.set', '.add_section'])
    ctx.rel(c + 'readStore', S + 'readStore', dict(config='obj:config'), ('C18',), opaque=OP2, raises=RAISES2)
