# Rules for librksv/key_store.py.
from librksv import key_store
from librksv import utils


def init(self):
    self.keydict = {}


def tup(keyId, key, cert):
    return record('key_store.KeyTuple', keyId=keyId, key=key, cert=cert)


def getKeyIds(self):
    return self.keydict.keys()


def getKey(self, keyId):
    if keyId in self.keydict:
        return self.keydict[keyId].key
    return None


def getCert(self, keyId):
    if keyId in self.keydict:
        return self.keydict[keyId].cert
    return None


def putKey(self, keyId, key, cert):
    self.keydict[keyId] = tup(keyId, key, cert)


def delKey(self, keyId):
    if keyId in self.keydict:
        del self.keydict[keyId]


def putPEMCert(self, pemCert):
    cert = utils.loadCert(pemCert)
    i = key_store.numSerialToKeyId(cert.serial_number)
    self.keydict[i] = tup(i, cert.public_key(), cert)


def putPEMKey(self, keyId, pemKey):
    self.keydict[keyId] = tup(keyId, utils.loadPubKey(pemKey), None)


def numSerialToKeyId(serial):
    return '%x' % abs(serial)


def strSerialToKeyIds(serial):
    if serial[0] == '-':
        s = serial[1:]
    else:
        s = serial
    ids = []
    try:
        ids.append('%x' % int(s, 16))
    except ValueError:
        pass
    try:
        ids.append('%x' % int(s, 10))
    except ValueError:
        pass
    return ids


def parseKeyStoreCert(cert_str, kid):
    violates(not isinstance(cert_str, str), key_store.MalformedCertificateException)
    try:
        return utils.loadCert(utils.addPEMCertHeaders(cert_str))
    except ValueError:
        raise key_store.MalformedCertificateException(kid)


def parseKeyStorePubkey(pubkey_str, kid):
    violates(not isinstance(pubkey_str, str), key_store.MalformedPublicKeyException)
    try:
        return utils.loadPubKey(utils.addPEMPubKeyHeaders(pubkey_str))
    except ValueError:
        raise key_store.MalformedPublicKeyException(kid)


def toJson(self, b64Key):
    m = {}
    for i, kt in self.keydict.items():
        if kt.cert:
            m[i] = {'id': i, 'signatureDeviceType': 'CERTIFICATE',
                    'signatureCertificateOrPublicKey': utils.exportCertToPEM(kt.cert)}
        else:
            m[i] = {'id': i, 'signatureDeviceType': 'PUBLIC_KEY',
                    'signatureCertificateOrPublicKey': utils.exportKeyToPEM(kt.key)}
    if b64Key is None:
        return {'certificateOrPublicKeyMap': m}
    return {'certificateOrPublicKeyMap': m, 'base64AESKey': b64Key}


def readStoreFromJson(json):
    E = key_store.MalformedKeyStoreElementException
    violates(not isinstance(json, dict), key_store.MalformedKeyStoreException)
    violates(isinstance(json, dict) and 'certificateOrPublicKeyMap' not in json,
             key_store.MissingKeyStoreElementException)
    m = json['certificateOrPublicKeyMap']
    violates(not isinstance(m, dict), key_store.MalformedKeyStoreElementException)
    out = key_store.KeyStore()
    for raw, v in m.items():
        violates(not isinstance(v, dict), key_store.MalformedKeyStoreElementException)
        violates(isinstance(v, dict) and 'id' not in v, key_store.MissingKeyStoreElementException)
        violates(isinstance(v, dict) and 'signatureDeviceType' not in v, key_store.MissingKeyStoreElementException)
        violates(isinstance(v, dict) and 'signatureCertificateOrPublicKey' not in v,
                 key_store.MissingKeyStoreElementException)
        violates(not isinstance(v['id'], str), key_store.MalformedKeyStoreElementException)
        violates(isinstance(v['id'], str) and v['id'] != raw, key_store.MalformedKeyStoreElementException)
        t = v['signatureDeviceType']
        violates(t != 'CERTIFICATE' and t != 'PUBLIC_KEY', key_store.MalformedKeyStoreElementException)
        if t == 'CERTIFICATE':
            ids = key_store.strSerialToKeyIds(raw)
            violates(len(ids) == 0, key_store.MalformedKeyStoreElementException)
            c = key_store.parseKeyStoreCert(v['signatureCertificateOrPublicKey'], ids[0])
            out.keydict[ids[0]] = tup(ids[0], c.public_key(), c)
        elif t == 'PUBLIC_KEY':
            k = key_store.parseKeyStorePubkey(v['signatureCertificateOrPublicKey'], raw)
            out.keydict[raw] = tup(raw, k, None)
    return out


def esc(i):
    return i.replace('S:', 's;').replace('U:', 'u;').replace('G:', 'g;')


def unesc(i):
    return i.replace('s;', 'S:').replace('u;', 'U:').replace('g;', 'G:')


def writeStore(self, config):
    if not config.has_section('certificates'):
        config.add_section('certificates')
    if not config.has_section('public_keys'):
        config.add_section('public_keys')
    for i, kt in self.keydict.items():
        if kt.cert:
            config.set('certificates', esc(i), utils.exportCertToPEM(kt.cert))
        else:
            config.set('public_keys', esc(i), utils.exportKeyToPEM(kt.key))


def readStore(config):
    out = key_store.KeyStore()
    if config.has_section('certificates'):
        for i, s in config.items('certificates'):
            c = key_store.parseKeyStoreCert(s, unesc(i))
            out.keydict[unesc(i)] = tup(unesc(i), c.public_key(), c)
    if config.has_section('public_keys'):
        for i, s in config.items('public_keys'):
            k = key_store.parseKeyStorePubkey(s, unesc(i))
            out.keydict[unesc(i)] = tup(unesc(i), k, None)
    return out
