# Rules for the command line tools, evaluated by rksvlint (never executed).
# A tool is analysed once per documented form of its command line: options are
# literal, file names and other operands are distinct tokens.
import base64
import configparser
import datetime
import itertools
import json
import multiprocessing
import os
import random
import sys
from flask import abort, jsonify
from librksv import cashreg
from librksv import depexport
from librksv import depparser
from librksv import key_store
from librksv import receipt
from librksv import sigsys
from librksv import url_receipt_helpers
from librksv import utils
from librksv import verification_state
from librksv import verify
from librksv import verify_receipt
from script import demo
from script import receipt_host


# ---- verify.py
def verifyTool(withState, idx, last, nprocs, chunk):
    size = utils.depParserChunkSize()
    if chunk is None:
        chunk = size
    with open('ks.json') as f:
        js = utils.readJsonStream(f)
    key = utils.loadKeyFromJson(js)
    ks = key_store.KeyStore.readStoreFromJson(js)
    state = None
    if withState:
        state = verification_state.ClusterState.readStateFromJson(utils.readJsonStream(sys.stdin))
        if last:
            idx = len(state.cashRegisters) - 1
    if nprocs > 1:
        pool = multiprocessing.Pool(nprocs)
        with open('dep.json') as f:
            if chunk == 0:
                parser = depparser.FullFileDEPParser(f, nprocs)
            else:
                parser = depparser.IncrementalDEPParser.fromFd(f, True)
            state = verify.verifyParsedDEP(parser, ks, key, state, idx, pool, nprocs, chunk)
    else:
        with open('dep.json') as f:
            if chunk == 0:
                state = verify.verifyDEP(utils.readJsonStream(f), ks, key, state, idx)
            else:
                parser = depparser.IncrementalDEPParser.fromFd(f, True)
                state = verify.verifyParsedDEP(parser, ks, key, state, idx, None, nprocs, chunk)
    if withState:
        print(json.dumps(state.writeStateToJson(), sort_keys=False, indent=2))
    print("Verification successful.", file=sys.stderr)


def emptyState():
    print(json.dumps(verification_state.ClusterState().writeStateToJson(), sort_keys=False, indent=2))
    sys.exit(0)


# ---- verify_receipt.py
def receiptTool(fmt, single):
    with open('ks.json', 'r') as f:
        rv = verify_receipt.ReceiptVerifier.fromKeyStore(key_store.KeyStore.readStoreFromJson(utils.readJsonStream(f)))
    if single:
        lines = [sys.argv[3]]
    else:
        lines = sys.stdin
    idx = 0
    fails = 0
    for l in lines:
        s = l.strip()
        try:
            if fmt == 'jws':
                rv.verifyJWS(s)
            elif fmt == 'qr':
                rv.verifyBasicCode(s)
            elif fmt == 'ocr':
                rv.verifyOCRCode(s)
            elif fmt == 'csv':
                rv.verifyCSV(s)
            else:
                url_receipt_helpers.getAndVerifyReceiptURL(rv, s)
        except receipt.ReceiptException as e:
            fails += 1
            print(str("Line {: >3}: {}").format(idx, e))
        idx += 1
    print("{} of {} receipts verified successfully.".format(idx - fails, idx))


# ---- verification_state.py
def loadState(name):
    with open(name, 'r') as f:
        return verification_state.ClusterState.readStateFromJson(utils.readJsonStream(f))


def saveState(state):
    js = state.writeStateToJson()
    with open('state.json', 'w') as f:
        json.dump(js, f, sort_keys=False, indent=2)


def stateCreate():
    saveState(verification_state.ClusterState(verification_state.DEFAULT_USED_RECEIPT_IDS_BACKEND))


def stateAdd():
    s = loadState('state.json')
    s.addNewCashRegister()
    saveState(s)


def stateReset():
    s = loadState('state.json')
    s.updateCashRegisterInfo(int(sys.argv[3]), verification_state.CashRegisterState(),
                             verification_state.DEFAULT_USED_RECEIPT_IDS_BACKEND())
    saveState(s)


def stateDelete():
    s = loadState('state.json')
    del s.cashRegisters[int(sys.argv[3])]
    saveState(s)


def stateSet(what):
    value = None
    if what != 'toggleNeedRestoreReceipt' and sys.argv[4] != 'None':
        value = sys.argv[4]
    s = loadState('state.json')
    c = s.cashRegisters[int(sys.argv[3])]
    if what == 'setLastReceiptJWS':
        c.lastReceiptJWS = value
    elif what == 'setLastTurnoverCounter':
        c.lastTurnoverCounter = int(sys.argv[4])
    elif what == 'setChainNextTo':
        c.chainNextTo = value
    elif what == 'setStartReceiptJWS':
        c.startReceiptJWS = value
    elif what == 'toggleNeedRestoreReceipt':
        c.needRestoreReceipt = not c.needRestoreReceipt
    saveState(s)


def stateReadIds(none):
    s = loadState('state.json')
    s.usedReceiptIds = verification_state.DEFAULT_USED_RECEIPT_IDS_BACKEND()
    if not none:
        with open('ids.txt', 'r') as f:
            ids = [l.strip() for l in f.readlines()]
        for i in ids:
            s.usedReceiptIds.add(i)
    saveState(s)


def stateCopy():
    s = loadState('state.json')
    o = loadState('other.json')
    s.cashRegisters[int(sys.argv[3])] = o.cashRegisters[int(sys.argv[5])]
    saveState(s)


def stateUpdate(withKey):
    key = None
    if withKey:
        with open('key.txt') as f:
            key = utils.loadB64Key(f.read().encode('utf-8'))
    s = loadState('state.json')
    with open('dep.json') as f:
        parser = depparser.CertlessStreamDEPParser(f)
        for chunk in parser.parse(utils.depParserChunkSize()):
            for recs, cert, chain in chunk:
                s.cashRegisters[int(sys.argv[3])].updateFromDEPGroup(recs, key)
    saveState(s)


def parseReceipt(fmt):
    if fmt == 'jws':
        return receipt.Receipt.fromJWSString(sys.argv[4].strip())
    if fmt == 'qr':
        return receipt.Receipt.fromBasicCode(sys.argv[4].strip())
    if fmt == 'ocr':
        return receipt.Receipt.fromOCRCode(sys.argv[4].strip())
    if fmt == 'csv':
        return receipt.Receipt.fromCSV(sys.argv[4].strip())
    return receipt.Receipt.fromBasicCode(url_receipt_helpers.getBasicCodeFromURL(sys.argv[4].strip()))


def stateFromReceipt(fmt, withKey):
    key = None
    if withKey:
        with open('key.txt') as f:
            key = utils.loadB64Key(f.read().encode('utf-8'))
    r, p = parseReceipt(fmt)
    saveState(verification_state.ClusterState.fromArbitraryReceipt(
        r, p, key, verification_state.DEFAULT_USED_RECEIPT_IDS_BACKEND))


def stateFromStart(fmt):
    r, p = parseReceipt(fmt)
    saveState(verification_state.ClusterState.fromArbitraryStartReceipt(
        r, verification_state.DEFAULT_USED_RECEIPT_IDS_BACKEND))


# ---- key_store.py
def readKeyFile():
    with open('ks.json', 'r') as f:
        return utils.readJsonStream(f)


def saveKeys(ks, key):
    if key is None:
        b64 = None
    else:
        b64 = base64.b64encode(key).decode('utf-8')
    js = ks.writeStoreToJson(b64)
    with open('ks.json', 'w') as f:
        json.dump(js, f, sort_keys=False, indent=2)


def keysCreate():
    saveKeys(key_store.KeyStore(), None)


def keysList():
    data = readKeyFile()
    ks = key_store.KeyStore.readStoreFromJson(data)
    utils.loadKeyFromJson(data)
    for i in ks.getKeyIds():
        print(i)
    sys.exit(0)


def keysAdd(kid):
    data = readKeyFile()
    ks = key_store.KeyStore.readStoreFromJson(data)
    key = utils.loadKeyFromJson(data)
    with open('new.pem') as f:
        pem = f.read()
    if kid is None:
        ks.putPEMCert(pem)
    else:
        ks.putPEMKey(sys.argv[4], pem)
    saveKeys(ks, key)


def keysDel():
    data = readKeyFile()
    ks = key_store.KeyStore.readStoreFromJson(data)
    key = utils.loadKeyFromJson(data)
    ks.delKey(sys.argv[3])
    saveKeys(ks, key)


def keysShow():
    data = readKeyFile()
    key_store.KeyStore.readStoreFromJson(data)
    key = utils.loadKeyFromJson(data)
    if key is None:
        print('No symmetric key present.')
    else:
        print(base64.b64encode(key).decode('utf-8'))
    sys.exit(0)


def keysSet():
    data = readKeyFile()
    ks = key_store.KeyStore.readStoreFromJson(data)
    utils.loadKeyFromJson(data)
    try:
        b64 = next(sys.stdin).strip().encode('utf-8')
    except StopIteration:
        b64 = None
    if not b64:
        sys.exit(0)
    saveKeys(ks, utils.loadB64Key(b64))


def keysUnset():
    data = readKeyFile()
    ks = key_store.KeyStore.readStoreFromJson(data)
    utils.loadKeyFromJson(data)
    saveKeys(ks, None)


def keysToIni():
    data = readKeyFile()
    ks = key_store.KeyStore.readStoreFromJson(data)
    utils.loadKeyFromJson(data)
    config = configparser.RawConfigParser()
    config.optionxform = str
    ks.writeStore(config)
    config.write(sys.stdout)
    sys.exit(0)


def keysFromIni():
    config = configparser.RawConfigParser()
    config.optionxform = str
    config.read_file(sys.stdin)
    saveKeys(key_store.KeyStore.readStore(config), None)


# ---- receipt.py
def readReceipt(fmt, s):
    if fmt == 'jws':
        return receipt.Receipt.fromJWSString(s)
    if fmt == 'qr':
        return receipt.Receipt.fromBasicCode(s)
    if fmt == 'ocr':
        return receipt.Receipt.fromOCRCode(s)
    if fmt == 'url':
        return receipt.Receipt.fromBasicCode(url_receipt_helpers.getBasicCodeFromURL(s))
    return receipt.Receipt.fromCSV(s)


def convertReceipts(src, dst):
    for l in sys.stdin:
        r, p = readReceipt(src, l.strip())
        if dst == 'jws':
            print(r.toJWSString(p))
        elif dst == 'qr':
            print(r.toBasicCode(p))
        elif dst == 'ocr':
            print(r.toOCRCode(p))
        elif dst == 'url':
            print(r.toURLHash(p))
        else:
            print(r.toCSV(p))


# ---- receipt_host.py
def urlLookup(url_hash):
    if url_hash not in receipt_host.receipt_store:
        abort(404)
    return jsonify({'code': receipt_host.receipt_store[url_hash]})


def hostDep():
    store = dict()
    parser = depparser.CertlessStreamDEPParser(sys.stdin)
    for chunk in parser.parse(utils.depParserChunkSize()):
        for recs, cert, chain in chunk:
            for cr in recs:
                rec, pre = receipt.Receipt.fromJWSString(depparser.expandDEPReceipt(cr))
                store[rec.toURLHash(pre)] = rec.toBasicCode(pre)
    receipt_host.receipt_store = store
    receipt_host.app.run(debug=True, use_reloader=False)


def hostJws():
    store = dict()
    for l in sys.stdin:
        rec, pre = receipt.Receipt.fromJWSString(l.strip())
        store[rec.toURLHash(pre)] = rec.toBasicCode(pre)
    receipt_host.receipt_store = store
    receipt_host.app.run(debug=True, use_reloader=False)


# ---- demo.py
def demoReceipts(register, sigsystem, num):
    yield register.receipt('R1', "00000", datetime.datetime.now(), 0.0, 0.0, 0.0, 0.0, 0.0, sigsystem), 'R1'
    for i in range(1, num):
        a = round(random.uniform(-1000, 1000), 2)
        b = round(random.uniform(-1000, 1000), 2)
        c = round(random.uniform(-1000, 1000), 2)
        d = round(random.uniform(-1000, 1000), 2)
        e = round(random.uniform(-1000, 1000), 2)
        training = random.uniform(0, 1) > 0.5
        storno = random.uniform(0, 1) > 0.5
        yield register.receipt('R1', "%05d" % i, datetime.datetime.now(), a, b, c, d, e, sigsystem, training, storno), 'R1'


def demoTool(form):
    if form == 'cert':
        with open('priv.pem') as f:
            priv = f.read()
        with open('cert.pem') as f:
            cert = utils.loadCert(f.read())
        device = sigsys.SignatureSystemWorking('AT77', "%x" % abs(cert.serial_number), priv)
    elif form == 'key':
        with open('priv.pem') as f:
            priv = f.read()
        device = sigsys.SignatureSystemWorking('AT0', sys.argv[3], priv)
    else:
        device = sigsys.SignatureSystemATrustMobile("u123456789", "123456789", "misc/A-Trust-Stamm.pem")
    num = int(sys.argv[-1])
    if num < 1:
        print('The number of receipts must be at least 1.')
        sys.exit(0)
    with open('aes.txt') as f:
        key = utils.loadB64Key(f.read().encode('utf-8'))
    register = cashreg.CashRegister("PIGGYBANK-007", None, 0, key)
    for s in depexport.JSONExporter.fromSingleGroup(demo.receiptGen(register, device, num)).export():
        print(s, end='')
    print()


# ---- merge.py, split.py, convert.py, cert_extract.py, receipt_host.py
def groups(name, size):
    f = open(name, 'r')
    dp = depparser.IncrementalDEPParser.fromFd(f, True)
    for g in depparser.receiptGroupAdapter(dp.parse(size)):
        yield g


def mergeTool(join):
    size = utils.depParserChunkSize()
    src = [groups('a.json', size), groups('b.json', size), groups('c.json', size)]
    if join:
        stream = depexport.MergingDEPStream.fromIterList(src)
    else:
        stream = depexport.DEPStream.fromIterList(src)
    for s in depexport.JSONExporter(stream).export():
        print(s, end='')
    print()


def splitTool():
    size = int(sys.argv[1])
    if size < 1:
        print('Usage: ./split.py <chunk size> <output dir>')
        sys.exit(0)
    if not os.path.exists('out'):
        os.mkdir('out')
    os.chdir('out')
    parser = depparser.IncrementalDEPParser.fromFd(sys.stdin, True)
    i = 0
    for chunk in parser.parse(size):
        with open('dep-export{}.json'.format(i), 'w') as f:
            for part in depexport.JSONExporter(depexport.DEPStream(depparser.receiptGroupAdapter([chunk]))).export():
                f.write(part)
        i += 1


def toCsv():
    parser = depparser.CertlessStreamDEPParser(sys.stdin)
    stream = depexport.DEPStream(depparser.receiptGroupAdapter(parser.parse(utils.depParserChunkSize())))
    for s in depexport.CSVExporter(stream).export():
        print(s, end='')
    print()


def toJson():
    next(sys.stdin)
    for s in depexport.JSONExporter.fromSingleGroup(receipt.Receipt.fromCSV(r.strip()) for r in sys.stdin).export():
        print(s, end='')
    print()


def extractTool():
    if not os.path.exists('out'):
        os.mkdir('out')
    os.chdir('out')
    parser = depparser.CertlessStreamDEPParser(sys.stdin)
    for chunk in parser.parse(utils.depParserChunkSize()):
        for recs, cert, chain in chunk:
            certs = list(chain)
            if cert:
                certs.append(cert)
            for c in certs:
                with open('{}.crt'.format(key_store.numSerialToKeyId(c.serial_number)), 'w') as f:
                    f.write(utils.addPEMCertHeaders(utils.exportCertToPEM(c)))


# ---- receipts from the network
def hashFromURL(url):
    parts = url.split('#')
    if len(parts) >= 2:
        return parts[1]
    found = url_receipt_helpers.urlHashRegex.findall(parts[0])
    if len(found) == 0:
        return None
    return found[-1]


def codeFromURL(url):
    import requests
    r = requests.get(url)
    r.raise_for_status()
    return r.json()['code']


def verifyFromURL(rv, url):
    code = url_receipt_helpers.getBasicCodeFromURL(url)
    h = url_receipt_helpers.getURLHashFromURL(url)
    rec, alg = rv.verifyBasicCode(code)
    verify_receipt.verifyURLHash(rec, alg, h)
