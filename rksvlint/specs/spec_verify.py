# Rules for librksv/verify.py, evaluated by rksvlint (never executed).
# violates(cond, Error...) states: input for which cond holds must be refused
# with one of the errors; order between clauses does not matter.
import base64
import itertools
import math
import types
from librksv import algorithms
from librksv import depparser
from librksv import key_store
from librksv import receipt
from librksv import utils
from librksv import verification_state
from librksv import verify
from librksv import verify_receipt


def verifyChainValue(rec, chainingValue):
    violates(chainingValue != rec.previousChain, verify.ChainingException, p='C02')


def verifyChain(rec, prev, algorithm):
    violates(base64.b64encode(algorithm.chain(rec, prev)).decode('utf-8') != rec.previousChain,
             verify.ChainingException, p='C02')


def fp(keyStore, cert):
    return utils.certFingerprint(keyStore.getCert(key_store.numSerialToKeyId(cert.serial_number)))


def verifyCert(cert, chain, keyStore):
    prev = cert
    for c in chain:
        anchor = keyStore.getCert(key_store.numSerialToKeyId(prev.serial_number))
        if anchor:
            violates(utils.certFingerprint(anchor) != utils.certFingerprint(prev),
                     verify.CertificateSerialCollisionException, p='C08')
            return
        violates(not utils.verifyCert(prev, c), verify.CertificateChainBrokenException, p='C08')
        prev = c
    anchor = keyStore.getCert(key_store.numSerialToKeyId(prev.serial_number))
    violates(not anchor, verify.UntrustedCertificateException, p='C08')
    violates(anchor and utils.certFingerprint(anchor) != utils.certFingerprint(prev),
             verify.CertificateSerialCollisionException, p='C08')


def cents(ro):
    return int(round((ro.sumA + ro.sumB + ro.sumC + ro.sumD + ro.sumE) * 100))


def verifyGroup(group, rv, key, prevStartReceiptJWS, cashRegisterState, usedReceiptIds):
    s = cashRegisterState
    prev = s.lastReceiptJWS
    prevObj = None
    if prev:
        prevObj = receipt.Receipt.fromJWSString(prev)[0]
    for cr in group:
        r = depparser.expandDEPReceipt(cr)
        signed = True
        try:
            ro, alg = rv.verifyJWS(r)
        except (verify_receipt.SignatureSystemFailedException, verify_receipt.UnsignedNullReceiptException):
            signed = False
            ro, prefix = receipt.Receipt.fromJWSString(r)
            alg = algorithms.ALGORITHMS[prefix]
        first = not prevObj
        standardNull = ro.isNull() and not ro.isDummy() and not ro.isReversal()

        # C04: an outage has to be closed by a signed standard null receipt
        violates(not first and s.needRestoreReceipt and not (signed and standardNull),
                 verify.NoRestoreReceiptAfterSignatureSystemFailureException, p='C04')
        if signed:
            if first or standardNull:
                s.needRestoreReceipt = False
            elif prevObj.isSignedBroken():
                s.needRestoreReceipt = True

        # C03: start receipt
        violates(first and not signed, verify.SignatureSystemFailedOnInitialReceiptException, p='C03')
        violates(first and not ro.isNull(), verify.NonzeroTurnoverOnInitialReceiptException, p='C03')
        violates(first and (ro.isDummy() or ro.isReversal()), verify.NonstandardTypeOnInitialReceiptException, p='C03')
        pred = prevObj
        if first:
            if prevStartReceiptJWS:
                violates(ro.zda != 'AT0', verify.ClusterInOpenSystemException, p='C03')
                prev = prevStartReceiptJWS
                pred = receipt.Receipt.fromJWSString(prev)[0]
                violates(pred.zda != 'AT0', verify.ClusterInOpenSystemException, p='C03')
            s.startReceiptJWS = r

        # C06, C07: continuity with the predecessor
        if pred:
            also(usedReceiptIds.check(ro.receiptId))
            violates(pred.registerId != ro.registerId, verify.ChangingRegisterIdException, p='C07')
            violates((pred.zda == 'AT0') != (ro.zda == 'AT0'), verify.ChangingSystemTypeException, p='C07')
            violates(pred.dateTime > ro.dateTime, verify.DecreasingDateException, p='C07')
        usedReceiptIds.add(ro.receiptId)

        # C02: chaining
        if s.chainNextTo:
            link = s.chainNextTo
            s.chainNextTo = None
        else:
            link = base64.b64encode(alg.chain(ro, prev)).decode('utf-8')
        start = s.startReceiptJWS == r
        violates(link != ro.previousChain and not start, verify.ChainingException, p='C02')
        violates(link != ro.previousChain and start and prevStartReceiptJWS,
                 verify.InvalidChainingOnClusterInitialReceiptException, p='C02')
        violates(link != ro.previousChain and start and not prevStartReceiptJWS,
                 verify.InvalidChainingOnInitialReceiptException, p='C02')

        # C05: turnover counter
        if key is not None and not ro.isDummy():
            violates(not alg.verifyKey(key), utils.InvalidKeyException, p='C05')
            newC = s.lastTurnoverCounter + cents(ro)
            violates(not ro.isReversal() and ro.decryptTurnoverCounter(key, alg) != newC,
                     verify.InvalidTurnoverCounterException, p='C05')
            s.lastTurnoverCounter = newC
        prev = r
        prevObj = ro
    s.lastReceiptJWS = prev
    return s, usedReceiptIds


def packageChunk(chunk, keyStore):
    out = list()
    if len(chunk) == 1:
        recs, cert, chain = chunk[0]
        if cert:
            verify.verifyCert(cert, chain, keyStore)
            rv = verify_receipt.ReceiptVerifier.fromCert(cert)
        else:
            rv = verify_receipt.ReceiptVerifier.fromKeyStore(keyStore)
        out.append((recs, rv))
    else:
        for recs, cert, chain in chunk:
            violates(not cert, verify.NoCertificateGivenException, p='C08')
            verify.verifyCert(cert, chain, keyStore)
            out.append((recs, verify_receipt.ReceiptVerifier.fromCert(cert)))
    return out


def verifyGroups(groups, key, prevStart, rState, usedRecIds):
    for recs, rv in groups:
        rState, usedRecIds = verify.verifyGroup(recs, rv, key, prevStart, rState, usedRecIds)
    return rState, usedRecIds


def verifyGroupsTuple(args):
    return verify.verifyGroupsWithVerifiers(*args)


def verifyDEP(dep, keyStore, key, state=None, cashRegisterIdx=None, usedRecIdsBackend=None):
    if not state:
        state = verification_state.ClusterState(usedRecIdsBackend)
    prevStart, rState, usedRecIds = state.getCashRegisterInfo(cashRegisterIdx)
    one_group = None
    for chunk in depparser.DictDEPParser(dep).parse(0):
        for recs, cert, chain in chunk:
            violates(one_group, verify.NoCertificateGivenException, p='C08')
            violates(not cert and one_group == False, verify.NoCertificateGivenException, p='C08')
            if cert:
                verify.verifyCert(cert, chain, keyStore)
                rv = verify_receipt.ReceiptVerifier.fromCert(cert)
                one_group = False
            else:
                rv = verify_receipt.ReceiptVerifier.fromKeyStore(keyStore)
                one_group = True
            rState, usedRecIds = verify.verifyGroup(recs, rv, key, prevStart, rState, usedRecIds)
    state.updateCashRegisterInfo(cashRegisterIdx, rState, usedRecIds)
    return state


def prepareTuples(chunksWithVerifiers, key, prevStartJWS, cashregState, usedRecIdsBackend):
    states = []
    s = cashregState
    for pkg in chunksWithVerifiers:
        states.append(s)
        for group, rv in pkg:
            s = verification_state.CashRegisterState.fromDEPGroup(s, group, key)
    n = len(chunksWithVerifiers)
    return zip(chunksWithVerifiers, [key] * n, [prevStartJWS] * n, states,
               [usedRecIdsBackend() for p in chunksWithVerifiers])


def chunksForProcs(allChunks, nprocs):
    ret = list()
    for chunk in allChunks:
        ret.append(chunk)
        if len(ret) >= nprocs:
            yield ret
            ret = list()
    if len(ret) > 0:
        yield ret


def balance(groups, nprocs):
    flat = [(r, rv) for recs, rv in groups for r in recs]
    n = int(math.ceil(float(len(flat)) / nprocs))
    subs = [flat[i:i + n] for i in range(0, len(flat), n)]
    pkgs = list()
    for sub in subs:
        groups = list()
        for rv, recsAndVerifiers in itertools.groupby(sub, lambda x: x[1]):
            recs = [r for r, v in recsAndVerifiers]
            groups.append((recs, rv))
        pkgs.append(groups)
    return pkgs


def verifyParsedDEP(parser, keyStore, key, state=None, cashRegisterIdx=None, pool=None, nprocs=1, chunksize=None,
                    usedRecIdsBackend=None):
    if not state:
        state = verification_state.ClusterState(usedRecIdsBackend)
    backend = state.usedReceiptIds.__class__
    prevStart, rState, usedRecIds = state.getCashRegisterInfo(cashRegisterIdx)
    res = None
    for chunks in verify.getChunksForProcs(parser.parse(chunksize), nprocs):
        pkgs = [verify.packageChunkWithVerifiers(chunk, keyStore) for chunk in chunks]
        if res is not None:
            outRStates, outUsed = zip(*res.get())
            usedRecIds.merge(outUsed)
            rState = outRStates[-1]
        wargs = verify.prepareVerificationTuples(pkgs, key, prevStart, rState, backend)
        if pool:
            res = pool.map_async(verify.verifyGroupsWithVerifiersTuple, wargs)
        else:
            out = map(verify.verifyGroupsWithVerifiersTuple, wargs)
            res = type('DummyAsyncResult', (object,), {"data": out})
            res.get = types.MethodType(lambda self: self.data, res)
    outRStates, outUsed = zip(*res.get())
    usedRecIds.merge(outUsed)
    state.updateCashRegisterInfo(cashRegisterIdx, outRStates[-1], usedRecIds)
    return state
