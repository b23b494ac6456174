# Rules for librksv/verification_state.py.
import base64
import copy
import re
from librksv import algorithms
from librksv import depparser
from librksv import receipt
from librksv import utils
from librksv import verification_state


# -- used receipt ids

def uniqueInit(self):
    self._usedRecIds = set()


def uniqueCheck(self, receiptId):
    violates(receiptId in self._usedRecIds, verification_state.DuplicateReceiptIdException)


def uniqueAdd(self, receiptId):
    self._usedRecIds.add(receiptId)


def uniqueMerge(self, usedReceiptIdsList):
    for other in usedReceiptIdsList:
        for i in other._usedRecIds:
            violates(i in self._usedRecIds, verification_state.DuplicateReceiptIdException)
            self._usedRecIds.add(i)


def uniqueImport(cls, data, label):
    violates(not isinstance(data, list), verification_state.MalformedStateElementException)
    for i in data:
        violates(not isinstance(i, str), verification_state.MalformedStateElementException)
    r = cls()
    r._usedRecIds = set(data)
    return r


def uniqueExport(self):
    return list(self._usedRecIds)


def sortedInit(self):
    self._minId = None
    self._maxId = None


def sortedCheck(self, receiptId):
    violates(self._maxId is not None and not (self._key(self._maxId) < self._key(receiptId)),
             verification_state.DuplicateReceiptIdException)


def sortedAdd(self, receiptId):
    if self._minId is None:
        self._minId = receiptId
    self._maxId = receiptId


def sortedMerge(self, usedReceiptIdsList):
    for other in usedReceiptIdsList:
        if other._minId is not None and other._maxId is not None:
            violates(self._maxId is not None and not (self._key(self._maxId) < self._key(other._minId)),
                     verification_state.DuplicateReceiptIdException)
            if self._minId is None:
                self._minId = other._minId
            self._maxId = other._maxId


def sortedImport(cls, data, label):
    violates(not isinstance(data, dict), verification_state.MalformedStateElementException)
    violates(isinstance(data, dict) and 'minId' not in data, verification_state.MalformedStateElementException)
    violates(isinstance(data, dict) and 'maxId' not in data, verification_state.MalformedStateElementException)
    lo = data['minId']
    hi = data['maxId']
    violates(lo is not None and not isinstance(lo, str), verification_state.MalformedStateElementException)
    violates(hi is not None and not isinstance(hi, str), verification_state.MalformedStateElementException)
    r = cls()
    r._minId = lo
    r._maxId = hi
    return r


def sortedExport(self):
    return {'minId': self._minId, 'maxId': self._maxId}


def sortedKey(recId):
    return [int(c) if re.compile('([0-9]+)').match(c) else c.lower() for c in re.compile('([0-9]+)').split(recId)]


def idsFromJson(json, label):
    violates(not isinstance(json, dict), verification_state.MalformedStateElementException)
    violates(isinstance(json, dict) and 'backendType' not in json, verification_state.MalformedStateElementException)
    violates(isinstance(json, dict) and 'backendData' not in json, verification_state.MalformedStateElementException)
    t = json['backendType']
    violates(not isinstance(t, str), verification_state.MalformedStateElementException)
    violates(isinstance(t, str) and t not in ('USED_RECEIPT_IDS_UNIQUE', 'USED_RECEIPT_IDS_SORTED_NATURAL'),
             verification_state.MalformedStateElementException)
    if t == 'USED_RECEIPT_IDS_UNIQUE':
        return verification_state.UsedReceiptIdsUnique._dataImport(json['backendData'], label)
    return verification_state.UsedReceiptIdsSortedNatural._dataImport(json['backendData'], label)


# -- one register

FIELDS = ('startReceiptJWS', 'lastReceiptJWS', 'lastTurnoverCounter', 'needRestoreReceipt', 'chainNextTo')


def registerInit(self):
    self.startReceiptJWS = None
    self.lastReceiptJWS = None
    self.lastTurnoverCounter = 0
    self.needRestoreReceipt = False
    self.chainNextTo = None


def registerFromDict(d, regidx=None):
    violates('startReceiptJWS' not in d, verification_state.MissingStateElementException)
    violates('lastReceiptJWS' not in d, verification_state.MissingStateElementException)
    violates('lastTurnoverCounter' not in d, verification_state.MissingStateElementException)
    violates('needRestoreReceipt' not in d, verification_state.MissingStateElementException)
    violates('chainNextTo' not in d, verification_state.MissingStateElementException)
    start = d['startReceiptJWS']
    last = d['lastReceiptJWS']
    ctr = d['lastTurnoverCounter']
    need = d['needRestoreReceipt']
    nxt = d['chainNextTo']
    violates(start is not None and not isinstance(start, str), verification_state.MalformedStateElementException)
    violates(last is not None and not isinstance(last, str), verification_state.MalformedStateElementException)
    violates(not isinstance(ctr, int), verification_state.MalformedStateElementException)
    violates(not isinstance(need, bool), verification_state.MalformedStateElementException)
    violates(nxt is not None and not isinstance(nxt, str), verification_state.MalformedStateElementException)
    return record('verification_state.CashRegisterState', startReceiptJWS=start, lastReceiptJWS=last,
                  lastTurnoverCounter=ctr, needRestoreReceipt=need, chainNextTo=nxt)


def rec(r):
    return receipt.Receipt.fromJWSString(depparser.expandDEPReceipt(r))


def cents(ro):
    return int(round((ro.sumA + ro.sumB + ro.sumC + ro.sumD + ro.sumE) * 100))


def updateFromDEPGroup(self, group, key=None):
    if len(group) == 0:
        return
    if len(group) == 1:
        before = self.lastReceiptJWS
    else:
        before = depparser.expandDEPReceipt(group[-2])
    bo = None
    if before:
        bo = receipt.Receipt.fromJWSString(before)[0]
    last = rec(group[-1])[0]
    self.needRestoreReceipt = bool(
        bo and bo.isSignedBroken() and not last.isSignedBroken() and
        (not last.isNull() or last.isDummy() or last.isReversal()))
    if not self.startReceiptJWS and not self.lastReceiptJWS:
        self.startReceiptJWS = depparser.expandDEPReceipt(group[0])
    self.lastReceiptJWS = depparser.expandDEPReceipt(group[-1])
    self.chainNextTo = None
    if not key:
        return
    reversals = []
    for i in range(len(group) - 1, -1, -1):
        ro, prefix = rec(group[i])
        if not ro.isDummy() and not ro.isReversal():
            self.lastTurnoverCounter = ro.decryptTurnoverCounter(key, algorithms.ALGORITHMS[prefix])
            break
        if ro.isReversal():
            reversals.insert(0, ro)
    for ro in reversals:
        self.lastTurnoverCounter += cents(ro)


# -- cluster

def clusterInit(self, usedRecIdsBackend, initChainNextTo=None, initReceiptJWS=None):
    if initReceiptJWS or initChainNextTo:
        self.cashRegisters = [record('verification_state.CashRegisterState', startReceiptJWS=None,
                                     lastReceiptJWS=initReceiptJWS, lastTurnoverCounter=0,
                                     needRestoreReceipt=False, chainNextTo=initChainNextTo)]
    else:
        self.cashRegisters = []
    self.usedReceiptIds = usedRecIdsBackend()


def addNewCashRegister(self):
    violates(len(self.cashRegisters) > 0 and not self.cashRegisters[-1].startReceiptJWS,
             verification_state.NoStartReceiptForLastCashRegisterException)
    self.cashRegisters.append(verification_state.CashRegisterState())


def getCashRegisterInfo(self, registerIdx):
    n = len(self.cashRegisters)
    violates(registerIdx is not None and (registerIdx < 0 or registerIdx > n),
             verification_state.InvalidCashRegisterIndexException)
    violates((registerIdx is None or registerIdx == n) and n > 0 and not self.cashRegisters[-1].startReceiptJWS,
             verification_state.NoStartReceiptForLastCashRegisterException)
    if registerIdx is None or registerIdx == n:
        self.addNewCashRegister()
        i = n
    else:
        i = registerIdx
    prev = None
    if i > 0:
        prev = self.cashRegisters[i - 1].startReceiptJWS
    return prev, copy.copy(self.cashRegisters[i]), copy.deepcopy(self.usedReceiptIds)


def updateCashRegisterInfo(self, registerIdx, newRegisterState, newUsedReceiptIds):
    violates(registerIdx is not None and (registerIdx < 0 or registerIdx >= len(self.cashRegisters)),
             verification_state.InvalidCashRegisterIndexException)
    if registerIdx is None:
        i = len(self.cashRegisters) - 1
    else:
        i = registerIdx
    self.cashRegisters[i] = newRegisterState
    self.usedReceiptIds = newUsedReceiptIds


def fromArbitraryReceipt(rec, prefix, key=None, usedRecIdsBackend=None):
    violates(prefix not in algorithms.ALGORITHMS, receipt.UnknownAlgorithmException)
    alg = algorithms.ALGORITHMS[prefix]
    ctr = 0
    if key and not rec.isDummy() and not rec.isReversal():
        ctr = rec.decryptTurnoverCounter(key, alg) - cents(rec)
    d = receipt.Receipt(rec.zda, rec.registerId, 'dummyrec', rec.dateTimeStr, '0,00', '0,00', '0,00', '0,00', '0,00',
                        'DUMMY000', rec.certSerial, base64.b64encode(b'DUMMY000').decode('utf-8'))
    d.sign(alg.jwsHeader(), 'DUMMY000')
    cs = verification_state.ClusterState(usedRecIdsBackend, rec.previousChain, d.toJWSString(prefix))
    cs.cashRegisters[0].lastTurnoverCounter = ctr
    return cs


def fromArbitraryStartReceipt(rec, usedRecIdsBackend=None):
    return verification_state.ClusterState(usedRecIdsBackend, rec.previousChain)


def readStateFromJson(json):
    violates(not isinstance(json, dict), verification_state.MalformedStateException)
    violates(isinstance(json, dict) and 'cashRegisters' not in json, verification_state.MissingStateElementException)
    violates(isinstance(json, dict) and 'usedReceiptIds' not in json, verification_state.MissingStateElementException)
    regs = json['cashRegisters']
    violates(not isinstance(regs, list), verification_state.MalformedStateElementException)
    out = []
    for i in range(len(regs)):
        violates(not isinstance(regs[i], dict), verification_state.MalformedStateElementException)
        out.append(verification_state.CashRegisterState.fromDict(regs[i], i))
    return record('verification_state.ClusterState', cashRegisters=out,
                  usedReceiptIds=verification_state.UsedReceiptIdsBackend.readFromJson(json['usedReceiptIds'], 'usedReceiptIds'))


def writeStateToJson(self):
    return {'cashRegisters': [copy.copy(cr.__dict__) for cr in self.cashRegisters],
            'usedReceiptIds': self.usedReceiptIds.writeToJson()}


def idsToJson(self):
    return {'backendType': self.__class__._backendType, 'backendData': self._dataExport()}


def registerFromDEPGroup(old, group, key=None):
    """a copy of old brought up to date; old itself stays as it is"""
    new = copy.copy(old)
    new.updateFromDEPGroup(group, key)
    return new
