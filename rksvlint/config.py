"""Declared types of the repository's public data (interface facts the analysis
relies on; listed in DESIGN.md as assumptions)."""
import ast

from . import canon
from .program import ClassInfo

REC = 'receipt.Receipt'
RV = 'verify_receipt.ReceiptVerifier'
CRS = 'verification_state.CashRegisterState'
UNIQ = 'verification_state.UsedReceiptIdsUnique'
KS = 'key_store.KeyStore'


def setup():
    A = canon.ATTR_TYPES
    C = canon.CALL_TYPES
    for n in ('zda', 'registerId', 'receiptId', 'dateTimeStr', 'sumAStr', 'sumBStr', 'sumCStr', 'sumDStr', 'sumEStr',
              'encTurnoverCounter', 'certSerial', 'previousChain'):
        A[(REC, n)] = 'str'
    for n in 'ABCDE':
        A[(REC, 'sum' + n)] = 'float'
    A[(REC, 'dateTime')] = 'datetime'
    A[(REC, 'signature')] = '?str'
    A[(REC, 'header')] = '?str'
    A[(REC, 'signed')] = 'bool'
    for n in ('startReceiptJWS', 'lastReceiptJWS', 'chainNextTo'):
        A[(CRS, n)] = '?str'
    A[(CRS, 'lastTurnoverCounter')] = 'int'
    A[(CRS, 'needRestoreReceipt')] = 'bool'
    A[(UNIQ, '_usedRecIds')] = 'set'
    A[('verification_state.ClusterState', 'cashRegisters')] = 'list'
    A[('verification_state.ClusterState', 'cashRegisters', '[]')] = 'obj:' + CRS
    A[('key_store.KeyStore', 'keydict')] = 'dict'
    A[('key_store.KeyStore', 'keydict', '[]')] = 'obj:key_store.KeyTuple'
    A[(None, 'serial_number')] = 'int'
    for n in ('fromJWSString', 'fromBasicCode', 'fromOCRCode', 'fromCSV'):
        C['receipt.Receipt.' + n] = 'tuple'
        C[('receipt.Receipt.' + n, 'arity')] = 2
        C[('receipt.Receipt.' + n, '[]')] = 'obj:' + REC
        C[('receipt.Receipt.' + n, '[]', 1)] = 'str'
    for n in ('isNull', 'isDummy', 'isReversal', 'isSignedBroken'):
        C['receipt.Receipt.' + n] = 'bool'
    C['receipt.Receipt.decryptTurnoverCounter'] = 'int'
    for n in ('toJWSString', 'toBasicCode', 'toOCRCode', 'toCSV', 'toPayloadString'):
        C['receipt.Receipt.' + n] = 'str'
    C[('elem', 'ijson.parse', 'arity')] = 3
    D = 'depparser.DEPState'
    WIP = D + 'WithIncompleteData.WIPData'
    for c in ('WithData', 'WithIncompleteData', 'Root', 'RootMap', 'BGList', 'Group', 'CertList', 'ReceiptList'):
        A[(D + c, 'chunk')] = 'list'
        A[(D + c, 'chunksize')] = 'int'
        if c in ('WithIncompleteData', 'Group', 'CertList', 'ReceiptList'):
            A[(D + c, 'wip')] = 'obj:' + WIP
    A[(D + 'BGList', 'curIdx')] = 'int'
    A[(WIP, 'recs')] = 'list'
    A[(WIP, 'cert_chain')] = '?list'
    A[(WIP, 'cert_seen')] = 'bool'
    C['depparser.expandDEPReceipt'] = 'str'
    C['json.dumps'] = 'str'
    for n in ('readStateFromJson', 'fromArbitraryReceipt', 'fromArbitraryStartReceipt'):
        C['verification_state.ClusterState.' + n] = 'obj:verification_state.ClusterState'
    for n in ('verifyDEP', 'verifyParsedDEP'):
        C['verify.' + n] = 'obj:verification_state.ClusterState'
    for n in ('readStoreFromJson', 'readStore'):
        C['key_store.KeyStore.' + n] = 'obj:' + KS
    C['verify_receipt.ReceiptVerifier.fromKeyStore'] = 'obj:' + RV
    C['depparser.shrinkDEPReceipt'] = 'bytes'
    C['utils.sha256'] = 'bytes'
    C['utils.verifyCert'] = 'bool'
    C['utils.certFingerprint'] = 'str'
    C['key_store.numSerialToKeyId'] = 'str'
    C['key_store.strSerialToKeyIds'] = 'list'
    C[('key_store.strSerialToKeyIds', '[]')] = 'str'
    C['.serial_number'] = 'int'
    C['jwt.PyJWS'] = 'obj:jws'
    C['.public_key'] = 'obj:pubkey'
    C['.public_bytes'] = 'bytes'
    C['.fingerprint'] = 'bytes'
    C['cryptography.x509.load_pem_x509_certificate'] = 'obj:x509'
    C['cryptography.hazmat.primitives.serialization.load_pem_public_key'] = 'obj:pubkey'
    A[(None, 'signature_hash_algorithm')] = 'obj:halg'


_inferred = []


def infer(prog):
    """types of the attributes all of whose assignments in the program agree"""
    A = canon.ATTR_TYPES
    for k in _inferred:
        A.pop(k, None)
    del _inferred[:]
    own, foreign = {}, {}

    def kind(m, v):
        if isinstance(v, ast.Constant):
            if v.value is None:
                return '?'
            return type(v.value).__name__ if isinstance(v.value, (bool, int, str)) else None
        if isinstance(v, (ast.Dict, ast.DictComp)):
            return 'dict'
        if isinstance(v, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(v, (ast.Set, ast.SetComp)):
            return 'set'
        if isinstance(v, ast.Call):
            if isinstance(v.func, ast.Name) and v.func.id in ('dict', 'list', 'set'):
                return v.func.id
            r = prog.resolve_static(m, v.func)
            if isinstance(r, ClassInfo) and not any(prog.find_method(r, n) for n in ('__len__', '__bool__', '__nonzero__')):
                return 'obj:' + r.qual.replace('librksv.', '')
        return None

    def scan(m, n, cls, selfname):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.ClassDef):
                inner = [x for x in prog.classes.values() if x.node is c]
                scan(m, c, inner[0] if inner else None, None)
                continue
            if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                a = c.args.posonlyargs + c.args.args
                if isinstance(n, ast.ClassDef):
                    scan(m, c, cls, a[0].arg if a else None)
                    continue
                if any(x.arg == selfname for x in a):
                    scan(m, c, None, None)
                    continue
            if isinstance(c, ast.Attribute) and isinstance(c.ctx, (ast.Store, ast.Del)):
                v = None
                if isinstance(n, ast.Assign) and c in n.targets:
                    v = kind(m, n.value)
                if cls is not None and isinstance(c.value, ast.Name) and c.value.id == selfname:
                    own.setdefault(cls, {}).setdefault(c.attr, set()).add(v)
                else:
                    foreign.setdefault(c.attr, set()).add(v)
            scan(m, c, cls, selfname)
    for m in prog.modules.values():
        scan(m, m.tree, None, None)
    for c in set(prog.classes.values()):
        family = [d for d in own if d is c or prog.issub(d.qual, c.qual) or prog.issub(c.qual, d.qual)]
        for n in set(x for d in family for x in own[d]):
            ks = set(foreign.get(n, ()))
            for d in family:
                ks |= own[d].get(n, set())
            ty = ks - set(['?'])
            if len(ty) != 1 or None in ty:
                continue
            key = (c.qual.replace('librksv.', ''), n)
            if key not in A:
                A[key] = ('?' if '?' in ks else '') + ty.pop()
                _inferred.append(key)
                if A[key] == 'dict':
                    e = element_kind(prog, n, kind)
                    if e is not None:
                        A[key + ('[]',)] = e
                        _inferred.append(key + ('[]',))


def element_kind(prog, attr, kind):
    """type of the values of the mapping attribute, when it starts empty and
    is only ever filled by subscript assignments of one type"""
    ks = set()

    def names(m, f, x):
        return set(kind(m, n.value) for n in ast.walk(f) if isinstance(n, ast.Assign)
                   for t in n.targets if isinstance(t, ast.Name) and t.id == x) if f is not None else set([None])

    def bound(f, x):
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id == x and not isinstance(n.ctx, ast.Load):
                yield n

    def walk(m, n, f, up):
        for c in ast.iter_child_nodes(n):
            g = c if isinstance(c, (ast.FunctionDef, ast.Lambda)) else f
            if isinstance(c, ast.Attribute) and c.attr == attr:
                if not isinstance(c.ctx, ast.Load):
                    v = n.value if isinstance(n, ast.Assign) and c in n.targets else None
                    if not (isinstance(v, ast.Dict) and not v.keys or isinstance(v, ast.Call) and
                            isinstance(v.func, ast.Name) and v.func.id == 'dict' and not v.args and not v.keywords):
                        ks.add(None)
                elif isinstance(n, ast.Subscript) and n.value is c:
                    if isinstance(n.ctx, ast.Store):
                        v = up.value if isinstance(up, ast.Assign) and n in up.targets else None
                        if isinstance(v, ast.Name):
                            stores = sum(isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id
                                         for t in a.targets) for a in ast.walk(f)) if f is not None else -1
                            if f is None or stores != len(list(bound(f, v.id))) or not stores:
                                ks.add(None)
                            else:
                                ks.update(names(m, f, v.id))
                        else:
                            ks.add(kind(m, v) if v is not None else None)
                elif isinstance(n, ast.Compare) and c in n.comparators:
                    pass
                elif isinstance(n, ast.Attribute) and n.attr == 'get':
                    pass
                else:
                    ks.add(None)
            walk(m, c, g, n)
    for m in prog.modules.values():
        walk(m, m.tree, None, None)
    return ks.pop() if len(ks) == 1 else None


RECEIPT_PURE = ['receipt.Receipt.' + n for n in ('fromJWSString', 'isNull', 'isDummy', 'isReversal', 'isSignedBroken',
                                                'decryptTurnoverCounter', 'toJWSString')]
RECEIPT_RAISES = {
    'receipt.Receipt.fromJWSString': ('receipt.MalformedReceiptException', 'receipt.UnknownAlgorithmException'),
}


# what the tools keep in names of their module: (type, element type)
GLOBALS = {'script.receipt_host.receipt_store': ('dict', 'str')}
