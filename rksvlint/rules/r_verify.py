"""Rules for librksv/verify.py (DEP verification)."""
from .. import config, engine
from ..core import rule
from .. import canon
from ..canon import eq
from ..dd import T, leaf, lift, const, NOT

CRS = 'obj:verification_state.CashRegisterState'
KS = 'obj:key_store.KeyStore'
RV = 'obj:verify_receipt.ReceiptVerifier'
REC = 'obj:receipt.Receipt'

GROUP = dict(group=('list', '?'), rv=RV, key='?bytes', prevStartReceiptJWS='?str', cashRegisterState=CRS,
             usedReceiptIds='obj:verification_state.UsedReceiptIdsUnique')

CLASSPROPS = {
    'verify.UntrustedCertificateException': ('C08',),
    'verify.CertificateSerialCollisionException': ('C08',),
    'verify.CertificateChainBrokenException': ('C08',),
    'verification_state.DuplicateReceiptIdException': ('C06',),
    'receipt.MalformedReceiptException': ('C12',),
    'receipt.UnknownAlgorithmException': ('C01',),
    'verify_receipt.CertSerialMismatchException': ('C01',),
    'receipt.CertSerialInvalidException': ('C01',),
    'verify_receipt.NoPublicKeyException': ('C01',),
    'verify_receipt.InvalidSignatureException': ('C01',),
}


def attr(*names):
    return lambda k: k[0] == 'A' and k[2] in names


STATE = [
    (attr('needRestoreReceipt'), ('C04',)),
    (attr('startReceiptJWS'), ('C03',)),
    (attr('chainNextTo', 'lastReceiptJWS'), ('C02',)),
    (attr('lastTurnoverCounter'), ('C05',)),
    (lambda k: k[0] == 'I', ('C06',)),
]

PURE = ['receipt.Receipt.fromJWSString', 'receipt.Receipt.decryptTurnoverCounter', 'depparser.expandDEPReceipt'] + \
    ['receipt.Receipt.' + n for n in ('isNull', 'isDummy', 'isReversal', 'isSignedBroken')]


@rule('verify-group', 'C01 C02 C03 C04 C05 C06 C07', 'verifyGroup agrees with the per-receipt acceptance rule and state update rule')
def _(ctx):
    ctx.rel('verify.verifyGroup', 'spec.verify.verifyGroup', GROUP, ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07'), opaque=PURE,
            raises=config.RECEIPT_RAISES, contracts={'verify_receipt.ReceiptVerifier.verify': engine.contract_verify},
            state=STATE, classprops=CLASSPROPS)


@rule('chain-value', 'C02', 'verifyChain / verifyChainValue compare the chaining value of this receipt with the required one')
def _(ctx):
    ctx.rel('verify.verifyChain', 'spec.verify.verifyChain', dict(rec=REC, prev='?str', algorithm='obj:alg'), ('C02',))
    ctx.rel('verify.verifyChainValue', 'spec.verify.verifyChainValue', dict(rec=REC, chainingValue='str'), ('C02',))


@rule('cert-chain', 'C08', 'verifyCert walks the chain up to the first key store member and compares fingerprints')
def _(ctx):
    ctx.rel('verify.verifyCert', 'spec.verify.verifyCert', dict(cert='obj:x509', chain=('list', 'obj:x509'), keyStore=KS), ('C08',),
                               opaque=['utils.certFingerprint', 'utils.verifyCert', 'key_store.numSerialToKeyId'])


VG = ['verify.verifyGroup', 'verify.verifyCert', 'verify_receipt.ReceiptVerifier.fromCert', 'verify_receipt.ReceiptVerifier.fromKeyStore']
GRP = ('tuple3', 'list', '?obj:x509', 'list')
KEYB = '?bytes'
VR = {'verify.verifyCert': ('verify.UntrustedCertificateException', 'verify.CertificateSerialCollisionException',
                            'verify.CertificateChainBrokenException')}
EV = ['.merge', '.map_async', 'verification_state.ClusterState.updateCashRegisterInfo', 'verification_state.UsedReceiptIdsBackend.merge']


# the whole-DEP drivers: what verifyGroup guarantees for one group holds for
# the DEP only if every receipt gets there with the right state and verifier
RUN = ('C09', 'C02', 'C03', 'C04', 'C05', 'C06')


@rule('dep-packages', 'C01 C02 C03 C04 C05 C06 C08 C09 C16', 'each group is verified with the verifier of its own, trusted certificate')
def _(ctx):
    one = leaf(T('list', T('var', 'group', 'tuple')))
    ctx.rel('verify.packageChunkWithVerifiers', 'spec.verify.packageChunk', dict(chunk=one, keyStore=KS), ('C08', 'C09', 'C01'), opaque=VG, raises=VR, classprops=CLASSPROPS)
    ctx.rel('verify.packageChunkWithVerifiers', 'spec.verify.packageChunk', dict(chunk='list', keyStore=KS), ('C08', 'C09', 'C01'), assume=lambda ps: NOT(lift(eq, lift(canon.mklen, ps['chunk']), leaf(const(1)))), opaque=VG, raises=VR, classprops=CLASSPROPS)
    ctx.rel('verify.verifyGroupsWithVerifiers', 'spec.verify.verifyGroups',
            dict(groups='list', key=KEYB, prevStart='?str', rState=CRS, usedRecIds='obj:verification_state.UsedReceiptIdsUnique'), RUN, opaque=VG, raises=VR, classprops=CLASSPROPS)
    ctx.rel('verify.verifyGroupsWithVerifiersTuple', 'spec.verify.verifyGroupsTuple', dict(args='tuple'), RUN,
            opaque=['verify.verifyGroupsWithVerifiers'])
    ctx.rel('verify.prepareVerificationTuples', 'spec.verify.prepareTuples',
            dict(chunksWithVerifiers='list', key=KEYB, prevStartJWS='?str', cashregState=CRS, usedRecIdsBackend='?'), RUN + ('C16',),
            opaque=['verification_state.CashRegisterState.fromDEPGroup'])
    ctx.rel('verify.getChunksForProcs', 'spec.verify.chunksForProcs', dict(allChunks='?', nprocs='int'), RUN[:2], events=['yield'])
    ctx.rel('verify.balanceGroupsWithVerifiers', 'spec.verify.balance', dict(groups='list', nprocs='int'), RUN[:2] + ('C01', 'C08'))


@rule('dep-run', 'C02 C03 C04 C05 C06 C08 C09 C16 C17', 'the state threads through all groups and chunks in order and is stored only after all are verified')
def _(ctx):
    ST = 'obj:verification_state.ClusterState'
    ctx.rel('verify.verifyDEP', 'spec.verify.verifyDEP', dict(dep='dict', keyStore=KS, key=KEYB, state=ST, cashRegisterIdx='?int', usedRecIdsBackend='?'),
            RUN + ('C17', 'C16'), raises=VR, classprops=CLASSPROPS, events=EV, opaque=VG + ['verification_state.ClusterState.getCashRegisterInfo', 'verification_state.ClusterState.updateCashRegisterInfo', 'verification_state.ClusterState', 'depparser.DictDEPParser.parse'])
    ctx.rel('verify.verifyParsedDEP', 'spec.verify.verifyParsedDEP', dict(parser='?', keyStore=KS, key=KEYB, state=ST, cashRegisterIdx='?int', pool='?', nprocs='int', chunksize='int', usedRecIdsBackend='?'),
            RUN + ('C17', 'C16'), raises=VR, classprops=CLASSPROPS, events=EV, opaque=VG + ['verification_state.ClusterState.getCashRegisterInfo', 'verification_state.ClusterState.updateCashRegisterInfo', 'verification_state.ClusterState', 'verify.getChunksForProcs', 'verify.packageChunkWithVerifiers', 'verify.verifyGroupsWithVerifiersTuple', 'verify.prepareVerificationTuples'])


@rule('certless-groups', 'C08 C09', 'whether a group may lack a certificate is decided with knowledge of the whole DEP, not of one chunk')
def _(ctx):
    """The receipts of a DEP arrive in chunks.  A function that is handed one
    chunk and the key store cannot know whether the DEP has further groups."""
    import ast
    q = 'verify.packageChunkWithVerifiers'
    fn = ctx.prog.func(q)
    if fn is None:
        ctx.unknown(q, 'not found')
        return
    ctx.saw(fn.qual)
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
    if len(names) > 2 or any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn.node)):
        ctx.ok(1, sample='%s is told about more than one chunk: %s' % (q, ', '.join(names)))
        return
    ctx.bad('%s:%d in %s' % (fn.module.path, fn.node.lineno, q), 'one-chunk',
            'a group without certificate is accepted if it is alone in its chunk, whatever other groups the DEP has')
