"""Malformed input: no path of a parser or verifier that is fed arbitrary JSON
values ends in an error outside of the library's documented family."""
from .. import canon, engine
from ..core import rule

RV = 'obj:verify_receipt.ReceiptVerifier'
CS = 'obj:verification_state.ClusterState'
RS = 'obj:verification_state.CashRegisterState'

# (function, parameters that come from outside or were made by the library)
ROOTS = [
    ('receipt.Receipt.fromJWSString', dict(jwsString='json')),
    ('receipt.Receipt.fromBasicCode', dict(basicCode='json')),
    ('receipt.Receipt.fromOCRCode', dict(ocrCode='json')),
    ('receipt.Receipt.fromCSV', dict(csv='json')),
    ('verify_receipt.ReceiptVerifier.verifyJWS', dict(self=RV, jwsString='json')),
    ('verify_receipt.ReceiptVerifier.verifyBasicCode', dict(self=RV, basicCode='json')),
    ('verify_receipt.ReceiptVerifier.verifyOCRCode', dict(self=RV, ocrCode='json')),
    ('verify_receipt.ReceiptVerifier.verifyCSV', dict(self=RV, csv='json')),
    ('verification_state.ClusterState.readStateFromJson', dict(json='json')),
    ('verification_state.UsedReceiptIdsBackend.readFromJson', dict(json='json', label='str')),
    ('key_store.KeyStore.readStoreFromJson', dict(json='json')),
    ('key_store.parseKeyStoreCert', dict(cert_str='json', kid='str')),
    ('key_store.parseKeyStorePubkey', dict(pubkey_str='json', kid='str')),
    ('key_store.strSerialToKeyIds', dict(serial='str')),
    ('depparser.parseDEPCert', dict(cert_str='json')),
    ('depparser.shrinkDEPReceipt', dict(rec='json', idx='?int')),
    ('depparser.DictDEPParser.__init__', dict(self='obj:depparser.DictDEPParser', dep='json', nparts='int')),
    ('depparser.DictDEPParser._parseDEPGroup', dict(self='obj:depparser.DictDEPParser', group='json', idx='int')),
    ('utils.loadKeyFromJson', dict(json='json')),
    ('utils.loadB64Key', dict(b64Key='bytes')),
    ('url_receipt_helpers.getBasicCodeFromURL', dict(url='str')),
    ('url_receipt_helpers.getURLHashFromURL', dict(url='str')),
    ('verification_state.UsedReceiptIdsUnique.check', dict(self='obj:verification_state.UsedReceiptIdsUnique', receiptId='str')),
    ('verification_state.UsedReceiptIdsSortedNatural.check', dict(
        self='obj:verification_state.UsedReceiptIdsSortedNatural', receiptId='str')),
]
# errors that only a caller of the library who breaks the contract of the function meets
PRECONDITIONS = {
    'utils.exportCertToPEM': ('UnicodeDecodeError',),         # PEM output of the crypto library is ASCII
    'utils.exportKeyToPEM': ('UnicodeDecodeError',),
    'depexport.DEPStream.send': ('StopIteration',),           # send() after finish()
    'depexport.MergingDEPStream._ReceiptTupleStream.send': ('StopIteration',),
    'depexport.MergingDEPStream.send': ('StopIteration',),
    'depparser.DEPStateCertList.parse': ('AttributeError',),  # upper states are always set by the parser
    'depparser.FileDEPParser._needCerts': ('AttributeError',),
    'depparser.IncrementalDEPParser.fromFd': ('AttributeError',),
    'receipt.Receipt.toJWSString': ('AttributeError',),       # unsigned receipt
    'cashreg.CashRegister.receipt': ('KeyError', 'ValueError', 'UnicodeDecodeError', 'binascii.Error'),  # prefix and device as documented
    'sigsys.SignatureSystemATrustMobile.__init__': ('requests.exceptions.RequestException',),  # network
    'sigsys.SignatureSystemWorking.sign': ('UnicodeDecodeError',),  # signatures are Base64
    'verify.verifyParsedDEP': ('AttributeError',),            # parsers raise instead of yielding nothing
}
# segments of a Receipt object are valid Base64: its constructor and parsers check that (C12)
for _m in ('toBasicCode', 'toOCRCode', 'toCSV', 'toURLHash', 'isDummy', 'isReversal', 'decryptTurnoverCounter', 'sign'):
    PRECONDITIONS['receipt.Receipt.' + _m] = ('binascii.Error',)
FAMILY = 'utils.RKSVException'


def innermost(s):
    """the failing operation of a path that leaves a loop"""
    while isinstance(s.via, tuple) and s.via and s.via[0] == 'inloop':
        s = s.via[1]
    return s


def implicit(ctx, q, res, allowed=(), props=('C15',)):
    """feasible paths on which an operation of the language or of a library fails"""
    prog = ctx.prog
    n = 0
    for s in res.raises:
        s = innermost(s)
        if s.via != 'implicit' or not s.val.leaf or s.val.hi.op != 'exc':
            continue
        c = s.val.hi.args[0]
        if prog.issub(c, FAMILY) or c in allowed:
            continue
        n += 1
        w = canon.closed(s.cond)
        if w is None:
            ctx.ok()
            continue
        fn = s.where.fn if s.where is not None else None
        where = '%s:%s in %s' % (fn.module.path if fn else '?', getattr(s.node, 'lineno', '?'), fn.qual if fn else '?')
        if w is False or any(t.op == 'top' for a in (w if isinstance(w, dict) else w[1] if isinstance(w, tuple) else ())
                             for t in canon.subterms(a)):
            ctx.unknown(where, '%s reaches the caller of %s?' % (c, q))
        else:
            ctx.bad(where, '%s|builtin|%s|%s' % (q, c, fn.qual if fn else ''), '%s reaches the caller of %s when %s' % (
                c, q, canon_text(w)), props)
    return n


def canon_text(w):
    w = w[1] if isinstance(w, tuple) and len(w) == 2 else w
    try:
        return ' and '.join(('' if v else 'not ') + str(a) for a, v in list(w.items())[:12])
    except AttributeError:
        return str(w)[:400]


@rule('malformed-input', 'C15', 'every path of the parsers and verifiers for arbitrary JSON values: an operation that fails raises an '
      'error of the documented family')
def _(ctx):
    prog = ctx.prog
    for q, ps in ROOTS:
        try:
            fn = prog.func(q)
            I = engine.interp(prog)
            I.strict = True
            names = [a.arg for a in fn.node.args.args]
            vs = {k: engine.var(k, t) for k, t in ps.items()}
            pi = {k: v for k, v in vs.items() if k in names}
            for k, n in zip([k for k in ps if k not in names], [n for n in names if n not in ps]):
                pi[n] = vs[k]
            res = I.run(fn, pi)
        except engine.AnalysisBroken as e:
            ctx.unknown(q, str(e))
            continue
        ctx.saw(q)
        ctx.saw(*I.inlined)
        ctx.ok()
        implicit(ctx, q, res)
        for n in sorted(I.notes):
            ctx.unknown(q, n)
