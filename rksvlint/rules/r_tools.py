"""Rules for the command line tools: every documented form of the command line."""
from .. import canon
from ..config import GLOBALS
from ..core import rule
from ..dd import T, AND, const, leaf
from ..engine import VERIFY_ERRORS

S = 'spec.tools.'
CL = 'verification_state.ClusterState.'
KS = 'key_store.KeyStore.'
RC = 'receipt.Receipt.'
ERR = ('receipt.ReceiptException',)
PARSE = tuple(RC + n for n in ('fromJWSString', 'fromBasicCode', 'fromOCRCode', 'fromCSV'))
OPAQUE = ['utils.readJsonStream', 'utils.loadKeyFromJson', 'utils.loadB64Key', 'utils.depParserChunkSize',
          'utils.exportCertToPEM', 'utils.addPEMCertHeaders', 'key_store.numSerialToKeyId',
          'verify.verifyDEP', 'verify.verifyParsedDEP',
          'depparser.IncrementalDEPParser.fromFd', 'depparser.FullFileDEPParser', 'depparser.CertlessStreamDEPParser',
          'depparser.receiptGroupAdapter',
          'depexport.JSONExporter', 'depexport.CSVExporter', 'depexport.DEPStream', 'depexport.MergingDEPStream',
          'depexport.DEPStream.fromIterList', 'depexport.DEPExporterI.fromSingleGroup',
          'depexport.DEPExporter.export', 'depexport.CSVExporter.export',
          'depexport.JSONExporter.export', 'verification_state.DEFAULT_USED_RECEIPT_IDS_BACKEND',
          'verify_receipt.ReceiptVerifier.fromKeyStore',
          'url_receipt_helpers.getAndVerifyReceiptURL', 'url_receipt_helpers.getBasicCodeFromURL'] + list(PARSE)
OPAQUE += ['verify_receipt.ReceiptVerifier.' + n for n in ('verifyJWS', 'verifyBasicCode', 'verifyOCRCode', 'verifyCSV')]
OPAQUE += [CL[:-1]] + [CL + n for n in ('readStateFromJson', 'writeStateToJson', 'addNewCashRegister', 'updateCashRegisterInfo',
                                        'fromArbitraryReceipt', 'fromArbitraryStartReceipt')]
OPAQUE += ['verification_state.CashRegisterState', 'verification_state.CashRegisterState.updateFromDEPGroup']
OPAQUE += [KS[:-1]] + [KS + n for n in ('readStoreFromJson', 'writeStoreToJson', 'putPEMCert', 'putPEMKey', 'delKey', 'getKeyIds', 'writeStore', 'readStore')]
OPAQUE += [RC + n for n in ('toJWSString', 'toBasicCode', 'toOCRCode', 'toURLHash', 'toCSV')]
OPAQUE += ['script.demo.receiptGen', 'cashreg.CashRegister', 'utils.loadCert', 'sigsys.SignatureSystemWorking',
           'sigsys.SignatureSystemATrustMobile', 'depparser.expandDEPReceipt']
FAIL = ('utils.RKSVException',)
RAISES = {q: FAIL for q in ('verify.verifyDEP', 'verify.verifyParsedDEP', 'utils.readJsonStream', 'utils.loadKeyFromJson',
                            'utils.loadB64Key', CL + 'readStateFromJson', KS + 'readStoreFromJson',
                            CL + 'fromArbitraryReceipt', CL + 'fromArbitraryStartReceipt', CL + 'updateCashRegisterInfo',
                            'verification_state.CashRegisterState.updateFromDEPGroup',
                            KS + 'putPEMCert', KS + 'putPEMKey', KS + 'delKey', KS + 'readStore') + PARSE}
VER = {q: tuple(VERIFY_ERRORS) + ('receipt.MalformedReceiptException',) for q in
       ['verify_receipt.ReceiptVerifier.' + n for n in ('verifyJWS', 'verifyBasicCode', 'verifyOCRCode', 'verifyCSV')] +
       ['url_receipt_helpers.getAndVerifyReceiptURL']}


def chunk_size(I, args, kwargs, st, node):
    """utils.depParserChunkSize(): a number of receipts, not negative (established separately)"""
    t = T('call', 'utils.depParserChunkSize')
    t.typ = 'int'
    st.cond = AND(st.cond, canon.ge(t, const(0)))
    return leaf(t)


def late(h, t):
    """effects the user takes as the outcome"""
    if h in ('stdout', 'stderr', '.write'):
        return True
    return h == 'open' and any(getattr(x, 'op', None) == 'const' and x.args[0] == 'w' for x in t.args[1:])


def own(*props):
    return [(lambda k: k[0] in ('A', 'I') and 'argv' not in str(k[1]) and (k[1].op != 'module' or '%s.%s' % (k[1].args[0], k[2]) in GLOBALS), tuple(props))]


def tool(ctx, mod, spec, argv, props, events, **kw):
    r = dict(RAISES)
    r.update(VER)
    ctx.rel('script.%s.__main__' % mod, S + spec, {}, tuple(props.split()), opaque=OPAQUE, raises=r, argv=[mod + '.py'] + argv.split(),
            specvals=kw, events=events, state=own(*props.split()), values=False, late=late, deep=True, excstate=['StopIteration'],
            contracts={'utils.depParserChunkSize': chunk_size})


VEV = ['stdout', 'stderr', 'verify.verifyDEP', 'verify.verifyParsedDEP', 'json.dumps']
SEV = ['open', '.write', 'stdout', 'stderr', CL + 'addNewCashRegister', CL + 'updateCashRegisterInfo', CL + 'writeStateToJson',
       'verification_state.CashRegisterState.updateFromDEPGroup', '.add', CL + 'fromArbitraryReceipt',
       CL + 'fromArbitraryStartReceipt']
KEV = ['open', '.write', 'stdout', 'stderr', KS + 'putPEMCert', KS + 'putPEMKey', KS + 'delKey', KS + 'writeStoreToJson', KS + 'writeStore', KS + 'readStore',
       '.write', '.read_file', '.read', '.read_string', '.readfp', 'configparser.RawConfigParser']
XEV = ['open', 'stdout', 'stderr', '.write', 'os.mkdir', 'os.chdir', 'next']


@rule('tool-verify', 'C23', 'verify.py passes the whole input to the library and reports success only if no error came back')
def _(ctx):
    for a in ('', 'state', 'state 3', 'state continue', '3'):
        for p in ('', 'par 4', 'par 1'):
            for c in ('', 'chunksize 0', 'chunksize 1', 'chunksize 9'):
                tool(ctx, 'verify', 'verifyTool', ' '.join((a, p, c, 'ks.json dep.json')), 'C23', VEV,
                     withState=a.startswith('state'), idx=3 if '3' in a else None, last='continue' in a,
                     nprocs=4 if p == 'par 4' else 1, chunk=int(c[-1]) if c else None)
    tool(ctx, 'verify', 'emptyState', 'state', 'C23', VEV)
    tool(ctx, 'verify', 'verifyTool', 'json ks.json dep.json', 'C23', VEV, withState=False, idx=None, last=False, nprocs=1, chunk=None)


@rule('tool-verify-receipt', 'C23 C24', 'verify_receipt.py verifies every line in the named format and counts every failure')
def _(ctx):
    for f in ('jws', 'qr', 'ocr', 'csv', 'url'):
        ps = 'C23 C24' if f == 'url' else 'C23'
        tool(ctx, 'verify_receipt', 'receiptTool', f + ' ks.json', ps, ['stdout', 'stderr'], fmt=f, single=False)
        tool(ctx, 'verify_receipt', 'receiptTool', f + ' ks.json $receipt', ps, ['stdout', 'stderr'], fmt=f, single=True)


@rule('tool-state', 'C23 C17', 'verification_state.py changes exactly the named part of the state and writes it only after success')
def _(ctx):
    def t(spec, argv, **kw):
        tool(ctx, 'verification_state', spec, 'state.json ' + argv, 'C23 C17', SEV, **kw)
    t('stateCreate', 'create')
    t('stateAdd', 'addCashRegister')
    t('stateReset', 'resetCashRegister $n')
    t('stateDelete', 'deleteCashRegister $n')
    t('stateSet', 'toggleNeedRestoreReceipt $n', what='toggleNeedRestoreReceipt')
    t('stateSet', 'setLastTurnoverCounter $n $value', what='setLastTurnoverCounter')
    for w in ('setLastReceiptJWS', 'setChainNextTo', 'setStartReceiptJWS'):
        t('stateSet', w + ' $n $value', what=w)
        t('stateSet', w + ' $n None', what=w)
    t('stateReadIds', 'readUsedReceiptIds ids.txt', none=False)
    t('stateReadIds', 'readUsedReceiptIds None', none=True)
    t('stateCopy', 'copyCashRegister $n other.json $m')
    t('stateUpdate', 'updateCashRegister $n dep.json', withKey=False)
    t('stateUpdate', 'updateCashRegister $n dep.json key.txt', withKey=True)
    for f in ('jws', 'qr', 'ocr', 'csv', 'url'):
        t('stateFromReceipt', 'fromArbitraryReceipt %s $receipt' % f, fmt=f, withKey=False)
        t('stateFromReceipt', 'fromArbitraryReceipt %s $receipt key.txt' % f, fmt=f, withKey=True)
        t('stateFromStart', 'fromArbitraryStartReceipt %s $receipt' % f, fmt=f)


@rule('tool-keys', 'C18', 'key_store.py changes exactly the named key and keeps everything else')
def _(ctx):
    def t(spec, argv, **kw):
        tool(ctx, 'key_store', spec, 'ks.json ' + argv, 'C18', KEV, **kw)
    t('keysCreate', 'create')
    t('keysList', 'list')
    t('keysAdd', 'add new.pem', kid=None)
    t('keysAdd', 'add new.pem $kid', kid=True)
    t('keysDel', 'del $kid')
    t('keysShow', 'showSymmetricKey')
    t('keysSet', 'setSymmetricKey')
    t('keysUnset', 'delSymmetricKey')
    t('keysToIni', 'toLegacyIni')
    t('keysFromIni', 'fromLegacyIni')


@rule('tool-receipt', 'C13', 'receipt.py writes every receipt it reads in the named format, under the algorithm it was read with')
def _(ctx):
    for src in ('jws', 'qr', 'ocr', 'csv', 'url'):
        for dst in ('jws', 'qr', 'ocr', 'csv', 'url'):
            tool(ctx, 'receipt', 'convertReceipts', '%s %s' % (src, dst), 'C13', ['stdout', 'stderr'], src=src, dst=dst)


HEV = ['stdout', 'stderr', '.run']


@rule('tool-host', 'C24', 'receipt_host.py serves the code of a receipt under the URL hash of that receipt and nothing else')
def _(ctx):
    tool(ctx, 'receipt_host', 'hostDep', 'dep', 'C24', HEV)
    tool(ctx, 'receipt_host', 'hostJws', 'jws', 'C24', HEV)
    ctx.rel('script.receipt_host.get_url_hash', S + 'urlLookup', dict(url_hash='str'), ('C24',))


@rule('tool-demo', 'C21', 'demo.py generates its receipts with one register, one device and one id each')
def _(ctx):
    ctx.rel('script.demo.receiptGen', S + 'demoReceipts', dict(register='obj:cashreg.CashRegister', sigsystem='obj:sigsys.SignatureSystemI', num='int'),
            ('C21',), opaque=['cashreg.CashRegister.receipt'], events=['yield'])
    for form, argv in (('cert', 'priv.pem cert.pem aes.txt 7'), ('key', 'priv.pem pub.pem $kid aes.txt 7'), ('net', 'aes.txt 7')):
        tool(ctx, 'demo', 'demoTool', argv, 'C21', ['stdout', 'stderr'], form=form)


@rule('tool-dep', 'C19', 'merge.py, split.py, convert.py and cert_extract.py pass on everything they read')
def _(ctx):
    tool(ctx, 'merge', 'mergeTool', 'a.json b.json c.json', 'C19', XEV, join=True)
    tool(ctx, 'merge', 'mergeTool', 'nomerge a.json b.json c.json', 'C19', XEV, join=False)
    tool(ctx, 'split', 'splitTool', '7 out', 'C19', XEV)
    tool(ctx, 'convert', 'toCsv', 'json2csv', 'C19', XEV)
    tool(ctx, 'convert', 'toJson', 'csv2json', 'C19', XEV)
    tool(ctx, 'cert_extract', 'extractTool', 'out', 'C19', XEV)


@rule('url-fetch', 'C24', 'the hash is taken from the documented place of the URL and compared with the fetched receipt')
def _(ctx):
    U = 'url_receipt_helpers.'
    ctx.rel(U + 'getURLHashFromURL', S + 'hashFromURL', dict(url='str'), ('C24',))
    ctx.rel(U + 'getBasicCodeFromURL', S + 'codeFromURL', dict(url='str'), ('C24',), events=['.raise_for_status'])
    ctx.rel(U + 'getAndVerifyReceiptURL', S + 'verifyFromURL', dict(rv='obj:verify_receipt.ReceiptVerifier', url='str'), ('C24',),
            opaque=[U + 'getURLHashFromURL', U + 'getBasicCodeFromURL', 'verify_receipt.verifyURLHash',
                    'verify_receipt.ReceiptVerifier.verifyBasicCode'],
            events=['verify_receipt.verifyURLHash', 'verify_receipt.ReceiptVerifier.verifyBasicCode'],
            raises={'verify_receipt.verifyURLHash': ('verify_receipt.InvalidURLHashException',),
                    'verify_receipt.ReceiptVerifier.verifyBasicCode': tuple(VERIFY_ERRORS)})
