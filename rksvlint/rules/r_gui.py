"""Rules for the graphical tool (rktool.py)."""
import ast

from ..core import rule
from ..engine import VERIFY_ERRORS

S = 'spec.gui.'
G = 'script.rktool.'
ERR = ('utils.RKSVException',)
OPAQUE = ['verify.packageChunkWithVerifiers', 'verify.balanceGroupsWithVerifiers', 'verify.prepareVerificationTuples',
          'verify.verifyGroupsWithVerifiersTuple', 'verify_receipt.ReceiptVerifier.fromKeyStore', 'verify_receipt.ReceiptVerifier.verify',
          'verification_state.UsedReceiptIdsUnique.merge', 'utils.loadB64Key', G + 'displayError']
RAISES = {q: ERR for q in OPAQUE[:-1] if 'balance' not in q and 'fromKeyStore' not in q}
RAISES['verify_receipt.ReceiptVerifier.verify'] = tuple(VERIFY_ERRORS)
ASYNC = ['.apply_async', '.map_async', '.killBackgroundProcesses', G + 'displayError']


def shown(k):
    """what tells the user whether a receipt or DEP is valid"""
    return k[0] == 'A' and (k[2] in ('_verified', '_verifying', '_key', 'dep', '_receipt', '_algorithmPrefix', 'keyStore') or
                            k[1].op == 'attr' and k[1].args[1] == 'verify_button')


SHOWN = [(shown, ('C25',))]
RW = 'obj:' + G + 'ViewReceiptWidget'
DW = 'obj:' + G + 'VerifyDEPWidget'


def gui(ctx, q, spec, params, more=None, props=('C25',), **kw):
    kw.setdefault('opaque', OPAQUE)
    kw.setdefault('events', ASYNC)
    r = dict(RAISES)
    r.update(more or {})
    ctx.rel(G + q, S + spec, params, props, raises=r, state=SHOWN, **kw)


@rule('gui-tasks', 'C25', 'a background task reports success only if no library call in it failed')
def _(ctx):
    gui(ctx, 'verifyReceiptTask', 'receiptTask', dict(rec='obj:receipt.Receipt', prefix='str', store='obj:key_store.KeyStore'))
    gui(ctx, 'verifyDEP_prepare_Task', 'prepareTask', dict(dep='list', store='obj:key_store.KeyStore', key='?bytes', nprocs='int'))
    gui(ctx, 'verifyDEP_main_Task', 'mainTask', dict(args='tuple'))
    gui(ctx, 'verifyDEP_finalize_Task', 'finalizeTask', dict(outUsedRecIds='list', usedRecIds='obj:verification_state.UsedReceiptIdsUnique'))


@rule('gui-receipt', 'C25', 'a receipt is shown as valid only after its verification succeeded')
def _(ctx):
    gui(ctx, 'ViewReceiptWidget.__init__', 'receiptInit', dict(self=RW, receipt='obj:receipt.Receipt', algorithmPrefix='str', isValid='bool', key='?str'),
        opaque=OPAQUE + [G + 'ViewReceiptWidget.updateView', 'receipt.Receipt.isSignedBroken', 'receipt.Receipt.isDummy', 'receipt.Receipt.isReversal', 'receipt.Receipt.isNull'])
    gui(ctx, 'ViewReceiptWidget.verify', 'receiptVerify', dict(self=RW))
    gui(ctx, 'ViewReceiptWidget.verifyCb', 'receiptVerifyCb', dict(self=RW, result='?'))


@rule('gui-dep', 'C25', 'a DEP is shown as valid only after all steps of its verification succeeded')
def _(ctx):
    gui(ctx, 'VerifyDEPWidget.verifyAbort', 'depAbort', dict(self=DW))
    gui(ctx, 'VerifyDEPWidget.verify', 'depVerify', dict(self=DW), opaque=OPAQUE + [G + 'VerifyDEPWidget.verifyAbort'])
    gui(ctx, 'VerifyDEPWidget.verifyDEP_prepare_Cb', 'depPrepareCb', dict(self=DW, result='tuple'))
    gui(ctx, 'VerifyDEPWidget.verifyDEP_main_Cb', 'depMainCb', dict(self=DW, result='list'))
    gui(ctx, 'VerifyDEPWidget.verifyDEP_finalize_Cb', 'depFinalizeCb', dict(self=DW, result='tuple'))


RC = 'receipt.Receipt.'
PARSE = [RC + n for n in ('fromJWSString', 'fromBasicCode', 'fromOCRCode')]
URL = ['url_receipt_helpers.getURLHashFromURL', 'url_receipt_helpers.getBasicCodeFromURL']
VIEW = PARSE + URL + ['depparser.expandDEPReceipt', 'verify_receipt.verifyURLHash', G + 'getModalView', G + 'ViewReceiptWidget']
REC = {q: ('receipt.ReceiptException',) for q in PARSE + ['depparser.expandDEPReceipt', 'verify_receipt.verifyURLHash']}
REC.update({q: ('receipt.ReceiptException', 'requests.exceptions.RequestException') for q in URL})


@rule('gui-view', 'C25 C24', 'a receipt is opened as verified only from a verified DEP, and everything that cannot be read is reported')
def _(ctx):
    more = dict(opaque=OPAQUE + VIEW, events=ASYNC + [G + 'ViewReceiptWidget', '.bind'], more=REC)
    gui(ctx, 'VerifyReceiptWidget.viewReceipt', 'viewReceipt', dict(self='obj:' + G + 'VerifyReceiptWidget'), props=('C25', 'C24'), **more)
    gui(ctx, 'VerifyDEPWidget.viewReceipt', 'viewDEPReceipt', dict(self=DW, btn='?'), **more)
    parse = ctx.method('depparser.FullFileDEPParser', 'parse')
    gui(ctx, 'VerifyDEPWidget.loadDEPCb', 'loadDEP', dict(self=DW, path='str', filename='?'),
        opaque=OPAQUE + ['depparser.FullFileDEPParser', parse, G + 'VerifyDEPWidget.verifyAbort', G + 'VerifyDEPWidget.updateDEPDisplay'],
        events=ASYNC + [G + 'VerifyDEPWidget.verifyAbort', G + 'VerifyDEPWidget.updateDEPDisplay'],
        more={parse: ('depparser.DEPException',)})
    gui(ctx, 'ViewReceiptWidget.setKey', 'setKey', dict(self=RW, key='?str'),
        opaque=OPAQUE + ['utils.raiseForKey', G + 'ViewReceiptWidget.updateView'], more={'utils.raiseForKey': ('utils.InvalidKeyException',)})
    gui(ctx, 'VerifyDEPWidget.updateDEPDisplay', 'depDisplay', dict(self=DW),
        opaque=OPAQUE + VIEW + [G + 'VerifyDEPWidget.clearDEPDisplay', G + 'TreeViewReceiptButton', 'key_store.numSerialToKeyId'],
        events=ASYNC + [G + 'TreeViewReceiptButton'], more=REC)
    gui(ctx, 'VerifyDEPWidget.loadAESCb', 'loadAES', dict(self=DW, path='str', filename='?'), opaque=OPAQUE + ['utils.readJsonStream'],
        more={'utils.readJsonStream': ('utils.RKSVException',)})


KS = 'key_store.KeyStore.'


@rule('gui-keys', 'C25 C18', 'the key store of the tool is changed and saved as the user asked, and failures are reported')
def _(ctx):
    KW = 'obj:' + G + 'KeyStoreWidget'
    more = dict(opaque=OPAQUE + [G + 'KeyStoreWidget.buildKSTree', KS + 'putPEMCert', KS + 'putPEMKey', KS + 'readStoreFromJson',
                                 KS + 'writeStoreToJson', 'utils.readJsonStream'],
                events=ASYNC + ['.putPEMKey', '.putPEMCert', '.write', 'open'],
                more={'utils.readJsonStream': ('utils.RKSVException',), KS + 'readStoreFromJson': ('key_store.KeyStoreException', 'KeyError')})
    gui(ctx, 'KeyStoreWidget.addPubKeyCbId', 'addKeyId', dict(self=KW, keyId='str'), **more)
    gui(ctx, 'KeyStoreWidget.addCertCb', 'addCert', dict(self=KW, path='str', filename='?'), **more)
    gui(ctx, 'KeyStoreWidget.importKeyStoreCb', 'importStore', dict(self=KW, path='str', filename='?'), **more)
    gui(ctx, 'KeyStoreWidget.exportKeyStoreCb', 'exportStore', dict(self=KW, path='str', filename='?'), **more)


MARKS = ('_verified', '_is_valid', '_verifying', 'background_color')
WIDGET = 'ViewReceiptWidget'


CALLBACKS = ('verifyCb', 'verifyDEP_prepare_Cb', 'verifyDEP_main_Cb', 'verifyDEP_finalize_Cb')
ENTRY = ('__init__', 'verify', 'verifyAbort', 'viewReceipt')


def says_valid(n):
    return any(isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.startswith('Valid ') for x in ast.walk(n))


def marks(fn):
    """nodes of a function that make something look verified"""
    out = []
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in MARKS:
            out.append((n, n.attr))
        elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
            if name == WIDGET:
                out.append((n, name))
            elif name == 'setattr' and len(n.args) == 3 and not (isinstance(n.args[1], ast.Constant) and n.args[1].value not in MARKS + ('text',)):
                out.append((n, 'setattr'))
        if isinstance(n, ast.Assign) and says_valid(n.value):
            out.append((n, 'text'))
    return out


@rule('gui-sites', 'C25', 'nothing else in the tool makes a receipt or DEP look verified')
def _(ctx):
    m = ctx.prog.modules.get('script.rktool')
    if m is None:
        ctx.unknown('rktool.py', 'no such module')
        return
    fns = list(m.funcs.values()) + [f for c in m.classes.values() for f in c.methods.values()]
    lost = any('[gui' in u or u.startswith('gui') for u in ctx.undecided)

    def outside(where, key, text):
        if lost:
            ctx.unknown(where, text)
        else:
            ctx.bad(where, key, text)
    sensitive = set(CALLBACKS)
    for f in fns:
        known = f.qual in ctx.analysed
        for n, what in marks(f):
            ctx.count('success sites')
            if known:
                ctx.ok()
                if f.qual.split('.')[-1] not in ENTRY:
                    sensitive.add(f.qual.split('.')[-1])
            else:
                outside('%s:%d in %s' % (m.path, n.lineno, f.qual), '%s|site|%s' % (f.qual, what),
                        '%s changes whether something is shown as verified outside of the analysed callbacks' % what)
    # callbacks and helpers that announce success are reached only from analysed functions
    for f in fns:
        if f.qual in ctx.analysed:
            continue
        for n in ast.walk(f.node):
            name = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            if name in sensitive and isinstance(n.ctx, ast.Load):
                outside('%s:%d in %s' % (m.path, n.lineno, f.qual), '%s|use|%s' % (f.qual, name),
                        '%s is used outside of the analysed callbacks' % name)
    ctx.ok()
