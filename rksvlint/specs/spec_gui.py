# Rules for the graphical tool, evaluated by rksvlint (never executed).  The
# tool's own functions are reached through `gui`.
import json
import os
from requests.exceptions import RequestException
from kivy.app import App
from librksv import algorithms
from librksv import depparser
from librksv import key_store
from librksv import receipt
from librksv import url_receipt_helpers
from librksv import utils
from librksv import verification_state
from librksv import verify
from librksv import verify_receipt
from script import rktool as gui

GREEN = (0, 1, 0, 1)


# ---- background tasks: (error or None, result)
def receiptTask(rec, prefix, store):
    try:
        verify_receipt.ReceiptVerifier.fromKeyStore(store).verify(rec, prefix)
        return None
    except utils.RKSVException as e:
        return e


def prepareTask(dep, store, key, nprocs):
    try:
        pkgs = verify.balanceGroupsWithVerifiers(verify.packageChunkWithVerifiers(dep, store), nprocs)
        return None, verify.prepareVerificationTuples(pkgs, key, None, verification_state.CashRegisterState(),
                                                      verification_state.UsedReceiptIdsUnique)
    except utils.RKSVException as e:
        return e, None


def mainTask(args):
    try:
        return None, verify.verifyGroupsWithVerifiersTuple(args)[1]
    except utils.RKSVException as e:
        return e, None


def finalizeTask(outUsedRecIds, usedRecIds):
    try:
        usedRecIds.merge(outUsedRecIds)
        return None, usedRecIds
    except utils.RKSVException as e:
        return e, None


# ---- one receipt
def receiptInit(self, receipt, algorithmPrefix, isValid, key):
    self._init_key = key if key else None
    self._receipt = receipt
    self._key = None
    self._algorithmPrefix = algorithmPrefix
    if isValid:
        self.verify_button.text = _('Valid Signature')
        self.verify_button.disabled = True
        self.verify_button.background_color = GREEN
    if receipt.isSignedBroken():
        self.verify_button.text = _('No Signature')
        self.verify_button.disabled = True
    self.updateView()


def receiptVerify(self):
    self.verify_button.text = _('Verifying...')
    self.verify_button.disabled = True
    App.get_running_app().pool.apply_async(gui.verifyReceiptTask,
                                           (self._receipt, self._algorithmPrefix, App.get_running_app().keyStore),
                                           callback=self.verifyCb)


def receiptVerifyCb(self, result):
    if result:
        self.verify_button.text = _('Verify')
        self.verify_button.disabled = False
        gui.displayError(result)
    else:
        self.verify_button.text = _('Valid Signature')
        self.verify_button.disabled = True
        self.verify_button.background_color = GREEN


# ---- a DEP
def depAbort(self):
    App.get_running_app().killBackgroundProcesses()
    self._verifying = False
    self._verified = False
    self.verify_button.disabled = False
    self.verify_button.text = _('Verify')
    self.verify_button.background_color = (1, 1, 1, 1)


def depPrepareCb(self, result):
    if not self._verifying:
        return
    if result[0]:
        self._verifying = False
        self.verify_button.text = _('Verify')
        gui.displayError(result[0])
    else:
        App.get_running_app().pool.map_async(gui.verifyDEP_main_Task, result[1], callback=self.verifyDEP_main_Cb)


def depMainCb(self, result):
    if not self._verifying:
        return
    out = []
    for r in result:
        if r[0]:
            self._verifying = False
            self.verify_button.text = _('Verify')
            gui.displayError(r[0])
            return
        out.append(r[1])
    App.get_running_app().pool.apply_async(gui.verifyDEP_finalize_Task,
                                           (out, verification_state.UsedReceiptIdsUnique()),
                                           callback=self.verifyDEP_finalize_Cb)


def depFinalizeCb(self, result):
    if not self._verifying:
        return
    self._verifying = False
    if result[0]:
        self.verify_button.text = _('Verify')
        gui.displayError(result[0])
    else:
        self._verified = True
        self.verify_button.disabled = True
        self.verify_button.text = _('Valid DEP')
        self.verify_button.background_color = GREEN


def depVerify(self):
    if self._verifying:
        self.verifyAbort()
        return
    key = None
    try:
        k = self.aesInput.text
        if k:
            key = utils.loadB64Key(k.encode('utf-8'))
    except Exception as e:
        self.aesInput.text = ''
        gui.displayError(e)
        return
    self._verifying = True
    self.verify_button.text = _('Verifying...')
    App.get_running_app().pool.apply_async(gui.verifyDEP_prepare_Task,
                                           (self.dep, App.get_running_app().keyStore, key, App.get_running_app().nprocs),
                                           callback=self.verifyDEP_prepare_Cb)


# ---- what is shown, and what an input is decoded with
def viewReceipt(self):
    try:
        text = self.receiptInput.text
        if self._input_type == 'JWS':
            rec, prefix = receipt.Receipt.fromJWSString(text)
        elif self._input_type == 'QR':
            rec, prefix = receipt.Receipt.fromBasicCode(text)
        elif self._input_type == 'OCR':
            rec, prefix = receipt.Receipt.fromOCRCode(text)
        elif self._input_type == 'URL':
            urlHash = url_receipt_helpers.getURLHashFromURL(text)
            rec, prefix = receipt.Receipt.fromBasicCode(url_receipt_helpers.getBasicCodeFromURL(text))
            if prefix not in algorithms.ALGORITHMS:
                raise receipt.UnknownAlgorithmException(rec.receiptId)
            verify_receipt.verifyURLHash(rec, algorithms.ALGORITHMS[prefix], urlHash)
        else:
            return
        gui.ViewReceiptWidget(rec, prefix, False, None, cancel=self.dismissPopup)
    except (receipt.ReceiptException, RequestException) as e:
        gui.displayError(e)


def viewDEPReceipt(self, btn):
    try:
        recs, cert, chain = self.dep[btn.group_id]
        rec, prefix = receipt.Receipt.fromJWSString(depparser.expandDEPReceipt(recs[btn.receipt_id]))
        view = gui.getModalView()
        view.bind(on_open=gui.ViewReceiptWidget(rec, prefix, self._verified, self.aesInput.text, cancel=view.dismiss).firstDisplay)
    except receipt.ReceiptException as e:
        gui.displayError(e)


def loadDEP(self, path, filename):
    if not filename or len(filename) < 1:
        return
    try:
        with open(os.path.join(path, filename[0])) as f:
            self.dep = [c[0] for c in depparser.FullFileDEPParser(f).parse(0)]
    except (IOError, UnicodeDecodeError, ValueError, depparser.DEPException) as e:
        gui.displayError(e)
        return
    self.verifyAbort()
    if not self.updateDEPDisplay():
        self.verify_button.disabled = True
        self.dep = None


def setKey(self, key):
    self._key = None
    try:
        if key is not None:
            k = utils.loadB64Key(key.encode('utf-8'))
            if self._algorithmPrefix not in algorithms.ALGORITHMS:
                raise receipt.UnknownAlgorithmException(self._receipt.receiptId)
            utils.raiseForKey(k, algorithms.ALGORITHMS[self._algorithmPrefix])
            self._key = k
    except Exception as e:
        gui.displayError(e)


def depDisplay(self):
    try:
        for g, (recs, cert, chain) in enumerate(self.dep):
            for r, cr in enumerate(recs):
                rec, prefix = receipt.Receipt.fromJWSString(depparser.expandDEPReceipt(cr))
                gui.TreeViewReceiptButton(text=rec.receiptId, group_id=g, receipt_id=r, on_press=self.viewReceipt)
        return True
    except receipt.ReceiptException as e:
        gui.displayError(e)
    return False


def loadAES(self, path, filename):
    if not filename or len(filename) < 1:
        return
    try:
        full = os.path.join(path, filename[0])
        with open(full) as f:
            if full.endswith('.json'):
                self.aesInput.text = utils.readJsonStream(f)['base64AESKey']
            else:
                self.aesInput.text = f.read()
    except (IOError, UnicodeDecodeError, ValueError) as e:
        gui.displayError(e)
    except KeyError:
        gui.displayError(_("No AES key in crypto container"))


# ---- key store
def addKeyId(self, keyId):
    try:
        App.get_running_app().keyStore.putPEMKey(keyId, self._tmpPubKey)
    except ValueError as e:
        gui.displayError(e)


def addCert(self, path, filename):
    if not filename or len(filename) < 1:
        return
    try:
        with open(os.path.join(path, filename[0])) as f:
            App.get_running_app().keyStore.putPEMCert(f.read())
    except (IOError, UnicodeDecodeError, ValueError) as e:
        gui.displayError(e)


def importStore(self, path, filename):
    if not filename or len(filename) < 1:
        return
    try:
        with open(os.path.join(path, filename[0])) as f:
            App.get_running_app().keyStore = key_store.KeyStore.readStoreFromJson(utils.readJsonStream(f))
    except (IOError, UnicodeDecodeError, ValueError, key_store.KeyStoreException) as e:
        gui.displayError(e)
    except KeyError:
        gui.displayError(_("Malformed crypto container"))


def exportStore(self, path, filename):
    if not filename:
        return
    store = App.get_running_app().keyStore.writeStoreToJson(None)
    try:
        with open(os.path.join(path, filename), 'w') as f:
            json.dump(store, f, sort_keys=False, indent=2)
    except IOError as e:
        gui.displayError(e)
