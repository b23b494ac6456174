"""Rules for the generating cash register (librksv/cashreg.py, librksv/sigsys.py)."""
from .. import canon
from ..core import rule
from ..dd import const, leaf, lift

S = 'spec.cashreg.'
C = 'cashreg.CashRegister.'
CR = 'obj:cashreg.CashRegister'
REG = ('registerId', 'lastReceiptSig', 'turnoverCounter', 'turnoverCounterSize', 'key')
DEV = ('zda', 'serial', 'secret')
TRUST = DEV + ('username', 'password', 'certFile', 'algo')
NET = ('requests.exceptions.RequestException',)
SIGN = 'sigsys.SignatureSystemI.sign'


def own(names):
    return [(lambda k: k[0] == 'A' and k[2] in names, ('C21',))]


@rule('register', 'C21 C02 C05', 'a generated receipt continues the chain and the counter, and a failed attempt leaves the register as it was')
def _(ctx):
    ctx.rel(C + '__init__', S + 'init', dict(self=CR, registerId='str', lastReceiptSig='?str', turnoverCounter='int', key='bytes',
                                             turnoverCounterSize='int'), ('C21',), state=own(REG))
    f = 'float'
    ctx.rel(C + 'receipt', S + 'makeReceipt',
            dict(self=CR, prefix='str', receiptId='str', dateTime='datetime', sumA=f, sumB=f, sumC=f, sumD=f, sumE=f,
                 sigSystem='obj:sigsys.SignatureSystemI', dummy='bool', reversal='bool'), ('C21',), state=own(REG),
            opaque=[SIGN, 'utils.raiseForKey', 'algorithms.R1.encryptTurnoverCounter', 'algorithms.R1.chain', 'receipt.Receipt.toPayloadString', 'receipt.Receipt', 'receipt.Receipt.sign'],
            assume=lambda ps: lift(canon.eq, ps['prefix'], leaf(const('R1'))),
            raises={SIGN: ('utils.RKSVException',), 'utils.raiseForKey': ('utils.InvalidKeyException',),
                    'algorithms.R1.encryptTurnoverCounter': ('OverflowError',)},
            excstate=['utils.RKSVException', 'utils.InvalidKeyException', 'OverflowError'], events=[SIGN, 'receipt.Receipt.sign'])


@rule('signature-devices', 'C21 C01', 'a working device signs header and payload; a broken one puts the failure marker in place of the signature')
def _(ctx):
    for c, s in (('Broken', 'broken'), ('Working', 'working')):
        q = 'sigsys.SignatureSystem%s.' % c
        ps = dict(self='obj:' + q[:-1], zda='str', serial='str')
        if c == 'Working':
            ps['priv'] = 'str'
        ctx.rel(q + '__init__', S + s + 'Init', ps, ('C21',), state=own(DEV))
        ctx.rel(q + 'sign', S + s + 'Sign', dict(self='obj:' + q[:-1], data='str', algorithm='obj:algorithms.R1'), ('C21',),
                opaque=['algorithms.R1.sign', 'algorithms.R1.jwsHeader'])
    q = 'sigsys.SignatureSystemATrustMobile.'
    net = {'requests.get': NET, 'requests.post': NET, '.raise_for_status': NET}
    ctx.rel(q + '__init__', S + 'trustInit', dict(self='obj:' + q[:-1], username='str', password='str', certFile='?'), ('C21',), state=own(TRUST),
            ext_raises=net, events=['.raise_for_status', 'requests.get'])
    ctx.rel(q + 'sign', S + 'trustSign', dict(self='obj:' + q[:-1], data='str', algorithm='obj:algorithms.R1'), ('C21',),
            opaque=['algorithms.R1.sigAlgo', 'sigsys.SignatureSystemBroken.sign'], ext_raises=net, events=['.raise_for_status', 'requests.post'])
    ctx.rel('utils.makeES256Keypair', S + 'keypair', {}, ('C21',))
    ctx.rel('utils.makeSignedCert', S + 'signedCert', dict(cpub='obj:pubkey', ccn='str', cvdays='int', cserial='int', spriv='?', scert='?'), ('C21',))
