"""Rules for librksv/verification_state.py."""
from .. import engine
from ..core import rule

VS = 'verification_state.'
S = 'spec.state.'
U = 'obj:' + VS + 'UsedReceiptIdsUnique'
N = 'obj:' + VS + 'UsedReceiptIdsSortedNatural'
CRS = 'obj:' + VS + 'CashRegisterState'
CL = 'obj:' + VS + 'ClusterState'
REC = 'obj:receipt.Receipt'
PURE = ['receipt.Receipt.' + n for n in ('fromJWSString', 'isSignedBroken', 'isDummy', 'isReversal', 'isNull',
                                         'decryptTurnoverCounter')] + ['depparser.expandDEPReceipt']


def own(*props):
    return [(lambda k: k[0] in ('A', 'I'), tuple(props))]


def attr(names, *props):
    return (lambda k: k[0] == 'A' and k[2] in names.split(), tuple(props))


# which guarantees rest on which part of a register's state
REGISTER = [attr('needRestoreReceipt', 'C26', 'C09', 'C04'), attr('startReceiptJWS', 'C26', 'C09', 'C03'),
            attr('lastReceiptJWS', 'C26', 'C09', 'C02', 'C07'), attr('chainNextTo', 'C26', 'C09', 'C02'),
            attr('lastTurnoverCounter', 'C26', 'C09', 'C05'), (lambda k: k[0] == 'A' and k[2] not in REGATTRS, ('C26', 'C09'))]
REGATTRS = ('needRestoreReceipt', 'startReceiptJWS', 'lastReceiptJWS', 'chainNextTo', 'lastTurnoverCounter')


def rel(ctx, q, spec, params, default, **kw):
    ctx.rel(VS + q, S + spec, params, default, **kw)


@rule('used-ids', 'C06 C09 C17', 'used receipt ids: membership refuses, adding records, merging compares every id')
def _(ctx):
    u, n = 'UsedReceiptIdsUnique.', 'UsedReceiptIdsSortedNatural.'
    rel(ctx, u + '__init__', 'uniqueInit', dict(self=U), ('C06',), state=own('C06'))
    rel(ctx, u + 'check', 'uniqueCheck', dict(self=U, receiptId='str'), ('C06',), state=own('C06'))
    rel(ctx, u + 'add', 'uniqueAdd', dict(self=U, receiptId='str'), ('C06',), state=own('C06'))
    rel(ctx, u + 'merge', 'uniqueMerge', dict(self=U, usedReceiptIdsList=('list', U)), ('C06', 'C09'), state=own('C06', 'C09'))
    rel(ctx, n + '__init__', 'sortedInit', dict(self=N), ('C06',), state=own('C06'))
    op = [VS + n + '_key']
    rel(ctx, n + 'check', 'sortedCheck', dict(self=N, receiptId='str'), ('C06',), state=own('C06'), opaque=op)
    rel(ctx, n + 'add', 'sortedAdd', dict(self=N, receiptId='str'), ('C06',), state=own('C06'))
    rel(ctx, n + 'merge', 'sortedMerge', dict(self=N, usedReceiptIdsList=('list', N)), ('C06', 'C09'),
        state=own('C06', 'C09'), opaque=op)
    rel(ctx, n + '_key', 'sortedKey', dict(recId='str'), ('C06',))


@rule('used-ids-json', 'C06 C17', 'used receipt ids are written and read back completely; malformed documents are refused')
def _(ctx):
    u, n = 'UsedReceiptIdsUnique.', 'UsedReceiptIdsSortedNatural.'
    J = ('C17', 'C06')
    rel(ctx, u + '_dataImport', 'uniqueImport', dict(cls='class:' + U[4:], data='?', label='str'), J)
    rel(ctx, u + '_dataExport', 'uniqueExport', dict(self=U), J)
    rel(ctx, n + '_dataImport', 'sortedImport', dict(cls='class:' + N[4:], data='?', label='str'), J)
    rel(ctx, n + '_dataExport', 'sortedExport', dict(self=N), J)
    rel(ctx, 'UsedReceiptIdsBackend.readFromJson', 'idsFromJson', dict(json='?', label='str'), J,
        opaque=[VS + u + '_dataImport', VS + n + '_dataImport'])
    rel(ctx, 'UsedReceiptIdsBackend.writeToJson', 'idsToJson', dict(self=U), J, opaque=[VS + u + '_dataExport'])
    rel(ctx, 'UsedReceiptIdsBackend.writeToJson', 'idsToJson', dict(self=N), J, opaque=[VS + n + '_dataExport'])


@rule('register-state', 'C02 C03 C04 C05 C07 C09 C16 C17 C26', 'register state: initial values, reading, and update from a group of receipts')
def _(ctx):
    c = 'CashRegisterState.'
    rel(ctx, c + '__init__', 'registerInit', dict(self=CRS), ('C17', 'C26'), state=own('C17', 'C26'))
    rel(ctx, c + 'fromDict', 'registerFromDict', dict(d='dict', regidx='?int'), ('C17',))
    rel(ctx, c + 'updateFromDEPGroup', 'updateFromDEPGroup', dict(self=CRS, group=('list', '?'), key='?bytes'),
        ('C26', 'C09'), state=REGISTER, opaque=PURE)
    rel(ctx, c + 'fromDEPGroup', 'registerFromDEPGroup', dict(old=CRS, group=('list', '?'), key='?bytes'),
        ('C26', 'C09', 'C16'), state=own('C16', 'C09'), opaque=PURE)


@rule('cluster-state', 'C02 C03 C06 C16 C17 C26', 'cluster state: selection of registers, copies handed out, updates, reading and writing')
def _(ctx):
    c = 'ClusterState.'
    rel(ctx, c + '__init__', 'clusterInit', dict(self=CL, usedRecIdsBackend=None, initChainNextTo='?str',
                                                 initReceiptJWS='?str'), ('C26', 'C17'), state=own('C26', 'C17'))
    rel(ctx, c + 'addNewCashRegister', 'addNewCashRegister', dict(self=CL), ('C17',), state=own('C17'))
    rel(ctx, c + 'getCashRegisterInfo', 'getCashRegisterInfo', dict(self=CL, registerIdx='?int'), ('C17', 'C16', 'C02', 'C03'),
        state=own('C17', 'C16'))
    rel(ctx, c + 'updateCashRegisterInfo', 'updateCashRegisterInfo',
        dict(self=CL, registerIdx='?int', newRegisterState=CRS, newUsedReceiptIds=U), ('C17', 'C06'), state=own('C17', 'C06'))
    rel(ctx, c + 'fromArbitraryReceipt', 'fromArbitraryReceipt',
        dict(rec=REC, prefix='str', key='?bytes', usedRecIdsBackend='class:' + U[4:]), ('C26',), opaque=PURE)
    rel(ctx, c + 'fromArbitraryStartReceipt', 'fromArbitraryStartReceipt', dict(rec=REC, usedRecIdsBackend='class:' + U[4:]), ('C26',))
    rel(ctx, c + 'readStateFromJson', 'readStateFromJson', dict(json='?'), ('C17',),
        opaque=[VS + 'CashRegisterState.fromDict', VS + 'UsedReceiptIdsBackend.readFromJson'])
    rel(ctx, c + 'writeStateToJson', 'writeStateToJson', dict(self=CL), ('C17',))
