"""Rules for librksv/receipt.py (what a receipt is, and how it is written)."""
from .. import canon, engine
from ..core import rule
from ..dd import NOT, OR, NONE, T, leaf, lift

REC = 'obj:receipt.Receipt'
FIELDS = ('zda', 'registerId', 'receiptId', 'dateTime', 'sumA', 'sumB', 'sumC', 'sumD', 'sumE', 'encTurnoverCounter',
          'certSerial', 'previousChain')
PARSE = {'A': ('C12',), 'B': ('C12', 'C13'), 'C': ('C13', 'C12')}
OWN = [(lambda k: k[0] == 'A' and k[1].op == 'var', ('C13',))]


def rel(ctx, name, params, spec=None, **kw):
    ctx.rel('receipt.Receipt.' + name, 'spec.receipt.' + (spec or name), params, kw.pop('default', ctx.cur.props),
            state=kw.pop('state', OWN), **kw)


@rule('receipt-parse', 'C12 C13', 'each representation is accepted exactly under the field rules and yields the fields at their positions')
def _(ctx):
    for n, p in (('fromJWSString', 'jws'), ('fromBasicCode', 'code'), ('fromOCRCode', 'code'), ('fromCSV', 'csv')):
        rel(ctx, n, {p: 'str'}, kinds=PARSE)
        rel(ctx, n, {p: 'int'}, kinds=PARSE)


@rule('receipt-fields', 'C12 C13', 'a receipt object is built only from valid fields and keeps them')
def _(ctx):
    base = {f: 'str' for f in FIELDS}
    rel(ctx, '__init__', dict(base, self=REC), spec='init', kinds=PARSE, strict=True)
    for f in FIELDS:
        rel(ctx, '__init__', dict(base, self=REC, **{f: 'int'}), spec='init', kinds=PARSE)


@rule('receipt-sign', 'C12 C13 C21', 'a signature is attached only when it is unpadded URL-safe base64, and is kept as given')
def _(ctx):
    rel(ctx, 'sign', dict(self=REC, header='str', signature='str'), state=[(OWN[0][0], ('C13', 'C21', 'C12'))])
    rel(ctx, 'sign', dict(self=REC, header='int', signature='str'))
    rel(ctx, 'sign', dict(self=REC, header='str', signature='int'))


def signed_has_signature(ps):
    """what sign() and the parsers establish: a signed receipt has a signature"""
    a = [lift(lambda t, n=n: leaf(T('attr', t, n)), ps['self']) for n in ('signed', 'signature')]
    return OR(NOT(lift(canon.truthy, a[0])), NOT(lift(canon.eq, a[1], NONE)))


@rule('receipt-write', 'C13 C01 C02 C19 C24', 'each representation is written with every field at its position and in its encoding')
def _(ctx):
    P = dict(self=REC, algorithmPrefix='str')
    rel(ctx, 'toPayloadString', P, assume=signed_has_signature, default=('C13', 'C01'))
    rel(ctx, 'toJWSString', P, assume=signed_has_signature, default=('C13', 'C01', 'C02'))
    rel(ctx, 'toBasicCode', P, assume=signed_has_signature, default=('C13', 'C19', 'C24'))
    rel(ctx, 'toCSV', P, assume=signed_has_signature, default=('C13', 'C19'))
    rel(ctx, 'toOCRCode', P, assume=signed_has_signature, default=('C13', 'C19'))


@rule('receipt-urlhash', 'C13 C24', 'the URL hash is the truncated hash of the basic code, unpadded URL-safe base64')
def _(ctx):
    rel(ctx, 'toURLHash', dict(self=REC, algorithmPrefix='str'), assume=signed_has_signature, default=('C24', 'C13'))


@rule('receipt-broken', 'C01 C04 C09', 'the failure marker is recognised exactly')
def _(ctx):
    rel(ctx, 'isSignedBroken', dict(self=REC), default=('C01', 'C04'))


@rule('receipt-kind', 'C01 C03 C04 C05 C20 C26', 'dummy, reversal and null receipts are recognised by counter content and sums')
def _(ctx):
    rel(ctx, 'isDummy', dict(self=REC), default=('C03', 'C04', 'C05', 'C20', 'C01', 'C26'))
    rel(ctx, 'isReversal', dict(self=REC), default=('C03', 'C04', 'C05', 'C20', 'C01', 'C26'))
    rel(ctx, 'isNull', dict(self=REC), default=('C03', 'C04', 'C01', 'C26'))


@rule('receipt-decrypt', 'C05 C20', 'the turnover counter is decrypted only from real counters, with a suitable key')
def _(ctx):
    rel(ctx, 'decryptTurnoverCounter', dict(self=REC, key='?bytes', algorithm='obj:alg'), default=('C05', 'C20'))
