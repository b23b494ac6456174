"""Rules for librksv/depexport.py and the tools built on it."""
from ..core import rule

D = 'depexport.'
S = 'spec.depexport.'
P = ('C19',)


def own(*props):
    return [(lambda k: k[0] in ('A', 'I'), tuple(props))]


def obj(n):
    return 'obj:' + D + n


def rel(ctx, q, spec, params, default=P, **kw):
    ctx.rel(D + q, S + spec, params, default, **kw)


@rule('export-streams', 'C19', 'streams hand out every group once and merge only adjacent groups with equal certificate and chain')
def _(ctx):
    o = own('C19')
    K = dict(state=o, events=['next', '.extend'], excstate=['StopIteration'])
    rel(ctx, 'DEPStream.__init__', 'streamInit', dict(self=obj('DEPStream'), stream='?'), **K)
    rel(ctx, 'DEPStream.fromIterList', 'fromIterList', dict(cls='cls:depexport.DEPStream', stream_list='list'), **K)
    rel(ctx, 'DEPStream.send', 'streamSend', dict(self=obj('DEPStream'), dummy='?'), **K)
    for c in ('DEPStream', 'MergingDEPStream'):
        q = ctx.method(D + c, 'append')
        if q:
            ctx.rel(q, S + 'streamAppend', dict(self=obj(c), receipt_tuples='?', cert='?', cert_chain='?'), P, **K)
        q = ctx.method(D + c, 'extend')
        if q:
            ctx.rel(q, S + 'streamExtend', dict(self=obj(c), more='?'), P, **K)
    T = 'MergingDEPStream._ReceiptTupleStream'
    rel(ctx, T + '.__init__', 'mergedInit', dict(self=obj(T), outer=obj('MergingDEPStream'), rec_tuples='?', cert='?', cert_list='?'), **K)
    rel(ctx, T + '.extend', 'streamExtend', dict(self=obj(T), more='?'), **K)
    rel(ctx, T + '.send', 'mergedSend', dict(self=obj(T), value='?'), **K)
    rel(ctx, 'MergingDEPStream.send', 'mergingSend', dict(self=obj('MergingDEPStream'), dummy='?'), **K)


@rule('export-formats', 'C19', 'every receipt of every group is written once, below its own certificate and chain')
def _(ctx):
    o = own('C19')
    K = dict(state=o, opaque=['utils.exportCertToPEM', D + 'DEPExporter.export'], events=['yield'])
    rel(ctx, 'DEPExporterI.fromSingleGroup', 'fromSingleGroup', dict(cls='cls:depexport.DEPExporterI', receipt_tuples='?', cert='?', cert_chain='?'), **K)
    rel(ctx, 'DEPExporter.__init__', 'exporterInit', dict(self=obj('DEPExporter'), dep_stream='?', output_generator_wrapper='?'), **K)
    rel(ctx, 'DEPExporter.addExtra', 'addExtra', dict(self=obj('DEPExporter'), key='str', value='?'), **K)
    rel(ctx, 'DEPExporter.export', 'export', dict(self=obj('DEPExporter')), state=o, opaque=['utils.exportCertToPEM'])
    rel(ctx, 'JSONExporter.__init__', 'jsonInit', dict(self=obj('JSONExporter'), dep_stream='?', pretty='bool'), **K)
    rel(ctx, 'JSONExporter.export', 'jsonExport', dict(self=obj('JSONExporter')), **K)
    rel(ctx, 'CSVExporter.__init__', 'csvInit', dict(self=obj('CSVExporter'), dep_stream='?'), **K)
    rel(ctx, 'CSVExporter.export', 'csvExport', dict(self=obj('CSVExporter')), **K)
    rel(ctx, 'FakeListIterator.__init__', 'fakeInit', dict(self=obj('FakeListIterator'), iterable='?'), **K)
    rel(ctx, 'FakeListIterator.__iter__', 'fakeIter', dict(self=obj('FakeListIterator')), **K)
    rel(ctx, 'FakeListIterator.__bool__', 'fakeBool', dict(self=obj('FakeListIterator')), **K)
