"""Rules for librksv/depparser.py."""
from .. import config
from ..core import rule

D = 'depparser.'
S = 'spec.depparser.'


def own(*props):
    return [(lambda k: k[0] in ('A', 'I'), tuple(props))]


def rel(ctx, q, spec, params, default, **kw):
    ctx.rel(D + q, S + spec, params, default, **kw)


def obj(n):
    return 'obj:' + D + n


E3 = dict(prefix='str', event='str', value='?')
PARSE = {D + 'parseDEPCert': (D + 'MalformedCertificateException',), D + 'shrinkDEPReceipt': (D + 'MalformedDEPElementException',)}
FD = {'fd.tell': ('OSError',)}        # not seekable
CLS = dict((D + n, ('C11',)) for n in ('MalformedDEPException', 'MissingDEPElementException', 'DuplicateDEPElementException',
                                       'MalformedDEPElementException', 'MalformedCertificateException'))


@rule('dep-buffers', 'C09 C10', 'the parser states share one chunk buffer, fill it in order and hand it over at the requested size')
def _(ctx):
    P = ('C10', 'C09')
    o = own('C10', 'C09')
    rel(ctx, 'DEPStateWithData.__init__', 'dataInit', dict(self=obj('DEPStateWithData'), chunksize='int', upper='?' + obj('DEPStateWithData')), P, state=o)
    rel(ctx, 'DEPStateWithIncompleteData.__init__', 'wipInit', dict(self=obj('DEPStateWithIncompleteData'), chunksize='int', upper=obj('DEPStateBGList'), idx='int'), P, state=o)
    rel(ctx, 'DEPStateWithIncompleteData.__init__', 'wipInit', dict(self=obj('DEPStateWithIncompleteData'), chunksize='int', upper=obj('DEPStateGroup'), idx='int'), P, state=o)
    rel(ctx, 'DEPStateGroup.__init__', 'groupInit', dict(self=obj('DEPStateGroup'), chunksize='int', upper=obj('DEPStateBGList'), idx='int'), ('C10', 'C11'), state=own('C10', 'C11'))
    rel(ctx, 'DEPStateRoot.__init__', 'rootInit', dict(self=obj('DEPStateRoot'), chunksize='int'), ('C10', 'C11'), state=own('C10', 'C11'))
    rel(ctx, 'DEPStateRootMap.__init__', 'rootMapInit', dict(self=obj('DEPStateRootMap'), chunksize='int', upper=obj('DEPStateRoot')), ('C10', 'C11'), state=own('C10', 'C11'))
    rel(ctx, 'DEPStateBGList.__init__', 'listInit', dict(self=obj('DEPStateBGList'), chunksize='int', upper=obj('DEPStateRootMap')), ('C10', 'C11'), state=own('C10', 'C11'))
    for c, r, g, n in (('DEPStateBGList', 'dataReady', 'dataChunk', 'noNeed'), ('DEPStateGroup', 'wipReady', 'wipChunk', 'wipNeed'),
                       ('DEPStateCertList', 'wipReady', 'wipChunk', 'wipNeed'), ('DEPStateReceiptList', 'wipReady', 'wipChunk', 'wipNeed'),
                       ('DEPStateRoot', 'dataReady', 'dataChunk', 'noNeed'), ('DEPStateRootMap', 'dataReady', 'dataChunk', 'noNeed')):
        for m, s in (('ready', r), ('getChunk', g), ('needCrt', n)):
            q = ctx.method(D + c, m)
            if q:
                ctx.rel(q, S + s, dict(self=obj(c)), P, state=o)
    rel(ctx, 'DEPStateWithIncompleteData.WIPData.__init__', 'wipFresh', dict(self=obj('DEPStateWithIncompleteData.WIPData')), P, state=o)
    q = ctx.method(D + 'DEPStateGroup', 'setCrt')
    if q:
        ctx.rel(q, S + 'wipSet', dict(self=obj('DEPStateGroup'), cert='?', cert_chain='?list'), P, state=o)


@rule('dep-transitions', 'C10 C11', 'parser transitions: each element is required, unique and of its type; receipts and certificates go to their own group')
def _(ctx):
    P = ('C11', 'C10')
    for c, s in (('DEPStateRoot', 'rootParse'), ('DEPStateRootMap', 'rootMapParse'), ('DEPStateBGList', 'listParse'), ('DEPStateGroup', 'groupParse'),
                 ('DEPStateCertList', 'certListParse'), ('DEPStateReceiptList', 'recListParse')):
        rel(ctx, c + '.parse', s, dict(E3, self=obj(c)), P, state=own(*P), opaque=[D + 'parseDEPCert', D + 'shrinkDEPReceipt'], raises=PARSE, classprops=CLS)


@rule('dep-stream', 'C09 C10 C11', 'the incremental parsers hand over every chunk when it is full and the rest at the end')
def _(ctx):
    P = ('C10', 'C11')
    rel(ctx, 'IncrementalDEPParser.parse', 'incrementalParse', dict(self=obj('IncrementalDEPParser'), chunksize='int'), P + ('C09',), events=['yield', '.parse', '.getChunk', '._needCerts'],
        classprops=CLS)
    rel(ctx, 'StreamDEPParser._needCerts', 'streamNeed', dict(self=obj('StreamDEPParser'), state='?', chunksize='int', groupidx='int'), P, classprops=CLS)
    rel(ctx, 'FileDEPParser._needCerts', 'fileNeed', dict(self=obj('FileDEPParser'), state='?', chunksize='int', groupidx='int'), P,
        opaque=[D + 'parseDEPCert'], raises=PARSE, classprops=CLS, events=['.setCrt', '.seek', 'ijson.items'])


@rule('dep-dict', 'C09 C10 C11', 'the in-memory parser delivers every receipt of every group in order, in chunks of the requested size')
def _(ctx):
    P = ('C10', 'C11')
    K = dict(opaque=[D + 'parseDEPCert', D + 'shrinkDEPReceipt', D + 'DictDEPParser._parseDEPGroup', D + 'DictDEPParser._groupChunkGen', D + 'totalRecsInDictDEP'],
             raises=dict(PARSE, **{D + 'DictDEPParser._parseDEPGroup': (D + 'MalformedDEPElementException', D + 'MissingDEPElementException',
                                                                        D + 'MalformedCertificateException')}),
             classprops=CLS, events=['yield'])
    rel(ctx, 'DictDEPParser._parseDEPGroup', 'parseGroup', dict(self=obj('DictDEPParser'), group='?', idx='int'), P, **K)
    rel(ctx, 'DictDEPParser._groupChunkGen', 'groupChunks', dict(self=obj('DictDEPParser'), groups='list', chunksize='int'), P + ('C09',), **K)
    rel(ctx, 'DictDEPParser.parse', 'dictParse', dict(self=obj('DictDEPParser'), chunksize='int'), P + ('C09',), **K)
    rel(ctx, 'totalRecsInDictDEP', 'totalRecs', dict(dep='dict'), ('C10',))
    rel(ctx, 'receiptGroupAdapter', 'groupAdapter', dict(depgen='?'), ('C10',), events=['yield'],
        opaque=['receipt.Receipt.fromJWSString', D + 'expandDEPReceipt'])


@rule('dep-open', 'C10 C11', 'parsers are opened at the right position and selected by what the file descriptor can do')
def _(ctx):
    P = ('C10', 'C11')
    o = own('C10')
    K = dict(events=['.parse', '.seek'], classprops=CLS)
    rel(ctx, 'IncrementalDEPParser.__init__', 'openInit', dict(self=obj('IncrementalDEPParser'), fd='?'), ('C10',), state=o, opaque=['utils.skipBOM'],
        raises={'utils.skipBOM': ('UnicodeDecodeError',)})
    rel(ctx, 'IncrementalDEPParser.fromFd', 'fromFd', dict(fd='obj:fd', need_certs='bool'), ('C10',), ext_raises=FD,
        opaque=[D + c for c in ('FileDEPParser', 'StreamDEPParser', 'CertlessStreamDEPParser')])
    ctx.rel('utils.skipBOM', S + 'skipBOM', dict(fd='obj:fd'), P, ext_raises=FD, events=['.read', '.seek', '.tell'])
    ctx.rel('utils.readJsonStream', S + 'readJson', dict(stream='obj:fd'), P, opaque=['utils.skipBOM'], events=['utils.skipBOM'])
    rel(ctx, 'FileDEPParser.parse', 'fileParse', dict(self=obj('FileDEPParser'), chunksize='int'), ('C10',), state=o, opaque=[D + 'IncrementalDEPParser.parse'], **K)
    for c in ('StreamDEPParser', 'CertlessStreamDEPParser'):
        q = ctx.method(D + c, 'parse')
        if q:
            ctx.rel(q, S + 'streamParse', dict(self=obj(c), chunksize='int'), ('C10',), state=o, opaque=[D + 'IncrementalDEPParser.parse'], **K)
    rel(ctx, 'CertlessStreamDEPParser._needCerts', 'certlessNeed', dict(self=obj('CertlessStreamDEPParser'), state='?', chunksize='int', groupidx='int'), ('C10',), events=['.setCrt'])
    rel(ctx, 'DictDEPParser.__init__', 'dictInit', dict(self=obj('DictDEPParser'), dep='?', nparts='int'), ('C10',), state=o)
    rel(ctx, 'FullFileDEPParser.__init__', 'fullInit', dict(self=obj('FullFileDEPParser'), fd='?', nparts='int'), ('C10',), state=o)
    rel(ctx, 'FullFileDEPParser.parse', 'fullParse', dict(self=obj('FullFileDEPParser'), chunksize='int'), P, state=o, opaque=['utils.readJsonStream', D + 'DictDEPParser.parse'],
        raises={'utils.readJsonStream': ('ValueError', 'IOError', 'UnicodeDecodeError')}, **K)
    rel(ctx, 'shrinkDEPReceipt', 'shrink', dict(rec='json'), P, strict=True, classprops=CLS)
    rel(ctx, 'expandDEPReceipt', 'expand', dict(rec='bytes'), P, classprops=CLS)
    rel(ctx, 'parseDEPCert', 'parseCert', dict(cert_str='?'), P, opaque=['utils.loadCert', 'utils.addPEMCertHeaders'], raises={'utils.loadCert': ('ValueError',)}, classprops=CLS)


@rule('dep-cache', 'C10', 'what the look-ahead of a parser keeps under a name is what it returned for that name')
def _(ctx):
    from .. import engine
    from ..dd import TRUE, leaf, leaves
    from ..relate import subterms
    from ..engine import St, var
    ci = ctx.prog.classes.get(D + 'FileDEPParser')
    if ci is None:
        ctx.unknown(D + 'FileDEPParser', 'not found')
        return
    for name, fn in sorted(ci.methods.items()):
        if name in ('__init__', 'parse', '_needCerts'):
            continue
        I = engine.interp(ctx.prog)
        names = [a.arg for a in fn.node.args.args]
        r = I.run(fn, {n: var(n, obj('FileDEPParser') if n == 'self' else 'str' if n == 'prefix' else '?') for n in names}, St(TRUE))
        ctx.saw(fn.qual)
        for k, v in r.final.store.items():
            if k[0] != 'I' or k[1].op != 'attr':
                continue
            read, given = set(), []
            for s, x in r.returns:
                x = I.freeze(x, s)
                for t in leaves(x):
                    if t.op == 'item' and t.args[0] is k[1]:
                        read.add(t.args[1])
                    else:
                        given.append(t)
            if not read:
                continue
            for t in leaves(v):
                seen = 0
                while t.op == 'dset' and seen < 9:
                    seen += 1
                    where = '%s:%d in %s' % (fn.module.path, fn.node.lineno, fn.qual)
                    about = set(y for x in given for y in subterms(x) if y.op == 'var' and y.args[0] != 'self')
                    if t.args[1] in read and about - set(subterms(t.args[1])):
                        ctx.bad(where, 'key/' + name, 'keeps under one name what depends on more than the name')
                    elif t.args[1] not in read:
                        ctx.ok(1)       # never looked up
                    elif not all(x in given or x.op == 'ref' for x in leaves(I.freeze(t.args[2].args[0] if t.args[2].op == 'box' else leaf(t.args[2]), r.final))):
                        ctx.bad(where, 'value/' + name, 'keeps another value than it returned')
                    else:
                        ctx.ok(1, sample='%s keeps what it returned' % fn.qual)
                    t = t.args[0]
