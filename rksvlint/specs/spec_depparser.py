# Rules for librksv/depparser.py, evaluated by rksvlint (never executed).
import copy
import codecs
import io
import json
import ijson
import math
from librksv import depparser
from librksv import receipt
from librksv import utils

G = 'Belege-Gruppe.item'


# ---- buffers of the incremental parser
def dataInit(self, chunksize, upper=None):
    self.upper = upper
    self.chunksize = chunksize
    if upper:
        self.chunk = upper.chunk
    else:
        self.chunk = list()


def wipInit(self, chunksize, upper, idx):
    dataInit(self, chunksize, upper)
    if hasattr(upper, 'wip'):
        self.wip = upper.wip
    else:
        self.wip = depparser.DEPStateWithIncompleteData.WIPData()
    self.idx = idx


def wipData(self):
    self.cert = None
    self.cert_seen = False
    self.cert_chain = None
    self.recs = list()


def groupInit(self, chunksize, upper, idx):
    wipInit(self, chunksize, upper, idx)
    self.recs_seen = False
    self.cert_seen = False
    self.cert_list_seen = False


def rootInit(self, chunksize):
    dataInit(self, chunksize)
    self.root_seen = False


def rootMapInit(self, chunksize, upper):
    dataInit(self, chunksize, upper)
    self.groups_seen = False


def listInit(self, chunksize, upper):
    dataInit(self, chunksize, upper)
    self.curIdx = 0


def dataSize(self):
    return sum(len(recs) for recs, cert, cert_chain in self.chunk)


def dataReady(self):
    if self.chunksize == 0:
        return False
    return dataSize(self) >= self.chunksize


def wipReady(self):
    if self.chunksize == 0:
        return False
    return dataSize(self) + len(self.wip.recs) >= self.chunksize


def dataChunk(self):
    if dataSize(self) <= 0:
        return []
    ret = copy.copy(self.chunk)
    del self.chunk[:]
    return ret


def wipMerge(self):
    if len(self.wip.recs) > 0:
        if self.wip.cert_chain is None:
            chain = list()
        else:
            chain = self.wip.cert_chain
        self.chunk.append((self.wip.recs, self.wip.cert, chain))
        self.wip.recs = list()


def wipChunk(self):
    wipMerge(self)
    return dataChunk(self)


def wipNeed(self):
    if self.wip.cert_seen and self.wip.cert_chain is not None:
        return None
    return self.idx


def noNeed(self):
    return None


def wipFresh(self):
    self.cert = None
    self.cert_seen = False
    self.cert_chain = None
    self.recs = list()


def wipSet(self, cert, cert_chain):
    self.wip.cert = cert
    self.wip.cert_chain = cert_chain
    self.wip.cert_seen = True


# ---- transitions of the incremental parser
def rootParse(self, prefix, event, value):
    violates(not (prefix == '' and event == 'start_map' and value == None), depparser.MalformedDEPException)
    violates(self.root_seen, depparser.MalformedDEPException)
    self.root_seen = True
    return depparser.DEPStateRootMap(self.chunksize, self)


def rootMapParse(self, prefix, event, value):
    if prefix == '' and event == 'end_map':
        violates(not self.groups_seen, depparser.MissingDEPElementException)
        return self.upper
    if prefix == 'Belege-Gruppe':
        violates(event != 'start_array', depparser.MalformedDEPException)
        violates(self.groups_seen, depparser.MalformedDEPException)
        self.groups_seen = True
        return depparser.DEPStateBGList(self.chunksize, self)
    return self


def listParse(self, prefix, event, value):
    if prefix == 'Belege-Gruppe' and event == 'end_array':
        return self.upper
    violates(not (prefix == 'Belege-Gruppe.item' and event == 'start_map'), depparser.MalformedDEPElementException)
    idx = self.curIdx
    self.curIdx = idx + 1
    return depparser.DEPStateGroup(self.chunksize, self, idx)


def groupParse(self, prefix, event, value):
    if prefix == 'Belege-Gruppe.item' and event == 'end_map':
        violates(not self.cert_seen, depparser.MissingDEPElementException)
        violates(not self.cert_list_seen, depparser.MissingDEPElementException)
        violates(not self.recs_seen, depparser.MissingDEPElementException)
        wipMerge(self)
        return self.upper
    if prefix == 'Belege-Gruppe.item.Signaturzertifikat':
        violates(self.cert_seen, depparser.DuplicateDEPElementException)
        violates(event != 'string', depparser.MalformedDEPElementException)
        self.cert_seen = True
        self.wip.cert_seen = True
        if value != '':
            self.wip.cert = depparser.parseDEPCert(value)
        else:
            self.wip.cert = None
        return self
    if prefix == 'Belege-Gruppe.item.Zertifizierungsstellen':
        violates(self.cert_list_seen, depparser.DuplicateDEPElementException)
        violates(event != 'start_array', depparser.MalformedDEPElementException)
        self.wip.cert_chain = list()
        self.cert_list_seen = True
        return depparser.DEPStateCertList(self.chunksize, self, self.idx)
    if prefix == 'Belege-Gruppe.item.Belege-kompakt':
        violates(self.recs_seen, depparser.DuplicateDEPElementException)
        violates(event != 'start_array', depparser.MalformedDEPElementException)
        self.recs_seen = True
        return depparser.DEPStateReceiptList(self.chunksize, self, self.idx)
    return self


def certListParse(self, prefix, event, value):
    if prefix == 'Belege-Gruppe.item.Zertifizierungsstellen' and event == 'end_array':
        return self.upper
    violates(not (prefix == 'Belege-Gruppe.item.Zertifizierungsstellen.item' and event == 'string'),
             depparser.MalformedDEPElementException)
    self.wip.cert_chain.append(depparser.parseDEPCert(value))
    return self


def recListParse(self, prefix, event, value):
    if prefix == 'Belege-Gruppe.item.Belege-kompakt' and event == 'end_array':
        return self.upper
    violates(not (prefix == 'Belege-Gruppe.item.Belege-kompakt.item' and event == 'string'),
             depparser.MalformedDEPElementException)
    self.wip.recs.append(depparser.shrinkDEPReceipt(value))
    return self


# ---- drivers
def incrementalParse(self, chunksize=0):
    parser = ijson.parse(self.fd)
    state = depparser.DEPStateRoot(chunksize)
    got_something = False
    try:
        for prefix, event, value in parser:
            nextState = state.parse(prefix, event, value)
            if state.ready():
                needed = state.needCrt()
                if needed is not None:
                    self._needCerts(state, chunksize, needed)
                yield state.getChunk()
                got_something = True
            state = nextState
        last = state.getChunk()
        if len(last) > 0:
            yield last
        else:
            violates(not got_something, depparser.MalformedDEPException)
    except (ijson.JSONError, UnicodeDecodeError) as e:
        raise depparser.DEPParseException('')


def streamNeed(self, state, chunksize, groupidx):
    raise depparser.MalformedDEPException('', groupidx)


def certlessNeed(self, state, chunksize, groupidx):
    pass


def fileItems(self, prefix, chunksize):
    if prefix in self.cache:
        return self.cache[prefix]
    ofs = self.fd.tell()
    self.fd.seek(self.startpos)
    items = list(ijson.items(self.fd, prefix))
    self.fd.seek(ofs)
    if chunksize == 0 or len(items) <= chunksize:
        self.cache[prefix] = items
    return items


def fileNeed(self, state, chunksize, groupidx):
    certs = fileItems(self, 'Belege-Gruppe.item.Signaturzertifikat', chunksize)
    chains = fileItems(self, 'Belege-Gruppe.item.Zertifizierungsstellen', chunksize)
    violates(groupidx >= len(certs), depparser.MissingDEPElementException)
    violates(groupidx >= len(chains), depparser.MissingDEPElementException)
    c = certs[groupidx]
    l = chains[groupidx]
    violates(not isinstance(l, list), depparser.MalformedDEPElementException)
    if c != '':
        cert = depparser.parseDEPCert(c)
    else:
        cert = None
    chain = [depparser.parseDEPCert(x) for x in l]
    state.setCrt(cert, chain)


# ---- in-memory parser
def parseGroup(self, group, idx):
    violates(not isinstance(group, dict), depparser.MalformedDEPElementException)
    violates('Belege-kompakt' not in group, depparser.MissingDEPElementException)
    violates('Signaturzertifikat' not in group, depparser.MissingDEPElementException)
    violates('Zertifizierungsstellen' not in group, depparser.MissingDEPElementException)
    cert_str = group['Signaturzertifikat']
    chain = group['Zertifizierungsstellen']
    recs = group['Belege-kompakt']
    violates(not isinstance(cert_str, str), depparser.MalformedDEPElementException)
    violates(not isinstance(chain, list), depparser.MalformedDEPElementException)
    violates(not isinstance(recs, list), depparser.MalformedDEPElementException)
    receipts = (depparser.shrinkDEPReceipt(r) for r in recs)
    if cert_str != '':
        cert = depparser.parseDEPCert(cert_str)
    else:
        cert = None
    return receipts, cert, [depparser.parseDEPCert(c) for c in chain]


def groupChunks(self, chunksize, groups):
    if chunksize == 0:
        groupidx = 0
        for group in groups:
            recgen, cert, certs = self._parseDEPGroup(group, groupidx)
            recs = list(recgen)
            if len(recs) > 0:
                yield [(recs, cert, certs)]
            groupidx += 1
        return
    chunk = list()
    chunklen = 0
    groupidx = 0
    for group in groups:
        recgen, cert, cert_list = self._parseDEPGroup(group, groupidx)
        nextrecs = list()
        for rec in recgen:
            nextrecs.append(rec)
            chunklen += 1
            if chunklen >= chunksize:
                chunk.append((nextrecs, cert, cert_list))
                yield chunk
                nextrecs = list()
                chunk = list()
                chunklen = 0
        if len(nextrecs) > 0:
            chunk.append((nextrecs, cert, cert_list))
        groupidx += 1
    if chunklen > 0:
        yield chunk


def nrecs(group):
    try:
        recs = group['Belege-kompakt']
        if not isinstance(recs, list):
            return 0
        return len(recs)
    except (TypeError, KeyError):
        return 0


def totalRecs(dep):
    bg = dep.get('Belege-Gruppe', [])
    if not isinstance(bg, list):
        return 0
    return sum(nrecs(g) for g in bg)


def dictParse(self, chunksize=0):
    violates(not isinstance(self.dep, dict), depparser.MalformedDEPException)
    violates('Belege-Gruppe' not in self.dep, depparser.MissingDEPElementException)
    bg = self.dep['Belege-Gruppe']
    violates(not isinstance(bg, list), depparser.MalformedDEPElementException)
    violates(not bg, depparser.MalformedDEPElementException)
    if self.nparts > 1 and not chunksize:
        chunksize = int(math.ceil(float(depparser.totalRecsInDictDEP(self.dep)) / self.nparts))
    got_something = False
    for chunk in self._groupChunkGen(chunksize, bg):
        yield chunk
        got_something = True
    violates(not got_something, depparser.MalformedDEPException)


def groupAdapter(depgen):
    for chunk in depgen:
        for recs, cert, cert_list in chunk:
            yield ([receipt.Receipt.fromJWSString(depparser.expandDEPReceipt(r)) for r in recs], cert, cert_list)


# ---- entry points and single elements
def openInit(self, fd):
    try:
        self.startpos = utils.skipBOM(fd)
    except UnicodeDecodeError as e:
        raise depparser.DEPParseException('')
    self.fd = fd


def fromFd(fd, need_certs=True):
    if not need_certs:
        return depparser.CertlessStreamDEPParser(fd)
    try:
        fd.tell()
        return depparser.FileDEPParser(fd)
    except IOError:
        return depparser.StreamDEPParser(fd)


def skipBOM(fd):
    try:
        start = fd.tell()
    except IOError:
        return 0
    if isinstance(fd, io.TextIOBase):
        bom = fd.read(len(codecs.BOM_UTF8.decode('utf-8'))).encode('utf-8') == codecs.BOM_UTF8
    else:
        bom = fd.read(len(codecs.BOM_UTF8)) == codecs.BOM_UTF8
    if not bom:
        fd.seek(start)
    return fd.tell()


def readJson(stream):
    utils.skipBOM(stream)
    return json.load(stream)


def fileParse(self, chunksize=0):
    self.fd.seek(self.startpos)
    self.cache = dict()
    return depparser.IncrementalDEPParser.parse(self, chunksize)


def streamParse(self, chunksize=0):
    return depparser.IncrementalDEPParser.parse(self, chunksize)


def dictInit(self, dep, nparts=1):
    self.dep = dep
    self.nparts = nparts


def fullInit(self, fd, nparts=1):
    self.fd = fd
    self.nparts = nparts
    self.dictParser = None


def fullParse(self, chunksize=0):
    if not self.dictParser:
        try:
            dep = utils.readJsonStream(self.fd)
        except (IOError, UnicodeDecodeError, ValueError) as e:
            raise depparser.DEPParseException('')
        self.dictParser = depparser.DictDEPParser(dep, self.nparts)
    return self.dictParser.parse(chunksize)


def shrink(rec, idx=None):
    violates(not isinstance(rec, str), depparser.MalformedDEPElementException)
    try:
        return rec.encode('utf-8')
    except UnicodeError:
        raise depparser.MalformedDEPElementException('')


def expand(rec, idx=None):
    try:
        return rec.decode('utf-8')
    except UnicodeDecodeError:
        raise depparser.MalformedDEPElementException('')


def parseCert(cert_str):
    violates(not isinstance(cert_str, str), depparser.MalformedCertificateException)
    try:
        return utils.loadCert(utils.addPEMCertHeaders(cert_str))
    except ValueError:
        raise depparser.MalformedCertificateException(cert_str)
