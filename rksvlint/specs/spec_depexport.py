# Rules for librksv/depexport.py, evaluated by rksvlint (never executed).
import itertools
import json
from collections import OrderedDict
from librksv import depexport
from librksv import utils


# ---- streams
def streamInit(self, stream=None):
    self._last = None
    if stream is None:
        self._backing = itertools.chain()
    else:
        self._backing = itertools.chain(stream)


def fromIterList(cls, stream_list):
    return cls(itertools.chain(*stream_list))


def streamSend(self, dummy):
    return next(self._backing)


def streamAppend(self, receipt_tuples, cert=None, cert_chain=[]):
    self._backing = itertools.chain(self._backing, [(receipt_tuples, cert, cert_chain)])


def streamExtend(self, more):
    self._backing = itertools.chain(self._backing, more)


def mergedInit(self, outer, rec_tuples, cert, cert_list):
    self._backing = itertools.chain(rec_tuples)
    self._outer = outer
    self.cert = cert
    self.cert_list = cert_list


def mergedSend(self, value):
    while True:
        try:
            return next(self._backing)
        except StopIteration:
            rec_tuples, cert, cert_list = next(self._outer._backing)
            if self.cert == cert and self.cert_list == cert_list:
                self._backing = itertools.chain(self._backing, rec_tuples)
            else:
                self._outer._backing = itertools.chain([(rec_tuples, cert, cert_list)], self._outer._backing)
                raise


def mergingSend(self, dummy):
    while True:
        rec_tuples, cert, cert_list = next(self._backing)
        if self._last is None or self._last.cert != cert or self._last.cert_list != cert_list:
            self._last = depexport.MergingDEPStream._ReceiptTupleStream(self, rec_tuples, cert, cert_list)
            return (self._last, cert, cert_list)
        self._last.extend(rec_tuples)


# ---- exporters
def fromSingleGroup(cls, receipt_tuples, cert=None, cert_chain=[]):
    return cls(depexport.DEPStream([(receipt_tuples, cert, cert_chain)]))


def exporterInit(self, dep_stream, output_generator_wrapper=lambda g: g):
    self._stream = dep_stream
    self._wrapper = output_generator_wrapper
    self._extra = dict()


def addExtra(self, key, value):
    self._extra[key] = value


def exportGroup(self, g):
    rs, c, cs = g
    if c:
        pem = utils.exportCertToPEM(c)
    else:
        pem = ""
    return OrderedDict([
        ("Signaturzertifikat", pem),
        ("Zertifizierungsstellen", [utils.exportCertToPEM(x) for x in cs]),
        ("Belege-kompakt", self._wrapper(r[0].toJWSString(r[1]) for r in rs)),
    ])


def export(self):
    ret = {"Belege-Gruppe": self._wrapper(exportGroup(self, g) for g in self._stream)}
    ret.update(self._extra)
    return ret


def jsonInit(self, dep_stream, pretty=True):
    self._stream = dep_stream
    self._wrapper = depexport.FakeListIterator
    self._extra = dict()
    if pretty:
        self._encoder = json.JSONEncoder(sort_keys=False, indent=2)
    else:
        self._encoder = json.JSONEncoder(sort_keys=False)


def jsonExport(self):
    return self._encoder.iterencode(depexport.DEPExporter.export(self))


def csvInit(self, dep_stream):
    self._stream = dep_stream


def csvExport(self):
    yield 'Alg+ZDA;Register ID;Receipt ID;Date+Time;Sum A;Sum B;Sum C;Sum D;Sum E;Turnover Counter;Cert. Serial;Chaining Value;Signature'
    for g in self._stream:
        for r in g[0]:
            yield '\n' + r[0].toCSV(r[1])


# ---- lists that are written while they are produced
def fakeInit(self, iterable):
    self.iterable = iter(iterable)
    try:
        self.firstitem = next(self.iterable)
        self.truthy = True
    except StopIteration:
        self.truthy = False


def fakeIter(self):
    if not self.truthy:
        return iter([])
    return itertools.chain([self.firstitem], self.iterable)


def fakeBool(self):
    return self.truthy
