"""Rules for the exception classes of librksv and for the objects that cross
process boundaries."""
from .. import canon, engine
from ..canon import eq
from ..core import rule
from ..dd import T, NOT, AND, TRUE, FALSE, UNDEF, box, unbox, leaf, lift
from ..interp import St, Frame


class Broken(Exception):
    pass


def construct(I, q, args, st, kwargs=None):
    """the object q(*args) as its __init__ leaves it; failures go to I.handlers[-1]"""
    ci = I.prog.classes[q]
    o = T('obj', I.new(), q)
    st.store[('A', o, 'args')] = leaf(T('tuple', *[box(a) for a in args]))
    f = I.prog.find_method(ci, '__init__')
    if f is not None:
        I.call_function(f, [leaf(o)] + list(args), kwargs or {}, st, f.node)
    return o


def attrs(o, st):
    return {k[2]: v for k, v in st.store.items() if k[0] == 'A' and k[1] is o}


def reduced(I, o, q, st):
    """(class, arguments, state) that pickle stores for o"""
    m = I.prog.find_method(I.prog.classes[q], '__reduce__')
    if m is None:
        m = I.prog.find_method(I.prog.classes[q], '__reduce_ex__')
        if m is not None:
            v = I.call_function(m, [leaf(o), leaf(canon.const(2))], {}, st, m.node)
    else:
        v = I.call_function(m, [leaf(o)], {}, st, m.node)
    if m is None:
        a = st.store.get(('A', o, 'args'))
        return q, a, {k: v for k, v in attrs(o, st).items() if k != 'args'}
    if st.dead:
        raise Broken('__reduce__ always fails')
    v = I.freeze(v, st)
    if not v.leaf or v.hi.op not in ('tuple', 'list') or not 2 <= len(v.hi.args) <= 3:
        raise NotImplementedError('form of __reduce__')
    c, a = unbox(v.hi.args[0]), unbox(v.hi.args[1])
    if not c.leaf or c.hi.op != 'class':
        # self.__class__ of a known object
        raise NotImplementedError('class stored by __reduce__')
    state = {}
    if len(v.hi.args) == 3:
        d = unbox(v.hi.args[2])
        if d.leaf and d.hi.op == 'dict' and all(canon.isconst(k) for k in d.hi.args[::2]):
            state = {canon.cval(k): unbox(x) for k, x in zip(d.hi.args[::2], d.hi.args[1::2])}
        elif not (d.leaf and canon.isconst(d.hi) and canon.cval(d.hi) is None):
            raise NotImplementedError('state stored by __reduce__')
    return c.hi.args[0], a, state


def seqargs(a):
    if a is None:
        raise Broken('no arguments are stored')
    if a.leaf and a.hi.op in ('tuple', 'list'):
        return [unbox(x) for x in a.hi.args]
    raise NotImplementedError('arguments stored by __reduce__')


def signature(ctx, q):
    f = ctx.prog.find_method(ctx.prog.classes[q], '__init__')
    if f is None:
        return None, [leaf(T('var', 'message', 'str'))]
    a = f.node.args
    return f, [leaf(T('var', x.arg)) for x in a.args[1:]] + ([leaf(T('var', a.vararg.arg))] if a.vararg else [])


def check_class(ctx, q):
    I = engine.interp(ctx.prog)
    I.handlers = [[]]
    fn, args = signature(ctx, q)
    ci = ctx.prog.classes[q]
    where = '%s:%d in %s' % (ci.module.path, (fn.node if fn is not None and fn.cls is ci else ci.node).lineno, q)
    st = St()
    I.frames = [Frame(I.new(), None, ci.module, None)]
    o = construct(I, q, args, st)
    if st.dead or I.notes:
        ctx.unknown(where, 'constructor: %s' % sorted(I.notes)[:2])
        return
    a0 = attrs(o, st)
    sinks = I.handlers[-1] = []
    try:
        c, ra, state = reduced(I, o, q, st)
        if c != q:
            raise Broken('comes back as %s' % c)
        st2 = St(st.cond, dict(st.store))
        ra = seqargs(ra)
        o2 = construct(I, q, ra, st2)
        if st2.dead or sinks:
            raise Broken('the class cannot be built from the %d stored arguments' % len(ra))
    except Broken as e:
        ctx.bad(where, '%s|rebuild' % q, 'an unpickled %s fails: %s' % (q, e))
        return
    except NotImplementedError as e:
        ctx.unknown(where, str(e))
        return
    for k, v in state.items():
        st2.store[('A', o2, k)] = v
    a1 = attrs(o2, st2)
    ctx.ok(1, sample='%s is rebuilt from %d arguments' % (q, len(ra)))
    for k in sorted(set(a0) | set(a1)):
        if k in ('args', '_initargs') and 'message' in a0:
            continue         # not visible to users of the exception
        v0, v1 = a0.get(k, UNDEF), a1.get(k, UNDEF)
        f0, f1 = I.freeze(v0, st), I.freeze(v1, st2)
        if f0 is f1:
            ctx.ok()
            continue
        d = AND(st2.cond, NOT(lift(eq, f0, f1)))
        w = canon.closed(d)
        if w is None:
            ctx.ok()
        elif w is False or I.notes:
            ctx.unknown(where, 'attribute %s' % k)
        else:
            ctx.bad(where, '%s|%s' % (q, k), 'after pickling, attribute %s of %s is %s instead of %s' % (
                k, q, str(f1)[:120], str(f0)[:120]))


@rule('error-pickle', 'C14', 'every exception class of the library, built again from what __reduce__ stores, has the class and '
      'attributes of the original')
def _(ctx):
    n = 0
    for q in sorted(ctx.prog.classes):
        ci = ctx.prog.classes[q]
        if q.startswith('spec.') or not ci.module.name.startswith('librksv'):
            continue
        if ctx.prog.is_exception(q):
            n += 1
            ctx.saw(q)
            check_class(ctx, q)
    ctx.count('exception classes', n)
    if not n:
        ctx.unknown('librksv', 'no exception classes')


WHOLE = [(lambda k: k[0] == 'A' and k[2] == '__dict__', ('C14', 'C09'))]
PICKLE = [(lambda k: k[0] == 'A' and k[2] in ('__getstate__', '__setstate__'), ('C14', 'C09'))]
WORKER = {'verify.verifyGroupsWithVerifiers': (
    'verify.ChainingException', 'verify.InvalidTurnoverCounterException', 'receipt.MalformedReceiptException',
    'verification_state.DuplicateReceiptIdException', 'verify_receipt.InvalidSignatureException',
    'depparser.MalformedDEPElementException', 'utils.InvalidKeyException')}


@rule('worker-errors', 'C14 C09', 'the function that runs in a worker lets every error through as it is; certificates and keys are '
      'pickled as their PEM text')
def _(ctx):
    ctx.rel('verify.verifyGroupsWithVerifiersTuple', 'spec.verify.verifyGroupsTuple', dict(args='tuple'), ('C14', 'C09'),
            opaque=['verify.verifyGroupsWithVerifiers'], raises=WORKER)
    op = ['utils.exportCertToPEM', 'utils.exportKeyToPEM', 'utils.loadCert', 'utils.loadPubKey', 'utils.addPEMCertHeaders',
          'utils.addPEMPubKeyHeaders']
    ctx.rel('utils.cert_getstate', 'spec.algorithms.certGetstate', dict(self='obj:x509'), ('C14', 'C09'), opaque=op)
    ctx.rel('utils.pubkey_getstate', 'spec.algorithms.pubkeyGetstate', dict(self='obj:pubkey'), ('C14', 'C09'), opaque=op)
    ctx.rel('utils.cert_setstate', 'spec.algorithms.certSetstate', dict(self='obj:x509', cert_str='str'), ('C14', 'C09'), opaque=op, state=WHOLE)
    ctx.rel('utils.pubkey_setstate', 'spec.algorithms.pubkeySetstate', dict(self='obj:pubkey', pubkey_str='str'), ('C14', 'C09'),
            opaque=op, state=WHOLE)
    ctx.rel('utils.cert_class_override', 'spec.algorithms.certOverride', dict(cert_class='obj:type'), ('C14', 'C09'), state=PICKLE)
    ctx.rel('utils.pubkey_class_override', 'spec.algorithms.pubkeyOverride', dict(pubkey_class='obj:type'), ('C14', 'C09'), state=PICKLE)
    ctx.rel('utils.init_class_overrides', 'spec.algorithms.overrides', {}, ('C14', 'C09'),
            opaque=['utils.makeES256Keypair', 'utils.makeSignedCert', 'utils.makeCertSerial', 'utils.cert_class_override', 'utils.pubkey_class_override'],
            events=['utils.cert_class_override', 'utils.pubkey_class_override'])
