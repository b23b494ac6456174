"""Set-up shared by the checks: program model, library contracts, rule runs."""
import os

from . import canon, config
from .canon import item
from .dd import AND, NOT, T, V, const, leaf, TRUE, FALSE, NONE, UNDEF, atomv, lift, box, unbox, leaves
from .interp import Interp, St
from .program import Program, AnalysisBroken
from .relate import Relation

HERE = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(HERE, 'specs')


def load(root):
    extra = []
    for f in sorted(os.listdir(SPECS)):
        if f.startswith('spec_') and f.endswith('.py'):
            extra.append(('spec.' + f[5:-3], os.path.join(SPECS, f)))
    config.setup()
    prog = Program(root, extra=extra)
    config.infer(prog)
    del canon.AXIOMS[:]
    canon._conf.clear()
    canon._sat.clear()
    del canon.UNARY[:]
    if lemma_known_prefix(prog):
        canon.UNARY.append(ax_known_prefix)
    prog.lemma_empty = lemma_empty_receipt(prog)
    if prog.lemma_empty:
        canon.AXIOMS.append(ax_empty)
        canon._conf.clear()
        canon._sat.clear()
    return prog


def var(name, ty):
    if isinstance(ty, V):
        return ty
    if isinstance(ty, tuple):
        return leaf(T('var', name, *ty))
    if ty and ty.startswith('class:'):
        return leaf(T('class', ty[6:]))
    return leaf(T('var', name, ty)) if ty else leaf(T('var', name))


def lemma_empty_receipt(prog):
    """fromJWSString('') is refused: established from the source on every run"""
    I = Interp(prog)
    try:
        fn = prog.func('receipt.Receipt.fromJWSString')
        names = [a.arg for a in fn.node.args.args]
        r = I.run(fn, {names[-1]: leaf(const(''))})
    except Exception:
        return False
    return not r.returns and bool(r.raises) and not I.notes


def lemma_known_prefix(prog):
    """fromJWSString only returns prefixes in ALGORITHMS, which has the single key R1: established on every run"""
    I = Interp(prog)
    try:
        algs = I.global_assign(prog.modules['librksv.algorithms'], 'ALGORITHMS')
        if not (algs.leaf and algs.hi.op == 'dict' and len(algs.hi.args) == 2 and algs.hi.args[0] is const('R1')):
            return False
        fn = prog.func('receipt.Receipt.fromJWSString')
        names = [a.arg for a in fn.node.args.args]
        r = I.run(fn, {names[-1]: leaf(T('var', names[-1], 'str'))})
        if not r.returns or I.notes:
            return False
        for s, v in r.returns:
            for t in leaves(v):
                if t.op != 'tuple' or len(t.args) != 2:
                    return False
            d = lift(lambda t: canon.eq(t.args[1], const('R1')), v)
            if canon.closed(AND(s.cond, NOT(d))) is not None:
                return False
    except Exception:
        return False
    return True


def ax_known_prefix(a, v):
    if v or a.op != 'eq' or a.args[1] is not const('R1'):
        return False
    x = a.args[0]
    return x.op == 'item' and canon.isconst(x.args[1]) and canon.cval(x.args[1]) == 1 and x.args[0].op == 'call' and \
        x.args[0].args[0] == 'receipt.Receipt.fromJWSString'


def ax_empty(a1, v1, a2, v2):
    if v1 and a1.op == 'eq' and canon.isconst(a1.args[1]) and canon.cval(a1.args[1]) == '' and \
            a2.op == 'raises' and not v2 and a2.args[0] == 'receipt.MalformedReceiptException':
        c = a2.args[1]
        return c.op == 'call' and c.args[0] == 'receipt.Receipt.fromJWSString' and c.args[1] is a1.args[0]
    return False


VERIFY_ERRORS = ('verify_receipt.SignatureSystemFailedException', 'verify_receipt.UnsignedNullReceiptException',
                 'receipt.UnknownAlgorithmException', 'verify_receipt.CertSerialMismatchException',
                 'receipt.CertSerialInvalidException', 'verify_receipt.NoPublicKeyException',
                 'verify_receipt.InvalidSignatureException')


def contract_verify(I, args, kwargs, st, node):
    """ReceiptVerifier.verify(rec, prefix): one of the documented errors, or
    (rec, the algorithm object of that prefix).  Established separately (C01)."""
    names = ['self', 'rec', 'algorithmPrefix']
    vals = dict(zip(names, args))
    vals.update(kwargs)
    rec, pre = vals['rec'], vals['algorithmPrefix']
    ca = ['verify_receipt.ReceiptVerifier.verify', I.freeze(vals['self'], st), I.freeze(rec, st), pre]
    call = canon.mkcall('call', ca)
    I.record_events(ca, st, node)
    for c in VERIFY_ERRORS:
        if c in I.prog.classes:
            I.raise_sink(st, I.exc(c), node, I.raise_atom(c, call), via=('opaque', 'verify'))
    if st.dead:
        return UNDEF
    algs = I.global_assign(I.prog.modules['librksv.algorithms'], 'ALGORITHMS')
    return leaf(T('tuple', box(rec), box(lift(item, algs, pre))))


def interp(prog, opaque=(), contracts=None, raises=None, ext_raises=None):
    return Interp(prog, opaque=list(opaque), contracts=contracts, raises=raises, ext_raises=ext_raises)


def relation(prog, q, specq, params, opaque=(), contracts=None, raises=None, state=(), specparams=None, assume=None, strict=False, argv=None,
             specvals=None, deep=False, ext_raises=None, **kw):
    I = interp(prog, opaque, contracts, raises, ext_raises)
    I.strict = strict
    I.deep = deep
    I.kept = tuple(kw.get('excstate', ()))
    fn, sp = prog.func(q), prog.func(specq)
    ps = {k: var(k, t) for k, t in params.items()}
    names = [a.arg for a in fn.node.args.args]
    snames = [a.arg for a in sp.node.args.args]
    pi = {k: v for k, v in ps.items() if k in names}
    # positional fallback when a parameter was renamed
    missing = [k for k in params if k not in names]
    free = [n for n in names if n not in params]
    for k, n in zip(missing, free):
        pi[n] = ps[k]
    psn = {k: v for k, v in ps.items() if k in snames}
    psn.update((k, leaf(const(v))) for k, v in (specvals or {}).items())
    c = assume(ps) if assume else TRUE
    st = St(c)
    args = None
    if argv is not None:
        args = leaf(T('list', *[box(var(x[1:], 'str')) if x.startswith('$') else const(x) for x in argv]))
        st.store[('I', T('var', 'argv', 'list'))] = args
    ri = I.run(fn, pi, st, consume=sp.is_gen and not fn.is_gen)
    st = St(c)
    if args is not None:
        st.store[('I', T('var', 'argv', 'list'))] = args
    rs = I.run(sp, psn, st, spec=True)
    return Relation(prog, fn, ri, rs, sp, state=state, **kw).run()


def report(r):
    print('== %s: %d obligations, %d discharged, %d findings' % (r.fn.qual, r.obligations, r.discharged, len(r.findings)))
    for n in r.log + r.notes + sorted(r.impl.interp.notes):
        print('   note', n)
    for f in r.findings:
        print('  ', f.props, 'UNDET(%s)' % f.undetermined if f.undetermined else '', str(f)[:600])
