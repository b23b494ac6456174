"""Rule registry, findings, known findings, evidence and exit codes."""
import ast
import json
import os
import re
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('RKSVLINT_REPO', '/repo')


class Rule(object):
    """fn(ctx) records obligations and findings; props: properties it serves"""
    def __init__(self, name, fn, props, text, thorough=False):
        self.name, self.fn, self.props, self.text, self.thorough = name, fn, tuple(props), text, thorough


RULES = []


def rule(name, props, text, thorough=False):
    def deco(fn):
        RULES.append(Rule(name, fn, props.split() if isinstance(props, str) else props, text, thorough))
        return fn
    return deco


class F(object):
    """a violation of a rule at a construct"""
    def __init__(self, rule, props, where, key, text):
        self.rule, self.props, self.where, self.key, self.text = rule, tuple(props), where, key, text

    def ident(self):
        return '%s/%s' % (self.rule, self.key)


class Ctx(object):
    def __init__(self, prog, root, thorough=False):
        self.prog, self.root, self.thorough = prog, root, thorough
        self.findings = []
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.analysed = set()
        self.samples = []
        self.cur = None
        self.counts = {}

    # -- recording
    def ok(self, n=1, what=None, sample=None):
        self.obligations += n
        self.discharged += n
        if sample and len(self.samples) < 40:
            self.samples.append('%s: %s' % (self.cur.name, sample))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def bad(self, where, key, text, props=None):
        self.obligations += 1
        self.findings.append(F(self.cur.name, props or self.cur.props, where, key, text))

    def unknown(self, where, why):
        self.obligations += 1
        self.undecided.append('%s: %s: %s' % (self.cur.name, where, why))

    def saw(self, *quals):
        self.analysed.update(quals)

    def method(self, cls, name):
        """qualified name of the method an object of cls uses"""
        ci = self.prog.classes.get(cls)
        fn = self.prog.find_method(ci, name) if ci is not None else None
        if fn is None:
            self.unknown(cls, 'no method %s' % name)
            return None
        return fn.qual

    def rel(self, q, spec, params, default, kinds=None, **kw):
        """compare one function with its rule; an engine failure leaves it undecided"""
        from . import engine
        try:
            r = engine.relation(self.prog, q, spec, params, default=default, **kw)
        except (Timeout, KeyboardInterrupt):
            raise
        except Exception as e:
            if os.environ.get('RKSVLINT_DEBUG'):
                traceback.print_exc()
            self.unknown(q, '%s: %s' % (type(e).__name__, e))
            return
        self.relate(r, kinds)

    def relate(self, r, kinds=None, extra_props=()):
        """take over the outcome of a Relation"""
        self.obligations += r.obligations
        self.discharged += r.discharged
        self.saw(r.fn.qual)
        self.saw(*r.impl.interp.inlined)
        self.unbound(r.impl)
        self.noattr(r.impl)
        from . import sharing
        sharing.escapes(self, r.impl, ('C16', 'C09', 'C10'))
        sharing.copies(self, r.impl, ('C16',))
        sharing.frames(self, r, ('C16',))
        if r.fn.module.name.startswith('librksv.'):
            from .rules import r_malformed
            r_malformed.implicit(self, r.fn.qual, r.impl, r_malformed.PRECONDITIONS.get(r.fn.qual, ()))
        for f in r.findings:
            ps = tuple(f.props) or self.cur.props
            if kinds and f.kind in kinds:
                ps = kinds[f.kind]
            ps = tuple(dict.fromkeys(ps + tuple(extra_props)))
            if f.undetermined:
                self.undecided.append('%s: %s: %s (%s)' % (self.cur.name, f.where, f.text[:160], f.undetermined))
                continue
            txt = re.sub(r' when .*', '', f.text)
            self.findings.append(F(self.cur.name, ps, f.where, '%s|%s|%s' % (r.fn.qual, f.kind, txt), f.text))
        if r.discharged and len(self.samples) < 40:
            self.samples.append('%s: %s: %d of %d obligations' % (self.cur.name, r.fn.qual, r.discharged, r.obligations))


    def unbound(self, res):
        """paths of an analysed function that read a name before it is bound"""
        from . import canon
        for s in res.raises:
            if s.via != 'implicit' or not s.val.leaf or s.val.hi.op != 'exc' or s.val.hi.args[0] not in (
                    'NameError', 'UnboundLocalError'):
                continue
            w = canon.closed(s.cond)
            if w is None:
                continue
            fn = s.where.fn if s.where is not None else None
            where = '%s:%s in %s' % (fn.module.path if fn else '?', getattr(s.node, 'lineno', '?'), fn.qual if fn else '?')
            if w is False:
                self.unknown(where, 'unbound name')
            else:
                self.bad(where, '%s|unbound|%s' % (fn.qual if fn else '?', getattr(s.node, 'id', '')),
                         'name %s is read on a path that does not bind it' % getattr(s.node, 'id', '?'), ('C22',))


    def noattr(self, res):
        """paths of an analysed function that read an attribute no object of the class has"""
        from . import canon
        for cls, name, cond, node, fr in res.noattr:
            self.ok()
            if fr is not None and fr.fn is not None and any(
                    isinstance(n, ast.Name) and n.id in ('hasattr', 'AttributeError') for n in ast.walk(fr.fn.node)):
                continue
            if canon.closed(cond) is not False and canon.closed(cond) is not None:
                fn = fr.fn if fr is not None else None
                where = '%s:%s in %s' % (fn.module.path if fn else '?', getattr(node, 'lineno', '?'), fn.qual if fn else '?')
                self.bad(where, '%s|noattr|%s' % (fn.qual if fn else '?', name), 'objects of %s have no attribute %s' % (cls, name), ('C22',))


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


def serves(r, prop):
    # every analysed function also shows reads of unbound names, shared objects and failing operations
    return prop in r.props or prop in ('C15', 'C16', 'C22')


def run_rules(ctx, prop, limit=150):
    signal.signal(signal.SIGALRM, _alarm)
    n = 0
    for r in RULES:
        if not serves(r, prop) or (r.thorough and not ctx.thorough):
            continue
        n += 1
        ctx.cur = r
        t0 = time.time()
        signal.alarm(limit)
        try:
            r.fn(ctx)
        except Timeout:
            ctx.unknown('-', 'time limit')
        except RecursionError:
            ctx.unknown('-', 'recursion limit')
        except MemoryError:
            ctx.unknown('-', 'memory')
        except Exception as e:
            if os.environ.get('RKSVLINT_DEBUG'):
                traceback.print_exc()
            ctx.unknown('-', '%s: %s' % (type(e).__name__, e))
        finally:
            signal.alarm(0)
        if os.environ.get('RKSVLINT_DEBUG'):
            sys.stderr.write('%-40s %.2fs\n' % (r.name, time.time() - t0))
    return n


def load_known():
    """known-findings: lines 'known: property=<id> key=<ident> :: text' / 'fixed: ...'"""
    out = []
    p = os.path.join(VERIF, 'known-findings')
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)', l.strip())
            if m:
                out.append(m.groups())
    return out


def main(argv):
    from . import engine, rules
    prop = argv[0]
    thorough = '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        prog = engine.load(REPO)
    except engine.AnalysisBroken as e:
        print('rksvlint: cannot analyse %s: %s' % (REPO, e))
        return 2
    ctx = Ctx(prog, REPO, thorough)
    rules.load()
    n = run_rules(ctx, prop)
    if not n:
        print('rksvlint: no rule serves %s' % prop)
        return 2
    mine = [f for f in ctx.findings if prop in f.props]
    known = [k for k in load_known() if k[0] == prop]
    rc = 0
    viol = []
    shown = set()
    for f in mine:
        k = [x for x in known if x[1] == f.ident()]
        if k:
            if k[0] not in shown:
                shown.add(k[0])
                print('KNOWN-FINDING: property=%s %s' % (prop, k[0][2]))
            continue
        viol.append(f)
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    if viol:
        rc = 1
        rp = os.path.join(ev, 'replay-%s.txt' % prop)
        with open(rp, 'w', encoding='utf-8', errors='backslashreplace') as o:
            for f in viol:
                o.write('rule %s\nproperty %s\nat %s\nkey %s\n%s\n\n' % (f.rule, prop, f.where, f.ident(), f.text))
        for f in viol[:20]:
            print(('%s: [%s] %s' % (f.where, f.rule, f.text[:700])).encode('ascii', 'backslashreplace').decode())
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    served = [r for r in RULES if serves(r, prop) and (thorough or not r.thorough)]
    doc = {
        'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'static analysis of the sources under %s; rules applied: %s' % (
                REPO, '; '.join('%s (%s)' % (r.name, r.text) for r in served)),
            'rules': len(served),
            'files_parsed': len(prog.files),
            'functions_analysed': sorted(ctx.analysed),
            'obligations': ctx.obligations,
            'discharged': ctx.discharged,
            'undecided': ctx.undecided,
            'counts': ctx.counts,
            'samples': ctx.samples,
        },
        'wall_s': round(time.time() - t0, 3),
        'violations': len(viol),
    }
    with open(os.path.join(ev, '%s.json' % prop), 'w') as o:
        json.dump(doc, o, indent=1, sort_keys=True)
        o.write('\n')
    print('%s: %d rules, %d obligations, %d discharged, %d undecided, %d violations, %d known (%.1fs)' % (
        prop, len(served), ctx.obligations, ctx.discharged, len(ctx.undecided), len(viol), len(shown), time.time() - t0))
    return rc
