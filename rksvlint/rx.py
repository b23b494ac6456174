"""Regular expressions as minimal automata: two patterns denoting the same
language get the same signature.  Uses the standard library's pattern parser
(re._parser) on the pattern *text*; nothing of the repository is run."""
import re._constants as C
import re._parser as P

MAXC = 0x110000
WORD_ASCII_ONLY = None


class NoRx(Exception):
    pass


# category intervals are computed once over the BMP+ (unicode semantics)
_cat = {}


def category(name, uni):
    key = (name, uni)
    if key in _cat:
        return _cat[key]
    import re
    p = {C.CATEGORY_DIGIT: r'\d', C.CATEGORY_NOT_DIGIT: r'\D', C.CATEGORY_SPACE: r'\s', C.CATEGORY_NOT_SPACE: r'\S',
         C.CATEGORY_WORD: r'\w', C.CATEGORY_NOT_WORD: r'\W'}.get(name)
    if p is None:
        raise NoRx()
    # symbolic atom boundaries: the ASCII part exactly, the rest as named classes
    r = re.compile(p, 0 if uni else re.A)
    out, start = [], None
    for c in range(MAXC):
        m = r.match(chr(c)) is not None
        if m and start is None:
            start = c
        elif not m and start is not None:
            out.append((start, c - 1))
            start = None
    if start is not None:
        out.append((start, MAXC - 1))
    _cat[key] = out
    return out


def norm(iv):
    iv = sorted(iv)
    out = []
    for a, b in iv:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def neg(iv):
    out, p = [], 0
    for a, b in norm(iv):
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p < MAXC:
        out.append((p, MAXC - 1))
    return out


class NFA(object):
    def __init__(self):
        self.n = 0
        self.eps = {}
        self.tr = {}

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b, tag=None):
        self.eps.setdefault(a, []).append((b, tag))

    def t(self, a, iv, b):
        self.tr.setdefault(a, []).append((norm(iv), b))


def build(nfa, seq, s, flags):
    """returns end state; anchors become tagged epsilons"""
    for op, av in seq:
        if op is C.LITERAL:
            e = nfa.new()
            nfa.t(s, [(av, av)], e)
            s = e
        elif op is C.NOT_LITERAL:
            e = nfa.new()
            nfa.t(s, neg([(av, av)]), e)
            s = e
        elif op is C.ANY:
            e = nfa.new()
            nfa.t(s, neg([(10, 10)]) if not flags & 16 else [(0, MAXC - 1)], e)
            s = e
        elif op is C.IN:
            iv, ng = [], False
            for o, a in av:
                if o is C.NEGATE:
                    ng = True
                elif o is C.LITERAL:
                    iv.append((a, a))
                elif o is C.RANGE:
                    iv.append(a)
                elif o is C.CATEGORY:
                    iv += category(a, not flags & 256)
                else:
                    raise NoRx()
            e = nfa.new()
            nfa.t(s, neg(iv) if ng else iv, e)
            s = e
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            if lo > 64:
                raise NoRx()
            for _ in range(lo):
                s = build(nfa, sub, s, flags)
            if hi is C.MAXREPEAT:
                a = nfa.new()
                nfa.e(s, a)
                b = build(nfa, sub, a, flags)
                nfa.e(b, a)
                e = nfa.new()
                nfa.e(a, e)
                s = e
            else:
                if hi > 64:
                    raise NoRx()
                e = nfa.new()
                nfa.e(s, e)
                for _ in range(hi - lo):
                    s = build(nfa, sub, s, flags)
                    nfa.e(s, e)
                s = e
        elif op is C.SUBPATTERN:
            g, add, rm, sub = av
            if add or rm:
                raise NoRx()
            s = build(nfa, sub, s, flags)
        elif op is C.BRANCH:
            e = nfa.new()
            for alt in av[1]:
                a = nfa.new()
                nfa.e(s, a)
                nfa.e(build(nfa, alt, a, flags), e)
            s = e
        elif op is C.AT:
            e = nfa.new()
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                nfa.e(s, e, 'B')
            elif av is C.AT_END:
                nfa.e(s, e, 'E')
            elif av is C.AT_END_STRING:
                nfa.e(s, e, 'Z')
            else:
                raise NoRx()
            s = e
        else:
            raise NoRx()
    return s


_sig = {}


def signature(pat, method, flags=0):
    """canonical text of the language {s : re.<method>(pat, s)} or None"""
    key = (pat, method, flags)
    if key not in _sig:
        try:
            _sig[key] = _signature(pat, method, flags)
        except (NoRx, Exception):
            _sig[key] = None
    return _sig[key]


def _signature(pat, method, flags):
    p = P.parse(pat, flags)
    fl = p.state.flags
    if fl & ~(32 | 256):      # only unicode / ascii
        raise NoRx()
    nfa = NFA()
    s0 = nfa.new()
    end = build(nfa, list(p), s0, fl)
    # '$' : end or before a final newline; modelled by a phase bit:
    # states are (q, phase) phase 0 = normal, 1 = '$' passed (only optional \n may follow), 2 = '\Z' passed
    acc = end
    trans, eps, n = nfa.tr, nfa.eps, nfa.n
    ivs = set()
    for l in trans.values():
        for iv, b in l:
            for a, c in iv:
                ivs.add(a)
                ivs.add(c + 1)
    ivs.update([0, 10, 11])
    cuts = sorted(x for x in ivs if x < MAXC)
    reps = cuts

    def inside(iv, c):
        for a, b in iv:
            if a <= c <= b:
                return True
        return False

    def closure(states):
        st = list(states)
        out = set(st)
        while st:
            q, ph, pos = st.pop()
            for b, tag in eps.get(q, ()):
                np = ph
                if tag == 'B' and pos != 0:
                    continue
                if tag == 'E':
                    np = max(ph, 1)
                if tag == 'Z':
                    np = 2
                x = (b, np, pos)
                if x not in out:
                    out.add(x)
                    st.append(x)
        return frozenset(out)

    full = method == 'fullmatch'

    def step(S, c):
        out = set()
        for q, ph, pos in S:
            if q == 'ACC':
                if ph == 'any':
                    out.add(('ACC', 'any', 1))
                continue
            if q == 'NL':
                continue
            if ph == 0:
                for iv, b in trans.get(q, ()):
                    if inside(iv, c):
                        out.add((b, 0, 1))
            elif ph == 1 and c == 10:
                # the newline may be consumed by the pattern or be left over
                for iv, b in trans.get(q, ()):
                    if inside(iv, c):
                        out.add((b, 2, 1))
                if not full and q == acc:
                    out.add(('NL', 0, 1))
        # an unanchored end leaves the rest free
        for q, ph, pos in S:
            if q == acc and ph == 0 and not full:
                out.add(('ACC', 'any', 1))
        if method == 'search':
            out.add((s0, 0, 1))
        return closure2(out)

    def closure2(S):
        base = [x for x in S if x[0] not in ('ACC', 'NL')]
        return frozenset(closure(base) | set(x for x in S if x[0] in ('ACC', 'NL')))

    def accepting(S):
        return any(q == acc or q in ('ACC', 'NL') for q, ph, pos in S)

    start = closure2({(s0, 0, 0)})
    states = {start: 0}
    order = [start]
    table = []
    i = 0
    while i < len(order):
        S = order[i]
        row = []
        for c in reps:
            N = step(S, c)
            if N not in states:
                states[N] = len(order)
                order.append(N)
                if len(order) > 400:
                    raise NoRx()
            row.append(states[N])
        table.append(row)
        i += 1
    # minimise (Moore)
    cls = [1 if accepting(S) else 0 for S in order]
    while True:
        sig = {}
        new = []
        for i in range(len(order)):
            k = (cls[i],) + tuple(cls[j] for j in table[i])
            new.append(sig.setdefault(k, len(sig)))
        if len(set(new)) == len(set(cls)):
            break
        cls = new
    # canonical numbering by BFS, merging adjacent equal columns
    num = {}
    rows = []
    q = [0]
    num[cls[0]] = 0
    rep_of = {}
    for i in range(len(order)):
        rep_of.setdefault(cls[i], i)
    j = 0
    while j < len(q):
        i = q[j]
        j += 1
        row = []
        last = None
        for c, n in zip(reps, table[i]):
            k = cls[n]
            if k not in num:
                num[k] = len(num)
                q.append(rep_of[k])
            if last is None or num[k] != last:
                row.append((c, num[k]))
                last = num[k]
        rows.append((accepting(order[i]), tuple(row)))
    return repr(rows)
