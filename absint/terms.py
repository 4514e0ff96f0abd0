"""Hash-consed terms: the abstract values of the analysis.

A term is an operator and its arguments; equal terms are the same object.  Integers are kept as
linear expressions over atoms (any term that is not itself a linear expression), so that addition
and subtraction are normalised away.
"""


class Term:
    __slots__ = ("op", "args", "id")

    def __init__(self, op, args, i):
        self.op, self.args, self.id = op, args, i

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


_TABLE = {}


def T(op, *args):
    k = (op, args)
    t = _TABLE.get(k)
    if t is None:
        t = Term(op, args, len(_TABLE))
        _TABLE[k] = t
    return t


# ---------------------------------------------------------------- integers

def lin(const, pairs):
    ps = tuple(sorted(((t, c) for t, c in pairs if c != 0), key=lambda p: p[0].id))
    if not ps:
        return T("int", const)
    if const == 0 and len(ps) == 1 and ps[0][1] == 1:
        return ps[0][0]
    return T("lin", const, ps)


def I(n):
    return T("int", n)


def parts(t):
    """(const, {atom: coef})"""
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def add(a, b, k=1):
    ca, pa = parts(a)
    cb, pb = parts(b)
    pa = dict(pa)
    for t, c in pb.items():
        pa[t] = pa.get(t, 0) + k * c
    return lin(ca + k * cb, pa.items())


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, p = parts(a)
    return lin(c * k, [(t, v * k) for t, v in p.items()])


TRUE = T("bool", True)
FALSE = T("bool", False)
UNIT = T("tuple")


def B(b):
    return TRUE if b else FALSE


def le0(t):
    if t.op == "int":
        return B(t.args[0] <= 0)
    return T("le0", t)


def lt(a, b):
    return le0(add(sub(a, b), I(1)))


def le(a, b):
    return le0(sub(a, b))


def eq0(t):
    if t.op == "int":
        return B(t.args[0] == 0)
    c, p = parts(t)
    lead = min(p, key=lambda x: x.id)
    if p[lead] < 0:
        t = scale(t, -1)
        c = -c
    if c == -10 and len(p) == 1 and lead.op == "at" and abs(p[lead]) == 1:
        # the last byte of a text is a line feed: the text ends with one
        d = sub(T("len", lead.args[0]), lead.args[1])
        if d.op == "int" and d.args[0] == 1:
            return T("app", "ends_with", lead.args[0], T("str", "\n"))
    return T("eq0", t)


def ieq(a, b):
    return eq0(sub(a, b))


def neg(t):
    if t.op == "bool":
        return B(not t.args[0])
    if t.op == "not":
        return t.args[0]
    if t.op == "le0":  # not (t<=0)  <=> t>=1 <=> 1-t<=0
        return le0(sub(I(1), t.args[0]))
    if t.op == "and":
        return T("or", *[neg(x) for x in t.args])
    if t.op == "or":
        return T("and", *[neg(x) for x in t.args])
    return T("not", t)


def conj(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    return a if a is b else T("and", a, b)


def disj(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    return a if a is b else T("or", a, b)


# ---------------------------------------------------------------- traversal

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


_has_cache = {}


def has_op(t, op):
    k = (t, op)
    r = _has_cache.get(k)
    if r is None:
        r = contains(t, lambda x: x.op == op)
        _has_cache[k] = r
    return r


REBUILD = {}


def rebuild(op, args):
    """Build a term, renormalising integer expressions."""
    if op == "lin":
        c, ps = args
        r = I(c)
        for t, k in ps:
            r = add(r, scale(t, k))
        return r
    if op == "le0":
        return le0(args[0])
    if op == "eq0":
        return eq0(args[0])
    if op == "not":
        return neg(args[0])
    h = REBUILD.get(op)
    if h is not None:
        r = h(*args)
        if r is not None:
            return r
    return T(op, *args)


def subst(t, m, memo=None):
    """Replace terms by terms (m: dict)."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            na = tuple(go(y) for y in x.args)
            r = x if na == x.args else rebuild(x.op, na)
            memo[x] = r
        return r

    return go(t)


def rewrite(t, rule, memo=None):
    """Bottom-up rewriting: rule(term) gives a replacement or None."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        r = memo.get(x)
        if r is None:
            na = tuple(go(y) for y in x.args)
            y = x if na == x.args else rebuild(x.op, na)
            r = rule(y)
            if r is None:
                r = y
            memo[x] = r
        return r

    return go(t)


# ---------------------------------------------------------------- printing

def show(t, depth=7):
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, Term):
        return str(t)
    if depth == 0:
        return "…"
    d = depth - 1
    if t.op in ("int", "bool"):
        return str(t.args[0])
    if t.op == "str":
        return repr(t.args[0])
    if t.op == "sym":
        return str(t.args[0])
    if t.op == "lin":
        c, ps = t.args
        s = "+".join((show(x, d) if k == 1 else "%d*%s" % (k, show(x, d))) for x, k in ps)
        return "(%s%s)" % (s, "%+d" % c if c else "")
    if t.op == "adt":
        p = t.args[0].split("::")[-1]
        return "%s#%s{%s}" % (p, t.args[1], ",".join(show(x, d) for x in t.args[2:]))
    if t.op == "ref":
        return "&" + show_place(t.args[0], t.args[1:], d)
    if t.op == "vref":
        return "&(" + show(t.args[0], d) + ")"
    if t.op in ("fld", "vf", "dc"):
        return show(t.args[0], d) + "." + ".".join(str(a) for a in t.args[1:])
    if t.op == "le0":
        return show(t.args[0], d) + "<=0"
    if t.op == "eq0":
        return show(t.args[0], d) + "==0"
    if t.op == "at":
        return "%s[%s]" % (show(t.args[0], d), show(t.args[1], d))
    if t.op == "sl":
        return "%s[%s..%s]" % tuple(show(x, d) for x in t.args)
    return "%s(%s)" % (t.op, ",".join(show(x, d) for x in t.args))


def show_place(root, proj, d=6):
    s = ":".join(show(x, d) if isinstance(x, Term) else str(x) for x in root) if isinstance(root, tuple) else str(root)
    for p in proj:
        s += "." + (":".join(show(x, d) if isinstance(x, Term) else str(x) for x in p) if isinstance(p, tuple) else str(p))
    return s
