"""The relational part of the abstract state: linear (in)equalities between integer atoms, truth of
opaque conditions, and known enum variants.  Entailment is decided by Fourier-Motzkin elimination
over the rationals with integer tightening."""
from math import gcd
from .terms import *

_memo = {}
LIMIT = 260


def _norm(c, p):
    g = 0
    for v in p.values():
        g = gcd(g, abs(v))
    if g > 1:
        # sum + c <= 0  ->  sum/g <= floor(-c/g)
        c = -((-c) // g)
        p = {t: v // g for t, v in p.items()}
    return c, p


def _infeasible(ineqs):
    """ineqs: list of (const, {atom:coef}) meaning sum+const<=0, integer atoms."""
    cons = set()
    for c, p in ineqs:
        p = {t: v for t, v in p.items() if v}
        if not p:
            if c > 0:
                return True
            continue
        c, p = _norm(c, p)
        cons.add((c, tuple(sorted(p.items(), key=lambda x: x[0].id))))
    cons = _prune(cons)
    while cons:
        count = {}
        for c, p in cons:
            for t, v in p:
                n = count.setdefault(t, [0, 0])
                n[0 if v > 0 else 1] += 1
        var = min(count, key=lambda t: (count[t][0] * count[t][1] - count[t][0] - count[t][1], t.id))
        pos, ng, rest = [], [], set()
        for c, p in cons:
            d = dict(p)
            v = d.get(var, 0)
            if v > 0:
                pos.append((c, d, v))
            elif v < 0:
                ng.append((c, d, -v))
            else:
                rest.add((c, p))
        for c1, d1, v1 in pos:
            for c2, d2, v2 in ng:
                c = c1 * v2 + c2 * v1
                d = {}
                for t, v in d1.items():
                    d[t] = d.get(t, 0) + v * v2
                for t, v in d2.items():
                    d[t] = d.get(t, 0) + v * v1
                d = {t: v for t, v in d.items() if v}
                if not d:
                    if c > 0:
                        return True
                    continue
                c, d = _norm(c, d)
                rest.add((c, tuple(sorted(d.items(), key=lambda x: x[0].id))))
        cons = _prune(rest)
        if len(cons) > LIMIT:
            return False
    return False


def _prune(cons):
    best = {}
    for c, p in cons:
        if p not in best or best[p] < c:
            best[p] = c
    return {(c, p) for p, c in best.items()}


SIGNED = set()
# values whose variant depends on numbers in them
CONG = ("coff",)
NUMERIC = ("int", "lin", "len", "fld", "sym", "vf", "occ", "at", "lv")
LEN = [lambda s: T("len", s)]


def axioms(a):
    """what holds of a number by what it means: terms that are at most zero"""
    op, n = a.op, len(a.args)
    if op == "coff" and n == 2 and a.args[0].op == "chars":
        return [sub(a, LEN[0](a.args[0].args[0]))]
    if op == "goff":
        return [sub(a, LEN[0](a.args[0].args[0]))]
    if op == "len" and n == 1 and a.args[0].op in ("chars", "graphemes"):
        return [sub(a, LEN[0](a.args[0].args[0]))]
    if op == "len_utf8":
        return [sub(I(1), a), sub(a, I(4))]
    if op == "vf" and n == 3 and a.args[0].op == "app" and a.args[0].args[0] in ("find", "rfind") and len(a.args[0].args) == 3:
        s, p = a.args[0].args[1:]
        if s.op in ("int", "lin") or not isinstance(p, Term):
            return []
        return [sub(add(a, LEN[0](p) if p.op == "str" else I(0)), LEN[0](s))]
    if op == "countif":
        return [sub(a, sub(a.args[2], a.args[1]))]
    return []


class Facts:
    __slots__ = ("les", "diseqs", "bools", "variants", "notvar", "key")

    def __init__(self):
        self.les = ()
        self.diseqs = ()
        self.bools = {}
        self.variants = {}
        self.notvar = {}

    def copy(self):
        f = Facts()
        f.les, f.diseqs = self.les, self.diseqs
        f.bools, f.variants, f.notvar = dict(self.bools), dict(self.variants), dict(self.notvar)
        return f

    # -- linear part

    def _relevant(self, atoms):
        atoms = set(atoms)
        cons = [(t, parts(t)) for t in self.les]
        out, left = [], cons
        changed = True
        while changed:
            changed = False
            nl = []
            for t, (c, p) in left:
                if any(a in atoms for a in p):
                    atoms.update(p)
                    out.append((c, p))
                    changed = True
                else:
                    nl.append((t, (c, p)))
            left = nl
        todo, seen = sorted(atoms), set(atoms)
        while todo:
            a = todo.pop()
            for t in axioms(a):
                out.append(parts(t))
                for b in parts(t)[1]:
                    if b not in seen and len(seen) < 80:
                        seen.add(b)
                        todo.append(b)
        for a in seen:
            if a not in SIGNED:
                out.append((0, {a: -1}))
        return out

    def entails_le0(self, t):
        if t.op == "int":
            return t.args[0] <= 0
        k = (self.les, t)
        r = _memo.get(k)
        if r is None:
            c, p = parts(t)
            q = (1 - c, {a: -v for a, v in p.items()})  # t>=1
            if all(v <= 0 or a in SIGNED for a, v in p.items()) and c <= 0 and not any(a in SIGNED for a in p):
                r = True
            else:
                r = _infeasible(self._relevant(p) + [q])
            _memo[k] = r
        return r

    def entails_eq0(self, t):
        if t.op == "int":
            return t.args[0] == 0
        return self.entails_le0(t) and self.entails_le0(scale(t, -1))

    def feasible(self):
        k = (self.les, None)
        r = _memo.get(k)
        if r is None:
            atoms = set()
            for t in self.les:
                atoms.update(parts(t)[1])
            r = not _infeasible(self._relevant(atoms))
            _memo[k] = r
        return r

    def _saturate(self):
        changed = True
        while changed:
            changed = False
            for d in self.diseqs:
                nd = scale(d, -1)
                if self.entails_le0(d) and self.entails_le0(nd):
                    return False
                if self.entails_le0(d) and not self.entails_le0(add(d, I(1))):
                    self.les += (add(d, I(1)),)
                    changed = True
                elif self.entails_le0(nd) and not self.entails_le0(add(nd, I(1))):
                    self.les += (add(nd, I(1)),)
                    changed = True
        return self.feasible() and self.consistent()

    # -- truth of conditions

    def decide(self, t):
        """True/False/None"""
        if t.op == "bool":
            return t.args[0]
        if t.op == "le0":
            if self.entails_le0(t.args[0]):
                return True
            if self.entails_le0(sub(I(1), t.args[0])):
                return False
            return None
        if t.op == "eq0":
            x = t.args[0]
            if self.entails_eq0(x):
                return True
            if self.entails_le0(add(x, I(1))) or self.entails_le0(sub(I(1), x)):
                return False
            for d in self.diseqs:
                if d is x or scale(d, -1) is x:
                    return False
                # x == d + (something known to be zero)
                if self.entails_eq0(sub(d, x)) or self.entails_eq0(add(d, x)):
                    return False
            return None
        if t.op == "not":
            r = self.decide(t.args[0])
            return None if r is None else not r
        if t.op == "and":
            rs = [self.decide(x) for x in t.args]
            return False if False in rs else (None if None in rs else True)
        if t.op == "or":
            rs = [self.decide(x) for x in t.args]
            return True if True in rs else (None if None in rs else False)
        if t.op == "isvar":
            v, n = t.args
            if v in self.variants:
                return self.variants[v] == n
            if n in self.notvar.get(v, ()):
                return False
            if v.op in CONG:
                for w, m in self.variants.items():
                    if w.op == v.op and w is not v and self.cong(v, w):
                        return m == n
                for w, m in self.notvar.items():
                    if w.op == v.op and w is not v and n in m and self.cong(v, w):
                        return False
            return None
        return self.bools.get(t)

    def cong(self, a, b, depth=4):
        """the same value by what is known of the numbers in it"""
        if a is b:
            return True
        if not isinstance(a, Term) or not isinstance(b, Term):
            return a == b
        if a.op == b.op and a.op not in ("lin", "int") and depth and len(a.args) == len(b.args) and a.args and all(self.cong(x, y, depth - 1) for x, y in zip(a.args, b.args)):
            return True
        if a.op in NUMERIC or b.op in NUMERIC:
            return self.entails_eq0(sub(a, b))
        return False

    def consistent(self):
        """no two congruent values are of different variants"""
        vs = [v for v in self.variants if v.op in CONG]
        for i, v in enumerate(vs):
            for w in vs[i + 1:]:
                if v.op == w.op and self.variants[v] != self.variants[w] and self.cong(v, w):
                    return False
            for w, ns in self.notvar.items():
                if w.op == v.op and self.variants[v] in ns and self.cong(v, w):
                    return False
        return True

    def assume(self, t):
        """Add a condition; False when the state becomes infeasible.  Disjunctions must be split by
        the caller."""
        d = self.decide(t)
        if d is not None:
            return d
        if t.op == "le0":
            self.les += (t.args[0],)
            return self._saturate()
        if t.op == "eq0":
            self.les += (t.args[0], scale(t.args[0], -1))
            return self._saturate()
        if t.op == "not":
            u = t.args[0]
            if u.op == "eq0":
                self.diseqs += (u.args[0],)
                return self._saturate()
            if u.op == "isvar":
                v, n = u.args
                self.notvar[v] = self.notvar.get(v, frozenset()) | {n}
                return True
            self.bools[u] = False
            return True
        if t.op == "and":
            return all(self.assume(x) for x in t.args)
        if t.op == "isvar":
            v, n = t.args
            self.variants[v] = n
            if n == 1 and v.op == "app" and len(v.args) == 3 and v.args[0] in ("find", "rfind") and v.args[2].op == "str":
                # what is found in a text is no longer than the text
                return self.assume(le0(sub(LEN[0](v.args[2]), LEN[0](v.args[1]))))
            return True
        if t.op == "or":
            # keep what is not refuted
            live = [x for x in t.args if self.decide(x) is not False]
            if len(live) == 1:
                return self.assume(live[0])
            self.bools[t] = True
            return True
        self.bools[t] = True
        if t.op == "app" and len(t.args) == 3 and t.args[0] in ("ends_with", "starts_with", "contains") and t.args[2].op == "str":
            return self.assume(le0(sub(LEN[0](t.args[2]), LEN[0](t.args[1]))))
        return True

    def cmp(self, a, b):
        """'<', '=', '>' or None"""
        d = sub(a, b)
        if self.entails_eq0(d):
            return "="
        if self.entails_le0(add(d, I(1))):
            return "<"
        if self.entails_le0(sub(I(1), d)):
            return ">"
        return None
