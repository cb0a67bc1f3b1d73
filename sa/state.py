"""Abstract program state: heap, path facts and the trace of observable effects."""
from fractions import Fraction

from .terms import FALSE, NONE, TRUE, Term, add, bidx, const, cval, eq0, is_const, is_num, lin_parts, maxval, mk, mklin, numval, scale, typ_of


# constructs no model covers, met while analysing: what depends on them is undecided
TAINT = {}


class Raise:
    __slots__ = ("exc",)

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return "Raise(%r)" % (self.exc,)


class Obj:
    __slots__ = ("kind", "cls", "f")

    def __init__(self, kind, cls, f):
        self.kind = kind
        self.cls = cls
        self.f = f

    def copy(self):
        return Obj(self.kind, self.cls, dict(self.f))

    def __repr__(self):
        return "Obj(%s,%s,%s)" % (self.kind, self.cls, self.f)


class Ev:
    """an observable effect, with the source construct that causes it"""

    __slots__ = ("kind", "loc", "d")

    def __init__(self, kind, loc, **d):
        self.kind = kind
        self.loc = loc
        self.d = d

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def get(self, n, default=None):
        return self.d.get(n, default)

    def __repr__(self):
        return "%s@%s:%s %s" % (self.kind, self.loc[0], self.loc[1], self.d)

    def where(self):
        return "%s:%d (%s)" % self.loc


class State:
    __slots__ = ("base", "heap", "own", "facts", "bounds", "known", "events", "oattrs", "notes", "flags")

    def __init__(self, base):
        self.base = base
        self.heap = {}
        self.own = set()
        self.facts = {}
        self.bounds = {}
        self.known = {}
        self.events = None
        self.oattrs = {}
        self.notes = ()
        self.flags = {}

    def fork(self):
        s = State.__new__(State)
        s.base = self.base
        s.heap = dict(self.heap)
        self.own = set()
        s.own = set()
        s.facts = dict(self.facts)
        s.bounds = dict(self.bounds)
        s.known = dict(self.known)
        s.events = self.events
        s.oattrs = dict(self.oattrs)
        s.notes = self.notes
        s.flags = dict(self.flags)
        return s

    # heap
    def get(self, ref):
        i = ref.args[0] if isinstance(ref, Term) else ref
        o = self.heap.get(i)
        if o is None:
            o = self.base[i]
        return o

    def has(self, ref):
        i = ref.args[0] if isinstance(ref, Term) else ref
        return i in self.heap or i in self.base

    def w(self, ref):
        i = ref.args[0] if isinstance(ref, Term) else ref
        if i in self.own:
            return self.heap[i]
        o = self.get(i).copy()
        self.heap[i] = o
        self.own.add(i)
        return o

    def emit(self, ev):
        self.events = (self.events, ev)

    def trace(self):
        out = []
        e = self.events
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def note(self, msg):
        TAINT.setdefault(msg, "")
        if msg not in self.notes:
            self.notes = self.notes + (msg,)

    # facts
    def interval(self, t):
        """(lo, hi) of a linear form, None for unbounded"""
        c, p = lin_parts(t)
        lo = hi = c
        for a, k in p.items():
            l, h = self.atom_bounds(a)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + l * k
            hi = None if hi is None or h is None else hi + h * k
        if p:
            shape, sg = self._shape(p)
            b = self.bounds.get(shape)
            if b is not None:
                l, h = b
                if sg < 0:
                    l, h = (None if h is None else -h), (None if l is None else -l)
                if l is not None:
                    lo = l + c if lo is None else max(lo, l + c)
                if h is not None:
                    hi = h + c if hi is None else min(hi, h + c)
        return lo, hi

    def atom_bounds(self, a):
        lo = hi = None
        if a in self.known:
            v = self.known[a]
            return v, v
        m = maxval(a)
        if m is not None:
            lo, hi = 0, m
        elif a.op == "bin" and a.args[0] in (">>", "//") and is_num(a.args[2]) and int(numval(a.args[2])) > 0:
            # floor division keeps the order
            n = int(numval(a.args[2]))
            n = 1 << n if a.args[0] == ">>" and n < 128 else n
            lo, hi = (None if x is None else x // n for x in self.interval(a.args[1]))
        elif a.op in ("len",):
            lo = 0
        elif a.op == "sym" and a.args[1] == "nat":
            lo = 0
        shape, sg = self._shape({a: 1})
        b = self.bounds.get(shape)
        if b:
            l, h = b
            if l is not None:
                lo = l if lo is None else max(lo, l)
            if h is not None:
                hi = h if hi is None else min(hi, h)
        return lo, hi

    @staticmethod
    def _shape(p):
        ks = sorted(p, key=lambda t: t.key)
        sg = 1 if p[ks[0]] > 0 else -1
        return tuple((k, p[k] * sg) for k in ks), sg

    def _subst_known(self, l):
        c, p = lin_parts(l)
        ch = False
        for a in list(p):
            if a in self.known:
                c += p.pop(a) * self.known[a]
                ch = True
        return mklin(c, p) if ch else l

    def decide(self, atom):
        """True / False / None"""
        if atom is TRUE:
            return True
        if atom is FALSE:
            return False
        v = self.facts.get(atom)
        if v is not None:
            return v
        o = atom.op
        if o == "not":
            r = self.decide(atom.args[0])
            return None if r is None else not r
        if o == "eq0":
            l = self._subst_known(atom.args[0])
            if is_num(l):
                return numval(l) == 0
            if l is not atom.args[0]:
                a2 = eq0(l)
                if is_const(a2):
                    return cval(a2)
                if a2 in self.facts:
                    return self.facts[a2]
            lo, hi = self.interval(l)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if lo is not None and lo == hi == 0:
                return True
            return None
        if o == "ge0":
            l = self._subst_known(atom.args[0])
            if is_num(l):
                return numval(l) >= 0
            lo, hi = self.interval(l)
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
            return None
        if o == "isnone":
            t = atom.args[0]
            if self.facts.get(mk("truthy", t)) is True:
                return False
            for f, pol in self.facts.items():
                if pol and f.op == "eq" and t in f.args:
                    other = f.args[0] if f.args[1] is t else f.args[1]
                    return other is NONE
            return None
        if o == "truthy":
            if self.facts.get(mk("isnone", atom.args[0])) is True:
                return False
            for f, pol in self.facts.items():
                if pol and f.op == "eq" and atom.args[0] in f.args:
                    other = f.args[0] if f.args[1] is atom.args[0] else f.args[1]
                    if is_const(other):
                        return bool(cval(other))
            if atom.args[0] in self.known:
                return bool(self.known[atom.args[0]])
            return None
        if o == "eq":
            a, b = atom.args
            if is_const(b) and not is_const(a):
                a, b = b, a
            if is_const(a):
                # b equal to another constant already?
                for f, pol in self.facts.items():
                    if pol and f.op == "eq" and b in f.args:
                        other = f.args[0] if f.args[1] is b else f.args[1]
                        if is_const(other):
                            return other is a
                if self.facts.get(mk("isnone", b)) is True:
                    return False
                if self.facts.get(mk("truthy", b)) is False and cval(a):
                    return False
                if b in self.known:
                    return False
            return None
        return None

    def assume(self, atom, pol):
        """record a path fact; False when it contradicts the path"""
        d = self.decide(atom)
        if d is not None:
            return d == pol
        while atom.op == "not":
            atom, pol = atom.args[0], not pol
        self.facts[atom] = pol
        if atom.op == "eq" and pol and len(atom.args) == 2:
            # equal bytes are equal one by one
            a, b = atom.args
            if is_const(a):
                a, b = b, a
            if a.op == "cat" and is_const(b) and isinstance(cval(b), bytes):
                for i, x in enumerate(cval(b)):
                    t = bidx(a, const(i))
                    if t is None:
                        break
                    if not self.assume(eq0(add(t, const(-x))), True):
                        return False
        elif atom.op == "eq0" and pol:
            l = self._subst_known(atom.args[0])
            c, p = lin_parts(l)
            if len(p) == 1:
                (a, k), = p.items()
                v = Fraction(-c) / k
                if v.denominator == 1:
                    self.known[a] = int(v)
            elif p:
                self._bound(l, 0, 0)
        elif atom.op == "eq0":
            # x != c at the edge of its range
            l = atom.args[0]
            lo, hi = self.interval(l)
            if lo == 0:
                self._bound(l, 1, None)
            elif hi == 0:
                self._bound(l, None, -1)
        elif atom.op == "ge0":
            l = atom.args[0]
            if pol:
                self._bound(l, 0, None)
            else:
                self._bound(l, None, -1)
        return True

    def _bound(self, l, lo, hi):
        c, p = lin_parts(l)
        if not p:
            return
        shape, sg = self._shape(p)
        lo = None if lo is None else lo - c
        hi = None if hi is None else hi - c
        if sg < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        l0, h0 = self.bounds.get(shape, (None, None))
        if lo is not None:
            l0 = lo if l0 is None else max(l0, lo)
        if hi is not None:
            h0 = hi if h0 is None else min(h0, hi)
        self.bounds[shape] = (l0, h0)
        if len(shape) == 1 and l0 is not None and l0 == h0:
            a, k = shape[0]
            v = Fraction(l0) / k
            if v.denominator == 1:
                self.known[a] = int(v)
