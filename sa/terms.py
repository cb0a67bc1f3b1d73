"""Canonical terms: the abstract values of the analysis.

A term is a hash-consed tree, so two equal values are the same object.  Integers
are kept as linear forms, byte strings as concatenations of single bytes and of
slices of unknown strings; both have one normal form, which is what lets a rule
compare *values* instead of the source text that computes them.
"""
import hashlib
from fractions import Fraction

_table = {}


class Term:
    __slots__ = ("op", "args", "_k", "_h", "__weakref__")

    def __repr__(self):
        return show(self)

    @property
    def key(self):
        k = self._k
        if k is None:
            k = self._k = _mkkey(self)
        return k

    def __lt__(self, other):
        return self.key < other.key


def _ak(a):
    if isinstance(a, Term):
        return a.key
    if isinstance(a, tuple):
        return "(" + ",".join(_ak(x) for x in a) + ")"
    if isinstance(a, (str, int, bytes, float, Fraction)) or a is None:
        return type(a).__name__ + ":" + repr(a)
    return getattr(a, "qual", None) or repr(a)


def _mkkey(t):
    k = t.op + "(" + ",".join(_ak(a) for a in t.args) + ")"
    # terms share their parts: a key spelt out in full can be exponentially longer than the term
    return k if len(k) <= 1500 else t.op + "#" + hashlib.sha1(k.encode("utf-8", "backslashreplace")).hexdigest()


def _hk(a):
    # True == 1 == 1.0 in Python: keep them apart
    if isinstance(a, (bool, float)):
        return (type(a), a)
    if isinstance(a, tuple):
        return tuple(_hk(x) for x in a)
    return a


def mk(op, *args):
    k = (op,) + tuple(_hk(a) for a in args)
    t = _table.get(k)
    if t is None:
        t = Term.__new__(Term)
        t.op = op
        t.args = args
        t._k = None
        _table[k] = t
    return t


def const(v):
    if isinstance(v, Fraction):
        if v.denominator == 1:
            v = int(v)
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def sym(name, typ=None):
    return mk("sym", name, typ)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def is_num(t):
    """statically known integer value (constants and enum members)"""
    if t.op == "const":
        return isinstance(t.args[0], (int, Fraction, float)) and True
    return t.op == "enum" and isinstance(t.args[2], int)


def numval(t):
    if t.op == "const":
        return t.args[0]
    return t.args[2]


def strip(t):
    """drop representation-only casts"""
    while t.op in ("cast", "ecast"):
        t = t.args[1]
    return t


# ----------------------------------------------------------------- integers
def lin_parts(t):
    """(constant, {atom: coef})"""
    t = strip(t)
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    if is_num(t):
        v = numval(t)
        if isinstance(v, bool):
            v = int(v)
        return (Fraction(str(v)) if isinstance(v, float) else v), {}
    return 0, {t: 1}


def mklin(c, parts):
    parts = {k: v for k, v in parts.items() if v != 0}
    if isinstance(c, Fraction) and c.denominator == 1:
        c = int(c)
    if not parts:
        return const(c)
    if c == 0 and len(parts) == 1:
        (k, v), = parts.items()
        if v == 1:
            return k
    return mk("lin", c, tuple(sorted(parts.items(), key=lambda kv: kv[0].key)))


def add(a, b, kb=1):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    for k, v in pb.items():
        pa[k] = pa.get(k, 0) + v * kb
    if len(pa) > 1:
        # x|y - x&y  and  x+y - 2*(x&y)  are x^y
        for k, v in list(pa.items()):
            if k.op == "bin" and k.args[0] == "&" and v and not (is_num(k.args[1]) or is_num(k.args[2])):
                x, y = k.args[1], k.args[2]
                o = mk("bin", "|", *sorted([x, y]))
                if pa.get(o) == -v:
                    q, gone = mkxor([x, y]), (o, k)
                elif v % 2 == 0 and pa.get(x) == pa.get(y) == -v // 2:
                    q, gone = mkxor([x, y]), (x, y, k)
                else:
                    continue
                f = -v if gone[0] is o else -v // 2
                for g in gone:
                    pa.pop(g)
                return add(mklin(ca + cb * kb, pa), scale(q, f))
    return mklin(ca + cb * kb, pa)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, p = lin_parts(a)
    if isinstance(k, float):
        k = Fraction(str(k))
    return mklin(c * k, {t: v * k for t, v in p.items()})


def bitop(op, a, b):
    a, b = strip(a), strip(b)
    if is_num(a) and is_num(b):
        x, y = int(numval(a)), int(numval(b))
        if op == "&":
            return const(x & y)
        if op == "|":
            return const(x | y)
        if op == "^":
            return const(x ^ y)
        if op == "<<":
            return const(x << y)
        if op == ">>":
            return const(x >> y)
        if op == "//":
            return const(x // y) if y else mk("bin", op, a, b)
        if op == "%":
            return const(x % y) if y else mk("bin", op, a, b)
        if op == "**":
            return const(x ** y) if 0 <= y < 64 else mk("bin", op, a, b)
    if op == "^":
        return mkxor([a, b])
    if op == "//" and is_num(b) and numval(b) > 0:
        n = int(numval(b))
        if n & (n - 1) == 0:
            return bitop(">>", a, const(n.bit_length() - 1))
    if op == "%" and is_num(b) and numval(b) > 0:
        n = int(numval(b))
        if n & (n - 1) == 0:
            return bitop("&", a, const(n - 1))
    if op in ("&", "|") and is_num(a) and not is_num(b):
        a, b = b, a
    if op == "&" and is_num(b):
        m = int(numval(b))
        if m == 0:
            return const(0)
        mx = maxval(a)
        if mx is not None and m & mx == mx and mx & (mx + 1) == 0:
            return a
        if m == 0xFF:
            return byte_of(a, 0)
        if a.op == "bin" and a.args[0] == "&" and is_num(a.args[2]):
            return bitop("&", a.args[1], const(m & int(numval(a.args[2]))))
    if op == "|" and is_num(b) and numval(b) == 0:
        return a
    if op in ("<<", ">>") and is_num(b) and numval(b) == 0:
        return a
    if op == "<<" and is_num(b):
        return scale(a, 1 << int(numval(b)))
    if op == ">>" and is_num(b):
        if a.op == "byteof":
            pass
        if a.op == "bin" and a.args[0] == ">>" and is_num(a.args[2]):
            return bitop(">>", a.args[1], const(numval(a.args[2]) + numval(b)))
    if op in ("|", "&") and not is_num(b):
        if a is b:
            return a
        a, b = sorted([a, b])
        x = xor_of(op, a, b) or xor_of(op, b, a)
        if x is not None:
            return x
    elif op == "|":
        a, b = sorted([a, b])
    return mk("bin", op, a, b)


def complement(t):
    """(u, mask) when t is ~u, or ~u within a byte"""
    if t.op == "byteof" and t.args[1] == 0:
        u = complement(t.args[0])
        return (u[0], 0xFF) if u else None
    c, p = lin_parts(t)
    if len(p) == 1 and c == -1:
        (k, v), = p.items()
        return (k, None) if v == -1 else None
    return None


def xor_of(op, a, b):
    """exclusive or spelt with and, or, not"""
    n = complement(b)
    if n and op == "&" and a.op == "bin" and a.args[0] == "|":
        u, m = n
        if u.op == "bin" and u.args[0] == "&" and {u.args[1], u.args[2]} == {a.args[1], a.args[2]}:
            r = mkxor(list(a.args[1:]))
            return r if m is None else bitop("&", r, const(m))
    if op == "|" and a.op == b.op == "bin" and a.args[0] == b.args[0] == "&":
        for x, nx in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
            for y, ny in ((b.args[1], b.args[2]), (b.args[2], b.args[1])):
                cx, cy = complement(nx), complement(ny)
                if cx and cy and cx[0] is y and cy[0] is x and (cx[1] is None or (maxval(x) or 256) < 256 and (maxval(y) or 256) < 256):
                    return mkxor([x, y])
    return None


_max = {}


def maxval(t):
    """largest value of a non-negative term, if bounded by its shape"""
    t = strip(t)
    if t.op not in ("bin", "xor"):
        return _maxval(t)
    if t not in _max:
        _max[t] = _maxval(t)
    return _max[t]


def _maxval(t):
    if is_num(t):
        v = numval(t)
        return int(v) if v >= 0 else None
    if t.op == "sym" and t.args[1] == "byte":
        return 255
    if t.op == "sym" and t.args[1] == "u16":
        return 0xFFFF
    if t.op == "byteof":
        return 255
    if t.op == "idx" and typ_of(t.args[0]) == "bytes":
        return 255
    if t.op == "xorall":
        return 255
    if t.op == "xor":
        m = [t.args[0]] + [maxval(x) for x in t.args[1]]
        return None if None in m or t.args[0] < 0 else (1 << max(m).bit_length()) - 1
    if t.op == "fromle" and t.args[1] is False:
        n = const_len(t.args[0])
        if n is not None:
            return 256 ** n - 1
    if t.op == "bin":
        op, a, b = t.args
        if op == "&":
            m = [x for x in (maxval(a), maxval(b)) if x is not None]
            return min(m) if m else None
        if op == ">>" and is_num(b):
            m = maxval(a)
            return None if m is None else m >> int(numval(b))
        if op == "|":
            m = (maxval(a), maxval(b))
            if None in m:
                return None
            return (1 << max(m).bit_length()) - 1
    if t.op == "bool":
        return 1
    return None


def byte_of(t, k):
    """k-th little-endian byte of an integer"""
    t = strip(t)
    if is_num(t):
        v = int(numval(t))
        return const((v >> (8 * k)) & 0xFF)
    if t.op == "fromle":
        n = const_len(t.args[0])
        if n is not None:
            if k < n:
                return bidx(t.args[0], const(k))
            if not t.args[1]:
                return const(0)
    mx = maxval(t)
    if mx is not None:
        if k == 0 and mx <= 255:
            return t
        if mx < 256 ** k:
            return const(0)
    if t.op == "bin" and t.args[0] == ">>" and is_num(t.args[2]):
        s = int(numval(t.args[2]))
        if s % 8 == 0:
            return byte_of(t.args[1], k + s // 8)
    if t.op == "bin" and t.args[0] == "&" and is_num(t.args[2]):
        m = (int(numval(t.args[2])) >> (8 * k)) & 0xFF
        if m == 0xFF:
            return byte_of(t.args[1], k)
        if m == 0:
            return const(0)
    if t.op == "beof" and False:
        pass
    return mk("byteof", t, k)


def mkxor(ts):
    c = 0
    cnt = {}
    work = list(ts)
    while work:
        t = strip(work.pop())
        if t.op == "xor":
            work.extend(t.args[1])
            c ^= t.args[0]
        elif is_num(t):
            c ^= int(numval(t))
        elif t.op == "xorall" and t.args[0].op == "cat":
            work.extend(x for x in xor_pieces(t.args[0]))
        else:
            cnt[t] = cnt.get(t, 0) ^ 1
    rest = tuple(sorted((t for t, n in cnt.items() if n), key=lambda t: t.key))
    if not rest:
        return const(c)
    if len(rest) == 1 and c == 0:
        return rest[0]
    return mk("xor", c, rest)


def xor_pieces(b):
    out = []
    for p in cat_pieces(b):
        if p.op == "b":
            out.append(p.args[0])
        else:
            out.append(mk("xorall", p))
    return out


def xorall(b):
    b = strip(b)
    return mkxor(xor_pieces(b))


# -------------------------------------------------------------------- bytes
def typ_of(t):
    if t.op == "const":
        v = t.args[0]
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "int"
        if isinstance(v, bytes):
            return "bytes"
        if isinstance(v, str):
            return "str"
        if v is None:
            return "none"
        return "num"
    if t.op == "enum":
        return "int"
    if t.op in ("lin", "bin", "byteof", "fromle", "xor", "xorall", "len", "byte"):
        return "int"
    if t.op in ("cat", "b", "flatmap", "rep", "bytesof", "ser"):
        return "bytes"
    if t.op == "bm":
        return "int" if t.args[0] in ("find", "rfind", "count") else "bytes"
    if t.op in ("slice",):
        return typ_of(t.args[0])
    if t.op == "eui":
        return "seq"
    if t.op in ("cast", "ecast"):
        return "int"
    if t.op == "sym":
        ty = t.args[1]
        if ty in ("byte", "u16"):
            return "int"
        return ty
    if t.op == "idx" and typ_of(t.args[0]) == "bytes":
        return "int"
    if t.op == "tup":
        return "tuple"
    if t.op in ("str", "fstr"):
        return "str"
    if t.op in ("not", "bool", "eq", "eq0", "ge0", "in", "isnone", "truthy", "isinst", "is"):
        return "bool"
    return None


def piece_const(bs):
    return [mk("b", const(x)) for x in bs]


def cat_pieces(t):
    t = strip(t)
    if t.op == "const" and isinstance(t.args[0], (bytes, bytearray)):
        return piece_const(t.args[0])
    if t.op == "cat":
        return list(t.args)
    if t.op == "eui":
        return cat_pieces(t.args[0])
    return [t]


def _as_slice(p):
    """(base, lo, hi) when the piece is a run of an unknown string"""
    if p.op == "slice":
        return p.args
    if p.op == "b" and p.args[0].op == "idx" and typ_of(p.args[0].args[0]) == "bytes":
        base, i = p.args[0].args
        return base, i, add(i, const(1))
    return None


def mkcat(pieces):
    out = []
    for p in pieces:
        if p.op == "cat" or (p.op == "const" and isinstance(p.args[0], bytes)):
            out.extend(cat_pieces(p))
        elif p.op == "eui":
            out.extend(cat_pieces(p))
        else:
            out.append(p)
    # merge adjacent runs of the same unknown string
    res = []
    for p in out:
        s = _as_slice(p)
        if s is not None and res:
            q = _as_slice(res[-1])
            if q is not None and q[0] is s[0] and q[2] is s[1]:
                res[-1] = mk("slice", s[0], q[1], s[2])
                continue
        res.append(p)
    fin = []
    for p in res:
        if p.op == "slice":
            if p.args[1] is p.args[2]:
                continue
        fin.append(p)
    if not fin:
        return const(b"")
    if all(p.op == "b" and is_num(p.args[0]) for p in fin):
        try:
            return const(bytes(int(numval(p.args[0])) for p in fin))
        except ValueError:
            pass
    if len(fin) == 1 and fin[0].op != "b":
        return fin[0]
    return mk("cat", *fin)


def piece_len(p):
    if p.op == "b":
        return const(1)
    if p.op == "slice":
        return sub(p.args[2], p.args[1])
    if p.op == "flatmap":
        n, iv, body = p.args
        bl = blen(body)
        if is_num(bl):
            return scale(n, numval(bl))
        return mk("len", p)
    return mk("len", p)


def blen(t):
    """length of a byte string (slices are taken to be in range)"""
    t = strip(t)
    if t.op == "const" and isinstance(t.args[0], (bytes, str, tuple)):
        return const(len(t.args[0]))
    if t.op == "tup":
        return const(len(t.args))
    r = const(0)
    n = 0
    for p in cat_pieces(t):
        if p.op == "b":
            n += 1
        else:
            r = add(r, piece_len(p))
    return add(r, const(n)) if n else r


def all_bytes(t):
    """the pieces of a concatenation of single bytes, else None"""
    if t.op == "cat":
        k = _allb.get(t)
        if k is None:
            k = _allb[t] = all(p.op == "b" for p in t.args)
        if k:
            return t.args
    return None


_allb = {}


def const_len(t):
    n = blen(t)
    return int(numval(n)) if is_num(n) else None


def bidx(t, i):
    t = strip(t)
    if t.op == "const" and is_num(i):
        try:
            v = t.args[0][int(numval(i))]
        except IndexError:
            return None
        return const(v)
    if t.op == "tup" and is_num(i):
        try:
            return t.args[int(numval(i))]
        except IndexError:
            return None
    if t.op == "eui":
        return bidx(t.args[0], i)
    ab = all_bytes(t)
    if ab is not None and is_num(i):
        try:
            return ab[int(numval(i))].args[0]
        except IndexError:
            return None
    if t.op in ("cat", "slice"):
        if is_num(i) and numval(i) < 0:
            i = add(blen(t), i)
        off = const(0)
        for p in cat_pieces(t):
            ln = piece_len(p)
            d = sub(i, off)
            if p.op == "b":
                if d is const(0):
                    return p.args[0]
            elif is_num(d) and numval(d) >= 0 and is_num(ln) and numval(d) < numval(ln):
                if p.op == "slice":
                    return mk("idx", p.args[0], add(p.args[1], d))
                return mk("idx", p, d)
            elif p.op == "slice" and len(cat_pieces(t)) == 1:
                return mk("idx", p.args[0], add(p.args[1], d))
            off = add(off, ln)
        if is_num(blen(t)) and is_num(i):
            return None
    return mk("idx", t, i)


def bslice(t, lo, hi, decide=None):
    """t[lo:hi] with hi possibly None; slices are assumed within range"""
    t = strip(t)
    if t.op == "eui":
        t = t.args[0]
    if t.op == "const":
        if is_num(lo) and (hi is None or is_num(hi)):
            return const(t.args[0][int(numval(lo)): None if hi is None else int(numval(hi))])
    ab = all_bytes(t)
    if ab is not None and is_num(lo) and (hi is None or is_num(hi)):
        return mkcat(list(ab[int(numval(lo)): None if hi is None else int(numval(hi))]))
    total = blen(t)
    if is_num(lo) and numval(lo) < 0:
        lo = add(total, lo)
    if hi is None:
        hi = total
        open_end = True
    else:
        open_end = hi is total
        if is_num(hi) and numval(hi) < 0:
            hi = add(total, hi)
    if is_num(lo) and is_num(total) and numval(lo) > numval(total):
        lo = total
    if is_num(hi) and is_num(total) and numval(hi) > numval(total):
        hi = total
    pieces = cat_pieces(t)
    if len(pieces) == 1 and pieces[0].op == "slice":
        b, l0, h0 = pieces[0].args
        if open_end:
            return mkcat([mk("slice", b, add(l0, lo), h0)])
        return mkcat([mk("slice", b, add(l0, lo), add(l0, hi))])
    if len(pieces) == 1 and pieces[0].op != "b":
        p = pieces[0]
        if lo is const(0) and open_end:
            return p
        return mkcat([mk("slice", p, lo, hi)])
    # cut a concatenation at piece boundaries
    out = []
    off = const(0)
    started = ended = False
    for p in pieces:
        ln = piece_len(p)
        end = add(off, ln)
        if not started:
            d = sub(lo, off)
            if d is const(0):
                started = True
                cut = const(0)
            elif p.op != "b" and is_num(d) and numval(d) > 0 and (
                not is_num(ln) or numval(d) < numval(ln)
            ):
                started = True
                cut = d
            elif p.op != "b" and not is_num(d) and p is pieces[-1]:
                started = True
                cut = d
            else:
                off = end
                continue
        else:
            cut = const(0)
        if hi is off:
            ended = True
            break
        de = sub(hi, off)
        if de is ln or (p is pieces[-1] and open_end):
            if p.op == "b":
                out.append(p)
            elif p.op == "slice":
                out.append(mk("slice", p.args[0], add(p.args[1], cut), p.args[2]))
            elif cut is const(0):
                out.append(p)
            else:
                out.append(mk("slice", p, cut, ln))
            ended = True
            break
        if p.op != "b" and (
            (is_num(de) and numval(de) >= 0 and (not is_num(ln) or numval(de) < numval(ln)))
            or (not is_num(de) and p is pieces[-1])
        ):
            if p.op == "slice":
                out.append(mk("slice", p.args[0], add(p.args[1], cut), add(p.args[1], de)))
            else:
                out.append(mk("slice", p, cut, de))
            ended = True
            break
        if p.op == "b":
            out.append(p)
        elif p.op == "slice":
            out.append(mk("slice", p.args[0], add(p.args[1], cut), p.args[2]))
        elif cut is const(0):
            out.append(p)
        else:
            out.append(mk("slice", p, cut, ln))
        off = end
    if not started:
        if lo is total:
            return const(b"")
        return mk("slice", t, lo, hi)
    if not ended and not open_end and hi is not total:
        return mk("slice", t, lo, hi)
    return mkcat(out)


def fromle(t, signed=False):
    t = strip(t)
    if t.op == "const" and isinstance(t.args[0], bytes):
        return const(int.from_bytes(t.args[0], "little", signed=signed))
    n = const_len(t)
    if n == 1 and not signed:
        return bidx(t, const(0))
    # all bytes of one value, in order
    ps = cat_pieces(t)
    if n and len(ps) == n and all(p.op == "b" and p.args[0].op == "byteof" for p in ps):
        x = ps[0].args[0].args[0]
        if all(p.args[0].args == (x, k) for k, p in enumerate(ps)):
            mx = maxval(x)
            if mx is not None and mx < (256 ** n // 2 if signed else 256 ** n):
                return x
    return mk("fromle", t, bool(signed))


def tole(x, n):
    return mkcat([mk("b", byte_of(x, k)) for k in range(n)])


# ------------------------------------------------------------- traversal
def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for a in t.args:
        if isinstance(a, Term):
            yield from subterms(a, seen)
        elif isinstance(a, tuple):
            yield from _sub_tuple(a, seen)


def _sub_tuple(a, seen):
    for x in a:
        if isinstance(x, Term):
            yield from subterms(x, seen)
        elif isinstance(x, tuple):
            yield from _sub_tuple(x, seen)


def mentions(t, x):
    return any(s is x for s in subterms(t))


def rebuild(op, args):
    """re-normalise a node with new children"""
    if op == "lin":
        r = const(args[0])
        for k, v in args[1]:
            r = add(r, scale(k, v))
        return r
    if op == "bin":
        return bitop(*args)
    if op == "xor":
        return mkxor([const(args[0])] + list(args[1]))
    if op == "xorall":
        return xorall(args[0])
    if op == "cat":
        return mkcat(args)
    if op == "slice":
        if typ_of(args[0]) == "bytes" or args[0].op in ("eui",):
            return bslice(args[0], args[1], args[2])
        return mk(op, *args)
    if op == "idx":
        if typ_of(args[0]) == "bytes" or args[0].op in ("tup", "eui"):
            r = bidx(args[0], args[1])
            return r if r is not None else mk("idx", *args)
        return mk(op, *args)
    if op == "byteof":
        return byte_of(*args)
    if op == "fromle":
        return fromle(*args)
    if op == "len":
        return blen(args[0]) if typ_of(args[0]) in ("bytes", "tuple") else mk("len", *args)
    if op == "flatmap":
        return flatmap(*args)
    if op == "eq0":
        return eq0(args[0])
    if op == "ge0":
        return ge0(args[0])
    return mk(op, *args)


def subst(t, m, memo=None):
    """simultaneous substitution {term: term}"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    else:
        new = []
        ch = False
        for a in t.args:
            b = _subst_arg(a, m, memo)
            ch = ch or (b is not a)
            new.append(b)
        r = rebuild(t.op, tuple(new)) if ch else t
    memo[t] = r
    return r


def _subst_arg(a, m, memo):
    if isinstance(a, Term):
        return subst(a, m, memo)
    if isinstance(a, tuple):
        out = tuple(_subst_arg(x, m, memo) for x in a)
        if all(x is y for x, y in zip(out, a)):
            return a
        return out
    return a


def flatmap(n, iv, body):
    """concatenation of body[iv] for iv in 0..n-1"""
    if is_num(n):
        k = int(numval(n))
        if k <= 0:
            return const(b"")
        if k <= 64:
            return mkcat([subst(body, {iv: const(j)}) for j in range(k)])
    if body is const(b""):
        return body
    # for x in s: out += bytes([x])   is s itself
    bl = blen(body)
    if is_num(bl) and numval(bl) > 0:
        s = _as_slice(body) if body.op != "cat" else _as_slice(body.args[0]) if len(body.args) == 1 else None
        if s is not None:
            w = int(numval(bl))
            base, lo, hi = s
            lo0 = subst(lo, {iv: const(0)})
            if sub(lo, lo0) is scale(iv, w) and not mentions(base, iv):
                return mkcat([mk("slice", base, lo0, add(lo0, scale(n, w)))]) if not (
                    lo0 is const(0) and scale(n, w) is blen(base)
                ) else base
    # canonical bound variable
    cv = sym("$%d" % _fmdepth(body), "int")
    if iv is not cv:
        body = subst(body, {iv: cv})
    return mk("flatmap", n, cv, body)


def _fmdepth(t):
    d = 0
    for s in subterms(t):
        if s.op in ("flatmap", "lmap"):
            d = max(d, int(s.args[1].args[0][1:]) + 1)
    return d


# ---------------------------------------------------------------- booleans
def eq0(l):
    """l == 0 for an integer linear form; returns (atom, polarity) or const"""
    c, p = lin_parts(l)
    if not p:
        return const(c == 0)
    ks = sorted(p, key=lambda t: t.key)
    d = None
    if len(ks) == 1 and ks[0].op == "xor" and p[ks[0]] in (1, -1):
        v = -c * p[ks[0]]
        if not 0 <= v <= 255:
            return FALSE
        d = mkxor([ks[0], const(int(v))])
    elif len(ks) == 2 and c == 0 and {p[k] for k in ks} == {1, -1} and any(k.op in ("xor", "xorall") for k in ks):
        if all((maxval(k) or 256) <= 255 for k in ks):
            d = mkxor(ks)
    if d is not None:
        # equal bytes: their exclusive-or is zero
        if d.op == "xor":
            return mk("eq0", d)
        return eq0(d)
    if len(ks) == 1:
        k = ks[0]
        v = -Fraction(c) / p[k]
        mx = maxval(k)
        if v.denominator != 1 and mx is not None:
            return FALSE
        if mx is not None and (v < 0 or v > mx):
            return FALSE
        if v.denominator == 1:
            return mk("eq0", add(k, const(int(-v))))
    if p[ks[0]] < 0:
        l = scale(l, -1)
    return mk("eq0", l)


def ge0(l):
    c, p = lin_parts(l)
    if not p:
        return const(c >= 0)
    if all(isinstance(v, int) for v in p.values()) and len(p) == 1:
        (k, v), = p.items()
        mx = maxval(k)
        if k.op == "len":
            mn = 0
        else:
            mn = 0 if mx is not None else None
        if v > 0:
            if mn is not None and mn * v + c >= 0:
                return TRUE
            if mx is not None and mx * v + c < 0:
                return FALSE
        else:
            if mx is not None and mx * v + c >= 0:
                return TRUE
            if mn is not None and mn * v + c < 0:
                return FALSE
    return mk("ge0", mklin(c, p))


# ------------------------------------------------------------------- show
def show(t, d=0):
    if not isinstance(t, Term):
        return repr(t)
    o, a = t.op, t.args
    if d > 12:
        return "..."
    n = d + 1
    if o == "const":
        return repr(a[0])
    if o == "enum":
        return "%s.%s" % (a[0].split(".")[-1], a[1])
    if o == "sym":
        return a[0]
    if o == "attr":
        return "%s.%s" % (show(a[0], n), a[1])
    if o == "idx":
        return "%s[%s]" % (show(a[0], n), show(a[1], n))
    if o == "slice":
        return "%s[%s:%s]" % (show(a[0], n), show(a[1], n), show(a[2], n))
    if o == "lin":
        s = " + ".join(("%s*%s" % (v, show(k, n)) if v != 1 else show(k, n)) for k, v in a[1])
        return "(%s%s)" % (s, " + %s" % a[0] if a[0] else "")
    if o == "cat":
        return "cat[%s]" % ", ".join(show(x, n) for x in a)
    if o == "b":
        return "byte(%s)" % show(a[0], n)
    if o == "byteof":
        return "byte%d(%s)" % (a[1], show(a[0], n))
    if o == "fromle":
        return "le(%s)" % show(a[0], n)
    if o == "xor":
        return "xor(%s)" % ", ".join(([hex(a[0])] if a[0] else []) + [show(x, n) for x in a[1]])
    if o == "xorall":
        return "xorall(%s)" % show(a[0], n)
    if o == "len":
        return "len(%s)" % show(a[0], n)
    if o == "bin":
        return "(%s %s %s)" % (show(a[1], n), a[0], show(a[2], n))
    if o == "eq0":
        return "%s == 0" % show(a[0], n)
    if o == "ge0":
        return "%s >= 0" % show(a[0], n)
    if o == "eq":
        return "%s == %s" % (show(a[0], n), show(a[1], n))
    if o == "tup":
        return "(%s)" % ", ".join(show(x, n) for x in a)
    if o in ("cast", "ecast", "eui"):
        return "%s(%s)" % (o, ", ".join(show(x, n) for x in a))
    if o == "ref":
        return "#%s" % a[0]
    if o == "ext":
        return a[0]
    return "%s(%s)" % (o, ", ".join(show(x, n) if isinstance(x, Term) else str(getattr(x, "qual", x)) for x in a))


# --------------------------------------------------- finite evaluation
class NoValue(Exception):
    pass


def teval(t, env, memo=None):
    """value of an integer/byte term when its atoms are given (finite domains)"""
    if t in env:
        return env[t]
    if memo is None:
        memo = {}
    if t not in memo:
        memo[t] = _teval(t, env, lambda x, e: teval(x, e, memo if e is env else None))
    return memo[t]


def _teval(t, env, teval):
    o, a = t.op, t.args
    if o == "const":
        return a[0]
    if o == "enum":
        return a[2]
    if o in ("cast", "ecast"):
        return teval(a[1], env)
    if o == "lin":
        return a[0] + sum(v * teval(k, env) for k, v in a[1])
    if o == "bin":
        x, y = teval(a[1], env), teval(a[2], env)
        return {
            "&": lambda: x & y, "|": lambda: x | y, "<<": lambda: x << y, ">>": lambda: x >> y,
            "//": lambda: x // y, "%": lambda: x % y, "*": lambda: x * y, "**": lambda: x ** y,
        }[a[0]]()
    if o == "byteof":
        return (teval(a[0], env) >> (8 * a[1])) & 0xFF
    if o == "xor":
        r = a[0]
        for x in a[1]:
            r ^= teval(x, env)
        return r
    if o == "eq0":
        return teval(a[0], env) == 0
    if o == "ge0":
        return teval(a[0], env) >= 0
    if o == "truthy":
        return bool(teval(a[0], env))
    if o == "not":
        return not teval(a[0], env)
    if o == "idx":
        b = teval(a[0], env)
        return b[teval(a[1], env)]
    if o == "b":
        v = teval(a[0], env)
        if not 0 <= v < 256:
            raise OutOfRange("byte out of range")
        return bytes([v])
    if o == "cat":
        return b"".join(teval(x, env) for x in a)
    if o == "slice":
        return teval(a[0], env)[teval(a[1], env): teval(a[2], env)]
    if o == "len":
        return len(teval(a[0], env))
    if o == "fromle":
        return int.from_bytes(teval(a[0], env), "little", signed=a[1])
    if o == "xorall":
        r = 0
        for x in teval(a[0], env):
            r ^= x
        return r
    if o == "eui":
        return tuple(teval(a[0], env))
    if o == "tup":
        return tuple(teval(x, env) for x in a)
    if o == "bool":
        return bool(teval(a[0], env))
    if o == "bm":
        vs = [teval(x, env) for x in a[1:]]
        return getattr(bytes(vs[0]), a[0])(*vs[1:])
    if o == "flatmap":
        n, iv, body = a
        return b"".join(teval(body, {**env, iv: i}) for i in range(teval(n, env)))
    raise NoValue(show(t))


class OutOfRange(NoValue):
    """no such value: an integer that is no byte"""


def _corners(ts):
    """integers the terms compare with, and their neighbours"""
    out = set()
    for t in ts:
        for s in subterms(t):
            for a in s.args:
                for c in a if isinstance(a, tuple) else (a,):
                    for x in c if isinstance(c, tuple) else (c,):
                        if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
                            out |= {abs(int(x)) + d for d in (-1, 0, 1)}
    return sorted(x for x in out if 1 < x < 1 << 64)


_LENGTHS = (0, 1, 8, 16, 2, 250, 127, 128, 3, 200, 249, 64, 4, 32, 255)
_UNIFORM = (0, 255, 254, 1, 0x80, 0x20)
_FILL = (None, None, 0, 255, 254, None)


def valuations(ts, k=24, seed=1, facts=()):
    """deterministic assignments for the free symbols of some terms, corner values first"""
    import random

    rnd = random.Random(seed)
    syms = []
    for t in ts:
        for s in subterms(t):
            if s.op == "sym" and not str(s.args[0]).startswith("$") and s not in syms:
                syms.append(s)
    if len(syms) == 1 and syms[0].args[1] == "byte":
        for v in range(256):
            yield {syms[0]: v}
        return
    # what the facts fix
    size, item, fixed = {}, {}, {}
    for f, p in facts:
        if f.op != "eq0" or not p:
            continue
        c, q = lin_parts(f.args[0])
        if len(q) != 1:
            continue
        (x, w), = q.items()
        v = -c / Fraction(w)
        if v.denominator != 1:
            continue
        v = int(v)
        if x.op == "len":
            size[x.args[0]] = v
        elif x.op == "idx" and is_num(x.args[1]):
            item.setdefault(x.args[0], {})[int(numval(x.args[1]))] = v
        elif x.op == "sym":
            fixed[x] = v
    cs = _corners(ts)
    ints = {
        "byte": [0, 255, 1, 0x80, 0x7F, 0xFE, 0x10, 2, 4, 8, 0x20, 0x40] + [x for x in cs if x < 256],
        "u16": [0, 0xFFFF, 0x1234, 0x8000, 0xFF, 0x100, 0x7FFF, 0xFF00, 0xFFFE] + [1 << n for n in range(1, 15)] + [x for x in cs if x < 65536],
        "int": [0, 1, 0x12345678, 0x80, 0xFFFFFFFF, 0xFF, 0x100, 0xFFFF, 0x10000, 0x80000000] + [x for x in cs if x < 1 << 32],
    }
    lens = list(_LENGTHS) + [x for x in cs if x < 300]
    n = max([k] + [len(ints.get({"nat": "int", None: "int"}.get(s.args[1], s.args[1]), lens if s.args[1] == "bytes" else ())) + 4 for s in syms])
    n = min(n, 4 * k) + len(_UNIFORM)
    for j in range(n):
        env = {}
        for i, s in enumerate(syms):
            ty = s.args[1]
            if s in fixed:
                env[s] = fixed[s]
                continue
            if ty in ("byte", "u16", "int", "nat", None):
                ty = ty if ty in ints else "int"
                c = ints[ty]
                top = {"byte": 1 << 8, "u16": 1 << 16, "int": 1 << 32}[ty]
                if j < len(_UNIFORM):
                    # the same byte everywhere
                    env[s] = _UNIFORM[j] * ((top - 1) // 255)
                else:
                    env[s] = c[(j + i) % len(c)] if j % 2 == 0 else rnd.randrange(top)
            elif ty == "bytes":
                m = size.get(s, lens[(j + (i if j >= len(_UNIFORM) else 2)) % len(lens)])
                fill = _UNIFORM[j] if j < len(_UNIFORM) else _FILL[(j // 2 + i) % len(_FILL)]
                b = bytearray(rnd.randrange(256) if fill is None else fill for _ in range(m if 0 <= m < 1024 else 0))
                for at, v in item.get(s, {}).items():
                    if -len(b) <= at < len(b) and 0 <= v < 256:
                        b[at] = v
                env[s] = bytes(b)
        yield env


def equal_values(a, b, facts=(), k=24):
    """True: one normal form, or equal under every valuation tried; False: a valuation tells them apart; None: unknown"""
    a, b = strip(a), strip(b)
    if a is b:
        return True
    n = 0
    # only facts about the symbols at hand constrain the comparison
    have = {x for t in (a, b) for x in subterms(t) if x.op == "sym"}
    rel, rest = [], [(f, p, {x for x in subterms(f) if x.op == "sym"}) for f, p in facts]
    while True:
        more = [x for x in rest if x[2] & have]
        if not more:
            break
        rel += [(f, p) for f, p, _ in more]
        for x in more:
            have |= x[2]
        rest = [x for x in rest if not x[2] & have]
    facts = rel
    for env in valuations([a, b] + [f for f, _ in facts], k * 4 if facts else k, facts=facts):
        try:
            if any(bool(teval(f, env)) != bool(p) for f, p in facts):
                continue
        except OutOfRange:
            continue
        except (NoValue, TypeError, IndexError, KeyError, ValueError):
            pass
        try:
            va, vb = teval(a, env), teval(b, env)
        except OutOfRange:
            continue
        except (NoValue, TypeError, IndexError, KeyError, ValueError):
            return None
        n += 1
        if _flatv(va) != _flatv(vb):
            return False
    return True if n else None


def _flatv(v):
    if isinstance(v, (bytes, bytearray)):
        return tuple(v)
    if isinstance(v, bool):
        return int(v)
    return v
