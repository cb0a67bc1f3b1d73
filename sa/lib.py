"""Models of the language's built-in operations and of the libraries zigpy_cc uses.

Everything not modelled is an observable effect with an unknown result.
"""
import ast
import builtins as _py
import re

from .load import AnalysisError, ClassInfo
from .state import TAINT, Ev, Raise
from .terms import *

BUILTINS = {n for n in dir(_py)}

EXT_ATTR_ALIAS = {"config": "_config", "nwk": "_nwk", "ieee": "_ieee", "application": "_application"}

_ALIASES = {
    "asyncio.locks": "asyncio",
    "asyncio.exceptions": "asyncio",
    "asyncio.futures": "asyncio",
    "asyncio.tasks": "asyncio",
    "asyncio.events": "asyncio",
    "asyncio.queues": "asyncio",
    "serial.serialutil": "serial",
    "collections.abc": "abc_",
    "typing": "typing",
}

_QALIAS = {
    "builtins.IOError": "builtins.OSError",
    "builtins.EnvironmentError": "builtins.OSError",
    "typing.Iterable": "abc_.Iterable",
    "concurrent.futures.CancelledError": "asyncio.CancelledError",
}


def canon(q):
    for a, b in _ALIASES.items():
        if q == a:
            return b if a != "collections.abc" else q
        if q.startswith(a + "."):
            q = b + q[len(a):]
            break
    return _QALIAS.get(q, q)


# ------------------------------------------------------------ exceptions
EXC_BASES = {
    "asyncio.CancelledError": ["builtins.BaseException"],
    "asyncio.TimeoutError": ["builtins.Exception"],
    "asyncio.InvalidStateError": ["builtins.Exception"],
    "asyncio.IncompleteReadError": ["builtins.EOFError"],
    "asyncio.QueueFull": ["builtins.Exception"],
    "asyncio.QueueEmpty": ["builtins.Exception"],
    "serial.SerialException": ["builtins.OSError"],
    "serial.SerialTimeoutException": ["serial.SerialException"],
    "serial.PortNotOpenError": ["serial.SerialException"],
    "zigpy.exceptions.ZigbeeException": ["builtins.Exception"],
    "zigpy.exceptions.APIException": ["zigpy.exceptions.ZigbeeException"],
    "zigpy.exceptions.ControllerException": ["zigpy.exceptions.ZigbeeException"],
    "zigpy.exceptions.DeliveryError": ["zigpy.exceptions.ZigbeeException"],
    "voluptuous.Error": ["builtins.Exception"],
    "voluptuous.Invalid": ["voluptuous.Error"],
    "voluptuous.MultipleInvalid": ["voluptuous.Invalid"],
    "struct.error": ["builtins.Exception"],
    "AnyException": ["builtins.Exception"],
}


def exc_supers(q):
    q = canon(q)
    if q.startswith("builtins."):
        c = getattr(_py, q[9:], None)
        if isinstance(c, type):
            return ["builtins." + k.__name__ for k in c.__mro__]
        return [q]
    out = [q]
    for b in EXC_BASES.get(q, ["builtins.Exception"]):
        out += [x for x in exc_supers(b) if x not in out]
    return out


def is_exc_name(q):
    if q in EXC_BASES:
        return True
    if q.startswith("builtins."):
        c = getattr(_py, q[9:], None)
        return isinstance(c, type) and issubclass(c, BaseException)
    last = q.rsplit(".", 1)[-1]
    return last.endswith(("Error", "Exception"))


_PLAIN = ("builtins.object", "typing.Generic", "typing.NamedTuple", "typing.Protocol", "abc.ABC", "enum.Enum",
          "enum.IntEnum", "enum.Flag", "enum.IntFlag", "asyncio.Protocol", "asyncio.BaseProtocol")


def plain_base(bases):
    return all(b in _PLAIN for b in bases)


def ext_attr(I, qual, name):
    q = canon(qual + "." + name)
    t = I.prog.ext.term(q) if q.split(".")[0] in I.prog.ext.PKGS else None
    if t is not None:
        return t
    return mk("ext", q)


# ------------------------------------------------------------- sequences
def is_nt(ob):
    return ob.kind == "inst" and ob.cls is not None and ob.cls.op == "class" and ob.cls.args[0].is_tuple


def nt_tuple(st, v):
    """a named tuple as the tuple it is; anything else as it is"""
    if v.op != "ref":
        return v
    ob = st.get(v)
    if not is_nt(ob):
        return v
    return mk("tup", *[ob.f.get(n, NONE) for n in ob.cls.args[0].fields()])


def uniterable(v):
    """is the value certainly not iterable?"""
    v = strip(v)
    return v is NONE or is_num(v) or typ_of(v) in ("int", "bool")


def known_items(I, st, v):
    """items of a sequence value when they are all known, else None"""
    v = strip(v)
    o = v.op
    if o == "tup":
        return list(v.args)
    if o == "const":
        x = cval(v)
        if isinstance(x, bytes):
            return [const(c) for c in x]
        if isinstance(x, str):
            return [const(c) for c in x]
        if isinstance(x, (tuple, frozenset)):
            return [const(c) for c in x]
        return None
    if o == "ref":
        ob = st.get(v)
        if is_nt(ob):
            return list(nt_tuple(st, v).args)
        if ob.kind == "list":
            out = []
            for s in ob.f["segs"]:
                if s[0] == "it":
                    out.append(s[1])
                elif s[0] == "map" and is_num(s[1]) and numval(s[1]) <= 64:
                    out += [subst(s[3], {s[2]: const(j)}) for j in range(int(numval(s[1])))]
                else:
                    return None
            return out
        if ob.kind == "dict":
            return [k for k, _ in ob.f["items"]] if ob.f.get("rest") is None else None
        if ob.kind == "set":
            return list(ob.f["items"]) if ob.f.get("rest") is None else None
        if ob.kind == "bytearray":
            return known_items(I, st, ob.f["v"])
        return None
    if o == "class" and v.args[0].is_enum:
        return list(v.args[0].members.values())
    if o == "range":
        if all(is_num(x) for x in v.args) and numval(v.args[2]) != 0:
            r = range(*[int(numval(x)) for x in v.args])
            return [const(x) for x in r] if len(r) <= 600 else None
        return None
    if o == "enumerate":
        a = known_items(I, st, v.args[0])
        return None if a is None else [mk("tup", add(v.args[1], const(i)), x) for i, x in enumerate(a)]
    if o == "zip":
        a = [known_items(I, st, x) for x in v.args]
        return None if any(x is None for x in a) else [mk("tup", *x) for x in zip(*a)]
    if o == "reversed":
        a = known_items(I, st, v.args[0])
        return None if a is None else a[::-1]
    if o in ("items", "values", "keys"):
        ob = I.obj(st, v.args[0])
        if ob is None or ob.kind != "dict" or ob.f.get("rest") is not None:
            return None
        if o == "items":
            return [mk("tup", k, x) for k, x in ob.f["items"]]
        return [k if o == "keys" else x for k, x in ob.f["items"]]
    ab = all_bytes(v)
    if ab is not None:
        return [x.args[0] for x in ab]
    if o in ("cat", "slice", "eui", "b") or typ_of(v) == "bytes":
        n = const_len(v)
        if n is not None and n <= 300:
            return [bidx(v, const(i)) for i in range(n)]
    if o == "ext" and "." in v.args[0]:
        m = I.prog.ext.enum_members(v.args[0])
        if m:
            return [mk("enum", v.args[0], n, x) for n, x in m.items()]
    return None


def seq_len(I, st, v):
    v = strip(v)
    o = v.op
    if o == "ref":
        ob = st.get(v)
        if ob.kind == "list":
            n = const(0)
            for s in ob.f["segs"]:
                if s[0] == "it":
                    n = add(n, const(1))
                elif s[0] == "map":
                    n = add(n, s[1])
                else:
                    n = add(n, mk("len", s[1]))
            return n
        if ob.kind in ("dict", "set"):
            n = const(len(ob.f["items"]))
            r = ob.f.get("rest")
            return n if r is None else add(n, mk("len", r))
        if ob.kind == "bytearray":
            return blen(ob.f["v"])
        return mk("len", v)
    if o == "range":
        lo, hi, step = v.args
        if is_num(step) and numval(step) == 1:
            return sub(hi, lo)
        if is_num(step) and numval(step) == -1:
            return sub(lo, hi)
        k = known_items(I, st, v)
        return const(len(k)) if k is not None else mk("len", v)
    if o in ("enumerate", "reversed"):
        return seq_len(I, st, v.args[0])
    if o == "zip":
        ls = [seq_len(I, st, x) for x in v.args]
        if all(is_num(x) for x in ls):
            return const(min(numval(x) for x in ls))
        return ls[0] if len(set(ls)) == 1 else mk("len", v)
    if o in ("items", "values", "keys"):
        return seq_len(I, st, v.args[0])
    k = known_items(I, st, v)
    if k is not None:
        return const(len(k))
    return blen(v)


def elem_at(I, st, v, i):
    v = strip(v)
    o = v.op
    if o == "range":
        return add(v.args[0], bitop("*", i, v.args[2]) if not is_num(v.args[2]) else scale(i, numval(v.args[2])))
    if o == "enumerate":
        return mk("tup", add(v.args[1], i), elem_at(I, st, v.args[0], i))
    if o == "zip":
        return mk("tup", *[elem_at(I, st, x, i) for x in v.args])
    if o == "reversed":
        n = seq_len(I, st, v.args[0])
        return elem_at(I, st, v.args[0], sub(sub(n, const(1)), i))
    if o in ("items", "keys", "values"):
        k = mk("idx", mk("keys", v.args[0]), i)
        val = mk("idx", v.args[0], k)
        return {"items": mk("tup", k, val), "keys": k, "values": val}[o]
    if o == "ref":
        ob = st.get(v)
        if ob.kind == "list":
            segs = ob.f["segs"]
            if is_num(i):
                j = int(numval(i))
                if all(s[0] == "it" for s in segs):
                    if -len(segs) <= j < len(segs):
                        return segs[j][1]
                    return None
                k = 0
                if j >= 0:
                    for s in segs:
                        if s[0] == "it":
                            if k == j:
                                return s[1]
                            k += 1
                        else:
                            break
                    if k < len(segs) and j >= k and len(segs) == k + 1:
                        s = segs[k]
                        if s[0] == "map":
                            return subst(s[3], {s[2]: const(j - k)})
                        return mk("idx", s[1], const(j - k))
            if len(segs) == 1:
                s = segs[0]
                if s[0] == "map":
                    return subst(s[3], {s[2]: i})
                if s[0] in ("opq", "phi"):
                    return mk("idx", s[1], i)
            return mk("idx", v, i)
        if ob.kind == "bytearray":
            return bidx(ob.f["v"], i)
        if ob.kind in ("dict", "set"):
            return mk("idx", mk("keys", v), i)
        return mk("idx", v, i)
    r = bidx(v, i) if typ_of(v) in ("bytes", "seq", "tuple") or v.op in ("tup", "const") else mk("idx", v, i)
    return r


def iter_desc(I, st, it, cx, node):
    n = seq_len(I, st, it)

    def elem(s, i):
        e = elem_at(I, s, it, i)
        return e if e is not None else mk("idx", it, i)

    return n, elem


def loop_over(I, st, it, names, body, cx, node):
    """run synthetic statements for every element of it; names are bound in an inner frame"""
    from .interp import _CompCx, _copy_loc, Cx, RAISE
    fr = I.alloc(st, "frame", None, dict(names))
    st.w(fr).f["$parent"] = cx.frame
    ccx = _CompCx(Cx(None, fr, cx.module, cx.cls, cx.selfv, cx.depth, cx.stack, cx), cx)
    for b in body:
        for n in ast.walk(b):
            _copy_loc(n, node)
    f = ast.For(target=ast.Name(id="$x", ctx=ast.Store()), iter=ast.Constant(value=None), body=body, orelse=[])
    ast.copy_location(f, node)
    return [(s, v if k == RAISE else None, fr) for s, k, v in I.loop_for(f, it, st, ccx)]


# ------------------------------------------------------------- comparing
def same(I, st, a, b):
    """a == b: True, False or an atom"""
    a, b = strip(a), strip(b)
    if a is b:
        return True
    a, b = nt_tuple(st, a), nt_tuple(st, b)
    if a is NONE or b is NONE:
        o = b if a is NONE else a
        return is_none(st, o)
    if is_num(a) and is_num(b):
        return numval(a) == numval(b)
    if a.op == "const" and b.op == "const":
        return cval(a) == cval(b)
    for x, y in ((a, b), (b, a)):
        if x.op == "ref" and st.get(x).kind == "bytearray":
            return same(I, st, st.get(x).f["v"], y)
    ta, tb = typ_of(a), typ_of(b)
    if a.op == "tup" and b.op == "tup" or (
        a.op == "ref" and b.op == "ref" and st.get(a).kind == st.get(b).kind == "list"
    ):
        x, y = known_items(I, st, a), known_items(I, st, b)
        if x is not None and y is not None:
            if len(x) != len(y):
                return False
            rs = [same(I, st, p, q) for p, q in zip(x, y)]
            if any(r is False for r in rs):
                return False
            rs = [r for r in rs if r is not True]
            if not rs:
                return True
            r = rs[0]
            for q in rs[1:]:
                r = mk("not", mk("or", mk("not", r), mk("not", q)))
            return r
        return mk("eq", *sorted([a, b]))
    if a.op == "ref" and b.op == "ref":
        x, y = st.get(a), st.get(b)
        if x.kind == "inst" or y.kind == "inst":
            return _inst_eq(I, st, a, b)
        if x.kind != y.kind:
            return False
        if x.kind == "dict" and x.f.get("rest") is None and y.f.get("rest") is None:
            if len(x.f["items"]) != len(y.f["items"]):
                return False
        return mk("eq", *sorted([a, b]))
    for x, y in ((a, b), (b, a)):
        if x.op == "ref":
            ob = st.get(x)
            if ob.kind == "inst" and ob.cls is not None and ob.cls.op == "class":
                c, m = ob.cls.args[0].find("__eq__")
                if m is None and not ob.cls.args[0].ext_bases():
                    return False if y.op != "sym" and y.op != "attr" and y.op != "idx" else mk("eq", *sorted([a, b]))
            if ob.kind in ("list", "dict", "set") and y.op in ("const", "tup", "enum", "cat", "lin"):
                if ob.kind == "list" and typ_of(y) == "bytes":
                    return False
                return False
    conc = ("int", "bytes", "str", "tuple", "bool", "num", "none")
    if ta in conc and tb in conc:
        na, nb = ta in ("int", "num", "bool"), tb in ("int", "num", "bool")
        if na != nb:
            return False
        if not na and ta != tb:
            return False
    if ta == "bytes" and tb == "bytes":
        la, lb = blen(a), blen(b)
        e = eq0(sub(la, lb))
        if e is FALSE or st.decide(e) is False:
            return False
        n = const_len(a)
        if n is not None and n <= 64 and n == const_len(b):
            # byte by byte: one open difference decides
            open_ = []
            for i in range(n):
                x, y = bidx(a, const(i)), bidx(b, const(i))
                if x is None or y is None:
                    break
                e = eq0(sub(x, y))
                if e is FALSE or st.decide(e) is False:
                    return False
                if e is not TRUE and st.decide(e) is not True and e not in open_:
                    open_.append(e)
            else:
                if not open_:
                    return True
                if len(open_) == 1:
                    return open_[0]
        return mk("eq", *sorted([a, b]))
    if (ta in ("int", "num") or tb in ("int", "num")) and a.op not in ("func", "class", "tup") and b.op not in (
        "func", "class", "tup"
    ):
        e = eq0(sub(a, b))
        return cval(e) if is_const(e) else e
    funs = ("func", "class", "bound", "ext", "mod", "coro")
    if a.op in funs and b.op in funs:
        return False if a.op != "ext" and b.op != "ext" else mk("eq", *sorted([a, b])) if a.op == b.op else False
    return mk("eq", *sorted([a, b]))


def _inst_eq(I, st, a, b):
    x = st.get(a)
    if x.kind == "inst" and x.cls is not None and x.cls.op == "class":
        c, m = x.cls.args[0].find("__eq__")
        if m is not None:
            return mk("eq", *sorted([a, b]))
        if x.cls.args[0].is_dataclass:
            y = st.get(b)
            if y.cls is not x.cls:
                return False
            r = True
            for k in x.f:
                if k.startswith("$"):
                    continue
                e = same(I, st, x.f[k], y.f.get(k, NONE))
                if e is False:
                    return False
                if e is not True:
                    r = e if r is True else mk("not", mk("or", mk("not", r), mk("not", e)))
            return r
    return False


def is_none(st, v):
    v = strip(v)
    if v is NONE:
        return True
    if v.op in ("const", "enum", "ref", "func", "class", "bound", "ext", "mod", "tup", "eui", "coro", "partial",
                "extcoro", "meth", "waitfor", "range", "lin", "cat", "ecast", "super", "static", "device"):
        return False
    if typ_of(v) is not None:
        return False
    return mk("isnone", v)


def as_val(x):
    return const(x) if isinstance(x, bool) else x


def neg(x):
    if isinstance(x, bool):
        return const(not x)
    if is_const(x):
        return const(not cval(x))
    return x.args[0] if x.op == "not" else mk("not", x)


def contains(I, st, x, c):
    """x in c: True / False / atom"""
    c = strip(c)
    if c.op == "ref":
        ob = st.get(c)
        if ob.kind == "dict":
            r = _any_same(I, st, x, [k for k, _ in ob.f["items"]])
            rest = ob.f.get("rest")
            if r is True or rest is None:
                return r
            a = mk("in", strip(x), rest)
            return a if r is False else mk("or", r, a)
        if ob.kind == "inst" and ob.cls is not None and ob.cls.op == "class":
            return mk("in", strip(x), c)
    if c.op == "const" and isinstance(cval(c), (str, bytes)):
        if x.op == "const":
            try:
                return cval(x) in cval(c)
            except TypeError:
                return False
        if isinstance(cval(c), str):
            return mk("in", strip(x), c)
    items = known_items(I, st, c)
    if items is not None:
        return _any_same(I, st, x, items)
    if c.op == "ref" and st.get(c).kind == "list":
        r = False
        for s in st.get(c).f["segs"]:
            e = same(I, st, x, s[1]) if s[0] == "it" else mk("in", strip(x), mk("map", *s[1:]) if s[0] == "map" else s[1])
            if e is True:
                return True
            if e is not False:
                r = e if r is False else mk("or", r, e)
        return r
    if c.op in ("keys",):
        return contains(I, st, x, c.args[0])
    return mk("in", strip(x), c)


def _any_same(I, st, x, items):
    r = False
    for k in items:
        e = same(I, st, x, k)
        if e is True:
            return True
        if e is not False:
            r = e if r is False else mk("or", r, e)
    return r


def compare(I, st, op, a, b, cx, node):
    if op in ("Eq", "NotEq"):
        r = same(I, st, a, b)
        return [(st, as_val(r) if op == "Eq" else neg(r))]
    if op in ("Is", "IsNot"):
        if b is NONE or a is NONE:
            r = is_none(st, a if b is NONE else b)
        elif strip(a) is strip(b):
            r = True
        elif a.op in ("ref", "class", "func", "enum") and b.op in ("ref", "class", "func", "enum"):
            r = False
        elif a.op in ("const", "enum") and b.op in ("const", "enum"):
            r = a is b
        else:
            r = mk("is", *sorted([a, b]))
        return [(st, as_val(r) if op == "Is" else neg(r))]
    if op in ("In", "NotIn"):
        if b is NONE:
            return [(st, I.exc(st, "builtins.TypeError", const("argument of type 'NoneType' is not iterable")))]
        r = contains(I, st, a, b)
        return [(st, as_val(r) if op == "In" else neg(r))]
    a, b = strip(a), strip(b)
    if a is NONE or b is NONE:
        return [(st, I.exc(st, "builtins.TypeError", const("ordering comparison with None")))]
    if is_const(a) and is_const(b):
        x, y = cval(a), cval(b)
        try:
            r = {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]
        except TypeError:
            return [(st, I.exc(st, "builtins.TypeError"))]
        return [(st, const(r))]
    d = {"Lt": add(sub(b, a), const(-1)), "LtE": sub(b, a), "Gt": add(sub(a, b), const(-1)), "GtE": sub(a, b)}[op]
    return [(st, ge0(d))]


# ------------------------------------------------------------- operators
_OPS = {"BitAnd": "&", "BitOr": "|", "BitXor": "^", "LShift": "<<", "RShift": ">>", "FloorDiv": "//", "Mod": "%",
        "Pow": "**"}


def bytesval(st, v):
    v = strip(v)
    if v.op == "ref" and st.get(v).kind == "bytearray":
        return st.get(v).f["v"]
    return v


def binop(I, st, op, a, b, cx, node):
    a, b = strip(a), strip(b)
    ra, rb = a, b
    a, b = bytesval(st, a), bytesval(st, b)
    for x, y, nm in ((a, b, "__%s__"), (b, a, "__r%s__")):
        if x.op == "ref" and st.get(x).kind == "inst" and st.get(x).cls is not None and st.get(x).cls.op == "class":
            n = {"Add": "add", "Sub": "sub", "BitOr": "or", "BitAnd": "and", "BitXor": "xor", "Mult": "mul",
                 "LShift": "lshift", "RShift": "rshift"}.get(op)
            c, m = st.get(x).cls.args[0].find(nm % n)
            if m is not None:
                return I.call(st, mk("bound", m, x), [y], {}, cx, node)
    if a is NONE or b is NONE:
        if not (op == "Mod" and typ_of(a) == "str"):
            return [(st, I.exc(st, "builtins.TypeError", const("operand None")))]
    ta, tb = typ_of(a), typ_of(b)
    if op == "Add":
        if a.op == "tup" and b.op == "tup":
            return [(st, mk("tup", *(a.args + b.args)))]
        if "bytes" in (ta, tb):
            if ("int" in (ta, tb) or "str" in (ta, tb)):
                return [(st, I.exc(st, "builtins.TypeError", const("bytes + non-bytes")))]
            for x in (a, b):
                if x.op == "ref" and st.get(x).kind == "list":
                    return [(st, I.exc(st, "builtins.TypeError", const("bytes + list")))]
            if "seq" in (ta, tb):
                return [(st, I.exc(st, "builtins.TypeError", const("bytes + sequence")))]
            return [(st, mkcat(cat_pieces(a) + cat_pieces(b)))]
        if "str" in (ta, tb):
            if is_const(a) and is_const(b) and ta == tb:
                return [(st, const(cval(a) + cval(b)))]
            if "int" in (ta, tb):
                return [(st, I.exc(st, "builtins.TypeError"))]
            return [(st, mk("str", "+", a, b))]
        la, lb = _segs(I, st, a), _segs(I, st, b)
        if la is not None and lb is not None:
            return [(st, I.alloc(st, "list", None, {"segs": la + lb}))]
        if a.op in ("ref", "tup", "class", "func") or b.op in ("ref", "tup", "class", "func"):
            return [(st, mk("bin", "+", a, b))]
        return [(st, add(a, b))]
    if op == "Sub":
        if a.op == "ref" or b.op == "ref":
            x, y = known_items(I, st, a), known_items(I, st, b)
            if x is not None and y is not None:
                return [(st, I.alloc(st, "set", None, {"items": tuple(i for i in x if i not in y), "rest": None}))]
            return [(st, mk("bin", "-", a, b))]
        return [(st, sub(a, b))]
    if op == "Mult":
        for x, y in ((a, b), (b, a)):
            if is_num(y):
                n = int(numval(y)) if not isinstance(numval(y), float) else None
                if x.op == "const" and isinstance(cval(x), (bytes, str)):
                    return [(st, const(cval(x) * n))]
                if x.op == "ref" and st.get(x).kind == "list":
                    return [(st, I.alloc(st, "list", None, {"segs": st.get(x).f["segs"] * n}))]
                if x.op == "tup":
                    return [(st, mk("tup", *(x.args * n)))]
                if typ_of(x) == "bytes":
                    return [(st, mkcat(cat_pieces(x) * n))]
                return [(st, scale(x, numval(y)))]
        if ta == "bytes" or tb == "bytes":
            x, y = (a, b) if ta == "bytes" else (b, a)
            return [(st, flatmap(y, sym("$m", "nat"), x))]
        x, y = sorted([a, b])
        return [(st, mk("bin", "*", x, y))]
    if op == "Div":
        if is_num(b):
            if numval(b) == 0:
                return [(st, I.exc(st, "builtins.ZeroDivisionError"))]
            from fractions import Fraction
            k = numval(b)
            k = Fraction(1) / (Fraction(str(k)) if isinstance(k, float) else Fraction(k))
            return [(st, scale(a, k))]
        return [(st, mk("bin", "/", a, b))]
    if op == "Mod" and ta == "bytes":
        r = _bytes_percent(I, st, a, b, cx, node)
        if r is not None:
            return r
        st.note("unmodelled %-format of bytes")
        return [(st, mk("bin", "%", a, b))]
    if op == "Mod" and ta == "str":
        if a.op == "const":
            args = b.args if b.op == "tup" else (b,)
            if all(x.op == "const" for x in args):
                try:
                    return [(st, const(cval(a) % tuple(cval(x) for x in args)))]
                except (TypeError, ValueError):
                    pass
        return [(st, mk("str", "%", a, b))]
    if op in _OPS:
        if a.op == "ref" or b.op == "ref":
            x, y = known_items(I, st, a), known_items(I, st, b)
            if x is not None and y is not None and op in ("BitOr", "BitAnd"):
                if a.op == "ref" and st.get(a).kind == "dict":
                    d = I.dict_(st, [])
                    for src in (a, b):
                        for k, val in st.get(src).f["items"]:
                            dict_put(I, st, d, k, val)
                    return [(st, d)]
                its = tuple(dict.fromkeys(x + y)) if op == "BitOr" else tuple(i for i in x if i in y)
                return [(st, I.alloc(st, "set", None, {"items": its, "rest": None}))]
            return [(st, mk("bin", _OPS[op], a, b))]
        if a.op in ("ext", "class") or b.op in ("ext", "class"):
            return [(st, mk("bin", _OPS[op], a, b))]
        if op in ("FloorDiv", "Mod") and is_num(b) and numval(b) == 0:
            return [(st, I.exc(st, "builtins.ZeroDivisionError"))]
        if op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
            for x in (a, b):
                if typ_of(x) in ("bytes", "str"):
                    return [(st, I.exc(st, "builtins.TypeError"))]
        if op == "BitOr":
            r = _disjoint_or(a, b)
            if r is not None:
                return [(st, r)]
        return [(st, bitop(_OPS[op], a, b))]
    return [(st, mk("bin", op, a, b))]


def _bytes_percent(I, st, a, b, cx, node):
    """bytes formatting with %c, %b, %s and %%"""
    if a.op != "const":
        return None
    args = list(b.args) if b.op == "tup" else [b]
    ps, i, f = [], 0, cval(a)
    while i < len(f):
        j = f.find(b"%", i)
        if j < 0:
            j = len(f)
        if j > i:
            ps.append(const(f[i:j]))
        if j == len(f):
            break
        k = f[j + 1:j + 2]
        i = j + 2
        if k == b"%":
            ps.append(const(b"%"))
            continue
        if k not in (b"c", b"b", b"s"):
            return None
        if not args:
            return [(st, I.exc(st, "builtins.TypeError"))]
        x = bytesval(st, strip(args.pop(0)))
        if typ_of(x) == "bytes":
            ps += cat_pieces(x)
        elif k == b"c":
            r = to_bytes_value(I, st, [I.list_(st, [x])], cx, node)
            if isinstance(r, list):
                return r
            ps += cat_pieces(r)
        else:
            return [(st, I.exc(st, "builtins.TypeError"))] if typ_of(x) in ("int", "str") else None
    if args:
        return [(st, I.exc(st, "builtins.TypeError"))]
    return [(st, mkcat(ps))]


def _lowbits(t):
    """number of zero low-order bits of a term"""
    t = strip(t)
    if is_num(t):
        v = int(numval(t))
        return 64 if v == 0 else (v & -v).bit_length() - 1
    if t.op == "lin":
        k = t.args[0]
        n = 64 if k == 0 else (k & -k).bit_length() - 1 if isinstance(k, int) else 0
        for a, c in t.args[1]:
            if not isinstance(c, int):
                return 0
            n = min(n, (c & -c).bit_length() - 1 + _lowbits(a))
        return n
    if t.op == "bin" and t.args[0] == "&" and is_num(t.args[2]):
        m = int(numval(t.args[2]))
        return 64 if m == 0 else (m & -m).bit_length() - 1
    return 0


def _hi(t):
    t = strip(t)
    m = maxval(t)
    if m is not None:
        return m
    if t.op == "lin" and all(isinstance(c, int) and c > 0 for _, c in t.args[1]) and isinstance(t.args[0], int) and t.args[0] >= 0:
        r = t.args[0]
        for a, c in t.args[1]:
            x = _hi(a)
            if x is None:
                return None
            r += c * x
        return r
    return None


def _disjoint_or(a, b):
    """x | y == x + y when no bit is in both"""
    for x, y in ((a, b), (b, a)):
        h, l = _hi(x), _lowbits(y)
        if h is not None and h < (1 << l):
            return add(x, y)
    return None


def _segs(I, st, v):
    if v.op == "ref" and st.get(v).kind == "list":
        return st.get(v).f["segs"]
    if typ_of(v) == "list":
        return (("opq", v),)
    return None


# ------------------------------------------------------------ subscripts
def dict_put(I, st, d, k, v):
    ob = st.w(d)
    items = list(ob.f["items"])
    for i, (k2, _) in enumerate(items):
        if same(I, st, k, k2) is True:
            items[i] = (k2, v)
            break
    else:
        items.append((k, v))
    ob.f["items"] = tuple(items)
    of = ob.f.get("$of")
    if of is not None and is_const(strip(k)):
        st.w(of).f[cval(strip(k))] = v


def write_back(st, d):
    """an attribute dictionary lost entries: so does its object"""
    ob = st.get(d)
    of = ob.f.get("$of")
    if of is None:
        return
    names = {cval(strip(k)) for k, _ in ob.f["items"] if is_const(strip(k))}
    gone = [n for n in st.get(of).f if not n.startswith("$") and n not in names]
    if gone:
        o = st.w(of)
        for n in gone:
            del o.f[n]


def dict_lookup(I, st, d, key):
    """[(state, value | None for a missing key)]"""
    ob = st.get(d)
    out = []
    cur = st
    und = []
    for k, v in ob.f["items"]:
        e = same(I, cur, key, k)
        if e is not True and e is not False:
            e2 = cur.decide(e)
            if e2 is not None:
                e = e2
        if e is True:
            return out + [(cur, v)] if not und else _fork_lookup(I, cur, und, v)
        if e is not False:
            und.append((e, v))
    rest = ob.f.get("rest")
    dflt = None
    if rest is not None:
        a = mk("in", strip(key), rest)
        dflt = None if cur.decide(a) is False else mk("idx", rest, strip(key))
    if not und:
        return [(cur, dflt)]
    return _fork_lookup(I, cur, und, dflt)


def _fork_lookup(I, st, und, dflt):
    out = []
    cur = [st]
    for e, v in und[:24]:
        nxt = []
        for s in cur:
            for s2, b in I.branch(s, e):
                if b:
                    out.append((s2, v))
                else:
                    nxt.append(s2)
        cur = nxt
    if len(und) > 24:
        for s in cur:
            s.note("lookup with unknown key in a large table")
    return out + [(s, dflt) for s in cur]


def fork_index(I, st, items, k):
    """a condition or a small unknown number as index of a short sequence"""
    if not 1 <= len(items) <= 4 or is_num(k):
        return None
    if typ_of(k) == "bool":
        out = []
        for s, b in I.branch(st, k):
            out.append((s, items[int(b)]) if int(b) < len(items) else (s, I.exc(s, "builtins.IndexError")))
        return out
    return None


def getitem(I, st, b, k, cx, node):
    if k.op == "sliceobj":
        return getslice(I, st, b, k.args[0], k.args[1], k.args[2], cx, node)
    if b is NONE:
        return [(st, I.exc(st, "builtins.TypeError", const("'NoneType' object is not subscriptable")))]
    b = nt_tuple(st, strip(b))
    if b.op in ("ext", "class") and not (b.op == "class" and b.args[0].is_enum):
        if b.op == "ext" and b.args[0].split(".")[0] not in ("os",):
            return [(st, b)]
        return [(st, b)]
    if b.op == "class":
        m = b.args[0].members.get(cval(k)) if k.op == "const" else None
        if m is not None:
            return [(st, m)]
        if k.op == "const":
            return [(st, I.exc(st, "builtins.KeyError", k))]
        return [(st, mk("idx", b, k))]
    if b.op == "ref":
        ob = st.get(b)
        if ob.kind == "dict":
            out = []
            for s, v in dict_lookup(I, st, b, k):
                out.append((s, v if v is not None else I.exc(s, "builtins.KeyError", k)))
            return out
        if ob.kind == "inst" and ob.cls is not None and ob.cls.op == "class":
            c, m = ob.cls.args[0].find("__getitem__")
            if m is not None:
                return I.call(st, mk("bound", m, b), [k], {}, cx, node)
        if ob.kind == "bytearray":
            return getitem(I, st, ob.f["v"], k, cx, node)
        if ob.kind == "list":
            items = known_items(I, st, b)
            kk = strip(k)
            if items is not None and is_num(kk):
                i = int(numval(kk))
                if -len(items) <= i < len(items):
                    return [(st, items[i])]
                return [(st, I.exc(st, "builtins.IndexError"))]
            if items is not None:
                r = fork_index(I, st, items, kk)
                if r is not None:
                    return r
            v = elem_at(I, st, b, kk)
            if v is None:
                return [(st, I.exc(st, "builtins.IndexError"))]
            return [(st, v)]
        return [(st, mk("idx", b, k))]
    kk = strip(k)
    if b.op == "tup" and not is_const(kk):
        r = fork_index(I, st, list(b.args), kk)
        if r is not None:
            return r
    if b.op == "tup" or typ_of(b) in ("bytes", "seq") or (b.op == "const" and isinstance(cval(b), (bytes, str, tuple))):
        if is_const(kk) and not is_num(kk):
            return [(st, I.exc(st, "builtins.TypeError"))]
        n = blen(b) if typ_of(b) != "str" else const(len(cval(b))) if b.op == "const" else None
        if n is not None and typ_of(b) != "seq":
            ok = ge0(add(sub(n, kk), const(-1)))
            if is_num(kk) and numval(kk) < 0:
                ok = ge0(add(n, kk))
            d = st.decide(ok)
            if d is False:
                return [(st, I.exc(st, "builtins.IndexError"))]
            if d is None and I.hooks.get("strict_index"):
                out = []
                for s, bl in I.branch(st, ok):
                    if bl:
                        r = bidx(b, kk)
                        out.append((s, r if r is not None else mk("idx", b, kk)))
                    else:
                        out.append((s, I.exc(s, "builtins.IndexError")))
                return out
        r = bidx(b, kk)
        if r is None:
            return [(st, I.exc(st, "builtins.IndexError"))]
        return [(st, r)]
    if b.op == "enum" or typ_of(b) == "int":
        return [(st, I.exc(st, "builtins.TypeError"))]
    h = I.hooks.get("getitem")
    if h:
        r = h(I, st, b, k, cx, node)
        if r is not None:
            return r
    if (b, "[]", kk) in st.oattrs:
        return [(st, st.oattrs[(b, "[]", kk)])]
    if st.decide(mk("in", kk, b)) is False:
        return [(st, I.exc(st, "builtins.KeyError", k))]
    return [(st, mk("idx", b, kk))]


def getslice(I, st, v, lo, hi, step, cx, node):
    v = nt_tuple(st, strip(v))
    if v.op == "ref" and st.get(v).kind == "bytearray":
        v = st.get(v).f["v"]
    if v is NONE:
        return [(st, I.exc(st, "builtins.TypeError"))]
    lo0, hi0 = lo, hi
    lo = const(0) if lo is NONE else strip(lo)
    hi = None if hi is NONE else strip(hi)
    if step is not NONE and step is not const(1):
        items = known_items(I, st, v)
        if items is not None and is_num(step) and (is_num(lo)) and (hi is None or is_num(hi)):
            its = items[slice(None if lo0 is NONE else int(numval(lo)), None if hi is None else int(numval(hi)), int(numval(step)))]
            if typ_of(v) == "bytes":
                return [(st, mkcat([mk("b", x) for x in its]))]
            if v.op == "tup":
                return [(st, mk("tup", *its))]
            return [(st, I.list_(st, its))]
        if typ_of(v) == "bytes" or typ_of(v) == "seq":
            return [(st, mk("slicestep", v, lo, hi if hi is not None else NONE, step))]
        return [(st, mk("slicestep", v, lo, hi if hi is not None else NONE, step))]
    if v.op == "ref" and st.get(v).kind == "list":
        items = known_items(I, st, v)
        if items is not None and is_num(lo) and (hi is None or is_num(hi)):
            return [(st, I.list_(st, items[slice(int(numval(lo)), None if hi is None else int(numval(hi)))]))]
        if lo is const(0) and hi is None:
            return [(st, I.alloc(st, "list", None, {"segs": st.get(v).f["segs"]}))]
        return [(st, I.fresh("listslice", "list"))]
    if v.op == "tup":
        if is_num(lo) and (hi is None or is_num(hi)):
            return [(st, mk("tup", *v.args[slice(int(numval(lo)), None if hi is None else int(numval(hi)))]))]
        return [(st, mk("slice", v, lo, hi if hi is not None else NONE))]
    if v.op == "const" and isinstance(cval(v), str):
        if is_num(lo) and (hi is None or is_num(hi)):
            return [(st, const(cval(v)[int(numval(lo)): None if hi is None else int(numval(hi))]))]
    if typ_of(v) == "str":
        return [(st, mk("str", "slice", v, lo, hi if hi is not None else NONE))]
    if v.op == "eui":
        v = v.args[0]
    if typ_of(v) in ("bytes",) or v.op in ("cat", "slice", "b"):
        # clamp against known bounds
        n = blen(v)
        if hi is not None:
            d = st.decide(ge0(sub(n, hi)))
            if d is False:
                hi = n
        if st.decide(ge0(sub(n, lo))) is False:
            return [(st, const(b""))]
        return [(st, bslice(v, lo, hi))]
    if typ_of(v) == "list":
        return [(st, mk("slice", v, lo, hi if hi is not None else NONE))]
    return [(st, bslice(v, lo, hi))]


def setitem(I, st, b, k, v, cx, node):
    if b is NONE:
        return [(st, I.exc(st, "builtins.TypeError"))]
    if b.op == "ref":
        ob = st.get(b)
        if ob.kind == "dict":
            rest = ob.f.get("rest")
            dict_put(I, st, b, k, v)
            st.emit(Ev("setitem", cx.loc(node), obj=b, key=k, value=v))
            return [(st, NONE)]
        if ob.kind == "list":
            items = known_items(I, st, b)
            if items is not None and is_num(strip(k)):
                i = int(numval(strip(k)))
                if not -len(items) <= i < len(items):
                    return [(st, I.exc(st, "builtins.IndexError"))]
                items[i] = v
                st.w(b).f["segs"] = tuple(("it", x) for x in items)
            else:
                st.w(b).f["segs"] = (("opq", I.fresh("list", "list")),)
            return [(st, NONE)]
        if ob.kind == "bytearray":
            its = known_items(I, st, b)
            if its is not None and is_num(strip(k)) and -len(its) <= numval(strip(k)) < len(its):
                its[int(numval(strip(k)))] = v
                st.w(b).f["v"] = mkcat([mk("b", strip(x)) for x in its])
            else:
                st.w(b).f["v"] = I.fresh("bytearray", "bytes")
            return [(st, NONE)]
        if ob.kind == "inst" and ob.cls is not None and ob.cls.op == "class":
            c, m = ob.cls.args[0].find("__setitem__")
            if m is not None:
                return I.call(st, mk("bound", m, b), [k, v], {}, cx, node)
    st.oattrs[(b, "[]", strip(k))] = v
    st.emit(Ev("setitem", cx.loc(node), obj=b, key=k, value=v))
    return [(st, NONE)]


def delitem(I, st, b, k, cx, node):
    if b.op == "ref":
        ob = st.get(b)
        if ob.kind == "bytearray" and k.op == "sliceobj":
            v = ob.f["v"]
            lo = const(0) if k.args[0] is NONE else strip(k.args[0])
            if k.args[1] is NONE:
                st.w(b).f["v"] = bslice(v, const(0), lo)
            else:
                st.w(b).f["v"] = mkcat(
                    cat_pieces(bslice(v, const(0), lo)) + cat_pieces(bslice(v, strip(k.args[1]), None))
                )
            return [(st, NONE)]
        if ob.kind == "list":
            items = known_items(I, st, b)
            if items is not None and k.op == "sliceobj" and all(x is NONE or is_num(x) for x in k.args):
                del items[slice(*[None if x is NONE else int(numval(x)) for x in k.args])]
            elif items is not None and is_num(strip(k)):
                try:
                    del items[int(numval(strip(k)))]
                except IndexError:
                    return [(st, I.exc(st, "builtins.IndexError"))]
            else:
                st.w(b).f["segs"] = (("opq", I.fresh("list", "list")),)
                return [(st, NONE)]
            st.w(b).f["segs"] = tuple(("it", x) for x in items)
            return [(st, NONE)]
        if ob.kind == "dict":
            out = []
            for s, v in dict_pop(I, st, b, k, cx, node):
                out.append((s, I.exc(s, "builtins.KeyError", k) if v is None else NONE))
            return out
    st.emit(Ev("delitem", cx.loc(node), obj=b, key=k))
    return [(st, NONE)]


def dict_pop(I, st, d, key, cx, node):
    """[(state, removed value | None)]"""
    out = []
    cur = [st]
    for k, v in st.get(d).f["items"]:
        nxt = []
        for s in cur:
            e = same(I, s, key, k)
            if e is True or e is False:
                res = [(s, e)]
            else:
                res = I.branch(s, e)
            for s2, bl in res:
                if bl:
                    o = s2.w(d)
                    o.f["items"] = tuple(x for x in o.f["items"] if x[0] is not k)
                    write_back(s2, d)
                    s2.emit(Ev("dictpop", cx.loc(node), obj=d, key=k, value=v))
                    out.append((s2, v))
                else:
                    nxt.append(s2)
        cur = nxt
    rest = st.get(d).f.get("rest")
    for s in cur:
        if rest is None:
            out.append((s, None))
        else:
            for s2, bl in I.branch(s, mk("in", strip(key), rest)):
                if bl:
                    s2.emit(Ev("dictpop", cx.loc(node), obj=d, key=key, value=mk("idx", rest, strip(key))))
                    out.append((s2, mk("idx", rest, strip(key))))
                else:
                    out.append((s2, None))
    return out


# ------------------------------------------------------------- ext calls
_WIDTH = {
    "uint8_t": 1, "uint16_t": 2, "uint24_t": 3, "uint32_t": 4, "uint64_t": 8, "NWK": 2, "PanId": 2, "Channels": 4,
    "Bool": 1, "enum8": 1, "enum16": 2, "bitmap8": 1, "bitmap16": 2, "bitmap32": 4, "Group": 2, "GroupId": 2,
    "BroadcastAddress": 2, "HexRepr": 2, "int8s": 1, "int16s": 2,
}
_BYTESEQ = ("EUI64", "ExtendedPanId", "KeyData")


# functions whose result no model could know: leaving them unknown loses nothing
OPAQUE = {
    "zigpy.config.CONFIG_SCHEMA.extend", "zigpy.config.ZIGPY_SCHEMA.extend", "builtins.input", "builtins.open", "os.urandom", "os.getpid", "os.getenv", "os.environ.get",
    "builtins.id", "builtins.hash",
}
OPAQUE_MODULES = {"random", "time", "datetime", "secrets", "uuid", "zigpy", "serial", "serial_asyncio", "voluptuous", "socket", "os",
                  "sys", "traceback", "logging", "gc", "threading", "coloredlogs", "pprint", "platform", "typing"}


def _const_all(vs):
    return all(v.op == "const" for v in vs)


def call_ext(I, st, q, args, kwargs, cx, node):
    q = canon(q)
    h = I.hooks.get("ext:" + q)
    if h:
        r = h(I, st, q, args, kwargs, cx, node)
        if r is not None:
            return r
    f = EXT.get(q)
    if f is not None:
        r = f(I, st, args, kwargs, cx, node)
        if r is not None:
            return r
    if q.startswith("logging."):
        return [(st, mk("ext", "logging.LOGGER") if q.endswith("getLogger") or q.endswith("getChild") else NONE)]
    if is_exc_name(q):
        o = {"args": mk("tup", *args)}
        return [(st, I.alloc(st, "inst", mk("ext", q), o))]
    parts = q.split(".")
    if parts[0] == "zigpy" and parts[-1] in _WIDTH and len(args) == 1:
        a = strip(args[0])
        if a is NONE:
            return [(st, I.exc(st, "builtins.TypeError"))]
        return [(st, mk("cast", "zigpy.types." + parts[-1], a))]
    if parts[0] == "zigpy" and parts[-1] in _BYTESEQ and len(args) == 1:
        return [(st, _eui(I, st, args[0]))]
    if parts[0] == "zigpy" and q.endswith("EUI64.convert") and args and args[0].op == "const":
        try:
            bs = bytes(int(x, 16) for x in cval(args[0]).split(":"))[::-1]
            return [(st, mk("eui", const(bs)))]
        except ValueError:
            return [(st, I.exc(st, "builtins.ValueError"))]
    if q.endswith(".deserialize") and parts[0] == "zigpy" and parts[-2] in _WIDTH and args:
        w = _WIDTH[parts[-2]]
        v = bytesval(st, args[0])
        return [(st, mk("tup", mk("cast", "zigpy.types." + parts[-2], fromle(bslice(v, const(0), const(w)))),
                        bslice(v, const(w), None)))]
    if q.endswith(".deserialize") and parts[0] == "zigpy" and parts[-2] in _BYTESEQ and args:
        w = 16 if parts[-2] == "KeyData" else 8
        v = bytesval(st, args[0])
        return [(st, mk("tup", mk("eui", bslice(v, const(0), const(w))), bslice(v, const(w), None)))]
    last = parts[-1]
    if q in CORO:
        return [(st, mk("extcoro", q, tuple(args), tuple(sorted(kwargs.items())), cx.loc(node)))]
    if (last[:1].isupper() or parts[0] == "contextlib") and q not in EXT:
        o = {"args": mk("tup", *args)}
        for k, v in kwargs.items():
            o["$kw_" + k] = v
        st.emit(Ev("new", cx.loc(node), cls=q, args=tuple(args), kwargs=dict(kwargs)))
        return [(st, I.alloc(st, "inst", mk("ext", q), o))]
    if q not in OPAQUE and parts[0] not in OPAQUE_MODULES:
        TAINT.setdefault("library call " + q, cx.loc(node))
    st.emit(Ev("call", cx.loc(node), fn=q, args=tuple(args), kwargs=dict(kwargs)))
    return I.opaque_results(st, "ret:" + q, cx, node)


def _eui(I, st, v):
    v = bytesval(st, v)
    if v.op == "eui":
        return v
    if typ_of(v) == "bytes":
        return mk("eui", v)
    its = known_items(I, st, v)
    if its is not None:
        return mk("eui", mkcat([mk("b", byte_of(x, 0)) for x in its]))
    return mk("eui", mk("bytesof", v))


EXT = {}
CORO = {
    "asyncio.sleep", "serial_asyncio.create_serial_connection", "asyncio.gather", "asyncio.wait",
    "asyncio.open_connection", "serial_asyncio.open_serial_connection",
}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f

    return deco


def _arg(args, kwargs, i, name, default=NONE):
    if len(args) > i:
        return args[i]
    return kwargs.get(name, default)


@ext("builtins.len")
def _len(I, st, a, k, cx, node):
    v = nt_tuple(st, strip(a[0]))
    if v is NONE or typ_of(v) in ("int", "bool"):
        return [(st, I.exc(st, "builtins.TypeError", const("object has no len()")))]
    if v.op == "ref" and st.get(v).kind == "inst" and st.get(v).cls is not None and st.get(v).cls.op == "class":
        c, m = st.get(v).cls.args[0].find("__len__")
        if m is not None:
            return I.call(st, mk("bound", m, v), [], {}, cx, node)
        return [(st, I.exc(st, "builtins.TypeError"))] if not st.get(v).cls.args[0].ext_bases() else [(st, mk("len", v))]
    return [(st, seq_len(I, st, v))]


@ext("builtins.print", "builtins.repr_", "gc.collect")
def _noop(I, st, a, k, cx, node):
    return [(st, NONE)]


@ext("builtins.bytes", "builtins.bytearray")
def _bytes(I, st, a, k, cx, node, mutable=False):
    r = to_bytes_value(I, st, a, cx, node)
    if isinstance(r, list):
        return r
    return [(st, r)]


def _bytearray(I, st, a, k, cx, node):
    r = to_bytes_value(I, st, a, cx, node)
    if isinstance(r, list):
        return r
    return [(st, I.alloc(st, "bytearray", None, {"v": r}))]


EXT["builtins.bytearray"] = _bytearray


@ext("builtins.memoryview")
def _memoryview(I, st, a, k, cx, node):
    return [(st, bytesval(st, a[0]))]


def to_bytes_value(I, st, a, cx, node=None):
    if not a:
        return const(b"")
    v = bytesval(st, a[0])
    if v is NONE:
        return [(st, I.exc(st, "builtins.TypeError"))]
    if v.op == "const" and isinstance(cval(v), str):
        return const(cval(v).encode())
    if typ_of(v) == "bytes":
        return v
    if v.op == "eui":
        return v.args[0]
    if is_num(v):
        return const(bytes(int(numval(v)))) if numval(v) >= 0 else [(st, I.exc(st, "builtins.ValueError"))]
    items = known_items(I, st, v)
    if items is not None:
        ps = []
        for x in items:
            x = strip(x)
            if is_num(x):
                if not 0 <= numval(x) <= 255:
                    return [(st, I.exc(st, "builtins.ValueError", const("byte out of range")))]
            elif x is NONE or typ_of(x) in ("bytes", "str"):
                return [(st, I.exc(st, "builtins.TypeError"))]
            else:
                lo, hi = st.interval(x)
                if hi is not None and lo is not None and (hi < 0 or lo > 255):
                    return [(st, I.exc(st, "builtins.ValueError"))]
                if not (lo is not None and lo >= 0 and hi is not None and hi <= 255):
                    st.emit(Ev("fits", cx.loc(node), value=x, width=1))
            ps.append(mk("b", x))
        return mkcat(ps)
    if v.op == "ref" and st.get(v).kind == "list":
        ps = []
        for s in st.get(v).f["segs"]:
            if s[0] == "it":
                ps.append(mk("b", strip(s[1])))
            elif s[0] == "map":
                ps.append(flatmap(s[1], s[2], mkcat([mk("b", strip(s[3]))])))
            else:
                ps.append(mk("bytesof", s[1]))
        return mkcat(ps)
    if v.op == "map":
        return flatmap(v.args[0], v.args[1], mkcat([mk("b", strip(v.args[2]))]))
    if v.op == "slice" or v.op == "slicestep":
        return mk("bytesof", v)
    return mk("bytesof", v)


@ext("builtins.int")
def _int(I, st, a, k, cx, node):
    if not a:
        return [(st, const(0))]
    v = strip(a[0])
    if v is NONE:
        return [(st, I.exc(st, "builtins.TypeError", const("int() argument None")))]
    if v.op == "const" and isinstance(cval(v), (str, bytes)):
        try:
            base = int(numval(a[1])) if len(a) > 1 else 10
            return [(st, const(int(cval(v), base) if len(a) > 1 else int(cval(v))))]
        except ValueError:
            return [(st, I.exc(st, "builtins.ValueError", v))]
    if is_num(v):
        return [(st, const(int(numval(v))))]
    if v.op == "ref" or typ_of(v) in ("seq", "list", "tuple", "dict"):
        return [(st, I.exc(st, "builtins.TypeError"))]
    if typ_of(v) == "bytes":
        return [(st, I.exc(st, "builtins.ValueError"))]
    if typ_of(v) == "str":
        return [(st, I.fresh("int", "int"))]
    return [(st, v)]


@ext("builtins.float")
def _float(I, st, a, k, cx, node):
    return [(st, strip(a[0]) if a else const(0.0))]


@ext("builtins.bool")
def _bool(I, st, a, k, cx, node):
    if not a:
        return [(st, FALSE)]
    return [(s, const(b)) for s, b in I.branch(st, a[0])]


@ext("builtins.str", "builtins.repr", "builtins.ascii", "builtins.hex", "builtins.bin", "builtins.format",
     "builtins.oct", "binascii.hexlify", "builtins.chr")
def _str(I, st, a, k, cx, node):
    if not a:
        return [(st, const(""))]
    v = strip(a[0])
    fn = getattr(node, "func", None)
    nm = fn.id if isinstance(fn, ast.Name) else None
    if v.op == "const" and nm in ("str", "repr", "hex", "bin", "chr", "oct") and len(a) == 1:
        try:
            return [(st, const({"str": str, "repr": repr, "hex": hex, "bin": bin, "chr": chr, "oct": oct}[nm](cval(v))))]
        except (TypeError, ValueError):
            pass
    return [(st, mk("str", nm or "str", v))]


@ext("builtins.ord")
def _ord(I, st, a, k, cx, node):
    v = strip(a[0])
    if v.op == "const":
        return [(st, const(ord(cval(v))))]
    if typ_of(v) == "bytes":
        return [(st, bidx(v, const(0)))]
    return [(st, I.fresh("ord", "int"))]


@ext("builtins.abs")
def _abs(I, st, a, k, cx, node):
    v = strip(a[0])
    return [(st, const(abs(numval(v))) if is_num(v) else mk("abs", v))]


@ext("builtins.round", "math.floor", "math.ceil", "math.trunc")
def _round(I, st, a, k, cx, node):
    v = strip(a[0])
    return [(st, v if typ_of(v) == "int" else mk("round", v))]


@ext("builtins.divmod")
def _divmod(I, st, a, k, cx, node):
    x, y = strip(a[0]), strip(a[1])
    return [(st, mk("tup", bitop("//", x, y), bitop("%", x, y)))]


@ext("builtins.pow")
def _pow(I, st, a, k, cx, node):
    return [(st, bitop("**", strip(a[0]), strip(a[1])))]


def sort_items(I, st, items, k, cx, node):
    """(state, sorted items) when the order is decided, else None"""
    rev = strip(k.get("reverse", FALSE))
    if not is_const(rev):
        return None
    keys = []
    kf = k.get("key", NONE)
    for x in items:
        if kf is NONE:
            keys.append(strip(x))
            continue
        r = I.call(st, kf, [x], {}, cx, node)
        if len(r) != 1 or isinstance(r[0][1], Raise):
            return None
        st = r[0][0]
        keys.append(strip(r[0][1]))

    def before(a, b):
        """a < b, None when unknown"""
        if a is b:
            return False
        if a.op == "tup" and b.op == "tup":
            for x, y in zip(a.args, b.args):
                x, y = strip(x), strip(y)
                if x is y:
                    continue
                if same(I, st, x, y) is True:
                    continue
                return before(x, y)
            return len(a.args) < len(b.args)
        if is_num(a) and is_num(b):
            return numval(a) < numval(b)
        if is_const(a) and is_const(b) and type(cval(a)) is type(cval(b)) and isinstance(cval(a), (str, bytes, bool)):
            return cval(a) < cval(b)
        if typ_of(a) in ("int", "bool") and typ_of(b) in ("int", "bool"):
            d = st.decide(ge0(sub(a, b)))
            return None if d is None else not d
        return None

    order = []
    for i in range(len(items)):
        j = len(order)
        while j > 0:
            lt = before(keys[order[j - 1]], keys[i]) if cval(rev) else before(keys[i], keys[order[j - 1]])
            if lt is None:
                return None
            if not lt:
                break
            j -= 1
        order.insert(j, i)
    return st, [items[i] for i in order]


@ext("collections.deque")
def _deque(I, st, a, k, cx, node):
    """a queue is a list; one with a bound drops its other end"""
    m = a[1] if len(a) > 1 else k.get("maxlen", NONE)
    out = _list(I, st, a[:1], {}, cx, node)
    for s, r in out:
        if is_num(strip(m)) and numval(strip(m)) > 0 and not isinstance(r, Raise) and r.op == "ref":
            s.w(r).f["maxlen"] = strip(m)
    return out


@ext("builtins.list", "builtins.iter", "builtins.sorted", "copy.copy", "copy.deepcopy")
def _list(I, st, a, k, cx, node, nm=None):
    if not a:
        return [(st, I.list_(st, []))]
    v = strip(a[0])
    fn = getattr(node, "func", None)
    nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
    if v is NONE:
        return [(st, I.exc(st, "builtins.TypeError"))]
    if nm in ("copy", "deepcopy"):
        if v.op == "ref":
            o = st.get(v)
            return [(st, I.alloc(st, o.kind, o.cls, dict(o.f)))]
        return [(st, v)]
    if v.op == "ref" and st.get(v).kind == "list" and nm != "sorted":
        return [(st, I.alloc(st, "list", None, {"segs": st.get(v).f["segs"]}))]
    items = known_items(I, st, v)
    if items is not None:
        if nm == "sorted":
            got = sort_items(I, st, items, k, cx, node)
            if got is not None:
                st, items = got
            elif len(items) > 1:
                return [(st, I.alloc(st, "list", None, {"segs": (("opq", I.fresh("sorted", "list")),)}))]
        return [(st, I.list_(st, items))]
    n = seq_len(I, st, v)
    if v.op in ("range", "enumerate", "zip", "reversed", "items", "keys", "values") or typ_of(v) in ("bytes", "seq"):
        iv = sym("$i%d" % I.newid(), "nat")
        return [(st, I.alloc(st, "list", None, {"segs": (("map", n, iv, elem_at(I, st, v, iv)),)}))]
    if nm == "sorted":
        return [(st, I.alloc(st, "list", None, {"segs": (("opq", I.fresh("sorted", "list")),)}))]
    return [(st, I.alloc(st, "list", None, {"segs": (("opq", v),)}))]


@ext("builtins.tuple")
def _tuple(I, st, a, k, cx, node):
    if not a:
        return [(st, mk("tup"))]
    items = known_items(I, st, a[0])
    if items is not None:
        return [(st, mk("tup", *items))]
    return [(st, strip(a[0]))]


@ext("builtins.set", "builtins.frozenset")
def _set(I, st, a, k, cx, node):
    if not a:
        return [(st, I.alloc(st, "set", None, {"items": (), "rest": None}))]
    items = known_items(I, st, a[0])
    if items is not None:
        out = []
        for x in items:
            if not any(same(I, st, x, y) is True for y in out):
                out.append(x)
        return [(st, I.alloc(st, "set", None, {"items": tuple(out), "rest": None}))]
    return [(st, strip(a[0]))]


@ext("builtins.dict", "collections.OrderedDict", "collections.defaultdict")
def _dict(I, st, a, k, cx, node):
    d = I.dict_(st, [])
    fn = getattr(node, "func", None)
    nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
    if nm == "defaultdict":
        a = a[1:]
    if a:
        r = call_method(I, st, d, "update", [a[0]], {}, cx, node)
        st = r[0][0]
    for n, v in k.items():
        if n == "**":
            st.w(d).f["rest"] = v
        else:
            dict_put(I, st, d, const(n), v)
    return [(st, d)]


@ext("builtins.range")
def _range(I, st, a, k, cx, node):
    a = [strip(x) for x in a]
    if any(x is NONE for x in a):
        return [(st, I.exc(st, "builtins.TypeError"))]
    if len(a) == 1:
        a = [const(0), a[0]]
    if len(a) == 2:
        a = a + [const(1)]
    return [(st, mk("range", *a))]


@ext("builtins.enumerate")
def _enumerate(I, st, a, k, cx, node):
    return [(st, mk("enumerate", a[0], strip(_arg(a, k, 1, "start", const(0)))))]


@ext("builtins.zip")
def _zip(I, st, a, k, cx, node):
    return [(st, mk("zip", *a))]


@ext("builtins.reversed")
def _reversed(I, st, a, k, cx, node):
    items = known_items(I, st, a[0])
    if items is not None:
        return [(st, I.list_(st, items[::-1]))]
    return [(st, mk("reversed", strip(a[0])))]


def _loopcall(elt):
    return ast.Call(func=ast.Name(id="$f", ctx=ast.Load()), args=elt, keywords=[])


@ext("builtins.map")
def _map(I, st, a, k, cx, node):
    from .interp import _Push
    acc = I.list_(st, [])
    it = a[1] if len(a) == 2 else mk("zip", *a[1:])
    x = ast.Name(id="$x", ctx=ast.Load())
    args = [x] if len(a) == 2 else [ast.Starred(value=x, ctx=ast.Load())]
    res = loop_over(I, st, it, {"$f": a[0]}, [_Push(acc, _fix(_loopcall(args), node), None)], cx, node)
    return [(s, v if v is not None else acc) for s, v, fr in res]


def _fix(n, node):
    for x in ast.walk(n):
        ast.copy_location(x, node)
    return n


@ext("builtins.filter")
def _filter(I, st, a, k, cx, node):
    from .interp import _Push
    acc = I.list_(st, [])
    x = ast.Name(id="$x", ctx=ast.Load())
    test = _fix(x if a[0] is NONE else _loopcall([x]), node)
    body = ast.If(test=test, body=[_fix(_Push(acc, _fix(ast.Name(id="$x", ctx=ast.Load()), node), None), node)], orelse=[])
    res = loop_over(I, st, a[1], {"$f": a[0]}, [body], cx, node)
    return [(s, v if v is not None else acc) for s, v, fr in res]


@ext("functools.reduce")
def _reduce(I, st, a, k, cx, node):
    names = {"$f": a[0]}
    it = a[1]
    if len(a) > 2:
        names["$acc"] = a[2]
    else:
        items = known_items(I, st, it)
        if not items:
            return None
        names["$acc"] = items[0]
        it = I.list_(st, items[1:])
    body = ast.Assign(
        targets=[ast.Name(id="$acc", ctx=ast.Store())],
        value=_loopcall([ast.Name(id="$acc", ctx=ast.Load()), ast.Name(id="$x", ctx=ast.Load())]),
    )
    res = loop_over(I, st, it, names, [_fix(body, node)], cx, node)
    return [(s, v if v is not None else s.get(fr).f["$acc"]) for s, v, fr in res]


@ext("functools.partial")
def _partial(I, st, a, k, cx, node):
    return [(st, mk("partial", a[0], tuple(a[1:]), tuple(sorted(k.items()))))]


def _opfn(op):
    def f(I, st, a, k, cx, node):
        return binop(I, st, op, a[0], a[1], cx, node)

    return f


for _n, _o in (("xor", "BitXor"), ("and_", "BitAnd"), ("or_", "BitOr"), ("add", "Add"), ("sub", "Sub"),
               ("lshift", "LShift"), ("rshift", "RShift"), ("mul", "Mult"), ("concat", "Add"), ("mod", "Mod")):
    EXT["operator." + _n] = _opfn(_o)
for _n, _o in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("is_", "Is"),
               ("is_not", "IsNot")):
    EXT["operator." + _n] = lambda I, st, a, k, cx, node, _o=_o: compare(I, st, _o, a[0], a[1], cx, node)
EXT["operator.contains"] = lambda I, st, a, k, cx, node: compare(I, st, "In", a[1], a[0], cx, node)
EXT["operator.not_"] = lambda I, st, a, k, cx, node: [(s, const(not b)) for s, b in I.branch(st, a[0])]
EXT["operator.getitem"] = lambda I, st, a, k, cx, node: getitem(I, st, a[0], a[1], cx, node)


EXT["operator.itemgetter"] = lambda I, st, a, k, cx, node: [(st, mk("opget", "item", tuple(a)))]
EXT["operator.attrgetter"] = lambda I, st, a, k, cx, node: (
    [(st, mk("opget", "attr", tuple(a)))] if all(x.op == "const" and isinstance(cval(x), str) for x in a) else None)
EXT["operator.methodcaller"] = lambda I, st, a, k, cx, node: (
    [(st, mk("opget", "meth", tuple(a), tuple(sorted(k.items()))))] if a and a[0].op == "const" else None)


def call_getter(I, st, f, obj, cx, node):
    kind, names = f.args[0], f.args[1]
    if kind == "meth":
        return I.then(
            I.getattr_(st, obj, cval(names[0]), cx, node),
            lambda s, m: I.call(s, m, list(names[1:]), dict(f.args[2]), cx, node),
        )

    def one(s, name):
        if kind == "item":
            return getitem(I, s, obj, name, cx, node)
        res = [(s, obj)]
        for part in cval(name).split("."):
            res = I.then(res, lambda s2, v: I.getattr_(s2, v, part, cx, node))
        return res

    if len(names) == 1:
        return one(st, names[0])
    res = [(st, [])]
    for n in names:
        nxt = []
        for s, acc in res:
            if isinstance(acc, Raise):
                nxt.append((s, acc))
                continue
            for s2, v in one(s, n):
                nxt.append((s2, v if isinstance(v, Raise) else acc + [v]))
        res = nxt
    return [(s, v if isinstance(v, Raise) else mk("tup", *v)) for s, v in res]


# ---------------------------------------------------------------- itertools
def _cat_segs(I, st, vs, cx, node):
    """the segments of several iterables, one after the other"""
    segs = []
    for v in vs:
        r = _list(I, st, [v], {}, cx, None)
        if len(r) != 1 or isinstance(r[0][1], Raise):
            return None
        segs += list(r[0][0].get(r[0][1]).f["segs"])
    return segs


@ext("itertools.chain")
def _chain(I, st, a, k, cx, node):
    segs = _cat_segs(I, st, a, cx, node)
    if segs is None:
        return None
    return [(st, I.alloc(st, "list", None, {"segs": tuple(segs)}))]


@ext("itertools.chain.from_iterable")
def _chain_from(I, st, a, k, cx, node):
    items = known_items(I, st, a[0])
    return None if items is None else _chain(I, st, items, {}, cx, node)


@ext("itertools.islice")
def _islice(I, st, a, k, cx, node):
    b = [strip(x) for x in a[1:]]
    lo, hi, step = (NONE, b[0], NONE) if len(b) == 1 else (b + [NONE, NONE])[:3]
    ob = I.obj(st, strip(a[0]))
    if ob is not None and ob.kind == "inst" and ob.cls is not None and ob.cls.op == "ext" and ob.cls.args[0] == "itertools.count" and is_num(hi):
        out = []
        n0 = 0 if lo is NONE else int(numval(lo))
        for j in range(int(numval(hi))):
            v = _next(I, st, [a[0]], {}, cx, node)[0][1]
            if j >= n0:
                out.append(v)
        return [(st, I.list_(st, out))]
    items = known_items(I, st, a[0])
    if items is not None and all(x is NONE or is_num(x) for x in (lo, hi, step)):
        return [(st, I.list_(st, items[slice(*[None if x is NONE else int(numval(x)) for x in (lo, hi, step)])]))]
    src = strip(a[0])
    if typ_of(src) not in ("bytes", "seq"):
        src = _list(I, st, [a[0]], {}, cx, None)[0][1]
    r = getslice(I, st, src, lo, hi, step, cx, node)
    return I.then(r, lambda s, v: _list(I, s, [v], {}, cx, None))


def _split_while(I, st, f, items, cx, node):
    """[(state, index of the first item the predicate refuses | Raise)]"""
    out = []
    cur = [st]
    for i, x in enumerate(items):
        nxt = []
        for s in cur:
            for s2, r in I.call(s, f, [x], {}, cx, node):
                if isinstance(r, Raise):
                    out.append((s2, r))
                    continue
                for s3, b in I.branch(s2, r):
                    if b:
                        nxt.append(s3)
                    else:
                        out.append((s3, i))
        cur = nxt
    return out + [(s, len(items)) for s in cur]


@ext("itertools.takewhile")
def _takewhile(I, st, a, k, cx, node):
    items = known_items(I, st, a[1])
    if items is None:
        return None
    return [(s, i if isinstance(i, Raise) else I.list_(s, items[:i])) for s, i in _split_while(I, st, a[0], items, cx, node)]


@ext("itertools.dropwhile")
def _dropwhile(I, st, a, k, cx, node):
    items = known_items(I, st, a[1])
    if items is None:
        return None
    return [(s, i if isinstance(i, Raise) else I.list_(s, items[i:])) for s, i in _split_while(I, st, a[0], items, cx, node)]


@ext("itertools.filterfalse")
def _filterfalse(I, st, a, k, cx, node):
    from .interp import _Push
    acc = I.list_(st, [])
    x = ast.Name(id="$x", ctx=ast.Load())
    test = x if a[0] is NONE else _loopcall([x])
    body = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=[_fix(_Push(acc, ast.Name(id="$x", ctx=ast.Load()), None), node)], orelse=[])
    res = loop_over(I, st, a[1], {"$f": a[0]}, [_fix(body, node)], cx, node)
    return [(s, v if v is not None else acc) for s, v, fr in res]


@ext("itertools.starmap")
def _starmap(I, st, a, k, cx, node):
    from .interp import _Push
    acc = I.list_(st, [])
    x = ast.Name(id="$x", ctx=ast.Load())
    args = [ast.Starred(value=x, ctx=ast.Load())]
    res = loop_over(I, st, a[1], {"$f": a[0]}, [_Push(acc, _fix(_loopcall(args), node), None)], cx, node)
    return [(s, v if v is not None else acc) for s, v, fr in res]


@ext("itertools.zip_longest")
def _zip_longest(I, st, a, k, cx, node):
    seqs = [known_items(I, st, x) for x in a]
    if any(x is None for x in seqs):
        return None
    fill = k.get("fillvalue", NONE)
    n = max([len(x) for x in seqs] or [0])
    return [(st, I.list_(st, [mk("tup", *[x[j] if j < len(x) else fill for x in seqs]) for j in range(n)]))]


@ext("itertools.product")
def _product(I, st, a, k, cx, node):
    import itertools
    seqs = [known_items(I, st, x) for x in a]
    if any(x is None for x in seqs):
        return None
    rep = int(numval(strip(k["repeat"]))) if "repeat" in k else 1
    return [(st, I.list_(st, [mk("tup", *t) for t in itertools.product(*seqs, repeat=rep)]))]


@ext("itertools.repeat")
def _repeat(I, st, a, k, cx, node):
    n = strip(_arg(a, k, 1, "times"))
    if n is NONE:
        # without an end, like a count that stays where it is
        return [(st, I.alloc(st, "inst", mk("ext", "itertools.count"), {"args": mk("tup"), "$same": a[0]}))]
    if is_num(n):
        return [(st, I.list_(st, [a[0]] * max(0, int(numval(n)))))]
    iv = sym("$i%d" % I.newid(), "nat")
    return [(st, I.alloc(st, "list", None, {"segs": (("map", n, iv, a[0]),)}))]


@ext("itertools.accumulate")
def _accumulate(I, st, a, k, cx, node):
    items = known_items(I, st, a[0])
    if items is None:
        return None
    f = _arg(a, k, 1, "func")
    cur = [(st, [])]
    if "initial" in k and k["initial"] is not NONE:
        items = [k["initial"]] + items
    for x in items:
        nxt = []
        for s, acc in cur:
            if isinstance(acc, Raise):
                nxt.append((s, acc))
            elif not acc:
                nxt.append((s, [x]))
            else:
                r = binop(I, s, "Add", acc[-1], x, cx, node) if f is NONE else I.call(s, f, [acc[-1], x], {}, cx, node)
                nxt += [(s2, v if isinstance(v, Raise) else acc + [v]) for s2, v in r]
        cur = nxt
    return [(s, v if isinstance(v, Raise) else I.list_(s, v)) for s, v in cur]


@ext("itertools.groupby")
def _groupby(I, st, a, k, cx, node):
    items = known_items(I, st, a[0])
    if items is None:
        return None
    f = _arg(a, k, 1, "key")
    groups = []
    for x in items:
        if f is NONE:
            key = x
        else:
            r = I.call(st, f, [x], {}, cx, node)
            if len(r) != 1 or isinstance(r[0][1], Raise):
                return None
            st, key = r[0]
        if groups:
            e = same(I, st, groups[-1][0], key)
            if e is True:
                groups[-1][1].append(x)
                continue
            if e is not False:
                return None
        groups.append((key, [x]))
    return [(st, I.list_(st, [mk("tup", key, I.list_(st, xs)) for key, xs in groups]))]


# ----------------------------------------------------------- small wrappers
EXT["typing.cast"] = lambda I, st, a, k, cx, node: [(st, a[1])]
EXT["types.MappingProxyType"] = lambda I, st, a, k, cx, node: [(st, a[0])]
EXT["functools.lru_cache"] = lambda I, st, a, k, cx, node: (
    [(st, a[0])] if a and a[0].op in ("func", "bound", "partial") else [(st, mk("ext", "functools.cache"))])
EXT["functools.cache"] = lambda I, st, a, k, cx, node: [(st, a[0])]
EXT["functools.wraps"] = lambda I, st, a, k, cx, node: [(st, mk("ext", "functools.cache"))]
EXT["functools.update_wrapper"] = lambda I, st, a, k, cx, node: [(st, a[0])]
EXT["functools.partialmethod"] = lambda I, st, a, k, cx, node: [(st, mk("partialmethod", a[0], tuple(a[1:]), tuple(sorted(k.items()))))]
EXT["asyncio.coroutine"] = EXT["types.coroutine"] = EXT["functools.cache"]
EXT["typing.NewType"] = lambda I, st, a, k, cx, node: [(st, mk("ext", "functools.cache"))]
EXT["operator.index"] = lambda I, st, a, k, cx, node: EXT["builtins.int"](I, st, a, k, cx, node)
EXT["operator.truth"] = lambda I, st, a, k, cx, node: EXT["builtins.bool"](I, st, a, k, cx, node)
EXT["operator.neg"] = lambda I, st, a, k, cx, node: binop(I, st, "Sub", const(0), a[0], cx, node)
EXT["operator.inv"] = EXT["operator.invert"] = lambda I, st, a, k, cx, node: binop(I, st, "Sub", const(-1), a[0], cx, node)
EXT["operator.setitem"] = lambda I, st, a, k, cx, node: setitem(I, st, a[0], a[1], a[2], cx, node)
EXT["operator.delitem"] = lambda I, st, a, k, cx, node: delitem(I, st, a[0], a[1], cx, node)
EXT["operator.length_hint"] = lambda I, st, a, k, cx, node: EXT["builtins.len"](I, st, a, k, cx, node)


@ext("warnings.warn", "warnings.simplefilter", "warnings.filterwarnings", "sys.intern", "gc.disable", "gc.enable")
def _quiet(I, st, a, k, cx, node):
    return [(st, a[0] if a and getattr(getattr(node, "func", None), "attr", "") == "intern" else NONE)]


@ext("types.SimpleNamespace")
def _namespace(I, st, a, k, cx, node):
    if "**" in k or a:
        return None
    return [(st, I.alloc(st, "inst", mk("ext", "types.SimpleNamespace"), dict(k)))]


@ext("collections.ChainMap")
def _chainmap(I, st, a, k, cx, node):
    d = I.dict_(st, [])
    for m in reversed(a):
        ob = I.obj(st, m)
        if ob is None or ob.kind != "dict":
            return None
        r = call_method(I, st, d, "update", [m], {}, cx, node)
        st = r[0][0]
    return [(st, d)]


@ext("builtins.slice")
def _sliceobj(I, st, a, k, cx, node):
    a = [strip(x) for x in a]
    lo, hi, step = (NONE, a[0], NONE) if len(a) == 1 else (list(a) + [NONE])[:3]
    return [(st, mk("sliceobj", lo, hi, step))]


@ext("binascii.hexlify", "binascii.b2a_hex")
def _hexlify(I, st, a, k, cx, node):
    v = bytesval(st, a[0])
    if is_const(v) and isinstance(cval(v), bytes):
        return [(st, const(cval(v).hex().encode()))]
    return [(st, mk("str", "hex", v))]


@ext("binascii.unhexlify", "binascii.a2b_hex")
def _unhexlify(I, st, a, k, cx, node):
    v = strip(a[0])
    if v.op == "const":
        x = cval(v)
        try:
            return [(st, const(bytes.fromhex(x if isinstance(x, str) else x.decode())))]
        except ValueError:
            return [(st, I.exc(st, "builtins.ValueError"))]
    return None


@ext("inspect.iscoroutinefunction", "asyncio.iscoroutinefunction")
def _iscorofn(I, st, a, k, cx, node):
    f = a[0]
    while f.op in ("bound", "partial"):
        f = f.args[0]
    return [(st, const(bool(f.op == "func" and f.args[0].is_async)))] if f.op in ("func", "class") else None


@ext("inspect.isawaitable", "inspect.iscoroutine", "asyncio.iscoroutine", "asyncio.isfuture")
def _isaw(I, st, a, k, cx, node):
    v = a[0]
    fn = getattr(node, "func", None)
    nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
    coro = v.op in ("coro", "extcoro", "waitfor", "shield")
    ob = I.obj(st, v)
    fut = ob is not None and ob.kind == "inst" and ob.cls is not None and ob.cls.op == "ext" and ob.cls.args[0] in ("asyncio.Future", "asyncio.Task")
    if nm == "isawaitable":
        r = coro or fut
    elif nm == "isfuture":
        r = fut
    else:
        r = coro
    if not r and v.op in ("sym", "idx", "attr", "call", "mcall"):
        return None
    return [(st, const(r))]


@ext("builtins.sum")
def _sum(I, st, a, k, cx, node):
    items = known_items(I, st, a[0])
    start = _arg(a, k, 1, "start", const(0))
    if items is None:
        return [(st, I.fresh("sum", "int"))]
    res = [(st, start)]
    for x in items:
        res = I.then(res, lambda s, acc: binop(I, s, "Add", acc, x, cx, node))
    return res


@ext("builtins.min", "builtins.max")
def _minmax(I, st, a, k, cx, node):
    items = known_items(I, st, a[0]) if len(a) == 1 else a
    nm = getattr(getattr(node, "func", None), "id", "min")
    if items and all(is_num(strip(x)) for x in items) and "key" not in k:
        f = min if nm == "min" else max
        return [(st, const(f(numval(strip(x)) for x in items)))]
    if items and len(items) == 2 and "key" not in k:
        x, y = strip(items[0]), strip(items[1])
        out = []
        for s, b in I.branch(st, ge0(sub(y, x))):
            r = (x if b else y) if nm == "min" else (y if b else x)
            lo, hi = s.interval(r)
            out.append((s, const(int(lo)) if lo is not None and lo == hi else r))
        return out
    return [(st, I.fresh(nm))]


@ext("builtins.any", "builtins.all")
def _anyall(I, st, a, k, cx, node):
    is_any = getattr(getattr(node, "func", None), "id", "any") == "any"
    items = known_items(I, st, a[0])
    if items is None:
        return [(st, I.fresh("any", "bool"))]
    out = []
    cur = [st]
    for x in items:
        nxt = []
        for s in cur:
            for s2, b in I.branch(s, x):
                if b == is_any:
                    out.append((s2, const(is_any)))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [(s, const(not is_any)) for s in cur]


@ext("itertools.count")
def _count(I, st, a, k, cx, node):
    a = list(a) + [k[n] for n in ("start", "step") if n in k]
    return [(st, I.alloc(st, "inst", mk("ext", "itertools.count"), {"args": mk("tup", *a)}))]


def drop_first(I, st, v):
    """a list without its first item (an iterator after next)"""
    segs = list(st.get(v).f["segs"])
    f = segs[0]
    if f[0] == "it":
        segs = segs[1:]
    elif f[0] == "map":
        segs[0] = ("map", add(f[1], const(-1)), f[2], subst(f[3], {f[2]: add(f[2], const(1))}))
    else:
        iv = sym("$i%d" % I.newid(), "nat")
        segs[0] = ("map", add(mk("len", f[1]), const(-1)), iv, mk("idx", f[1], add(iv, const(1))))
    st.w(v).f["segs"] = tuple(segs)


@ext("builtins.next")
def _next(I, st, a, k, cx, node):
    v = a[0]
    dflt = a[1] if len(a) > 1 else None
    ob = I.obj(st, v)
    if ob is not None and ob.kind == "inst" and ob.cls is not None and ob.cls.op == "ext" and ob.cls.args[0] == "itertools.count":
        o = st.w(v)
        if "$same" in o.f:
            return [(st, o.f["$same"])]
        args = o.f["args"].args
        n = o.f.get("$n", args[0] if args else const(0))
        o.f["$n"] = add(n, args[1] if len(args) > 1 else const(1))
        return [(st, n)]
    if ob is not None and ob.kind == "inst" and ob.cls is not None and ob.cls.op == "class":
        c, m = ob.cls.args[0].find("__next__")
        if m is not None:
            return I.call(st, mk("bound", m, v), [], {}, cx, node)
    items = known_items(I, st, v)
    if items is not None:
        if not items:
            return [(st, dflt if dflt is not None else I.exc(st, "builtins.StopIteration"))]
        if v.op == "ref" and ob.kind == "list":
            st.w(v).f["segs"] = tuple(("it", x) for x in items[1:])
        return [(st, items[0])]
    n = seq_len(I, st, v)
    out = []
    for s, b in I.branch(st, ge0(add(n, const(-1)))):
        if b:
            e = elem_at(I, s, v, const(0))
            if v.op == "ref" and ob.kind == "list":
                drop_first(I, s, v)
            out.append((s, e if e is not None else I.fresh("next")))
        else:
            out.append((s, dflt if dflt is not None else I.exc(s, "builtins.StopIteration")))
    return out


@ext("builtins.isinstance", "builtins.issubclass")
def _isinstance(I, st, a, k, cx, node):
    v, c = strip(a[0]), a[1]
    cs = c.args if c.op == "tup" else (c,)
    und = None
    for x in cs:
        r = isinst1(I, st, a[0], x)
        if r is True:
            return [(st, TRUE)]
        if r is not False:
            und = r if und is None else mk("or", und, r)
    return [(st, FALSE if und is None else und)]


_ABC_SEQ = ("abc_.Iterable", "abc_.Sequence", "abc_.Sized", "abc_.Collection", "abc_.Container")


def isinst1(I, st, raw, c):
    v = strip(raw)
    if raw.op in ("cast", "ecast") and c.op in ("ext", "class"):
        q = c.args[0] if c.op == "ext" else c.args[0].qual
        rq = raw.args[0] if raw.op == "cast" else raw.args[0].args[0].qual
        if q == rq or q == "builtins.int":
            return True
    if c.op == "class":
        ci = c.args[0]
        if v.op == "ref":
            o = st.get(v)
            if o.kind == "inst" and o.cls is not None and o.cls.op == "class":
                return ci in o.cls.args[0].mro()
            return False
        if v.op == "enum":
            return v.args[0] == ci.qual
        if v.op in ("const", "tup", "cat", "lin", "func", "class") or typ_of(v) is not None and not isinstance(typ_of(v), ClassInfo):
            return False
        if isinstance(typ_of(v), ClassInfo):
            return ci in typ_of(v).mro()
        return mk("isinst", v, c)
    if c.op != "ext":
        return mk("isinst", v, c)
    q = canon(c.args[0])
    n = q[9:] if q.startswith("builtins.") else None
    ty = typ_of(v)
    kind = None
    if v.op == "ref":
        o = st.get(v)
        kind = o.kind
        if kind == "inst":
            if o.cls is None:
                return mk("isinst", v, c)
            return q in I.class_supers(o.cls) or q == "builtins.object"
    if v is NONE:
        return n == "NoneType" or n == "object"
    if v.op == "tup":
        kind = "tuple"
    if v.op in ("func", "class", "bound", "coro", "mod"):
        return n == "object" or (n == "type" and v.op == "class") or q.endswith("Callable")
    if kind is None:
        kind = {"seq": "list", "num": "float"}.get(ty, ty) if not isinstance(ty, ClassInfo) else None
    if v.op == "enum":
        return n in ("int", "object") or q == "enum.Enum" or q == v.args[0]
    if kind is None or kind == "obj":
        return mk("isinst", v, c)
    if n is not None:
        if n == "object":
            return True
        if n == "int" and kind == "bool":
            return True
        return n == kind
    if q in _ABC_SEQ:
        return kind in ("list", "tuple", "bytes", "bytearray", "str", "dict", "set")
    if q in ("abc_.Mapping", "abc_.MutableMapping"):
        return kind == "dict"
    if q in ("numbers.Number", "numbers.Integral"):
        return kind == "int"
    if v.op == "eui" and q.rsplit(".", 1)[-1] in _BYTESEQ:
        return True
    if kind in ("int", "bytes", "str", "bool", "dict", "tuple") and q.startswith("zigpy.types."):
        return False if kind != "int" or v.op == "const" else mk("isinst", v, c)
    return False if kind in ("dict", "set", "tuple") else mk("isinst", v, c)


@ext("builtins.getattr")
def _getattr(I, st, a, k, cx, node):
    if a[1].op != "const":
        st.emit(Ev("dynattr", cx.loc(node), obj=a[0], name=a[1]))
        return I.opaque_results(st, "getattr", cx, node)
    out = []
    for s, v in I.getattr_(st, a[0], cval(a[1]), cx, node):
        if isinstance(v, Raise) and len(a) > 2 and _is_exc(I, s, v, "builtins.AttributeError"):
            v = a[2]
        out.append((s, v))
    return out


def _is_exc(I, st, r, q):
    c = I.exc_class(st, r)
    return q in I.class_supers(c)


@ext("builtins.hasattr")
def _hasattr(I, st, a, k, cx, node):
    if a[1].op != "const":
        return [(st, I.fresh("hasattr", "bool"))]
    out = []
    for s, v in I.getattr_(st, a[0], cval(a[1]), cx, node):
        if isinstance(v, Raise):
            out.append((s, FALSE))
        elif v.op == "attr":
            out.append((s, mk("truthy", mk("hasattr", v))))
        else:
            out.append((s, TRUE))
    return out


@ext("builtins.setattr")
def _setattr(I, st, a, k, cx, node):
    if a[1].op != "const":
        st.note("setattr with an unknown name")
        return [(st, NONE)]
    return [(s, x if isinstance(x, Raise) else NONE) for s, _, x in I.setattr_(st, a[0], cval(a[1]), a[2], cx, node)]


@ext("builtins.vars")
def _vars(I, st, a, k, cx, node):
    v = a[0]
    if v.op == "ref" and st.get(v).kind == "inst":
        return [(st, obj_dict(I, st, v))]
    if v.op == "class":
        return [(st, I.dict_(st, [(const(n), x) for n, x in v.args[0].attrs.items()]))]
    return [(st, I.fresh("vars", "dict"))]


def obj_dict(I, st, v):
    """the attribute dictionary of an object; writing to it writes to the object"""
    d = I.dict_(st, [(const(n), x) for n, x in st.get(v).f.items() if not n.startswith("$")])
    st.w(d).f["$of"] = v
    return d


def _plain_copy(I, st, v):
    """what dataclasses.asdict stores for a field: containers and dataclasses are copied"""
    ob = I.obj(st, v)
    if ob is None:
        return v
    if ob.kind == "inst" and ob.cls is not None and ob.cls.op == "class" and ob.cls.args[0].is_dataclass and not ob.cls.args[0].is_tuple:
        return I.dict_(st, [(const(n), _plain_copy(I, st, ob.f.get(n, NONE))) for n in ob.cls.args[0].fields()])
    if ob.kind == "list":
        its = known_items(I, st, v)
        if its is not None:
            return I.list_(st, [_plain_copy(I, st, y) for y in its])
    if ob.kind == "dict" and ob.f.get("rest") is None:
        return I.dict_(st, [(n, _plain_copy(I, st, y)) for n, y in ob.f["items"]])
    return v


@ext("dataclasses.asdict")
def _asdict(I, st, a, k, cx, node):
    return [(st, _plain_copy(I, st, a[0]))]


@ext("dataclasses.astuple")
def _astuple(I, st, a, k, cx, node):
    ob = I.obj(st, a[0])
    return [(st, mk("tup", *[_plain_copy(I, st, ob.f.get(n, NONE)) for n in ob.cls.args[0].fields()]))]


@ext("dataclasses.field")
def _dcfield(I, st, a, k, cx, node):
    return [(st, mk("dcfield", k.get("default"), k.get("default_factory"), k.get("init") is FALSE))]


@ext("dataclasses.replace")
def _dcreplace(I, st, a, k, cx, node):
    ob = I.obj(st, a[0])
    kw = {n: ob.f[n] for n in ob.cls.args[0].fields() if n in ob.f}
    kw.update(k)
    return I.call(st, ob.cls, [], kw, cx, node)


@ext("dataclasses.fields")
def _dcfields(I, st, a, k, cx, node):
    v = a[0]
    if v.op == "ref" and st.get(v).cls is not None:
        v = st.get(v).cls
    if v.op != "class":
        return None
    return [(st, mk("tup", *[I.alloc(st, "inst", mk("ext", "dataclasses.Field"), {"name": const(n), "args": mk("tup")}) for n in v.args[0].fields()]))]


@ext("collections.namedtuple", "typing.NamedTuple")
def _namedtuple(I, st, a, k, cx, node):
    names = None
    if len(a) > 1:
        if a[1].op == "const" and isinstance(cval(a[1]), str):
            names = cval(a[1]).replace(",", " ").split()
        else:
            its = known_items(I, st, a[1])
            if its is not None:
                its = [known_items(I, st, y)[0] if y.op != "const" else y for y in its]
                names = [cval(y) for y in its]
    if names is None:
        return None
    ci = ClassInfo(cx.module, cval(a[0]), "%s.%s" % (cx.module.name, cval(a[0])), node)
    ci.is_dataclass = ci.is_tuple = True
    ci.bases = [mk("ext", "typing.NamedTuple")]
    ci.ann = {n: None for n in names}
    d = k.get("defaults")
    if d is not None:
        for n, y in zip(names[::-1], (known_items(I, st, d) or [])[::-1]):
            ci.attrs[n] = y
    return [(st, mk("class", ci))]


@ext("builtins.type")
def _type(I, st, a, k, cx, node):
    v = a[0]
    if v.op == "ref" and st.get(v).cls is not None:
        return [(st, st.get(v).cls)]
    if v.op == "enum":
        c = I.enum_class(v.args[0])
        if c is not None:
            return [(st, mk("class", c))]
    ty = typ_of(strip(v))
    if isinstance(ty, str) and ty in ("int", "bytes", "str", "bool", "tuple", "list", "dict"):
        return [(st, mk("ext", "builtins." + ty))]
    return [(st, mk("type", v))]


@ext("builtins.callable")
def _callable(I, st, a, k, cx, node):
    if a[0].op in ("func", "bound", "class", "ext", "meth", "partial"):
        return [(st, TRUE)]
    return [(st, FALSE if a[0].op == "const" else I.fresh("callable", "bool"))]


@ext("builtins.id", "builtins.hash")
def _id(I, st, a, k, cx, node):
    return [(st, mk("id", a[0]))]


@ext("builtins.object")
def _object(I, st, a, k, cx, node):
    return [(st, I.alloc(st, "inst", mk("ext", "builtins.object"), {}))]


@ext("builtins.int.from_bytes")
def _from_bytes(I, st, a, k, cx, node):
    v = bytesval(st, a[0])
    order = _arg(a, k, 1, "byteorder", const("big"))
    signed = k.get("signed", FALSE)
    if v.op == "ref" or v.op == "tup":
        r = to_bytes_value(I, st, [v], cx, node)
        if isinstance(r, list):
            return r
        v = r
    sg = bool(cval(signed)) if signed.op == "const" else False
    if cval(order) == "big":
        items = known_items(I, st, v)
        if items is None:
            return [(st, mk("frombe", v, sg))]
        v = mkcat([mk("b", x) for x in items[::-1]])
    return [(st, fromle(v, sg))]


EXT["int.from_bytes"] = _from_bytes


@ext("builtins.bytes.fromhex", "builtins.bytearray.fromhex")
def _fromhex(I, st, a, k, cx, node):
    if a[0].op == "const":
        try:
            return [(st, const(bytes.fromhex(cval(a[0]))))]
        except ValueError:
            return [(st, I.exc(st, "builtins.ValueError"))]
    return [(st, I.fresh("fromhex", "bytes"))]


@ext("builtins.dict.fromkeys")
def _fromkeys(I, st, a, k, cx, node):
    items = known_items(I, st, a[0])
    if items is None:
        return [(st, I.fresh("dict", "dict"))]
    d = I.dict_(st, [])
    for x in items:
        dict_put(I, st, d, x, a[1] if len(a) > 1 else NONE)
    return [(st, d)]


# struct
_SC = {"B": (1, False), "b": (1, True), "H": (2, False), "h": (2, True), "I": (4, False), "i": (4, True),
       "L": (4, False), "l": (4, True), "Q": (8, False), "q": (8, True), "x": (1, None), "s": None, "?": (1, False)}


def str_pieces(t):
    """a text put together from constants and integers, or None"""
    t = strip(t)
    if t.op == "const" and isinstance(cval(t), (str, bytes)):
        v = cval(t)
        return [v.decode("latin1") if isinstance(v, bytes) else v]
    if t.op != "str":
        return [t] if typ_of(t) in ("int", "num") or is_num(t) else None
    how, args = t.args[0], t.args[1:]
    if how in ("f", "+", "str"):
        out = []
        for x in args:
            if not isinstance(x, Term):
                return None
            q = str_pieces(x)
            if q is None:
                return None
            out += q
        return out
    if how in ("%", "format") and args[0].op == "const" and isinstance(cval(args[0]), str):
        vals = list(args[1].args if how == "%" and len(args) == 2 and args[1].op == "tup" else args[1:])
        text = re.split("%[dsi]" if how == "%" else r"\{\d?\}", cval(args[0]))
        if len(text) != len(vals) + 1 or any("%" in x or "{" in x for x in text):
            return None
        if how == "format" and re.search(r"\{\d\}", cval(args[0])):
            return None
        out = [text[0]]
        for x, rest in zip(vals, text[1:]):
            q = str_pieces(x)
            if q is None:
                return None
            out += q + [rest]
        return out
    return None


def _fmt_of(t):
    q = str_pieces(t)
    if q is None:
        return None
    fmt, sizes = "", []
    for x in q:
        if isinstance(x, str):
            fmt += x
        elif is_num(x):
            fmt += str(int(numval(x)))
        else:
            fmt += "\x00"
            sizes.append(x)
    return _fmt(fmt, sizes)


def _fmt(fmt, sizes=()):
    sizes = list(sizes)
    big = False
    if fmt[:1] in "<>!=@":
        big = fmt[0] in ">!"
        if fmt[0] == "@":
            return None
        fmt = fmt[1:]
    elif any(c not in "Bbxs0123456789?c" for c in fmt):
        big = False
    out = []
    n = ""
    for c in fmt:
        if c.isdigit():
            if not isinstance(n, str):
                return None
            n += c
            continue
        if c.isspace():
            continue
        if c == "\x00":
            if n != "":
                return None
            n = sizes.pop(0)
            continue
        if isinstance(n, Term):
            if c != "s":
                return None
            out.append(("s", n, None))
            n = ""
            continue
        if c not in _SC:
            return None
        if c == "s":
            out.append(("s", int(n or 1), None))
        else:
            out += [(c,) + _SC[c]] * int(n or 1)
        n = ""
    return big, out


@ext("struct.pack")
def _pack(I, st, a, k, cx, node):
    r = _fmt_of(a[0])
    if r is None:
        return None
    big, cs = r
    ps = []
    vals = list(a[1:])
    for c, n, sg in cs:
        if c == "x":
            ps.append(mk("b", const(0)))
            continue
        if not vals:
            return [(st, I.exc(st, "struct.error"))]
        v = bytesval(st, vals.pop(0))
        if c == "s":
            v2 = v.args[0] if v.op == "eui" else v
            if (blen(v2) is not strip(n)) if isinstance(n, Term) else const_len(v2) != n:
                return None
            ps += cat_pieces(v2)
            continue
        if v is NONE:
            return [(st, I.exc(st, "struct.error"))]
        if is_num(v):
            lim = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if sg else (0, (1 << (8 * n)) - 1)
            if not lim[0] <= numval(v) <= lim[1]:
                return [(st, I.exc(st, "struct.error"))]
        elif not _fits(st, v, n):
            st.emit(Ev("fits", cx.loc(node), value=v, width=n))
        bs = [mk("b", byte_of(v, i)) for i in range(n)]
        ps += bs[::-1] if big else bs
    if vals:
        return [(st, I.exc(st, "struct.error"))]
    return [(st, mkcat(ps))]


def _fits(st, v, n):
    m = maxval(v)
    if m is not None:
        return m < 256 ** n
    lo, hi = st.interval(v)
    return lo is not None and hi is not None and lo >= 0 and hi < 256 ** n


@ext("struct.unpack", "struct.unpack_from")
def _unpack(I, st, a, k, cx, node):
    r = _fmt_of(a[0])
    if r is None:
        return None
    big, cs = r
    v = bytesval(st, a[1])
    off = strip(_arg(a, k, 2, "offset", const(0)))
    out = []
    for c, n, sg in cs:
        w = n if isinstance(n, Term) else const(n)
        p = bslice(v, off, add(off, w))
        off = add(off, w)
        if c == "x":
            continue
        if c == "s":
            out.append(p)
            continue
        if big and n > 1:
            items = known_items(I, st, p)
            if items is None:
                return None
            p = mkcat([mk("b", x) for x in items[::-1]])
        out.append(fromle(p, sg))
    return [(st, mk("tup", *out))]


@ext("struct.calcsize")
def _calcsize(I, st, a, k, cx, node):
    r = _fmt_of(a[0])
    if r is None:
        return None
    t = const(0)
    for _, n, _ in r[1]:
        t = add(t, n if isinstance(n, Term) else const(n))
    return [(st, t)]


# asyncio
@ext("asyncio.get_event_loop", "asyncio.get_running_loop", "asyncio.new_event_loop")
def _loop(I, st, a, k, cx, node):
    return [(st, mk("ext", "asyncio.LOOP"))]


@ext("asyncio.LOOP.create_future", "asyncio.Future")
def _future(I, st, a, k, cx, node):
    r = I.alloc(st, "inst", mk("ext", "asyncio.Future"), {"$state": "pending"})
    st.emit(Ev("future", cx.loc(node), fut=r))
    return [(st, r)]


@ext("asyncio.create_task", "asyncio.ensure_future", "asyncio.LOOP.create_task", "asyncio.Task", "asyncio.get_event_loop.create_task")
def _task(I, st, a, k, cx, node):
    c = a[0]
    if c.op == "ref":
        return [(st, c)]
    r = I.alloc(st, "inst", mk("ext", "asyncio.Task"), {"$state": "pending", "$coro": c})
    st.emit(Ev("spawn", cx.loc(node), coro=c, task=r))
    return [(st, r)]


@ext("asyncio.wait_for")
def _wait_for(I, st, a, k, cx, node):
    return [(st, mk("waitfor", _arg(a, k, 0, "fut"), strip(_arg(a, k, 1, "timeout"))))]


@ext("asyncio.shield")
def _shield(I, st, a, k, cx, node):
    return [(st, mk("shield", a[0]))]


@ext("asyncio.LOOP.call_later")
def _call_later(I, st, a, k, cx, node):
    r = I.alloc(st, "inst", mk("ext", "asyncio.TimerHandle"), {"$delay": a[0], "$fn": a[1], "$args": mk("tup", *a[2:])})
    st.emit(Ev("call_later", cx.loc(node), delay=strip(a[0]), fn=a[1], args=tuple(a[2:]), handle=r))
    return [(st, r)]


@ext("asyncio.LOOP.call_soon", "asyncio.LOOP.call_soon_threadsafe")
def _call_soon(I, st, a, k, cx, node):
    r = I.alloc(st, "inst", mk("ext", "asyncio.TimerHandle"), {"$delay": const(0), "$fn": a[0], "$args": mk("tup", *a[1:])})
    st.emit(Ev("call_later", cx.loc(node), delay=const(0), fn=a[0], args=tuple(a[1:]), handle=r))
    return [(st, r)]


@ext("asyncio.LOOP.call_at")
def _call_at(I, st, a, k, cx, node):
    # relative to the clock as it was read just before
    c, p = lin_parts(strip(a[0]))
    now = [e for e in st.trace() if e.kind == "clock" and p.get(e.value) == 1]
    if not now:
        return None
    tr = st.trace()
    if any(e.kind in ("await", "waitfor", "sleep", "acquire") for e in tr[max(i for i, e in enumerate(tr) if e is now[-1]):]):
        return None
    return _call_later(I, st, [sub(strip(a[0]), now[-1].value)] + list(a[1:]), k, cx, node)


@ext("asyncio.LOOP.time", "time.time", "time.monotonic")
def _time(I, st, a, k, cx, node):
    t = I.fresh("time", "num")
    if cx is not None and node is not None:
        st.emit(Ev("clock", cx.loc(node), value=t))
    return [(st, t)]


@ext("os.path.exists", "os.path.isfile", "os.path.isdir")
def _exists(I, st, a, k, cx, node):
    st.emit(Ev("call", cx.loc(node), fn="os.path.exists", args=tuple(a), kwargs={}))
    return [(st, mk("truthy", mk("exists", a[0])))]


@ext("serial.tools.list_ports.grep")
def _grep(I, st, a, k, cx, node):
    st.emit(Ev("call", cx.loc(node), fn="serial.tools.list_ports.grep", args=tuple(a), kwargs=dict(k)))
    ports = I.hooks.get("ports")
    pat = strip(_arg(a, k, 0, "regexp"))
    if ports is None or pat.op != "const" or not isinstance(cval(pat), str):
        return [(st, sym("ports", "list"))]
    rx = re.compile(cval(pat), re.I)
    hit = [p for p in ports if any(rx.search(p[x]) for x in ("device", "description", "hwid"))]
    return [(st, I.list_(st, [_port(I, st, p) for p in hit]))]


@ext("serial.tools.list_ports.comports")
def _comports(I, st, a, k, cx, node):
    st.emit(Ev("call", cx.loc(node), fn="serial.tools.list_ports.comports", args=tuple(a), kwargs=dict(k)))
    ports = I.hooks.get("ports")
    if ports is None:
        return [(st, sym("ports", "list"))]
    return [(st, I.list_(st, [_port(I, st, p) for p in ports]))]


def _port(I, st, p):
    return I.alloc(st, "inst", mk("ext", "serial.tools.list_ports_common.ListPortInfo"), {n: const(x) for n, x in p.items()})


@ext("zigpy.config.cv_key")
def _cv_key(I, st, a, k, cx, node):
    return [(st, _eui(I, st, a[0]))]


@ext("zigpy.types.Channels.from_channel_list")
def _channels(I, st, a, k, cx, node):
    items = known_items(I, st, a[0])
    if items is not None and all(is_num(x) for x in items):
        m = 0
        for x in items:
            m |= 1 << int(numval(x))
        return [(st, mk("cast", "zigpy.types.Channels", const(m)))]
    return None


EXT["zigpy.types.named.Channels.from_channel_list"] = _channels


@ext("zigpy.config.ZIGPY_SCHEMA", "zigpy.config.CONFIG_SCHEMA", "zigpy.config.SCHEMA_NETWORK")
def _schema(I, st, a, k, cx, node):
    return [(st, a[0])]


@ext("re.compile")
def _re(I, st, a, k, cx, node):
    return [(st, mk("call", "re.compile", *(list(a) + [x for _, x in sorted(k.items())])))]


def _re_apply(how, I, st, a, k):
    """a constant pattern on a constant string"""
    a = [strip(x) for x in a]
    if len(a) < 2 or not (is_const(a[0]) and is_const(a[1])) or not isinstance(cval(a[0]), str) or not isinstance(cval(a[1]), str):
        return None
    flags = [x for x in a[2:] + list(k.values())]
    fl = re.I if any(x.op == "ext" and x.args[0] in ("re.I", "re.IGNORECASE") for x in flags) else 0
    if flags and not fl and not all(is_num(x) and numval(x) == 0 for x in flags):
        return None
    m = getattr(re, how)(cval(a[0]), cval(a[1]), fl)
    return [(st, NONE if m is None else const(True))]


for _how in ("search", "match", "fullmatch"):
    EXT["re." + _how] = lambda I, st, a, k, cx, node, how=_how: _re_apply(how, I, st, a, k)


# -------------------------------------------------------------- methods
_STR_PURE = {
    "startswith", "endswith", "replace", "lower", "upper", "split", "strip", "lstrip", "rstrip", "title", "find",
    "index", "isdigit", "count", "rsplit", "partition", "rpartition", "capitalize", "encode", "isupper", "islower",
    "removeprefix", "removesuffix", "zfill", "join", "decode", "hex", "ljust", "rjust", "splitlines", "casefold",
}


def call_method(I, st, v, name, args, kwargs, cx, node):
    h = I.hooks.get("mcall")
    if h:
        r = h(I, st, v, name, args, kwargs, cx, node)
        if r is not None:
            return r
    raw = v
    v = strip(v)
    if v.op == "call" and v.args[0] == "re.compile" and name in ("search", "match", "fullmatch"):
        r = _re_apply(name, I, st, [v.args[1]] + list(args) + list(v.args[2:]), kwargs)
        if r is not None:
            return r
    if v.op == "ref" and is_nt(st.get(v)):
        ob = st.get(v)
        ns = ob.cls.args[0].fields()
        if name == "_asdict":
            return [(st, I.dict_(st, [(const(n), ob.f.get(n, NONE)) for n in ns]))]
        if name == "_replace":
            return I.call(st, ob.cls, [], dict({n: ob.f[n] for n in ns}, **kwargs), cx, node)
    if v.op == "ref":
        ob = st.get(v)
        f = _METHODS.get(ob.kind)
        if f is not None:
            r = f(I, st, v, ob, name, args, kwargs, cx, node)
            if r is not None:
                if ob.kind == "dict" and "$of" in ob.f:
                    for s, _ in r:
                        write_back(s, v)
                return r
        elif ob.kind == "inst" and ob.cls is not None and ob.cls.op == "ext":
            r = _ext_inst(I, st, v, ob, ob.cls.args[0], name, args, kwargs, cx, node)
            if r is not None:
                return r
    elif v.op == "const" and isinstance(cval(v), (str, bytes)) and name in _STR_PURE:
        r = _str_const(I, st, v, name, args, kwargs)
        if r is not None:
            return r
    if v.op == "const" and isinstance(cval(v), str) and name == "format":
        return _format(I, st, v, args, kwargs)
    if name == "to_bytes" and (typ_of(v) in ("int", None, "bool") or v.op == "enum"):
        return _to_bytes(I, st, v, args, kwargs, cx, node)
    if name == "bit_length" and is_num(v):
        return [(st, const(int(numval(v)).bit_length()))]
    if name == "bit_length" and not args:
        lo, hi = st.interval(v)
        if lo is not None and hi is not None:
            # a number whose exact value does not matter, within the bounds of v
            a = min([int(x).bit_length() for x in (lo, hi)] if lo > 0 or hi < 0 else [0])
            n = sym("bits(%s)" % show(v), "int")
            st.assume(ge0(sub(n, const(a))), True)
            st.assume(ge0(sub(const(max(int(lo).bit_length(), int(hi).bit_length())), n)), True)
            return [(st, n)]
    if name == "serialize":
        if v.op == "eui":
            return [(st, v.args[0])]
        w = None
        if raw.op == "cast":
            w = _WIDTH.get(raw.args[0].rsplit(".", 1)[-1])
        if w is not None:
            return [(st, tole(v, w))]
        if v.op == "enum":
            return [(st, tole(v, _WIDTH.get(v.args[0].rsplit(".", 1)[-1], 1)))]
        return [(st, mk("ser", v))]
    if name in ("get",) and v.op in ("sym", "idx", "attr", "call", "mcall") and args:
        out = []
        for s, b in I.branch(st, mk("in", strip(args[0]), v)):
            if b:
                out += getitem(I, s, v, args[0], cx, node)
            else:
                out.append((s, args[1] if len(args) > 1 else NONE))
        return out
    if name in ("items", "keys", "values") and not args:
        return [(st, mk(name, v))]
    if v.op == "tup" or (v.op == "const" and isinstance(cval(v), tuple)):
        items = known_items(I, st, v)
        if name == "index":
            for i, x in enumerate(items):
                if same(I, st, x, args[0]) is True:
                    return [(st, const(i))]
            return [(st, I.exc(st, "builtins.ValueError"))]
        if name == "count":
            return [(st, const(sum(same(I, st, x, args[0]) is True for x in items)))]
    if typ_of(v) == "bytes":
        if name in ("hex", "decode"):
            return [(st, mk("str", name, v))]
        if name in ("startswith", "endswith") and len(args) == 1:
            a = bytesval(st, args[0])
            n = const_len(a)
            if n is not None:
                ln = blen(v)
                part = bslice(v, const(0), const(n)) if name == "startswith" else bslice(v, sub(ln, const(n)), None)
                out = []
                for s, b in I.branch(st, ge0(sub(ln, const(n)))):
                    if not b:
                        out.append((s, FALSE))
                    else:
                        if n == 1:
                            e = same(I, s, bidx(part, const(0)), bidx(a, const(0)))
                        else:
                            e = same(I, s, part, a)
                        out.append((s, as_val(e)))
                return out
        if name == "join":
            return _join_bytes(I, st, v, args, cx)
        if name in ("find", "index", "count", "rfind") and (kwargs or not all(
            typ_of(bytesval(st, x)) in ("bytes", "int", "num") or is_num(x) for x in args
        )):
            return [(st, I.fresh("bytes." + name, "int"))]
        r = _bytes_method(I, st, v, name, [bytesval(st, x) for x in args], kwargs)
        if r is not None:
            return r
    if typ_of(v) == "str" or v.op == "str":
        if name == "join":
            return [(st, mk("str", "join", v))]
        if name in ("startswith", "endswith", "isdigit"):
            return [(st, mk("truthy", mk("strm", name, v, *[strip(a) for a in args])))]
        return [(st, mk("str", name, v, *[strip(a) for a in args if isinstance(a, Term)]))]
    if v.op == "ext":
        return call_ext(I, st, v.args[0] + "." + name, args, kwargs, cx, node)
    if v.op == "coro" and name in ("close", "send"):
        return [(st, NONE)]
    if v is NONE:
        return [(st, I.exc(st, "builtins.AttributeError", const("None." + name)))]
    if v.op == "ref" and st.get(v).kind in ("list", "dict", "set", "bytearray"):
        st.note("unmodelled method %s of a %s" % (name, st.get(v).kind))
    elif v.op == "ref" and st.get(v).cls is not None and st.get(v).cls.op == "ext":
        q = st.get(v).cls.args[0]
        if q.split(".")[0] not in OPAQUE_MODULES:
            TAINT.setdefault("method %s of %s" % (name, q), cx.loc(node))
    st.emit(Ev("mcall", cx.loc(node), obj=v, name=name, args=tuple(args), kwargs=dict(kwargs)))
    return I.opaque_results(st, "%s.%s()" % (show(v), name), cx, node)


_BM = ("replace", "rstrip", "lstrip", "strip", "ljust", "rjust", "upper", "lower", "removeprefix", "removesuffix",
       "translate", "zfill", "center", "find", "rfind", "count", "index", "rindex", "expandtabs", "swapcase", "title",
       "capitalize")


def _bytes_method(I, st, v, name, args, kwargs):
    """methods of byte strings that are functions of their operands: kept as terms that can be evaluated"""
    if name not in _BM or kwargs or not all(typ_of(x) in ("bytes", "int") for x in args):
        return None
    n = const_len(v)
    if name in ("ljust", "rjust") and n is not None and args and is_num(args[0]):
        fill = args[1] if len(args) > 1 else const(b" ")
        pad = [p for _ in range(max(0, int(numval(args[0])) - n)) for p in cat_pieces(fill)]
        return [(st, mkcat(cat_pieces(v) + pad if name == "ljust" else pad + cat_pieces(v)))]
    if name in ("index", "rindex"):
        t = mk("bm", name.replace("index", "find"), v, *args)
        out = []
        for s, b in I.branch(st, ge0(t)):
            out.append((s, t) if b else (s, I.exc(s, "builtins.ValueError")))
        return out
    return [(st, mk("bm", name, v, *args))]


def _join_bytes(I, st, sep, args, cx):
    items = known_items(I, st, args[0])
    if items is not None:
        ps = []
        for i, x in enumerate(items):
            x = bytesval(st, x)
            if i:
                ps += cat_pieces(sep)
            ps += cat_pieces(x)
        return [(st, mkcat(ps))]
    x = strip(args[0])
    if x.op == "ref" and st.get(x).kind == "list" and sep is const(b""):
        ps = []
        for s in st.get(x).f["segs"]:
            if s[0] == "it":
                ps += cat_pieces(bytesval(st, s[1]))
            elif s[0] == "map":
                ps.append(flatmap(s[1], s[2], bytesval(st, s[3])))
            else:
                ps.append(mk("bytesof", s[1]))
        return [(st, mkcat(ps))]
    return [(st, I.fresh("join", "bytes"))]


def _str_const(I, st, v, name, args, kwargs):
    x = cval(v)
    vals = []
    for a in args:
        if a.op == "const":
            vals.append(cval(a))
        elif a.op == "tup" and _const_all(a.args):
            vals.append(tuple(cval(y) for y in a.args))
        elif name == "join":
            items = known_items(I, st, a)
            if items is None or not _const_all(items):
                return None
            vals.append([cval(y) for y in items])
        else:
            return None
    try:
        r = getattr(x, name)(*vals)
    except (TypeError, ValueError, AttributeError):
        return None
    if isinstance(r, list):
        return [(st, I.list_(st, [const(y) for y in r]))]
    if isinstance(r, tuple):
        return [(st, mk("tup", *[const(y) for y in r]))]
    return [(st, const(r))]


def _format(I, st, v, args, kwargs):
    if _const_all(args) and _const_all(kwargs.values()):
        try:
            return [(st, const(cval(v).format(*[cval(a) for a in args], **{k: cval(x) for k, x in kwargs.items()})))]
        except (IndexError, KeyError, ValueError):
            return [(st, I.exc(st, "builtins.IndexError"))]
    return [(st, mk("str", "format", v, *[strip(a) for a in args]))]


def _to_bytes(I, st, v, args, kwargs, cx, node):
    n = strip(_arg(args, kwargs, 0, "length", const(1)))
    order = _arg(args, kwargs, 1, "byteorder", const("big"))
    signed = kwargs.get("signed", FALSE)
    if not is_num(n) or order.op != "const":
        st.note("to_bytes with unknown width")
        return [(st, I.fresh("to_bytes", "bytes"))]
    n = int(numval(n))
    sg = signed.op == "const" and bool(cval(signed))
    if is_num(v):
        try:
            return [(st, const(int(numval(v)).to_bytes(n, cval(order), signed=sg)))]
        except OverflowError:
            return [(st, I.exc(st, "builtins.OverflowError", v))]
    lo, hi = st.interval(v)
    if lo is not None and lo >= 256 ** n or hi is not None and hi < 0 and not sg:
        return [(st, I.exc(st, "builtins.OverflowError", v))]
    if not _fits(st, v, n):
        st.emit(Ev("fits", cx.loc(node), value=v, width=n))
    bs = [mk("b", byte_of(v, i)) for i in range(n)]
    if cval(order) == "big":
        bs = bs[::-1]
    return [(st, mkcat(bs))]


def _m_list(I, st, v, ob, name, args, kwargs, cx, node):
    segs = ob.f["segs"]
    if name in ("append", "appendleft"):
        m = ob.f.get("maxlen")
        if m is not None and len(segs) >= int(numval(m)) and all(x[0] == "it" for x in segs):
            segs = segs[1:] if name == "append" else segs[:-1]
        st.w(v).f["segs"] = segs + (("it", args[0]),) if name == "append" else (("it", args[0]),) + segs
        return [(st, NONE)]
    if name in ("extend", "__iadd__"):
        x = strip(args[0])
        if x.op == "ref" and st.get(x).kind == "list":
            new = st.get(x).f["segs"]
        else:
            items = known_items(I, st, x)
            if items is not None:
                new = tuple(("it", y) for y in items)
            elif x.op in ("range", "enumerate", "zip", "reversed") or typ_of(x) in ("bytes", "seq"):
                iv = sym("$i%d" % I.newid(), "nat")
                new = (("map", seq_len(I, st, x), iv, elem_at(I, st, x, iv)),)
            else:
                new = (("opq", x),)
        st.w(v).f["segs"] = segs + new
        return [(st, v if name == "__iadd__" else NONE)]
    if name == "clear":
        st.w(v).f["segs"] = ()
        return [(st, NONE)]
    if name == "copy":
        return [(st, I.alloc(st, "list", None, {"segs": segs}))]
    items = known_items(I, st, v)
    if name in ("pop", "popleft"):
        i = strip(args[0]) if args else const(0 if name == "popleft" else -1)
        if items is not None and is_num(i):
            if not items:
                return [(st, I.exc(st, "builtins.IndexError"))]
            try:
                x = items.pop(int(numval(i)))
            except IndexError:
                return [(st, I.exc(st, "builtins.IndexError"))]
            st.w(v).f["segs"] = tuple(("it", y) for y in items)
            return [(st, x)]
        st.w(v).f["segs"] = (("opq", I.fresh("list", "list")),)
        return [(st, I.fresh("popped"))]
    if name == "insert":
        if items is not None and is_num(strip(args[0])):
            items.insert(int(numval(strip(args[0]))), args[1])
            st.w(v).f["segs"] = tuple(("it", y) for y in items)
        else:
            st.w(v).f["segs"] = (("opq", I.fresh("list", "list")),)
        return [(st, NONE)]
    if name == "remove":
        if items is not None:
            for i, x in enumerate(items):
                if same(I, st, x, args[0]) is True:
                    del items[i]
                    st.w(v).f["segs"] = tuple(("it", y) for y in items)
                    return [(st, NONE)]
        st.w(v).f["segs"] = (("opq", I.fresh("list", "list")),)
        return [(st, NONE)]
    if name in ("index", "count"):
        if items is not None:
            hits = [i for i, x in enumerate(items) if same(I, st, x, args[0]) is True]
            if name == "count":
                return [(st, const(len(hits)))]
            if hits:
                return [(st, const(hits[0]))]
            return [(st, I.exc(st, "builtins.ValueError"))]
        return [(st, I.fresh("list." + name, "int"))]
    if name == "reverse" and items is not None:
        st.w(v).f["segs"] = tuple(("it", y) for y in items[::-1])
        return [(st, NONE)]
    if name == "sort":
        if items is not None and _const_all(items) and not kwargs:
            st.w(v).f["segs"] = tuple(("it", y) for y in sorted(items, key=cval))
        elif items is None or len(items) > 1:
            st.w(v).f["segs"] = (("opq", I.fresh("sorted", "list")),)
        return [(st, NONE)]
    return None


def _m_dict(I, st, v, ob, name, args, kwargs, cx, node):
    if name == "get":
        out = []
        for s, x in dict_lookup(I, st, v, args[0]):
            if x is not None and ob.f.get("rest") is not None and x.op == "idx" and x.args[0] is ob.f["rest"]:
                for s2, b in I.branch(s, mk("in", strip(args[0]), ob.f["rest"])):
                    out.append((s2, x if b else (args[1] if len(args) > 1 else NONE)))
                continue
            out.append((s, x if x is not None else (args[1] if len(args) > 1 else NONE)))
        return out
    if name == "pop":
        out = []
        for s, x in dict_pop(I, st, v, args[0], cx, node):
            if x is None:
                x = args[1] if len(args) > 1 else I.exc(s, "builtins.KeyError", args[0])
            out.append((s, x))
        return out
    if name == "setdefault":
        out = []
        for s, x in dict_lookup(I, st, v, args[0]):
            if x is None:
                x = args[1] if len(args) > 1 else NONE
                dict_put(I, s, v, args[0], x)
            out.append((s, x))
        return out
    if name in ("items", "keys", "values"):
        if ob.f.get("rest") is None:
            if name == "items":
                return [(st, I.list_(st, [mk("tup", k, x) for k, x in ob.f["items"]]))]
            return [(st, I.list_(st, [k if name == "keys" else x for k, x in ob.f["items"]]))]
        return [(st, mk(name, v))]
    if name == "update":
        for x in args[:1]:
            x = strip(x)
            src = I.obj(st, x)
            if src is not None and src.kind == "dict":
                for k, y in src.f["items"]:
                    dict_put(I, st, v, k, y)
                if src.f.get("rest") is not None:
                    st.w(v).f["rest"] = src.f["rest"]
            else:
                items = known_items(I, st, x)
                if items is not None:
                    for p in items:
                        kv = known_items(I, st, p)
                        if kv is None or len(kv) != 2:
                            return [(st, I.exc(st, "builtins.ValueError"))]
                        dict_put(I, st, v, kv[0], kv[1])
                else:
                    st.w(v).f["rest"] = x
        for n, y in kwargs.items():
            if n != "**":
                dict_put(I, st, v, const(n), y)
        return [(st, NONE)]
    if name == "copy":
        return [(st, I.alloc(st, "dict", None, {k: x for k, x in ob.f.items() if k != "$of"}))]
    if name == "clear":
        st.w(v).f["items"] = ()
        st.w(v).f["rest"] = None
        st.emit(Ev("dictclear", cx.loc(node), obj=v))
        return [(st, NONE)]
    if name == "popitem":
        its = ob.f["items"]
        if its:
            st.w(v).f["items"] = its[:-1]
            return [(st, mk("tup", *its[-1]))]
        return [(st, I.exc(st, "builtins.KeyError"))]
    if name == "__contains__":
        return [(st, as_val(contains(I, st, args[0], v)))]
    if name == "__getitem__":
        return getitem(I, st, v, args[0], cx, node)
    return None


def _m_set(I, st, v, ob, name, args, kwargs, cx, node):
    items = list(ob.f["items"])
    if name == "add":
        if not any(same(I, st, x, args[0]) is True for x in items):
            st.w(v).f["items"] = tuple(items + [args[0]])
        return [(st, NONE)]
    if name in ("discard", "remove"):
        new = tuple(x for x in items if same(I, st, x, args[0]) is not True)
        if name == "remove" and len(new) == len(items) and ob.f.get("rest") is None:
            return [(st, I.exc(st, "builtins.KeyError"))]
        st.w(v).f["items"] = new
        return [(st, NONE)]
    if name == "update":
        its = known_items(I, st, args[0])
        if its is not None:
            for x in its:
                if not any(same(I, st, x, y) is True for y in items):
                    items.append(x)
            st.w(v).f["items"] = tuple(items)
        else:
            st.w(v).f["rest"] = strip(args[0])
        return [(st, NONE)]
    if name == "clear":
        st.w(v).f["items"] = ()
        st.w(v).f["rest"] = None
        return [(st, NONE)]
    if name == "copy":
        return [(st, I.alloc(st, "set", None, dict(ob.f)))]
    if name in ("union", "intersection", "difference"):
        op = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub"}[name]
        return binop(I, st, op, v, args[0], cx, node)
    return None


def _m_bytearray(I, st, v, ob, name, args, kwargs, cx, node):
    x = ob.f["v"]
    if name == "append":
        st.w(v).f["v"] = mkcat(cat_pieces(x) + [mk("b", strip(args[0]))])
        return [(st, NONE)]
    if name in ("extend", "__iadd__"):
        r = to_bytes_value(I, st, args, cx, node)
        if isinstance(r, list):
            return r
        st.w(v).f["v"] = mkcat(cat_pieces(x) + cat_pieces(r))
        return [(st, NONE)]
    if name == "clear":
        st.w(v).f["v"] = const(b"")
        return [(st, NONE)]
    if name == "pop":
        items = known_items(I, st, x)
        if items:
            i = int(numval(args[0])) if args else -1
            y = items.pop(i)
            st.w(v).f["v"] = mkcat([mk("b", z) for z in items])
            return [(st, y)]
        if args and args[0] is const(0):
            st.w(v).f["v"] = bslice(x, const(1), None)
            return [(st, bidx(x, const(0)))]
        return None
    return call_method(I, st, x, name, args, kwargs, cx, node)


_METHODS = {"list": _m_list, "dict": _m_dict, "set": _m_set, "bytearray": _m_bytearray}


def _ext_inst(I, st, v, ob, q, name, args, kwargs, cx, node):
    loc = cx.loc(node)
    if q in ("asyncio.Future", "asyncio.Task"):
        state = ob.f.get("$state")
        if name == "set_result":
            if state in ("done", "cancelled", "exception"):
                return [(st, I.exc(st, "asyncio.InvalidStateError"))]
            if state == "unknown":
                pass
            st.w(v).f["$state"] = "done"
            st.w(v).f["$result"] = args[0]
            st.emit(Ev("set_result", loc, fut=v, value=args[0]))
            return [(st, NONE)]
        if name == "set_exception":
            if state in ("done", "cancelled", "exception"):
                return [(st, I.exc(st, "asyncio.InvalidStateError"))]
            x = args[0]
            if x.op in ("ext", "class"):
                r = I.call(st, x, [], {}, cx, node)
                st, x = r[0]
            st.w(v).f["$state"] = "exception"
            st.w(v).f["$result"] = x
            st.emit(Ev("set_exception", loc, fut=v, value=x))
            return [(st, NONE)]
        if name == "done":
            if state == "unknown":
                return [(st, mk("truthy", mk("done", v)))]
            return [(st, const(state != "pending"))]
        if name == "cancelled":
            if state == "unknown":
                return [(st, mk("truthy", mk("cancelled", v)))]
            return [(st, const(state == "cancelled"))]
        if name == "cancel":
            st.emit(Ev("cancel", loc, fut=v))
            if state == "pending":
                st.w(v).f["$state"] = "cancelled"
                return [(st, TRUE)]
            return [(st, FALSE)]
        if name == "result":
            if state == "done":
                return [(st, ob.f.get("$result", NONE))]
            if state == "exception":
                return [(st, Raise(ob.f["$result"]))]
            if state == "cancelled":
                return [(st, I.exc(st, "asyncio.CancelledError"))]
            return [(st, I.exc(st, "asyncio.InvalidStateError"))]
        if name == "exception":
            return [(st, ob.f["$result"] if state == "exception" else NONE)]
        if name in ("add_done_callback", "remove_done_callback"):
            st.emit(Ev("done_callback", loc, fut=v, fn=args[0]))
            return [(st, NONE)]
    if q in ("asyncio.Lock", "asyncio.Semaphore", "asyncio.BoundedSemaphore"):
        if name == "acquire":
            return [(st, mk("extcoro", q + ".acquire", (v,), (), loc))]
        if name == "release":
            st.emit(Ev("release", loc, obj=v))
            return [(st, NONE)]
        if name == "locked":
            return [(st, mk("truthy", I.fresh("locked")))]
    if q in ("contextlib.ExitStack", "contextlib.AsyncExitStack"):
        def push(t):
            st.w(v).f["$exits"] = st.get(v).f.get("$exits", ()) + (t,)

        if name in ("callback", "push_async_callback"):
            push(mk("exit", "callback", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())), name != "callback"))
            return [(st, args[0])]
        if name in ("push", "push_async_exit"):
            if I.obj(st, args[0]) is not None:
                push(mk("exit", "cm", args[0], name != "push"))
            else:
                push(mk("exit", "exit", args[0], name != "push"))
            return [(st, args[0])]
        if name == "enter_context" and args[0].op != "cm":
            out = []
            for s, val in I.cm_enter(st, args[0], cx, node, False):
                if not isinstance(val, Raise):
                    s.w(v).f["$exits"] = s.get(v).f.get("$exits", ()) + (mk("exit", "cm", args[0], False),)
                out.append((s, val))
            return out
        if name == "enter_async_context" and args[0].op != "cm":
            return [(st, mk("extcoro", q + "." + name, (v, args[0]), (), loc))]
        if name == "pop_all":
            new = I.alloc(st, "inst", mk("ext", q), {"args": mk("tup"), "$exits": st.get(v).f.get("$exits", ())})
            st.w(v).f["$exits"] = ()
            return [(st, new)]
        if name == "close":
            return [(s, r if isinstance(r, Raise) else NONE) for s, r in I.stack_exit(st, v, None, cx, node, False)]
        if name == "aclose":
            return [(st, mk("extcoro", q + "." + name, (v,), (), loc))]
    if q == "asyncio.Event":
        if name == "set":
            st.emit(Ev("event_set", loc, obj=v))
            return [(st, NONE)]
        if name == "clear":
            st.emit(Ev("event_clear", loc, obj=v))
            return [(st, NONE)]
        if name == "wait":
            return [(st, mk("extcoro", "asyncio.Event.wait", (v,), (), loc))]
    if q == "asyncio.TimerHandle" and name == "cancel":
        st.emit(Ev("timer_cancel", loc, obj=v))
        return [(st, NONE)]
    if q == "struct.Struct":
        f = EXT.get("struct." + name)
        if f is not None:
            return f(I, st, [ob.f["args"].args[0]] + list(args), kwargs, cx, node)
    if is_exc_name(q) and name == "with_traceback":
        return [(st, v)]
    if q == "voluptuous.Schema":
        if name == "extend":
            return [(st, schema_extend(I, st, v, ob, args[0]))]
        if name == "__call__":
            return schema_call(I, st, v, ob, args, cx, node)
    return None


def schema_of(I, st, v):
    """the dictionary behind a voluptuous schema"""
    ob = I.obj(st, v)
    while ob is not None and ob.kind == "inst" and ob.cls is not None and ob.cls.op == "ext" and ob.cls.args[0] == "voluptuous.Schema":
        a = ob.f.get("args")
        if a is None or not a.args:
            return None
        v = a.args[0]
        ob = I.obj(st, v)
    return ob if ob is not None and ob.kind == "dict" and ob.f.get("rest") is None else None


def schema_extend(I, st, v, ob, more):
    a, b = schema_of(I, st, v), schema_of(I, st, more)
    if a is None or b is None:
        return v

    def key(k):
        o = I.obj(st, k)
        return o.f["args"].args[0] if o is not None and o.kind == "inst" else k

    items = [(k, x) for k, x in a.f["items"] if not any(same(I, st, key(k), key(k2)) is True for k2, _ in b.f["items"])] + list(b.f["items"])
    d = I.dict_(st, items)
    return I.alloc(st, "inst", mk("ext", "voluptuous.Schema"), {"args": mk("tup", d)})


def schema_call(I, st, f, ob, args, cx, node):
    """validation of a configuration dictionary; what cannot be decided is taken as valid"""
    q = ob.cls.args[0]
    if q != "voluptuous.Schema":
        r = validate(I, st, f, args[0], cx, node)
        return [(st, args[0] if r is None else r)]
    sch = schema_of(I, st, f)
    arg = I.obj(st, args[0])
    if sch is None or arg is None or arg.kind != "dict" or arg.f.get("rest") is not None:
        return [(st, args[0])]
    got = list(arg.f["items"])
    out = []
    for k, val in sch.f["items"]:
        o = I.obj(st, k)
        kind = o.cls.args[0] if o is not None and o.kind == "inst" else ""
        key = o.f["args"].args[0] if kind else k
        hit = [x for x in got if same(I, st, x[0], key) is True]
        if hit:
            r = validate(I, st, val, hit[0][1], cx, node)
            if isinstance(r, Raise):
                return [(st, r)]
            out.append((key, r if r is not None else hit[0][1]))
            got = [x for x in got if x is not hit[0]]
            continue
        dflt = o.f.get("$kw_default") if kind else None
        if dflt is not None:
            r = validate(I, st, val, dflt, cx, node)
            if isinstance(r, Raise):
                return [(st, r)]
            out.append((key, r if r is not None else dflt))
        elif kind == "voluptuous.Required":
            return [(st, I.exc(st, "voluptuous.MultipleInvalid", const("required key not provided")))]
    extra = ob.f.get("$kw_extra")
    if got and extra is None:
        return [(st, I.exc(st, "voluptuous.MultipleInvalid", const("extra keys not allowed")))]
    if got:
        out += got
    return [(st, I.dict_(st, out))]


PYTYPE = {"builtins.int": int, "builtins.str": str, "builtins.bool": bool, "builtins.list": list, "builtins.float": float}


def path_exists(I, st, q, x, bad):
    """devices are where the scenario says they are (all of /dev unless it names the existing ones)"""
    if x.op != "const" or not isinstance(cval(x), str):
        return bad() if x.op == "const" or is_num(x) else None
    if q != "voluptuous.PathExists":
        return bad()  # a serial port is neither a regular file nor a directory
    have = I.hooks.get("paths")
    if have is None:
        return x if cval(x).startswith("/dev/") else None
    return x if cval(x) in have else bad()


def validate(I, st, val, x, cx, node):
    """the validated value, a Raise, or None where the validator is not modelled"""
    bad = lambda: I.exc(st, "voluptuous.MultipleInvalid", x)
    o = I.obj(st, val)
    if val.op == "ext" and val.args[0] in PYTYPE and x.op in ("const", "num"):
        c = cval(x) if is_const(x) else numval(x)
        return x if isinstance(c, PYTYPE[val.args[0]]) else bad()
    if val.op == "const":
        d = same(I, st, val, x)
        return x if d is True else (bad() if d is False else None)
    if val.op == "ext" and val.args[0] in ("voluptuous.PathExists", "voluptuous.IsFile", "voluptuous.IsDir"):
        return path_exists(I, st, val.args[0], x, bad)
    if o is not None and o.kind == "inst" and o.cls is not None and o.cls.op == "ext":
        q = o.cls.args[0]
        a = o.f.get("args", mk("tup")).args
        if q in ("voluptuous.PathExists", "voluptuous.IsFile", "voluptuous.IsDir"):
            return path_exists(I, st, q, x, bad)
        if q == "voluptuous.In":
            c = contains(I, st, x, a[0])
            return x if c is TRUE or c is True else (bad() if c is FALSE or c is False else None)
        if q == "voluptuous.Any":
            rs = [validate(I, st, y, x, cx, node) for y in a]
            for r in rs:
                if r is not None and not isinstance(r, Raise):
                    return r
            return None if any(r is None for r in rs) else bad()
        if q == "voluptuous.All":
            for y in a:
                r = validate(I, st, y, x, cx, node)
                if r is None or isinstance(r, Raise):
                    return r
                x = r
            return x
        if q == "voluptuous.Schema":
            r = schema_call(I, st, val, o, [x], cx, node)
            return r[0][1] if len(r) == 1 else None
    return None


def ext_init(st, ref, bases, args, kwargs):
    """the fields a zigpy base class constructor sets"""
    if "zigpy.device.Device" in bases:
        got = dict(zip(("application", "ieee", "nwk"), args), **kwargs)
        o = st.w(ref)
        for n, v in got.items():
            if n == "nwk":
                o.f["nwk"] = v if v.op == "cast" else mk("cast", "zigpy.types.NWK", v)
            else:
                o.f["_" + n] = v
        for n in ("lqi", "rssi", "last_seen"):
            o.f.setdefault(n, NONE)


def super_call(I, st, selfv, name, args, kwargs, cx, node):
    if name == "__init__" and selfv is not None and selfv.op == "ref":
        ob = st.get(selfv)
        eb = ob.cls.args[0].ext_bases() if ob.cls is not None and ob.cls.op == "class" else []
        o = st.w(selfv)
        if any(is_exc_name(q) for q in eb):
            o.f["args"] = mk("tup", *args)
        c = kwargs.get("config", args[0] if args else None)
        if c is not None and any(q.startswith("zigpy.application") for q in eb):
            o.f["_config"] = c
        ext_init(st, selfv, eb, args, kwargs)
        st.emit(Ev("super_init", cx.loc(node), obj=selfv, args=tuple(args), kwargs=dict(kwargs)))
        return [(st, NONE)]
    if name in ("__init__", "__init_subclass__"):
        return [(st, NONE)]
    h = I.hooks.get("mcall")
    if h and selfv is not None:
        r = h(I, st, selfv, name, args, kwargs, cx, node)
        if r is not None:
            return r
    st.emit(Ev("mcall", cx.loc(node), obj=selfv if selfv is not None else NONE, name=name, args=tuple(args), kwargs=dict(kwargs), sup=True))
    return I.opaque_results(st, "super.%s()" % name, cx, node)


# ---------------------------------------------------------------- await
def await_ext(I, st, v, cx, node, timeout):
    q, args, kw, loc = v.args
    kwargs = dict(kw)
    if q == "asyncio.sleep":
        st.emit(Ev("sleep", cx.loc(node), delay=strip(_arg(args, kwargs, 0, "delay"))))
        out = []
        if I.cancel_points:
            s = st.fork()
            s.emit(Ev("cancelled", cx.loc(node)))
            out.append((s, I.exc(s, "asyncio.CancelledError")))
        return out + [(st, NONE)]
    if q.startswith("contextlib.AsyncExitStack."):
        if q.endswith(".aclose"):
            return [(s, r if isinstance(r, Raise) else NONE) for s, r in I.stack_exit(st, args[0], None, cx, node, True)]
        pre = I.blocked(st, cx, node, timeout) if I.cm_kind(st, args[1], True) == "lock" else []
        out = list(pre)
        for s, val in I.cm_enter(st, args[1], cx, node, True):
            if not isinstance(val, Raise):
                s.w(args[0]).f["$exits"] = s.get(args[0]).f.get("$exits", ()) + (mk("exit", "cm", args[1], True),)
            out.append((s, val))
        return out
    if q.endswith(".acquire"):
        pre = I.blocked(st, cx, node, timeout)
        st.emit(Ev("acquire", cx.loc(node), obj=args[0]))
        return pre + [(st, TRUE)]
    if q == "asyncio.gather":
        res = [(st, [])]
        raises = []
        for a in args:
            nxt = []
            for s, acc in res:
                for s2, x in I.await_(s, a, cx, node):
                    if isinstance(x, Raise):
                        raises.append((s2, x))
                    else:
                        nxt.append((s2, acc + [x]))
            res = nxt
        return raises + [(s, I.list_(s, acc)) for s, acc in res]
    if q == "serial_asyncio.create_serial_connection":
        factory = args[1] if len(args) > 1 else kwargs.get("protocol_factory", NONE)
        st.emit(Ev("open_port", cx.loc(node), args=tuple(args), kwargs=kwargs))
        out = []
        how = I.hooks.get("open_fails")
        if callable(how):
            how = how(st)
        if how:
            s = st.fork()
            out.append((s, I.exc(s, how if isinstance(how, str) else "serial.SerialException")))
            if isinstance(how, str):
                return out
        if I.cancel_points:
            s = st.fork()
            s.emit(Ev("cancelled", cx.loc(node)))
            out.append((s, I.exc(s, "asyncio.CancelledError")))
        tr = sym("transport", "obj")

        def made(s, p):
            return I.then(
                I.getattr_(s, p, "connection_made", cx, node),
                lambda s2, m: I.then(
                    I.call(s2, m, [tr], {}, cx, node),
                    lambda s3, _: (s3.emit(Ev("opened", cx.loc(node), protocol=p)), s3.flags.__setitem__("gw", p), [(s3, mk("tup", tr, p))])[2],
                ),
            )

        return out + I.then(I.call(st, factory, [], {}, cx, node), made)
    st.emit(Ev("await", cx.loc(node), what=v, timeout=timeout))
    return I.blocked(st, cx, node, timeout) + I.opaque_results(st, "await:" + q, cx, node)
