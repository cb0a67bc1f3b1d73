"""Scenario driver: enter the program at a public entry point with abstract arguments."""
import ast

from .interp import Cx, Interp
from .load import AnalysisError, Module
from .state import Ev, Obj, Raise, State
from .terms import *
from . import lib

DRIVER = Module("driver", "<entry>", ast.parse(""))
_NODE = ast.parse("entry()").body[0].value


class Scen:
    """one interpreter plus helpers to enter it"""

    def __init__(self, interp=None):
        self.I = interp or Interp()
        if DRIVER.frame is None or True:
            m = Module("driver", "<entry>", ast.parse(""))
            i = self.I.newid()
            self.I.base[i] = Obj("frame", None, {"__name__": const("driver")})
            m.frame = mk("ref", i)
            self.cx = Cx(None, m.frame, m)
        self.paths = 0

    # anchors
    def glob(self, mod, name):
        m = self.I.prog.modules.get(mod)
        if m is None:
            raise AnalysisError("anchor vanished: module %s" % mod)
        v = self.I.base[m.frame.args[0]].f.get(name)
        if v is None:
            raise AnalysisError("anchor vanished: %s.%s" % (mod, name))
        return v

    def state(self):
        return self.I.fresh_state()

    # calls
    def call(self, st, f, args=(), kwargs=None, aw=False):
        """-> [(state, value|Raise)], awaiting the result when asked"""
        res = self.I.call(st, f, list(args), dict(kwargs or {}), self.cx, _NODE)
        if aw:
            res = self.I.then(res, lambda s, v: self.I.await_(s, v, self.cx, _NODE))
        self.paths += len(res)
        return res

    def attr(self, st, obj, name):
        r = self.I.getattr_(st, obj, name, self.cx, _NODE)
        if len(r) != 1 or isinstance(r[0][1], Raise):
            raise AnalysisError("anchor vanished: attribute %s of %s" % (name, show(obj)))
        return r[0]

    def meth(self, st, obj, name, args=(), kwargs=None, aw=False):
        res = self.I.getattr_(st, obj, name, self.cx, _NODE)
        out = []
        for s, f in res:
            if isinstance(f, Raise):
                ob = self.I.obj(s, obj)
                raise AnalysisError("anchor vanished: method %s of %s" % (name, ob.cls if ob else show(obj)))
            out += self.call(s, f, args, kwargs, aw)
        return out

    def one(self, res, what=""):
        """the single non-raising result"""
        if len(res) != 1:
            raise AnalysisError("%s: %d paths where one was expected" % (what, len(res)))
        if isinstance(res[0][1], Raise):
            raise AnalysisError("%s raises %s" % (what, self.exc(res[0][0], res[0][1])))
        return res[0]

    def exc(self, st, r):
        c = self.I.exc_class(st, r)
        o = self.I.obj(st, r.exc)
        nm = c.args[0].qual if c.op == "class" else c.args[0]
        return "%s%s" % (nm, show(o.f["args"]) if o is not None and "args" in o.f else "")

    def exc_is(self, st, r, q):
        return q in self.I.class_supers(self.I.exc_class(st, r))

    def field(self, st, obj, name, default=None):
        o = self.I.obj(st, obj)
        if o is None:
            return default
        return o.f.get(name, default)


def flat(events, into_loops=True):
    """events in order, loop iterations included"""
    for e in events:
        if e.kind in ("loop", "loop-prefix"):
            yield e
            if into_loops:
                for facts, evs, k, v in e.paths:
                    yield from flat(evs)
        else:
            yield e


def many(before, after, W=None):
    """`after` with everything that was counted up since `before` counted up any number of times; None when nothing was"""
    out = None
    for i in list(after.heap):
        if not before.has(i) or before.get(i) is after.get(i):
            continue
        a, b = before.get(i).f, after.get(i).f
        for k, x in b.items():
            y = a.get(k)
            if k.startswith("$") or not (isinstance(x, Term) and isinstance(y, Term)) or not (is_const(x) and is_const(y)):
                continue
            if type(cval(x)) is not int or type(cval(y)) is not int or cval(x) <= cval(y):
                continue
            if out is None:
                out = after.fork()
            n = sym("many.%s.%s" % (i, k), "int")
            out.assume(ge0(sub(n, x)), True)
            out.w(mk("ref", i)).f[k] = n
    for key, x in list(after.oattrs.items()) if W is not None else ():
        # class attributes
        if len(key) != 2 or key[0].op != "class" or before.oattrs.get(key) is x:
            continue
        r = W.I.getattr_(before.fork(), key[0], key[1], W.cx, _NODE)
        y = r[0][1] if len(r) == 1 else None
        if not (isinstance(x, Term) and isinstance(y, Term)) or not (is_const(x) and is_const(y)):
            continue
        if type(cval(x)) is int and type(cval(y)) is int and cval(x) > cval(y):
            out = out or after.fork()
            n = sym("many.class.%s" % key[1], "int")
            out.assume(ge0(sub(n, x)), True)
            out.oattrs[key] = n
    return out
