"""Path-sensitive abstract interpreter over the syntax trees of zigpy_cc.

It never runs the program: every value is a canonical term, branches whose
condition is not decided by the path facts are both followed, calls into
zigpy_cc are analysed in their calling context, calls into libraries are modelled
(lib.py) or recorded as effects, and loops over unknown sequences are summarised
from one abstract iteration (induction variables, folds and maps get closed
forms, everything else that the body changes is forgotten).
"""
import ast
import sys

from . import lib
from .load import AnalysisError, ClassInfo, FuncInfo, Program
from .state import Ev, Obj, Raise, State
from .terms import *
from .terms import _fmdepth

sys.setrecursionlimit(20000)

MAXDEPTH = 60
_HERE = ast.parse("x").body[0].value
UNROLL = 600
FANOUT = 20


class Cx:
    """activation context"""

    __slots__ = ("info", "frame", "module", "cls", "selfv", "depth", "stack", "parent")

    def __init__(self, info, frame, module, cls=None, selfv=None, depth=0, stack=(), parent=None):
        self.info = info
        self.frame = frame
        self.module = module
        self.cls = cls
        self.selfv = selfv
        self.depth = depth
        self.stack = stack
        self.parent = parent

    def loc(self, node):
        return (
            self.module.path,
            getattr(node, "lineno", 0),
            self.info.qual if self.info else self.module.name,
        )


NEXT, RET, RAISE, BREAK, CONT = "next", "ret", "raise", "break", "cont"


class Interp:
    def __init__(self, prog=None):
        self.prog = prog or Program()
        self.ids = 0
        self.base = {}
        self.boundary = {}
        self.run_boundary = {}
        self.hooks = {}
        self.cancel_points = 0
        self.cm_bodies = {}
        self.await_raises = None
        self.seen = set()  # functions analysed
        self.calls = 0
        self.init_state = None
        self._load()

    # ------------------------------------------------------------ set-up
    def _load(self):
        st = State(self.base)
        self.init_state = st
        for m in self.prog.modules.values():
            m.frame = self.alloc(st, "frame", None, {"__name__": const(m.name)})
        for name in sorted(self.prog.modules):
            self.run_module(self.prog.modules[name])
        self.base.update(self.init_state.heap)
        self.init_state = None

    def run_module(self, m):
        if m.state:
            return
        m.state = 1
        st = self.init_state
        cx = Cx(None, m.frame, m)
        for node in m.tree.body:
            res = self.exec_stmt(node, st, cx)
            res = [r for r in res if r[1] == NEXT]
            if not res:
                raise AnalysisError("module %s does not initialise (line %d)" % (m.name, node.lineno))
            st = self.init_state = res[0][0]
        m.state = 2

    def fresh_state(self):
        return State(self.base)

    def newid(self):
        self.ids += 1
        return self.ids

    def alloc(self, st, kind, cls, fields):
        i = self.newid()
        st.heap[i] = Obj(kind, cls, fields)
        st.own.add(i)
        return mk("ref", i)

    def fresh(self, name, typ=None):
        return sym("%s#%d" % (name, self.newid()), typ)

    def obj(self, st, v):
        return st.get(v) if v.op == "ref" else None

    def list_(self, st, items):
        return self.alloc(st, "list", None, {"segs": tuple(("it", x) for x in items)})

    def dict_(self, st, items, rest=None):
        return self.alloc(st, "dict", None, {"items": tuple(items), "rest": rest})

    # ---------------------------------------------------------- exceptions
    def exc(self, st, qual, *args):
        """new exception instance of an external or builtin class"""
        return Raise(self.alloc(st, "inst", mk("ext", lib.canon(qual)), {"args": mk("tup", *args)}))

    def exc_class(self, st, r):
        v = r.exc if isinstance(r, Raise) else r
        o = self.obj(st, v)
        if o is not None:
            return o.cls
        return mk("ext", "AnyException")

    def class_supers(self, c):
        """qualified names of the classes an exception class derives from, itself included"""
        if c.op == "class":
            out = []
            for k in c.args[0].mro():
                out.append(k.qual)
            for q in c.args[0].ext_bases():
                out.extend(lib.exc_supers(q))
            return out
        return lib.exc_supers(c.args[0])

    def exc_match(self, st, ev, hcls):
        """does exception value ev match handler class term(s)? True/False/atom"""
        if hcls.op == "tup":
            r = False
            for h in hcls.args:
                m = self.exc_match(st, ev, h)
                if m is True:
                    return True
                if m is not False:
                    r = m if r is False else mk("or", r, m)
            return r
        if hcls.op == "class":
            q = hcls.args[0].qual
        elif hcls.op == "ext":
            q = lib.canon(hcls.args[0])
        else:
            return mk("isinst", ev, hcls)
        c = self.exc_class(st, ev)
        cq = c.args[0].qual if c.op == "class" else lib.canon(c.args[0])
        sup = self.class_supers(c)
        if q in sup:
            return True
        if cq == "AnyException":
            o = self.obj(st, ev)
            ban = () if o is None else o.f.get("$not", ())
            if q in ban:
                return False
            if q in ("asyncio.CancelledError", "builtins.KeyboardInterrupt", "builtins.SystemExit", "builtins.GeneratorExit"):
                return False
            return mk("isinst", ev, mk("ext", q))
        return False

    # --------------------------------------------------------------- calls
    def call(self, st, f, args, kwargs, cx, node):
        """-> [(state, value | Raise)]"""
        self.calls += 1
        o = f.op
        if o == "func":
            return self.call_func(st, f, args, kwargs, cx, node)
        if o == "cmfunc":
            b = self.bind(st, f.args[0], args, kwargs, cx, node)
            return [(st, b if isinstance(b, Raise) else mk("cm", f.args[0], tuple(b.items())))]
        if o == "bound":
            return self.call(st, f.args[0], [f.args[1]] + list(args), kwargs, cx, node)
        if o == "class":
            return self.instantiate(st, f, args, kwargs, cx, node)
        if o == "ext":
            return lib.call_ext(self, st, f.args[0], list(args), kwargs, cx, node)
        if o == "meth":
            return lib.call_method(self, st, f.args[0], f.args[1], list(args), kwargs, cx, node)
        if o == "opget" and len(args) == 1:
            return lib.call_getter(self, st, f, args[0], cx, node)
        if o == "partial":
            kw = dict(f.args[2])
            kw.update(kwargs)
            return self.call(st, f.args[0], list(f.args[1]) + list(args), kw, cx, node)
        if o == "attr":
            return lib.call_method(self, st, f.args[0], f.args[1], list(args), kwargs, cx, node)
        if o == "ref":
            ob = st.get(f)
            if ob.kind == "inst" and ob.cls is not None and ob.cls.op == "class":
                c, m = ob.cls.args[0].find("__call__")
                if m is not None:
                    return self.call(st, m, [f] + list(args), kwargs, cx, node)
            if ob.kind == "inst" and ob.cls is not None and ob.cls.op == "ext" and ob.cls.args[0].startswith("voluptuous."):
                r = lib.schema_call(self, st, f, ob, args, cx, node)
                if r is not None:
                    return r
        if o == "extmeth":
            return lib.call_method(self, st, f.args[1], f.args[0], list(args), kwargs, cx, node)
        # unknown callable
        st.emit(Ev("ucall", cx.loc(node), fn=f, args=tuple(args), kwargs=dict(kwargs)))
        return self.opaque_results(st, "call:%s" % show(f), cx, node)

    def opaque_results(self, st, name, cx, node, typ=None):
        h = self.hooks.get("opaque")
        if h:
            r = h(self, st, name, cx, node)
            if r is not None:
                return r
        return [(st, self.fresh(name, typ))]

    def bind(self, st, f, args, kwargs, cx, node):
        """parameter binding -> dict or Raise"""
        info, closure, defaults, kwdefaults = f.args
        a = info.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kw = dict(kwargs)
        args = list(args)
        if len(args) > len(pos):
            if a.vararg is None:
                return self.exc(st, "builtins.TypeError", const("too many arguments for %s" % info.qual))
            out[a.vararg.arg] = mk("tup", *args[len(pos):])
            args = args[: len(pos)]
        elif a.vararg is not None:
            out[a.vararg.arg] = mk("tup")
        for n, v in zip(pos, args):
            out[n] = v
        for n in pos[len(args):]:
            if n in kw:
                out[n] = kw.pop(n)
        for n in [x.arg for x in a.kwonlyargs]:
            if n in kw:
                out[n] = kw.pop(n)
        dpos = pos[len(pos) - len(defaults):] if defaults else []
        for n, v in zip(dpos, defaults):
            out.setdefault(n, v)
        for n, v in kwdefaults:
            out.setdefault(n, v)
        if kw:
            rest = kw.pop("**", None)
            if a.kwarg is None:
                if kw:
                    return self.exc(st, "builtins.TypeError", const("unexpected arguments %s" % sorted(kw)))
            else:
                out[a.kwarg.arg] = self.dict_(st, [(const(k), v) for k, v in kw.items()], rest)
            if rest is not None and a.kwarg is None:
                st.note("unknown ** argument")
        elif a.kwarg is not None:
            out[a.kwarg.arg] = self.dict_(st, [])
        missing = [n for n in pos + [x.arg for x in a.kwonlyargs] if n not in out]
        if missing:
            return self.exc(st, "builtins.TypeError", const("%s: missing %s" % (info.qual, missing)))
        return out

    def call_func(self, st, f, args, kwargs, cx, node):
        b = self.bind(st, f, args, kwargs, cx, node)
        if isinstance(b, Raise):
            return [(st, b)]
        info = f.args[0]
        h = self.boundary.get(info.qual)
        if h is not None:
            r = h(self, st, f, b, cx, node)
            if r is not None:
                return r
        if info.is_async and not info.is_gen:
            v = mk("coro", f, tuple(b.items()), cx.loc(node))
            st.emit(Ev("coro", cx.loc(node), coro=v))
            return [(st, v)]
        return self.run_func(st, f, b, cx, node)

    def run_func(self, st, f, bound, cx, node):
        info, closure = f.args[0], f.args[1]
        depth = (cx.depth if cx else 0) + 1
        stack = cx.stack if cx else ()
        if depth > MAXDEPTH or stack.count(info.qual) > 2:
            st.note("call depth limit at %s" % info.qual)
            return [(st, self.fresh("deep:" + info.qual))]
        self.seen.add(info.qual)
        h = self.run_boundary.get(info.qual)
        if h is not None:
            r = h(self, st, f, bound, cx, node)
            if r is not None:
                return r
        fr = self.alloc(st, "frame", None, dict(bound))
        st.w(fr).f["$parent"] = closure if closure is not None else info.module.frame
        selfv = None
        a = info.node.args
        ps = a.posonlyargs + a.args
        if ps and info.cls is not None:
            selfv = bound.get(ps[0].arg)
        ncx = Cx(info, fr, info.module, info.cls, selfv, depth, stack + (info.qual,), cx)
        if isinstance(info.node, ast.Lambda):
            return self.ev(info.node.body, st, ncx)
        if info.is_gen:
            acc = self.list_(st, [])
            st.w(fr).f["$yield"] = acc
        out = []
        for s, k, v in self.exec_block(info.node.body, st, ncx):
            if k == RAISE:
                out.append((s, v))
            elif info.is_gen:
                out.append((s, acc))
            elif k == RET:
                out.append((s, v))
            else:
                out.append((s, NONE))
        return out

    def instantiate(self, st, c, args, kwargs, cx, node):
        ci = c.args[0]
        if ci.is_enum:
            return self.enum_call(st, c, args, cx, node)
        h = self.boundary.get(ci.qual)
        if h is not None:
            r = h(self, st, c, {"args": tuple(args), "kwargs": dict(kwargs)}, cx, node)
            if r is not None:
                return r
        ref = self.alloc(st, "inst", c, {})
        k, init = ci.find("__init__")
        if init is not None:
            out = []
            for s, v in self.call(st, mk("bound", init, ref), args, kwargs, cx, node):
                out.append((s, v if isinstance(v, Raise) else ref))
            return out
        if ci.is_dataclass:
            return self.make_fields(st, ref, ci, args, kwargs, cx, node)
        o = st.w(ref)
        o.f["args"] = mk("tup", *args)
        for n, v in kwargs.items():
            o.f["$kw_" + n] = v
        lib.ext_init(st, ref, ci.ext_bases(), args, kwargs)
        return [(st, ref)]

    def make_fields(self, st, ref, ci, args, kwargs, cx, node):
        """the generated __init__ of a dataclass or named tuple"""
        names = ci.fields()
        given = dict(zip(names, args))
        if len(args) > len(names) or any(n not in names or n in given for n in kwargs):
            return [(st, self.exc(st, "builtins.TypeError", const("unexpected argument")))]
        given.update(kwargs)
        cur = [(st, ref)]
        for n in names:
            nxt = []
            for s, r in cur:
                if n in given:
                    s.w(ref).f[n] = given[n]
                    nxt.append((s, r))
                    continue
                _, d = ci.find(n)
                if d is not None and d.op == "dcfield":
                    dv, df = d.args[0], d.args[1]
                    if dv is not None:
                        s.w(ref).f[n] = dv
                        nxt.append((s, r))
                        continue
                    if df is not None:
                        for s2, x in self.call(s, df, [], {}, cx, node):
                            if isinstance(x, Raise):
                                return [(s2, x)]
                            s2.w(ref).f[n] = x
                            nxt.append((s2, r))
                        continue
                    if d.args[2]:
                        nxt.append((s, r))
                        continue
                    d = None
                if d is None:
                    return [(s, self.exc(s, "builtins.TypeError", const("missing " + n)))]
                s.w(ref).f[n] = d
                nxt.append((s, r))
            cur = nxt
        _, post = ci.find("__post_init__")
        if post is not None:
            out = []
            for s, r in cur:
                for s2, v in self.call(s, mk("bound", post, ref), [], {}, cx, node):
                    out.append((s2, v if isinstance(v, Raise) else ref))
            return out
        return cur

    def enum_call(self, st, c, args, cx, node):
        ci = c.args[0]
        if len(args) != 1:
            return [(st, self.exc(st, "builtins.TypeError"))]
        v = strip(args[0])
        if v.op == "enum" and v.args[0] == ci.qual:
            return [(st, v)]
        if is_num(v) or v.op == "const":
            x = numval(v) if is_num(v) else cval(v)
            for n, m in ci.members.items():
                if m.args[2] == x:
                    return [(st, m)]
            return [(st, self.exc(st, "builtins.ValueError", v))]
        # unknown value: a member, or ValueError
        if v in st.known:
            return self.enum_call(st, c, [const(st.known[v])], cx, node)
        ok = mk("member", mk("ext", ci.qual), v)
        d = st.decide(ok)
        out = []
        if d is not False:
            s = st.fork()
            s.assume(ok, True)
            out.append((s, mk("ecast", c, v)))
        if d is not True:
            s = st.fork()
            s.assume(ok, False)
            out.append((s, self.exc(s, "builtins.ValueError", v)))
        return out

    # ---------------------------------------------------------- await
    def await_(self, st, v, cx, node, timeout=None):
        o = v.op
        loc = cx.loc(node)
        if o == "coro":
            st.emit(Ev("coro_used", loc, coro=v))
            return self.run_func(st, v.args[0], dict(v.args[1]), cx, node)
        if o == "waitfor":
            aw, t = v.args
            st.emit(Ev("waitfor", loc, aw=aw, timeout=t))
            if aw.op == "coro":
                self.cancel_points += 1
                try:
                    res = self.await_(st, aw, cx, node)
                finally:
                    self.cancel_points -= 1
                out = []
                for s, r in res:
                    if isinstance(r, Raise) and self.obj(s, r.exc) is not None:
                        cl = self.exc_class(s, r)
                        if cl.op == "ext" and cl.args[0] == "asyncio.CancelledError":
                            s.emit(Ev("timeout", loc, aw=aw, timeout=t))
                            r = self.exc(s, "asyncio.TimeoutError")
                            if self.cancel_points:
                                s2 = s.fork()
                                out.append((s2, self.exc(s2, "asyncio.CancelledError")))
                    out.append((s, r))
                return out
            return self.await_(st, aw, cx, node, timeout=t)
        if o == "shield":
            return self.await_(st, v.args[0], cx, node, timeout)
        if o == "ref":
            ob = st.get(v)
            if ob.kind == "inst" and ob.cls is not None and ob.cls.op == "ext":
                q = ob.cls.args[0]
                if q == "asyncio.Future":
                    return self.await_future(st, v, cx, node, timeout)
                if q == "asyncio.Task":
                    return self.await_task(st, v, cx, node, timeout)
        if o == "extcoro":
            # awaitable of a modelled library function
            return lib.await_ext(self, st, v, cx, node, timeout)
        st.emit(Ev("await", loc, what=v, timeout=timeout))
        out = self.blocked(st, cx, node, timeout)
        out += self.opaque_results(st, "await", cx, node)
        return out

    def blocked(self, st, cx, node, timeout):
        """the ways a blocking await can end without a result"""
        out = []
        if timeout is not None and timeout is not NONE:
            s = st.fork()
            out.append((s, self.exc(s, "asyncio.TimeoutError")))
        if self.cancel_points:
            s = st.fork()
            s.emit(Ev("cancelled", cx.loc(node)))
            out.append((s, self.exc(s, "asyncio.CancelledError")))
        return out

    def await_future(self, st, fut, cx, node, timeout):
        ob = st.get(fut)
        state = ob.f.get("$state")
        if state == "done":
            return [(st, ob.f["$result"])]
        if state == "cancelled":
            return [(st, self.exc(st, "asyncio.CancelledError"))]
        if state == "exception":
            return [(st, Raise(ob.f["$result"]))]
        st.emit(Ev("await", cx.loc(node), what=fut, timeout=timeout))
        h = self.hooks.get("await_future")
        if h:
            r = h(self, st, fut, cx, node, timeout)
            if r is not None:
                return r
        out = []
        for s, r in self.blocked(st, cx, node, timeout):
            # wait_for cancels the future it gives up on
            s.w(fut).f["$state"] = "cancelled"
            out.append((s, r))
        s = st
        res = self.fresh("reply")
        s.w(fut).f["$state"] = "done"
        s.w(fut).f["$result"] = res
        out.append((s, res))
        return out

    def await_task(self, st, t, cx, node, timeout):
        ob = st.get(t)
        st.emit(Ev("await", cx.loc(node), what=t, timeout=timeout))
        coro = ob.f.get("$coro")
        if coro is not None and coro.op in ("coro", "waitfor", "ref", "extcoro") and ob.f.get("$state") == "pending":
            st.w(t).f["$state"] = "done"
            return self.await_(st, coro, cx, node, timeout)
        return self.blocked(st, cx, node, timeout) + [(st, self.fresh("task"))]

    # ------------------------------------------------------------ branching
    def cond(self, st, v):
        """-> bool | (atom, polarity)"""
        pol = True
        while v.op == "not":
            v = v.args[0]
            pol = not pol
        o = v.op
        if o == "const":
            return bool(cval(v)) == pol
        if o == "enum":
            return bool(v.args[2]) == pol
        if o in ("eq", "eq0", "ge0", "in", "isnone", "isinst", "is", "member", "truthy", "or"):
            return (v, pol)
        if o == "cast":
            v = strip(v)
            o = v.op
        if o == "ecast":
            v = strip(v)
            o = v.op
        if o == "ref":
            ob = st.get(v)
            if ob.kind == "list":
                segs = ob.f["segs"]
                if any(s[0] == "it" for s in segs):
                    return pol
                if not segs:
                    return not pol
                if len(segs) == 1 and segs[0][0] == "map":
                    return self.cond(st, ge0(add(segs[0][1], const(-1)))) if pol else self.cond(
                        st, mk("not", ge0(add(segs[0][1], const(-1))))
                    )
                return (mk("truthy", v), pol)
            if ob.kind in ("dict", "set"):
                if ob.f["items"]:
                    return pol
                if ob.f.get("rest") is None:
                    return not pol
                return (mk("truthy", v), pol)
            if ob.kind == "bytearray":
                return self.cond(st, mk("not", ob.f["v"]) if not pol else ob.f["v"])
            if ob.kind == "inst" and ob.cls is not None and ob.cls.op == "class":
                for m in ("__bool__", "__len__"):
                    c, f = ob.cls.args[0].find(m)
                    if f is not None:
                        r = self.call(st, mk("bound", f, v), [], {}, Cx(None, f.args[0].module.frame, f.args[0].module), f.args[0].node)
                        if len(r) == 1 and not isinstance(r[0][1], Raise):
                            return self.cond(st, mk("not", r[0][1]) if not pol else r[0][1])
                        return (mk("truthy", v), pol)
            return pol
        if o in ("func", "class", "bound", "ext", "mod", "meth", "coro", "waitfor", "partial", "extcoro", "device", "opget", "partialmethod"):
            return pol
        if o == "tup":
            return bool(v.args) == pol
        ty = typ_of(v)
        if ty in ("int", "num"):
            a = eq0(v)
            if is_const(a):
                return (not cval(a)) == pol
            return (a, not pol)
        if ty in ("bytes",):
            a = ge0(add(blen(v), const(-1)))
            if is_const(a):
                return cval(a) == pol
            return (a, pol)
        if ty == "seq":
            return pol
        if isinstance(ty, ClassInfo):
            return (mk("isnone", v), not pol)
        if ty == "obj":
            return pol
        return (mk("truthy", v), pol)

    def branch(self, st, v):
        """[(state, bool)] for the feasible outcomes of a condition value"""
        c = self.cond(st, v)
        if isinstance(c, bool):
            return [(st, c)]
        atom, pol = c
        if atom.op == "or":
            out = []
            for s, b in self.branch(st, atom.args[0]):
                if b:
                    out.append((s, pol))
                else:
                    for s2, b2 in self.branch(s, atom.args[1]):
                        out.append((s2, b2 == pol))
            return out
        d = st.decide(atom)
        if d is not None:
            return [(st, d == pol)]
        t = st.fork()
        out = []
        if st.assume(atom, True):
            out.append((st, pol))
        if t.assume(atom, False):
            out.append((t, not pol))
        return out

    # --------------------------------------------------------- statements
    def exec_block(self, stmts, st, cx):
        """-> [(state, outcome, value)]"""
        cur = [st]
        done = []
        for node in stmts:
            nxt = []
            for s in cur:
                for r in self.exec_stmt(node, s, cx):
                    if r[1] == NEXT:
                        nxt.append(r[0])
                    else:
                        done.append(r)
            cur = nxt
            if not cur:
                break
            if len(cur) > 3000:
                raise AnalysisError("too many paths in %s" % (cx.info.qual if cx.info else cx.module.name))
        return done + [(s, NEXT, None) for s in cur]

    def exec_stmt(self, node, st, cx):
        m = getattr(self, "x_" + type(node).__name__, None)
        if m is None:
            raise AnalysisError("unsupported statement %s at %s:%d" % (type(node).__name__, cx.module.path, node.lineno))
        return m(node, st, cx)

    def each(self, res, fn):
        """continue with fn(state, value) on normal results, wrap raises as outcomes"""
        out = []
        for s, v in res:
            if isinstance(v, Raise):
                out.append((s, RAISE, v))
            else:
                out.extend(fn(s, v))
        return out

    def x_Pass(self, node, st, cx):
        return [(st, NEXT, None)]

    def x_Expr(self, node, st, cx):
        if isinstance(node.value, ast.Constant):
            return [(st, NEXT, None)]

        def done(s, v):
            if v.op in ("coro", "extcoro", "waitfor"):
                # a coroutine nobody awaits never runs
                s.emit(Ev("dropped", cx.loc(node), coro=v))
            return [(s, NEXT, None)]

        return self.each(self.ev(node.value, st, cx), done)

    def x_Return(self, node, st, cx):
        if node.value is None:
            return [(st, RET, NONE)]
        return self.each(self.ev(node.value, st, cx), lambda s, v: [(s, RET, v)])

    def x_Break(self, node, st, cx):
        return [(st, BREAK, None)]

    def x_Continue(self, node, st, cx):
        return [(st, CONT, None)]

    def x_Global(self, node, st, cx):
        return [(st, NEXT, None)]

    x_Nonlocal = x_Global

    def x_Import(self, node, st, cx):
        for al in node.names:
            if al.asname:
                self.setname(st, cx, al.asname, self.import_(al.name))
            else:
                top = al.name.split(".")[0]
                self.import_(al.name)
                self.setname(st, cx, top, self.import_(top))
        return [(st, NEXT, None)]

    def import_(self, name):
        m = self.prog.modules.get(name)
        if m is not None:
            if self.init_state is not None:
                self.run_module(m)
            return mk("mod", m)
        return mk("ext", lib.canon(name))

    def x_ImportFrom(self, node, st, cx):
        base = node.module or ""
        if node.level:
            pkg = cx.module.name
            if not cx.module.path.endswith("__init__.py"):
                pkg = pkg.rpartition(".")[0]
            for _ in range(node.level - 1):
                pkg = pkg.rpartition(".")[0]
            base = pkg + ("." + base if base else "")
        mod = self.import_(base)
        st = self.init_state if self.init_state is not None else st
        for al in node.names:
            if al.name == "*":
                if mod.op == "mod":
                    for k, v in list(st.get(mod.args[0].frame).f.items()):
                        if not k.startswith("_"):
                            self.setname(st, cx, k, v)
                continue
            n = al.asname or al.name
            if mod.op == "mod":
                v = st.get(mod.args[0].frame).f.get(al.name)
                if v is None:
                    v = self.import_(base + "." + al.name)
                    st = self.init_state if self.init_state is not None else st
                    if v.op == "ext":
                        raise AnalysisError("cannot import %s from %s" % (al.name, base))
            else:
                v = lib.ext_attr(self, mod.args[0], al.name)
            self.setname(st, cx, n, v)
        return [(st, NEXT, None)]

    def x_FunctionDef(self, node, st, cx):
        return self.def_func(node, st, cx)

    x_AsyncFunctionDef = x_FunctionDef

    def def_func(self, node, st, cx, cls=None):
        """define a function; yields NEXT outcomes"""
        a = node.args
        dn = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        out = []
        for s, vals in self.evl(dn, st, cx):
            if isinstance(vals, Raise):
                out.append((s, RAISE, vals))
                continue
            nd = len(a.defaults)
            kwn = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            if cls is not None:
                qual = cls.qual + "." + node.name
            elif cx.info is not None:
                qual = cx.info.qual + ".<locals>." + node.name
            else:
                qual = cx.module.name + "." + node.name
            info = self.finfo(node, cx.module, qual, cls if cls is not None else cx.cls)
            closure = cx.frame if cx.info is not None and cls is None else None
            f = mk("func", info, closure, tuple(vals[:nd]), tuple(zip(kwn, vals[nd:])))
            out.extend(self.decorate(node, f, s, cx, cls))
        return out

    def finfo(self, node, module, qual, cls):
        fi = getattr(node, "_sa_info", None)
        if fi is None or fi.module is not module:
            fi = FuncInfo(module, qual, node, cls)
            node._sa_info = fi
        return fi

    TRANSPARENT = {
        "zigpy.util.retryable_request", "functools.wraps", "functools.lru_cache", "staticmethod",
        "abc.abstractmethod", "typing.no_type_check", "typing.overload", "functools.cache",
    }

    def decorate(self, node, f, st, cx, cls):
        kind = None
        cur = [(st, f)]
        for d in reversed(node.decorator_list):
            txt = ast.unparse(d)
            if txt in ("property", "functools.cached_property", "cached_property", "abc.abstractproperty"):
                kind = "property"
                continue
            if txt == "staticmethod":
                kind = "static"
                continue
            if txt == "classmethod":
                kind = "classm"
                continue
            if txt.endswith(".setter"):
                kind = "setter"
                continue
            nxt = []
            for s, v in cur:
                for s2, dv in self.ev(d, s, cx):
                    if isinstance(dv, Raise):
                        return [(s2, RAISE, dv)]
                    if dv.op == "ext" and dv.args[0] in ("contextlib.contextmanager", "contextlib.asynccontextmanager"):
                        nxt.append((s2, mk("cmfunc", v)))
                    elif dv.op in ("func", "bound"):
                        for s3, r in self.call(s2, dv, [v], {}, cx, node):
                            if isinstance(r, Raise):
                                return [(s3, RAISE, r)]
                            nxt.append((s3, r))
                    else:
                        q = dv.args[0] if dv.op == "ext" else show(dv)
                        if q not in self.TRANSPARENT and not str(q).startswith(("ret:", "call:")):
                            s2.note("decorator %s ignored" % txt)
                        nxt.append((s2, v))
            cur = nxt
        out = []
        for s, v in cur:
            if kind == "property":
                v = mk("property", v, NONE)
            elif kind == "static":
                v = mk("static", v)
            elif kind == "classm":
                v = mk("classm", v)
            elif kind == "setter":
                old = cls.attrs.get(node.name) if cls else None
                v = mk("property", old.args[0] if old is not None and old.op == "property" else NONE, v)
            if cls is not None:
                cls.attrs[node.name] = v
            else:
                self.setname(s, cx, node.name, v)
            out.append((s, NEXT, None))
        return out

    def x_ClassDef(self, node, st, cx):
        qual = (cx.info.qual + ".<locals>." if cx.info else cx.module.name + ".") + node.name
        ci = ClassInfo(cx.module, node.name, qual, node)
        for s, bases in self.evl(node.bases, st, cx):
            if isinstance(bases, Raise):
                return [(s, RAISE, bases)]
            ci.bases = bases
            st = s
            break
        ci.is_enum = any(b.op == "ext" and b.args[0].startswith("enum.") for b in ci.bases) or any(
            b.op == "class" and b.args[0].is_enum for b in ci.bases
        )
        ci.is_dataclass = any("dataclass" in ast.unparse(d) for d in node.decorator_list) or any(
            b.op == "ext" and b.args[0] == "typing.NamedTuple" for b in ci.bases
        )
        ci.is_tuple = any(b.op == "ext" and b.args[0] == "typing.NamedTuple" or b.op == "class" and b.args[0].is_tuple for b in ci.bases)
        ci.is_dataclass = ci.is_dataclass or any(b.op == "class" and b.args[0].is_dataclass for b in ci.bases)
        c = mk("class", ci)
        # class body: names live in ci.attrs
        fr = self.alloc(st, "frame", None, {"$parent": cx.frame})
        ccx = Cx(cx.info, fr, cx.module, ci, None, cx.depth, cx.stack, cx)
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                r = self.def_func(n, st, ccx, cls=ci)
                st = r[0][0]
                st.w(fr).f[n.name] = ci.attrs[n.name]
            elif isinstance(n, ast.AnnAssign):
                if isinstance(n.target, ast.Name):
                    ci.ann[n.target.id] = n.annotation
                    if n.value is not None:
                        s, v = self.ev(n.value, st, ccx)[0]
                        st = s
                        ci.attrs[n.target.id] = v
                        s.w(fr).f[n.target.id] = v
            elif isinstance(n, ast.Assign):
                r = self.ev(n.value, st, ccx)
                st, v = r[0]
                if isinstance(v, Raise):
                    return [(st, RAISE, v)]
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if ci.is_enum and not t.id.startswith("_"):
                            if v.op == "ref" or v.op == "tup":
                                ev = ("x", v)
                            x = cval(v) if v.op == "const" else numval(v) if is_num(v) else len(ci.members) + 1
                            v = mk("enum", ci.qual, t.id, x)
                            ci.members[t.id] = v
                        ci.attrs[t.id] = v
                        st.w(fr).f[t.id] = v
                    else:
                        st.note("class-level target ignored")
            elif isinstance(n, ast.Expr):
                continue
            else:
                r = self.exec_stmt(n, st, ccx)
                st = r[0][0]
                for k, v in st.get(fr).f.items():
                    if not k.startswith("$"):
                        ci.attrs.setdefault(k, v)
        self.setname(st, cx, node.name, c)
        return [(st, NEXT, None)]

    def x_Assign(self, node, st, cx):
        def go(s, v):
            cur = [(s, NEXT, None)]
            for t in node.targets:
                nxt = []
                for s1, k, x in cur:
                    if k == NEXT:
                        nxt.extend(self.assign(t, v, s1, cx))
                    else:
                        nxt.append((s1, k, x))
                cur = nxt
            return cur

        return self.each(self.ev(node.value, st, cx), go)

    def x_AnnAssign(self, node, st, cx):
        if node.value is None:
            return [(st, NEXT, None)]
        return self.each(self.ev(node.value, st, cx), lambda s, v: self.assign(node.target, v, s, cx))

    def x_AugAssign(self, node, st, cx):
        load = _as_load(node.target)

        def go(s, vals):
            cur, v = vals
            op = type(node.op).__name__
            if cur.op == "ref":
                ob = s.get(cur)
                if ob.kind == "list" and op == "Add":
                    return self.each(
                        lib.call_method(self, s, cur, "extend", [v], {}, cx, node), lambda s2, _: [(s2, NEXT, None)]
                    )
                if ob.kind == "bytearray" and op == "Add":
                    return self.each(
                        lib.call_method(self, s, cur, "extend", [v], {}, cx, node), lambda s2, _: [(s2, NEXT, None)]
                    )
                if ob.kind == "set" and op == "BitOr":
                    return self.each(
                        lib.call_method(self, s, cur, "update", [v], {}, cx, node), lambda s2, _: [(s2, NEXT, None)]
                    )
            return self.each(self.binop(s, op, cur, v, cx, node), lambda s2, r: self.assign(node.target, r, s2, cx))

        return self.each(self.evl([load, node.value], st, cx), go)

    def x_Delete(self, node, st, cx):
        cur = [(st, NEXT, None)]
        for t in node.targets:
            nxt = []
            for s, k, x in cur:
                if k != NEXT:
                    nxt.append((s, k, x))
                    continue
                if isinstance(t, ast.Name):
                    s.w(cx.frame).f.pop(t.id, None)
                    nxt.append((s, NEXT, None))
                elif isinstance(t, ast.Subscript):
                    def go(s2, vals):
                        return self.each(
                            lib.delitem(self, s2, vals[0], vals[1], cx, node), lambda s3, _: [(s3, NEXT, None)]
                        )
                    nxt.extend(self.each(self.evl([t.value, t.slice], s, cx), go))
                elif isinstance(t, ast.Attribute):
                    def go2(s2, b):
                        if b.op == "ref":
                            s2.w(b).f.pop(t.attr, None)
                        return [(s2, NEXT, None)]
                    nxt.extend(self.each(self.ev(t.value, s, cx), go2))
            cur = nxt
        return cur

    def assign(self, target, v, st, cx):
        if isinstance(target, ast.Name):
            self.setname(st, cx, target.id, v)
            return [(st, NEXT, None)]
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st, cx)
        if isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            items = lib.known_items(self, st, v)
            if items is None:
                if star:
                    st.note("starred unpacking of an unknown sequence")
                items = [lib.elem_at(self, st, v, const(i)) for i in range(n)]
            elif star:
                i = star[0]
                k = len(items) - (n - 1)
                items = items[:i] + [self.list_(st, items[i:i + k])] + items[i + k:]
            elif len(items) != n:
                return [(st, RAISE, self.exc(st, "builtins.ValueError", const("unpack")))]
            cur = [(st, NEXT, None)]
            for e, x in zip(target.elts, items):
                nxt = []
                for s, k, r in cur:
                    if k == NEXT:
                        nxt.extend(self.assign(e, x, s, cx))
                    else:
                        nxt.append((s, k, r))
                cur = nxt
            return cur
        if isinstance(target, ast.Attribute):
            return self.each(self.ev(target.value, st, cx), lambda s, b: self.setattr_(s, b, target.attr, v, cx, target))
        if isinstance(target, ast.Subscript):
            def go(s, vals):
                return self.each(lib.setitem(self, s, vals[0], vals[1], v, cx, target), lambda s2, _: [(s2, NEXT, None)])
            return self.each(self.evl([target.value, target.slice], st, cx), go)
        raise AnalysisError("unsupported assignment target")

    def setattr_(self, st, b, name, v, cx, node):
        if b.op == "ref":
            ob = st.get(b)
            if ob.kind == "inst" and ob.cls is not None and ob.cls.op == "class":
                c, m = ob.cls.args[0].find(name)
                if m is not None and m.op == "property":
                    if m.args[1] is NONE:
                        return [(st, RAISE, self.exc(st, "builtins.AttributeError", const(name)))]
                    return self.each(
                        self.call(st, m.args[1], [b, v], {}, cx, node), lambda s, _: [(s, NEXT, None)]
                    )
            st.w(b).f[name] = v
            st.emit(Ev("setattr", cx.loc(node), obj=b, name=name, value=v))
            return [(st, NEXT, None)]
        if b.op == "class":
            if self.init_state is not None:
                b.args[0].attrs[name] = v
            else:
                # a class attribute rebound at run time belongs to the path
                st.oattrs[(b, name)] = v
                st.emit(Ev("setattr", cx.loc(node), obj=b, name=name, value=v))
            return [(st, NEXT, None)]
        if b is NONE:
            return [(st, RAISE, self.exc(st, "builtins.AttributeError", const(name)))]
        st.oattrs[(b, name)] = v
        st.emit(Ev("setattr", cx.loc(node), obj=b, name=name, value=v))
        return [(st, NEXT, None)]

    def x_If(self, node, st, cx):
        out = []
        for s, v in self.ev_cond(node.test, st, cx):
            if isinstance(v, Raise):
                out.append((s, RAISE, v))
            else:
                out.extend(self.exec_block(node.body if v else node.orelse, s, cx))
        return out

    def x_Assert(self, node, st, cx):
        out = []
        for s, v in self.ev_cond(node.test, st, cx):
            if isinstance(v, Raise):
                out.append((s, RAISE, v))
            elif v:
                out.append((s, NEXT, None))
            else:
                out.append((s, RAISE, self.exc(s, "builtins.AssertionError")))
        return out

    def x_Raise(self, node, st, cx):
        if node.exc is None:
            e = self.lookup(st, cx, "$exc")
            if e is None:
                return [(st, RAISE, self.exc(st, "builtins.RuntimeError"))]
            return [(st, RAISE, Raise(e))]

        def go(s, v):
            if v.op in ("class", "ext"):
                out = []
                for s2, r in self.call(s, v, [], {}, cx, node):
                    out.append((s2, RAISE, r if isinstance(r, Raise) else Raise(r)))
                return out
            return [(s, RAISE, Raise(v))]

        return self.each(self.ev(node.exc, st, cx), go)

    def x_Try(self, node, st, cx):
        res = []
        for s, k, v in self.exec_block(node.body, st, cx):
            if k == RAISE:
                res.extend(self.handle(node.handlers, s, v, cx))
            elif k == NEXT and node.orelse:
                res.extend(self.exec_block(node.orelse, s, cx))
            else:
                res.append((s, k, v))
        if not node.finalbody:
            return res
        out = []
        for s, k, v in res:
            for s2, k2, v2 in self.exec_block(node.finalbody, s, cx):
                if k2 == NEXT:
                    out.append((s2, k, v))
                else:
                    out.append((s2, k2, v2))
        return out

    def handle(self, handlers, st, exc, cx):
        out = []
        cur = [st]
        for h in handlers:
            nxt = []
            for s in cur:
                if h.type is None:
                    out.extend(self.run_handler(h, s, exc, cx))
                    continue
                for s1, hv in self.ev(h.type, s, cx):
                    if isinstance(hv, Raise):
                        out.append((s1, RAISE, hv))
                        continue
                    m = self.exc_match(s1, exc.exc, hv)
                    if m is True:
                        out.extend(self.run_handler(h, s1, exc, cx))
                    elif m is False:
                        nxt.append(s1)
                    else:
                        for s2, b in self.branch(s1, m):
                            if b:
                                out.extend(self.run_handler(h, s2, exc, cx, hv))
                            else:
                                nxt.append(s2)
            cur = nxt
        return out + [(s, RAISE, exc) for s in cur]

    def run_handler(self, h, st, exc, cx, narrowed=None):
        fr = st.w(cx.frame)
        old = fr.f.get("$exc")
        fr.f["$exc"] = exc.exc
        if narrowed is not None and narrowed.op in ("class", "ext") and exc.exc.op == "ref":
            o = st.get(exc.exc)
            if o.cls is not None and o.cls.op == "ext" and o.cls.args[0] == "AnyException":
                st.w(exc.exc).cls = narrowed
        if h.name:
            fr.f[h.name] = exc.exc
        st.emit(Ev("caught", cx.loc(h), exc=exc.exc, handler=h.lineno))
        out = []
        for s, k, v in self.exec_block(h.body, st, cx):
            f = s.w(cx.frame).f
            if old is None:
                f.pop("$exc", None)
            else:
                f["$exc"] = old
            if h.name and k == NEXT:
                f.pop(h.name, None)
            out.append((s, k, v))
        return out

    # with
    def x_With(self, node, st, cx):
        return self.do_with(node.items, node, st, cx, False)

    def x_AsyncWith(self, node, st, cx):
        return self.do_with(node.items, node, st, cx, True)

    def do_with(self, items, node, st, cx, is_async):
        if not items:
            return self.exec_block(node.body, st, cx)
        it = items[0]

        def go(s, mgr):
            return self.with_mgr(s, mgr, it, items[1:], node, cx, is_async)

        return self.each(self.ev(it.context_expr, st, cx), go)

    def with_mgr(self, st, mgr, it, rest, node, cx, is_async):
        ob = self.obj(st, mgr)
        loc = cx.loc(it.context_expr)
        ext = ob.cls.args[0] if ob is not None and ob.cls is not None and ob.cls.op == "ext" else None

        def body(s, val):
            cur = [(s, NEXT, None)]
            if it.optional_vars is not None:
                cur = self.assign(it.optional_vars, val, s, cx)
            out = []
            for s1, k, v in cur:
                if k == NEXT:
                    out.extend(self.do_with(rest, node, s1, cx, is_async))
                else:
                    out.append((s1, k, v))
            return out

        if mgr.op == "cm":
            return self.with_generator(st, mgr, body, cx, it.context_expr)
        # locks, semaphores, timeouts and opaque managers
        pre = []
        if self.cancel_points and is_async and self.cm_kind(st, mgr, is_async) == "lock":
            s = st.fork()
            s.emit(Ev("cancelled", loc))
            pre.append((s, RAISE, self.exc(s, "asyncio.CancelledError")))

        def entered(s, val):
            out = []
            for s1, k, v in body(s, val):
                for s2, r in self.cm_exit(s1, mgr, v if k == RAISE else None, cx, it.context_expr, is_async):
                    if isinstance(r, Raise):
                        out.append((s2, RAISE, r))
                    elif r and k == RAISE:
                        out.append((s2, NEXT, None))
                    else:
                        out.append((s2, k, v))
            return out

        return pre + self.each(self.cm_enter(st, mgr, cx, it.context_expr, is_async), entered)

    def cm_kind(self, st, mgr, is_async):
        ob = self.obj(st, mgr)
        if ob is not None and ob.kind == "inst" and ob.cls is not None:
            if ob.cls.op == "class":
                en, ex = ("__aenter__", "__aexit__") if is_async else ("__enter__", "__exit__")
                if ob.cls.args[0].find(en)[1] is not None and ob.cls.args[0].find(ex)[1] is not None:
                    return "inst"
            q = ob.cls.args[0] if ob.cls.op == "ext" else None
            if q in ("contextlib.suppress", "contextlib.closing", "contextlib.aclosing", "contextlib.nullcontext", "contextlib.ExitStack", "contextlib.AsyncExitStack"):
                return q[11:]
        return "lock"

    def cm_call(self, st, f, args, kwargs, cx, node, is_async):
        out = []
        for s, v in self.call(st, f, args, kwargs, cx, node):
            if not isinstance(v, Raise) and is_async:
                out.extend(self.await_(s, v, cx, node))
            else:
                out.append((s, v))
        return out

    def cm_enter(self, st, mgr, cx, node, is_async):
        """-> [(state, what `as` binds | Raise)]"""
        kind = self.cm_kind(st, mgr, is_async)
        ob = self.obj(st, mgr)
        if kind == "inst":
            f = ob.cls.args[0].find("__aenter__" if is_async else "__enter__")[1]
            return self.cm_call(st, mk("bound", f, mgr), [], {}, cx, node, is_async)
        if kind in ("closing", "aclosing", "nullcontext"):
            a = ob.f["args"].args
            return [(st, a[0] if a else NONE)]
        if kind == "lock":
            st.emit(Ev("acquire", cx.loc(node), obj=mgr))
        return [(st, mgr)]

    def cm_exit(self, st, mgr, exc, cx, node, is_async):
        """-> [(state, was the exception swallowed | Raise)]"""
        kind = self.cm_kind(st, mgr, is_async)
        ob = self.obj(st, mgr)
        loc = cx.loc(node)
        if kind == "lock":
            st.emit(Ev("release", loc, obj=mgr))
            return [(st, False)]
        if kind == "suppress":
            if exc is None:
                return [(st, False)]
            m = self.exc_match(st, exc.exc, ob.f["args"])
            res = [(st, m)] if m is True or m is False else self.branch(st, m)
            for s, b in res:
                if b:
                    s.emit(Ev("caught", loc, exc=exc.exc, handler=loc[1]))
            return res
        if kind == "nullcontext":
            return [(st, False)]
        if kind in ("closing", "aclosing"):
            x = ob.f["args"].args[0]
            name = "close" if kind == "closing" else "aclose"
            out = []
            for s, f in self.getattr_(st, x, name, cx, node):
                if isinstance(f, Raise):
                    out.append((s, f))
                    continue
                for s1, v in self.cm_call(s, f, [], {}, cx, node, is_async):
                    out.append((s1, v if isinstance(v, Raise) else False))
            return out
        if kind == "inst":
            f = ob.cls.args[0].find("__aexit__" if is_async else "__exit__")[1]
            ea = [NONE, NONE, NONE] if exc is None else [self.exc_class(st, exc), exc.exc, NONE]
            out = []
            for s, r in self.cm_call(st, mk("bound", f, mgr), ea, {}, cx, node, is_async):
                if isinstance(r, Raise) or exc is None:
                    out.append((s, r if isinstance(r, Raise) else False))
                else:
                    out.extend(self.branch(s, r))
            return out
        # an exit stack: what was registered runs in reverse order
        return self.stack_exit(st, mgr, exc, cx, node, is_async)

    def stack_exit(self, st, mgr, exc, cx, node, is_async):
        cur = [(st, exc)]
        out = []
        while cur:
            s, e = cur.pop()
            todo = s.get(mgr).f.get("$exits", ())
            if not todo:
                if e is not None and (exc is None or e is not exc):
                    out.append((s, e))
                else:
                    out.append((s, exc is not None and e is None))
                continue
            s.w(mgr).f["$exits"] = todo[:-1]
            t = todo[-1]
            how, what = t.args[0], t.args[1]
            if how == "cm":
                res = self.cm_exit(s, what, e, cx, node, t.args[2])
            elif how == "callback":
                res = [(s1, r if isinstance(r, Raise) else False) for s1, r in self.cm_call(s, what, list(t.args[2]), dict(t.args[3]), cx, node, t.args[4])]
            else:  # an exit function
                ea = [NONE, NONE, NONE] if e is None else [self.exc_class(s, e), e.exc, NONE]
                res = []
                for s1, r in self.cm_call(s, what, ea, {}, cx, node, t.args[2]):
                    res.extend([(s1, r)] if isinstance(r, Raise) else self.branch(s1, r))
            for s1, r in res:
                cur.append((s1, r if isinstance(r, Raise) else None if r else e))
        return out

    def with_generator(self, st, mgr, body, cx, node):
        """a context manager written as a generator: the with body runs where it yields"""
        f, bound = mgr.args
        key = "$cm%d" % self.newid()

        def inside(s, val):
            out = []
            for s1, k, v in body(s, val):
                if k == RAISE:
                    s1.flags[key] = (NEXT, None)  # swallowed unless the generator lets it through
                    out.append((s1, v))
                else:
                    s1.flags[key] = (k, v)
                    out.append((s1, NONE))
            return out

        self.cm_bodies[key] = inside
        try:
            res = self.run_func(st, f, dict(bound, **{"$cmkey": const(key)}), cx, node)
        finally:
            del self.cm_bodies[key]
        out = []
        for s, v in res:
            if isinstance(v, Raise):
                out.append((s, RAISE, v))
            elif key in s.flags:
                k, x = s.flags[key]
                out.append((s, k, x))
            else:
                out.append((s, RAISE, self.exc(s, "builtins.RuntimeError", const("generator didn't yield"))))
        return out

    # loops
    def x_For(self, node, st, cx):
        return self.each(self.ev(node.iter, st, cx), lambda s, it: self.loop_for(node, it, s, cx))

    x_AsyncFor = x_For

    def loop_for(self, node, it, st, cx):
        ob = self.obj(st, it)
        if ob is not None and ob.kind == "inst" and ob.cls is not None and ob.cls.op == "ext" and ob.cls.args[0] == "itertools.count":
            name = "$it%d" % self.newid()
            st.w(cx.frame).f[name] = it
            call = ast.Call(func=ast.Name(id="next", ctx=ast.Load()), args=[ast.Name(id=name, ctx=ast.Load())], keywords=[])
            w = ast.While(test=ast.Constant(value=True), body=[ast.Assign(targets=[node.target], value=call)] + node.body, orelse=[])
            ast.copy_location(w, node)
            return self.x_While(ast.fix_missing_locations(w), st, cx)
        if lib.uniterable(it):
            return [(st, RAISE, self.exc(st, "builtins.TypeError", const("object is not iterable")))]
        items = lib.known_items(self, st, it)
        bound = self.hooks.get("unroll_while")
        if bound and items is None and it.op == "range" and all(is_num(x) for x in it.args):
            r = range(*[int(numval(x)) for x in it.args])
            return self.unroll_long(node, [const(x) for x in r[:bound]], const(r[-1]), st, cx)
        if bound and items is not None and len(items) > self.hooks.get("unroll", UNROLL):
            return self.unroll_long(node, items[:bound], items[-1], st, cx)
        if items is not None and len(items) <= self.hooks.get("unroll", UNROLL):
            probe = st.fork()
            r = self.unroll(node, items, st, cx)
            if r is not None:
                return r
            st = probe
            count, elem = const(len(items)), self.common_elem(st, items, it)
        else:
            d = lib.iter_desc(self, st, it, cx, node)
            count, elem = d

        def bindvar(s, i):
            return self.assign(node.target, elem(s, i), s, cx)

        def step(s, i):
            out = []
            for s1, k, v in bindvar(s, i):
                if k == NEXT:
                    out.extend(self.exec_block(node.body, s1, cx))
                else:
                    out.append((s1, k, v))
            return out

        return self.summarise(node, st, cx, count, step, it)

    def common_elem(self, st, items, it):
        """one abstract element standing for every item of a known sequence"""
        ty = None
        cls = {st.get(x).cls for x in items if x.op == "ref"}
        if len(cls) == 1 and all(x.op == "ref" for x in items):
            c = cls.pop()
            if c is not None and c.op == "class":
                ty = c.args[0]

        def elem(s, i):
            e = mk("idx", sym("items@%s" % show(it), None), i)
            if ty is not None:
                return sym("elem(%s)[%s]" % (show(it), show(i)), ty)
            return e

        return elem

    def unroll(self, node, items, st, cx):
        cur = [st]
        done = []
        for x in items:
            nxt = []
            for s in cur:
                for s1, k, v in self.assign(node.target, x, s, cx):
                    if k != NEXT:
                        done.append((s1, k, v))
                        continue
                    for s2, k2, v2 in self.exec_block(node.body, s1, cx):
                        if k2 in (NEXT, CONT):
                            nxt.append(s2)
                        elif k2 == BREAK:
                            done.append((s2, NEXT, None))
                        else:
                            done.append((s2, k2, v2))
            cur = nxt
            if len(cur) > FANOUT:
                return None
            if not cur:
                break
        out = done
        for s in cur:
            if node.orelse:
                out.extend(self.exec_block(node.orelse, s, cx))
            else:
                out.append((s, NEXT, None))
        return out

    def unroll_long(self, node, items, last, st, cx):
        """the first rounds of a long loop over known items, and its last one"""
        cur, done = [st], []
        for x in list(items) + [last]:
            nxt = []
            for s in cur:
                for s1, k, v in self.assign(node.target, x, s, cx):
                    for s2, k2, v2 in self.exec_block(node.body, s1, cx) if k == NEXT else [(s1, k, v)]:
                        if k2 in (NEXT, CONT):
                            nxt.append(s2)
                        elif k2 == BREAK:
                            done.append((s2, NEXT, None))
                        else:
                            done.append((s2, k2, v2))
            cur = nxt
        for s in cur:
            done.extend(self.exec_block(node.orelse, s, cx) if node.orelse else [(s, NEXT, None)])
        return done

    def later(self, node, before, s, cx):
        """how a loop may be left after very many rounds: the counters have any value"""
        from .scen import many
        from types import SimpleNamespace

        out = []
        w = many(before, s, SimpleNamespace(I=self, cx=cx))
        if w is None:
            return out
        for s1, v in self.ev_cond(node.test, w, cx):
            if isinstance(v, Raise):
                out.append((s1, RAISE, v))
            elif not v:
                out.extend(self.exec_block(node.orelse, s1, cx) if node.orelse else [(s1, NEXT, None)])
            else:
                for s2, k, x in self.exec_block(node.body, s1, cx):
                    if k == BREAK:
                        out.append((s2, NEXT, None))
                    elif k not in (NEXT, CONT):
                        out.append((s2, k, x))
        return out

    def x_While(self, node, st, cx):
        bound = self.hooks.get("unroll_while")
        if bound:
            r = self.unroll_while(node, st, cx, bound)
            if r is not None:
                return r
        # a few decided iterations are unrolled (counting loops over known bounds)
        cur = [st.fork()]
        done = []
        n = 0
        exact = True
        while cur and n < self.hooks.get("unroll", UNROLL) and exact:
            nxt = []
            for s in cur:
                res = self.ev_cond(node.test, s, cx)
                vals = [v for _, v in res if not isinstance(v, Raise)]
                if len(res) != 1 or len(vals) != 1:
                    exact = False
                    break
                s, v = res[0]
                if not v:
                    if node.orelse:
                        done.extend(self.exec_block(node.orelse, s, cx))
                    else:
                        done.append((s, NEXT, None))
                    continue
                if isinstance(node.test, ast.Constant):
                    # while True: iterations differ only by what the body changes
                    exact = False
                    break
                for s2, k, x in self.exec_block(node.body, s, cx):
                    if k in (NEXT, CONT):
                        nxt.append(s2)
                    elif k == BREAK:
                        done.append((s2, NEXT, None))
                    else:
                        done.append((s2, k, x))
            cur = nxt
            n += 1
            if len(cur) > 4:
                exact = False
        if exact and not cur:
            return done
        return self.summarise(node, st, cx, None, None, None)

    def test_values(self, s, names, cx):
        """what the loop test depends on: values of its names, sizes of the lists they name"""
        out = []
        for x in sorted(names):
            r = self.ev(ast.copy_location(ast.Name(id=x, ctx=ast.Load()), _HERE), s.fork(), cx)
            v = r[0][1]
            if isinstance(v, Raise):
                continue
            out.append(lib.seq_len(self, s, v) if v.op == "ref" and s.get(v).kind in ("list", "dict", "set") else v)
        return out

    def unroll_while(self, node, st, cx, bound):
        """up to `bound` iterations, path by path; what goes on after that is kept under the flag 'unfinished'"""
        cur, done = [st.fork()], []
        left, n, last, before = bound, 0, None, []
        names = {x.id for x in ast.walk(node.test) if isinstance(x, ast.Name)}
        while left > 0 and n < self.hooks.get("unroll", UNROLL):
            nxt = []
            n += 1
            left -= 1
            before = [s.fork() for s in cur]
            for s in cur:
                tests = self.ev_cond(node.test, s, cx)
                if len(tests) == 1 and len(cur) == 1 and names and not isinstance(node.test, ast.Constant):
                    # a loop that counts over something known does not use up the bound
                    now = self.test_values(s, names, cx)
                    if last is not None and now != last:
                        left += 1
                    last = now
                for s1, v in tests:
                    if isinstance(v, Raise):
                        done.append((s1, RAISE, v))
                    elif not v:
                        if node.orelse:
                            done.extend(self.exec_block(node.orelse, s1, cx))
                        else:
                            done.append((s1, NEXT, None))
                    else:
                        for s2, k, x in self.exec_block(node.body, s1, cx):
                            if k in (NEXT, CONT):
                                nxt.append(s2)
                            elif k == BREAK:
                                done.append((s2, NEXT, None))
                            else:
                                done.append((s2, k, x))
            cur = nxt
            if not cur:
                return done
            if len(cur) > 64:
                return None
        for s in cur:
            for b in before[:1] if len(before) == len(cur) == 1 else []:
                done.extend(self.later(node, b, s, cx))
            s.emit(Ev("unfinished", cx.loc(node)))
            done.append((s, RAISE, self.exc(s, "asyncio.CancelledError")))
        return done

    def summarise(self, node, st, cx, count, step, it):
        is_while = count is None
        lid = self.newid()
        iv = sym("$i%d" % lid, "nat")

        def iterate(s):
            """one abstract iteration; -> (body outcomes, exit states)"""
            if not is_while:
                s.assume(ge0(sub(count, add(iv, const(1)))), True) if not is_const(
                    ge0(sub(count, add(iv, const(1))))
                ) else None
                return step(s, iv), []
            outs, exits = [], []
            for s1, v in self.ev_cond(node.test, s, cx):
                if isinstance(v, Raise):
                    outs.append((s1, RAISE, v))
                elif v:
                    outs.extend(self.exec_block(node.body, s1, cx))
                else:
                    exits.append(s1)
            return outs, exits

        # what does the body change?
        phis = {}

        def enter(closed=None):
            s = st.fork()
            for loc, p in phis.items():
                v = p
                if closed and loc in closed:
                    v = closed[loc]
                self.setloc(s, loc, v)
            return s

        init = {}
        posts = {}
        for rnd in range(6):
            s0 = enter()
            pre = s0.fork()
            outs, exits = iterate(s0)
            new = {}
            posts = {}
            backs = [s for s, k, v in outs if k in (NEXT, CONT)]
            for s in backs:
                for loc in self.changed(pre, s):
                    new.setdefault(loc, None)
            grew = False
            for loc in new:
                if loc not in phis:
                    grew = True
                    iv0 = self.getloc(st, loc)
                    init[loc] = iv0
                    vals = [self.getloc(s, loc) for s in backs]
                    phis[loc] = self.mkphi(lid, loc, iv0, vals)
            if not grew:
                break
        else:
            st.note("loop summary did not stabilise at line %d" % node.lineno)
        for loc in phis:
            posts[loc] = [self.getloc(s, loc) for s in backs]
        closed, after = {}, {}
        npaths = len(backs)
        for loc, p in phis.items():
            c, a = self.close(loc, p, init[loc], posts[loc], iv, count)
            if c is not None:
                closed[loc] = c
            after[loc] = a
        # final iteration with closed forms in place
        s0 = enter(closed)
        mark = s0.events
        prefacts = dict(s0.facts)
        outs, exits = iterate(s0)
        backs = [s for s, k, v in outs if k in (NEXT, CONT)]
        posts2 = {loc: [self.getloc(s, loc) for s in backs] for loc in phis}
        if is_while:
            count = self.while_count(exits, closed, iv)
        for loc, p in phis.items():
            if loc in closed:
                if count is not None:
                    after[loc] = lambda n, c=closed[loc]: self.subst_loc(c, {iv: n})
                else:
                    after[loc] = None
            else:
                _, a = self.close(loc, p, init[loc], posts2[loc], iv, count)
                after[loc] = a
        paths = []
        for s, k, v in outs:
            paths.append((tuple((f, b) for f, b in s.facts.items() if f not in prefacts), self.since(s, mark), k, v))
        loopev = Ev("loop", cx.loc(node), paths=tuple(paths), count=count, iv=iv, iter=it, whil=is_while)
        result = []
        # leaving from inside an iteration
        for s, k, v in outs:
            if k in (RET, RAISE, BREAK):
                # earlier iterations have happened before this one
                s.events = self.splice(s, mark, loopev if backs else None)
                result.append((s, NEXT if k == BREAK else k, v))
        # normal exit
        if not (is_while and not exits and isinstance(node.test, ast.Constant)):
            fin = []
            if is_while:
                n = count if count is not None else sym("$n%d" % lid, "nat")
                for s in exits:
                    fin.append(s)
                if count is not None:
                    fin = [st.fork()]
            else:
                n = count
                fin = [st.fork()]
            for s in fin:
                for loc in phis:
                    a = after[loc]
                    if callable(a):
                        v = a(n)
                    else:
                        v = self.mkphi("post%d" % lid, loc, init[loc], posts2[loc])
                    self.setloc(s, loc, v)
                if is_while and count is None:
                    s.events = self.splice(s, mark, loopev)
                else:
                    s.emit(loopev)
                if node.orelse:
                    result.extend(self.exec_block(node.orelse, s, cx))
                else:
                    result.append((s, NEXT, None))
        return result

    def while_count(self, exits, closed, iv):
        """iterations of a counting while loop: the first i for which the exit test holds"""
        cands = set()
        for s in exits:
            cand = None
            for f, b in s.facts.items():
                if f.op == "ge0" and not b:
                    c, p = lin_parts(f.args[0])
                    if p.get(iv) == -1:
                        # not (K - i >= 0)  <=> i > K ; first i is K+1
                        cand = add(add(f.args[0], iv), const(1))
                elif f.op == "ge0" and b:
                    c, p = lin_parts(f.args[0])
                    if p.get(iv) == 1:
                        cand = scale(sub(f.args[0], iv), -1)
                elif f.op == "eq0" and b:
                    c, p = lin_parts(f.args[0])
                    if abs(p.get(iv, 0)) == 1:
                        cand = scale(sub(scale(f.args[0], p[iv]), iv), -1)
            cands.add(cand)
        if len(cands) == 1:
            return cands.pop()
        return None

    @staticmethod
    def since(s, mark):
        out = []
        e = s.events
        while e is not mark and e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return tuple(out)

    def splice(self, s, mark, loopev):
        evs = self.since(s, mark)
        e = mark
        if loopev is not None:
            e = (e, Ev("loop-prefix", loopev.loc, **loopev.d))
        for x in evs:
            e = (e, x)
        return e

    # loop locations
    def changed(self, pre, post):
        out = []
        for i in post.heap:
            if i not in pre.heap and i not in pre.base:
                continue
            a, b = pre.get(i), post.get(i)
            if a is b:
                continue
            for k in set(a.f) | set(b.f):
                if a.f.get(k) is not b.f.get(k) and a.f.get(k) != b.f.get(k):
                    out.append((i, k))
        for k in post.oattrs:
            if pre.oattrs.get(k) is not post.oattrs[k]:
                out.append(("o",) + k)
        return out

    def getloc(self, s, loc):
        if loc[0] == "o":
            return s.oattrs.get(loc[1:])
        return s.get(loc[0]).f.get(loc[1])

    def setloc(self, s, loc, v):
        if loc[0] == "o":
            if v is None:
                s.oattrs.pop(loc[1:], None)
            else:
                s.oattrs[loc[1:]] = v
            return
        o = s.w(loc[0])
        if v is None:
            o.f.pop(loc[1], None)
        else:
            o.f[loc[1]] = v

    def mkphi(self, lid, loc, init, vals):
        name = "phi%s.%s" % (lid, ".".join(str(x) if not isinstance(x, Term) else show(x) for x in loc))
        cand = [v for v in [init] + list(vals) if v is not None]
        if loc[1] == "segs" and loc[0] != "o":
            return (("phi", sym(name, "list")),)
        if loc[1] == "items" and loc[0] != "o":
            return ()
        if loc[1] == "rest" and loc[0] != "o":
            return sym(name, "dict")
        if any(not isinstance(v, Term) for v in cand):
            # model-internal fields (future state, ...)
            return cand[-1] if cand and len(set(map(str, cand))) == 1 else "unknown"
        tys = {typ_of(v) for v in cand}
        refs = [v for v in cand if v.op == "ref"]
        if refs and len(set(refs)) == len(refs) == len(cand) == 1:
            return refs[0]
        ty = tys.pop() if len(tys) == 1 else None
        if ty is None and tys == {"int", "num"}:
            ty = "int"
        if ty in ("none", "tuple"):
            ty = None
        return sym(name, ty)

    def close(self, loc, p, init, posts, iv, count):
        """(value at iteration i, fn(count) -> value after the loop) or (None, None)"""
        if init is None or not posts or any(x is None for x in posts):
            return None, None
        if loc[1] == "segs" and loc[0] != "o":
            if len(set(map(_segkey, posts))) == 1:
                segs = posts[0]
                if segs and segs[0] == p[0] and all(x[0] == "it" for x in segs[1:]):
                    new = [x[1] for x in segs[1:]]
                    if len(new) == 1 and not self.has_phi(new[0]):
                        return None, lambda n, e=new[0]: self.map_segs(init, n, iv, e)
                    if not new:
                        return init, lambda n: init
            elif all(s and s[0] == p[0] and all(x[0] == "it" for x in s[1:]) for s in posts):
                # filtered / varying append
                return None, lambda n: tuple(init) + (("opq", self.fresh("filtered", "list")),)
            return None, None
        if not isinstance(p, Term) or not isinstance(init, Term) or any(not isinstance(x, Term) for x in posts):
            return None, None
        if len(set(posts)) != 1:
            return None, None
        post = posts[0]
        if post is p:
            return init, lambda n: init
        if typ_of(init) in ("int", "num") or typ_of(p) == "int":
            d = sub(post, p)
            if is_num(d):
                k = numval(d)
                return add(init, scale(iv, k)), lambda n: add(init, scale(n, k))
        if post.op == "xor" and p in post.args[1]:
            rest = [x for x in post.args[1] if x is not p] + [const(post.args[0])]
            body = mkxor(rest)
            if not self.has_phi(body):
                return None, lambda n: mkxor([init, self.xorfold(n, iv, body)])
        ps = cat_pieces(post)
        if ps and ps[0] is p and typ_of(p) == "bytes":
            body = mkcat(ps[1:])
            if not self.has_phi(body):
                return None, lambda n: mkcat(cat_pieces(init) + cat_pieces(flatmap(n, iv, body)))
        if not self.has_phi(post) and not mentions(post, iv):
            pass
        return None, None

    @staticmethod
    def has_phi(t):
        return any(s.op == "sym" and s.args[0].startswith("phi") for s in subterms(t))

    def xorfold(self, n, iv, body):
        if body.op == "idx" and body.args[1] is iv and blen(body.args[0]) is n:
            return xorall(body.args[0])
        if body.op == "idx" and typ_of(body.args[0]) == "bytes":
            d = sub(body.args[1], iv)
            if not mentions(d, iv):
                return xorall(bslice(body.args[0], d, add(d, n)))
            d = add(body.args[1], iv)
            if not mentions(d, iv):  # from the end to the start
                lo = add(sub(d, n), const(1))
                return xorall(bslice(body.args[0], lo, add(lo, n)))
        return mk("xorfold", n, iv, body)

    def map_segs(self, init, n, iv, e):
        if is_num(n) and numval(n) <= 64:
            return tuple(init) + tuple(("it", subst(e, {iv: const(j)})) for j in range(int(numval(n))))
        return tuple(init) + (("map", n, iv, e),)

    def subst_loc(self, v, m):
        if isinstance(v, tuple):
            return v
        return subst(v, m)

    # --------------------------------------------------------- names
    def setname(self, st, cx, name, v):
        if cx.info is not None and not isinstance(cx.info.node, ast.Lambda):
            loc, gl, nl = cx.info.scope()
            if name in gl:
                st.w(cx.module.frame).f[name] = v
                return
            if name in nl:
                fr = st.get(cx.frame).f.get("$parent")
                while fr is not None and fr is not cx.module.frame:
                    if name in st.get(fr).f:
                        st.w(fr).f[name] = v
                        return
                    fr = st.get(fr).f.get("$parent")
        st.w(cx.frame).f[name] = v

    def lookup(self, st, cx, name):
        fr = cx.frame
        while fr is not None:
            f = st.get(fr).f
            if name in f:
                return f[name]
            fr = f.get("$parent")
        if cx.module.frame is not cx.frame:
            f = st.get(cx.module.frame).f
            if name in f:
                return f[name]
        return None

    # --------------------------------------------------------- expressions
    def ev(self, node, st, cx):
        """-> [(state, Term | Raise)]"""
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            raise AnalysisError("unsupported expression %s at %s:%d" % (type(node).__name__, cx.module.path, node.lineno))
        return m(node, st, cx)

    def evl(self, nodes, st, cx):
        """-> [(state, [terms] | Raise)]"""
        cur = [(st, [])]
        out = []
        for n in nodes:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(n, s, cx):
                    if isinstance(v, Raise):
                        out.append((s2, v))
                    else:
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return out + cur

    def then(self, res, fn):
        out = []
        for s, v in res:
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out.extend(fn(s, v))
        return out

    def ev_cond(self, node, st, cx):
        """-> [(state, bool | Raise)]"""
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            cur = [st]
            out = []
            for n in node.values:
                nxt = []
                for s in cur:
                    for s2, b in self.ev_cond(n, s, cx):
                        if isinstance(b, Raise):
                            out.append((s2, b))
                        elif b == is_and:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                cur = nxt
            return out + [(s, is_and) for s in cur]
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, b if isinstance(b, Raise) else not b) for s, b in self.ev_cond(node.operand, st, cx)]
        return self.then(self.ev(node, st, cx), lambda s, v: self.branch(s, v))

    def e_Constant(self, node, st, cx):
        if node.value is Ellipsis:
            return [(st, mk("ext", "builtins.Ellipsis"))]
        return [(st, const(node.value))]

    def e_Name(self, node, st, cx):
        v = self.lookup(st, cx, node.id)
        if v is None:
            if node.id in lib.BUILTINS:
                return [(st, mk("ext", "builtins." + node.id))]
            if node.id in ("__file__",):
                return [(st, const(cx.module.path))]
            return [(st, self.exc(st, "builtins.NameError", const(node.id)))]
        return [(st, v)]

    def e_Attribute(self, node, st, cx):
        return self.then(self.ev(node.value, st, cx), lambda s, b: self.getattr_(s, b, node.attr, cx, node))

    def find_attr(self, st, ci, name):
        """class attribute lookup, run-time rebinding included"""
        if any(k[0].op == "class" for k in st.oattrs):
            for c in ci.mro():
                v = st.oattrs.get((mk("class", c), name))
                if v is not None:
                    return c, v
                if name in c.attrs:
                    return c, c.attrs[name]
            return None, None
        return ci.find(name)

    def getattr_(self, st, b, name, cx, node):
        o = b.op
        if o == "ref":
            ob = st.get(b)
            if name in ob.f and ob.kind == "inst":
                return [(st, ob.f[name])]
            if ob.kind == "inst" and ob.cls is not None and ob.cls.op == "class":
                ci = ob.cls.args[0]
                c, m = self.find_attr(st, ci, name)
                if m is not None:
                    return self.class_attr(st, m, b, ob.cls, cx, node)
                if name == "__class__":
                    return [(st, ob.cls)]
                if name == "__dict__":
                    return [(st, lib.obj_dict(self, st, b))]
                if (b, name) in st.oattrs:
                    return [(st, st.oattrs[(b, name)])]
                if ci.is_tuple and name in ("_asdict", "_replace"):
                    return [(st, mk("meth", b, name))]
                if ci.is_tuple and name == "_fields":
                    return [(st, mk("tup", *[const(n) for n in ci.fields()]))]
                if ci.ext_bases():
                    a = lib.EXT_ATTR_ALIAS.get(name)
                    if a is not None and a in ob.f:
                        return [(st, ob.f[a])]
                    if all(q.startswith("builtins.") or q in lib.EXC_BASES for q in ci.ext_bases()) and name not in ("args", "with_traceback"):
                        return [(st, self.exc(st, "builtins.AttributeError", const(name)))]
                    if lib.plain_base(ci.ext_bases()):
                        return [(st, self.exc(st, "builtins.AttributeError", const(name)))]
                    return [(st, mk("attr", b, lib.EXT_ATTR_ALIAS.get(name, name)))]
                return [(st, self.exc(st, "builtins.AttributeError", const(name)))]
            if name == "__class__" and ob.cls is not None:
                return [(st, ob.cls)]
            return [(st, mk("meth", b, name))]
        if o == "class":
            ci = b.args[0]
            c, m = self.find_attr(st, ci, name)
            if m is not None:
                return self.class_attr(st, m, None, b, cx, node)
            if name == "__name__":
                return [(st, const(ci.name))]
            if name == "__members__":
                return [(st, self.dict_(st, [(const(k), v) for k, v in ci.members.items()]))]
            eb = ci.ext_bases()
            if eb:
                return [(st, lib.ext_attr(self, eb[0], name))]
            return [(st, self.exc(st, "builtins.AttributeError", const(name)))]
        if o == "enum":
            if name == "name":
                return [(st, const(b.args[1]))]
            if name in ("value", "_value_"):
                return [(st, const(b.args[2]))]
            ci = self.enum_class(b.args[0])
            if ci is not None:
                c, m = ci.find(name)
                if m is not None:
                    return self.class_attr(st, m, b, mk("class", ci), cx, node)
            return [(st, mk("meth", b, name))]
        if o == "ecast":
            if name == "name":
                return [(st, mk("str", "ename", b.args[0], b.args[1]))]
            if name == "value":
                return [(st, b.args[1])]
            c, m = b.args[0].args[0].find(name)
            if m is not None:
                return self.class_attr(st, m, b, b.args[0], cx, node)
            return [(st, mk("meth", b, name))]
        if o == "ext":
            return [(st, lib.ext_attr(self, b.args[0], name))]
        if o == "mod":
            m = b.args[0]
            v = st.get(m.frame).f.get(name)
            if v is None:
                sub_ = self.prog.modules.get(m.name + "." + name)
                if sub_ is not None:
                    return [(st, mk("mod", sub_))]
                if name in ("__name__", "__file__"):
                    return [(st, const(m.name))]
                return [(st, self.exc(st, "builtins.AttributeError", const(m.name + "." + name)))]
            return [(st, v)]
        if o == "super":
            ci, selfv = b.args
            mro = None
            if selfv is not None and selfv.op == "ref" and st.get(selfv).cls is not None and st.get(selfv).cls.op == "class":
                mro = st.get(selfv).cls.args[0].mro()
            else:
                mro = ci.mro()
            rest = mro[mro.index(ci) + 1:] if ci in mro else []
            for k in rest:
                if name in k.attrs:
                    return self.class_attr(st, k.attrs[name], selfv, mk("class", k), cx, node)
            return [(st, mk("supermeth", selfv, name))]
        if b is NONE:
            return [(st, self.exc(st, "builtins.AttributeError", const("None." + name)))]
        if (b, name) in st.oattrs:
            return [(st, st.oattrs[(b, name)])]
        ty = b.args[1] if o == "sym" else None
        if isinstance(ty, ClassInfo):
            c, m = ty.find(name)
            if m is not None and m.op in ("func", "static", "classm", "property"):
                return self.class_attr(st, m, b, mk("class", ty), cx, node)
        if o in ("const", "tup") or typ_of(b) in ("bytes", "str", "int", "tuple", "seq", "list", "dict"):
            return [(st, mk("meth", b, name))]
        if o in ("func", "coro", "bound", "property"):
            if name == "__name__" and o == "func":
                return [(st, const(b.args[0].name))]
            return [(st, mk("meth", b, name))]
        h = self.hooks.get("attr")
        if h:
            r = h(self, st, b, name, cx, node)
            if r is not None:
                return r
        if st.decide(mk("isnone", b)) is True:
            return [(st, self.exc(st, "builtins.AttributeError", const("None." + name)))]
        return [(st, mk("attr", b, name))]

    def enum_class(self, qual):
        mod, _, n = qual.rpartition(".")
        m = self.prog.modules.get(mod)
        if m is not None:
            src = self.init_state if self.init_state is not None else None
            f = (src.get(m.frame) if src is not None else self.base[m.frame.args[0]]).f.get(n)
            if f is not None and f.op == "class":
                return f.args[0]
        return None

    def class_attr(self, st, m, selfv, cls, cx, node):
        if m.op in ("func", "cmfunc"):
            return [(st, mk("bound", m, selfv) if selfv is not None else m)]
        if m.op == "static":
            return [(st, m.args[0])]
        if m.op == "classm":
            if selfv is not None and selfv.op == "ref" and st.get(selfv).cls is not None:
                cls = st.get(selfv).cls
            return [(st, mk("bound", m.args[0], cls))]
        if m.op == "partialmethod" and selfv is not None:
            return [(st, mk("partial", mk("bound", m.args[0], selfv), m.args[1], m.args[2]))]
        if m.op == "property":
            if selfv is None:
                return [(st, m)]
            return self.call(st, m.args[0], [selfv], {}, cx, node)
        return [(st, m)]

    def e_Subscript(self, node, st, cx):
        if isinstance(node.slice, ast.Slice):
            sl = node.slice
            parts = [x if x is not None else ast.Constant(value=None) for x in (sl.lower, sl.upper, sl.step)]
            return self.then(
                self.evl([node.value] + parts, st, cx),
                lambda s, vs: lib.getslice(self, s, vs[0], vs[1], vs[2], vs[3], cx, node),
            )
        return self.then(self.evl([node.value, node.slice], st, cx), lambda s, vs: lib.getitem(self, s, vs[0], vs[1], cx, node))

    def e_Slice(self, node, st, cx):
        parts = [x if x is not None else ast.Constant(value=None) for x in (node.lower, node.upper, node.step)]
        return self.then(self.evl(parts, st, cx), lambda s, vs: [(s, mk("sliceobj", *vs))])

    def e_Call(self, node, st, cx):
        # logging never changes anything: skip its arguments' evaluation order details
        f = node.func
        if isinstance(f, ast.Name) and f.id == "super" and self.lookup(st, cx, "super") is None:
            return [(st, mk("super", cx.cls, cx.selfv))]
        if isinstance(f, ast.Name) and f.id in ("locals", "vars") and not node.args and self.lookup(st, cx, f.id) is None:
            return [(st, self.dict_(st, [(const(k), v) for k, v in st.get(cx.frame).f.items() if not k.startswith("$")]))]

        def with_fn(s, fv):
            return self.then(self.call_args(node, s, cx), lambda s2, ak: self.call_super(s2, fv, ak, cx, node))

        return self.then(self.ev(f, st, cx), with_fn)

    def call_super(self, s, fv, ak, cx, node):
        if fv.op == "supermeth":
            return lib.super_call(self, s, fv.args[0], fv.args[1], ak[0], ak[1], cx, node)
        return self.call(s, fv, ak[0], ak[1], cx, node)

    def call_args(self, node, st, cx):
        """-> [(state, (args, kwargs) | Raise)]"""
        exprs = [a.value if isinstance(a, ast.Starred) else a for a in node.args] + [k.value for k in node.keywords]
        out = []
        for s, vs in self.evl(exprs, st, cx):
            if isinstance(vs, Raise):
                out.append((s, vs))
                continue
            args, kwargs = [], {}
            for a, v in zip(node.args, vs):
                if isinstance(a, ast.Starred):
                    items = lib.known_items(self, s, v)
                    if items is None:
                        s.note("unknown * argument")
                        args.append(mk("starred", v))
                    else:
                        args.extend(items)
                else:
                    args.append(v)
            for k, v in zip(node.keywords, vs[len(node.args):]):
                if k.arg is None:
                    ob = self.obj(s, v)
                    if ob is not None and ob.kind == "dict" and all(x.op == "const" for x, _ in ob.f["items"]):
                        for x, y in ob.f["items"]:
                            kwargs[cval(x)] = y
                        if ob.f["rest"] is not None:
                            kwargs["**"] = ob.f["rest"]
                    else:
                        kwargs["**"] = v
                else:
                    kwargs[k.arg] = v
            out.append((s, (args, kwargs)))
        return out

    def e_Await(self, node, st, cx):
        return self.then(self.ev(node.value, st, cx), lambda s, v: self.await_(s, v, cx, node))

    def e_Yield(self, node, st, cx):
        def go(s, v):
            key = s.get(cx.frame).f.get("$cmkey")
            if key is not None:
                return self.cm_bodies[cval(key)](s, v)
            acc = self.lookup(s, cx, "$yield")
            if acc is None:
                raise AnalysisError("yield outside a function")
            s.w(acc).f["segs"] = s.get(acc).f["segs"] + (("it", v),)
            return [(s, NONE)]

        if node.value is None:
            return go(st, NONE)
        return self.then(self.ev(node.value, st, cx), go)

    def e_YieldFrom(self, node, st, cx):
        def go(s, v):
            acc = self.lookup(s, cx, "$yield")
            return lib.call_method(self, s, acc, "extend", [v], {}, cx, node)

        return self.then(self.ev(node.value, st, cx), go)

    def e_Lambda(self, node, st, cx):
        a = node.args
        out = []
        for s, vals in self.evl(list(a.defaults) + [d for d in a.kw_defaults if d is not None], st, cx):
            if isinstance(vals, Raise):
                out.append((s, vals))
                continue
            qual = (cx.info.qual if cx.info else cx.module.name) + ".<lambda:%d>" % node.lineno
            info = self.finfo(node, cx.module, qual, cx.cls)
            nd = len(a.defaults)
            kwn = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            out.append((s, mk("func", info, cx.frame, tuple(vals[:nd]), tuple(zip(kwn, vals[nd:])))))
        return out

    def e_IfExp(self, node, st, cx):
        out = []
        for s, b in self.ev_cond(node.test, st, cx):
            if isinstance(b, Raise):
                out.append((s, b))
            else:
                out.extend(self.ev(node.body if b else node.orelse, s, cx))
        return out

    def e_NamedExpr(self, node, st, cx):
        def go(s, v):
            self.setname(s, cx, node.target.id, v)
            return [(s, v)]

        return self.then(self.ev(node.value, st, cx), go)

    def e_BoolOp(self, node, st, cx):
        is_and = isinstance(node.op, ast.And)
        cur = [(st, None)]
        out = []
        for i, n in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s, _ in cur:
                for s2, v in self.ev(n, s, cx):
                    if isinstance(v, Raise):
                        out.append((s2, v))
                    elif last:
                        out.append((s2, v))
                    else:
                        for s3, b in self.branch(s2, v):
                            if b == is_and:
                                nxt.append((s3, None))
                            else:
                                out.append((s3, v))
            cur = nxt
        return out

    def e_UnaryOp(self, node, st, cx):
        def go(s, v):
            if isinstance(node.op, ast.Not):
                return [(s2, const(not b)) for s2, b in self.branch(s, v)]
            if isinstance(node.op, ast.USub):
                return [(s, scale(v, -1))]
            if isinstance(node.op, ast.UAdd):
                return [(s, v)]
            if is_num(v):
                return [(s, const(~int(numval(v))))]
            return [(s, add(scale(v, -1), const(-1)))]

        return self.then(self.ev(node.operand, st, cx), go)

    def e_BinOp(self, node, st, cx):
        op = type(node.op).__name__
        return self.then(self.evl([node.left, node.right], st, cx), lambda s, vs: self.binop(s, op, vs[0], vs[1], cx, node))

    def binop(self, st, op, a, b, cx, node):
        return lib.binop(self, st, op, a, b, cx, node)

    def e_Compare(self, node, st, cx):
        def step(s, left, i):
            """evaluate the chain from operand i"""
            def with_right(s2, right):
                res = lib.compare(self, s2, type(node.ops[i]).__name__, left, right, cx, node)
                if i == len(node.ops) - 1:
                    return res
                out = []
                for s3, v in res:
                    if isinstance(v, Raise):
                        out.append((s3, v))
                        continue
                    for s4, bl in self.branch(s3, v):
                        if bl:
                            out.extend(step(s4, right, i + 1))
                        else:
                            out.append((s4, FALSE))
                return out

            return self.then(self.ev(node.comparators[i], s, cx), with_right)

        return self.then(self.ev(node.left, st, cx), lambda s, v: step(s, v, 0))

    def e_Tuple(self, node, st, cx):
        return self.then(self.seq(node.elts, st, cx), lambda s, vs: [(s, mk("tup", *vs))])

    def e_List(self, node, st, cx):
        return self.then(self.seq(node.elts, st, cx), lambda s, vs: [(s, self.list_(s, vs))])

    def e_Set(self, node, st, cx):
        return self.then(
            self.seq(node.elts, st, cx),
            lambda s, vs: [(s, self.alloc(s, "set", None, {"items": tuple(dict.fromkeys(vs)), "rest": None}))],
        )

    def seq(self, elts, st, cx):
        out = []
        for s, vs in self.evl([e.value if isinstance(e, ast.Starred) else e for e in elts], st, cx):
            if isinstance(vs, Raise):
                out.append((s, vs))
                continue
            r = []
            for e, v in zip(elts, vs):
                if isinstance(e, ast.Starred):
                    items = lib.known_items(self, s, v)
                    if items is None:
                        s.note("unknown starred element")
                        items = [mk("starred", v)]
                    r.extend(items)
                else:
                    r.append(v)
            out.append((s, r))
        return out

    def e_Dict(self, node, st, cx):
        exprs = []
        for k, v in zip(node.keys, node.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)
        out = []
        for s, vs in self.evl(exprs, st, cx):
            if isinstance(vs, Raise):
                out.append((s, vs))
                continue
            d = self.dict_(s, [])
            it = iter(vs)
            for k in node.keys:
                if k is None:
                    v = next(it)
                    r = lib.call_method(self, s, d, "update", [v], {}, cx, node)
                    s = r[0][0]
                else:
                    key = next(it)
                    lib.dict_put(self, s, d, key, next(it))
            out.append((s, d))
        return out

    def e_JoinedStr(self, node, st, cx):
        exprs = [v.value for v in node.values if isinstance(v, ast.FormattedValue)]
        out = []
        for s, vs in self.evl(exprs, st, cx):
            if isinstance(vs, Raise):
                out.append((s, vs))
                continue
            parts, it, allc = [], iter(vs), True
            for p in node.values:
                if isinstance(p, ast.Constant):
                    parts.append(const(p.value))
                else:
                    v = next(it)
                    if v.op == "const" and p.format_spec is None and p.conversion == -1:
                        parts.append(const(str(cval(v))))
                    else:
                        allc = False
                        parts.append(v)
            if allc:
                out.append((s, const("".join(cval(p) for p in parts))))
            else:
                out.append((s, mk("str", "f", *parts)))
        return out

    def e_FormattedValue(self, node, st, cx):
        return self.then(self.ev(node.value, st, cx), lambda s, v: [(s, mk("str", "f", v))])

    def e_Starred(self, node, st, cx):
        return self.ev(node.value, st, cx)

    # comprehensions run as a loop appending to an accumulator
    def comp(self, node, st, cx, kind, push):
        fr = self.alloc(st, "frame", None, {"$parent": cx.frame})
        if kind == "dict":
            acc = self.dict_(st, [])
        else:
            acc = self.list_(st, [])
        # comprehension scope: names bind in the inner frame, reads fall through
        ccx = Cx(None, fr, cx.module, cx.cls, cx.selfv, cx.depth, cx.stack, cx)
        ccx = _CompCx(ccx, cx)

        body = push(acc)
        for g in reversed(node.generators):
            for c in reversed(g.ifs):
                body = [_copy_loc(ast.If(test=c, body=body, orelse=[]), node)]
            body = [_copy_loc(ast.For(target=g.target, iter=g.iter, body=body, orelse=[]), node)]
        out = []
        for s, k, v in self.exec_block(body, st, ccx):
            if k == RAISE:
                out.append((s, v))
            else:
                out.append((s, acc))
        return out

    def e_ListComp(self, node, st, cx):
        return self.comp(node, st, cx, "list", lambda acc: [_copy_loc(_Push(acc, node.elt, None), node)])

    def e_GeneratorExp(self, node, st, cx):
        return self.comp(node, st, cx, "list", lambda acc: [_copy_loc(_Push(acc, node.elt, None), node)])

    def e_SetComp(self, node, st, cx):
        out = []
        for s, v in self.comp(node, st, cx, "list", lambda acc: [_copy_loc(_Push(acc, node.elt, None), node)]):
            if not isinstance(v, Raise):
                items = lib.known_items(self, s, v)
                if items is not None:
                    v = self.alloc(s, "set", None, {"items": tuple(dict.fromkeys(items)), "rest": None})
            out.append((s, v))
        return out

    def e_DictComp(self, node, st, cx):
        return self.comp(node, st, cx, "dict", lambda acc: [_copy_loc(_Push(acc, node.key, node.value), node)])

    def x__Push(self, node, st, cx):
        if node.val is None:
            def go(s, v):
                s.w(node.acc).f["segs"] = s.get(node.acc).f["segs"] + (("it", v),)
                return [(s, NEXT, None)]

            return self.each(self.ev(node.elt, st, cx), go)

        def go2(s, vs):
            lib.dict_put(self, s, node.acc, vs[0], vs[1])
            return [(s, NEXT, None)]

        return self.each(self.evl([node.elt, node.val], st, cx), go2)


class _Push(ast.stmt):
    _fields = ()

    def __init__(self, acc, elt, val):
        super().__init__()
        self.acc = acc
        self.elt = elt
        self.val = val


class _CompCx(Cx):
    __slots__ = ()

    def __init__(self, inner, outer):
        super().__init__(None, inner.frame, inner.module, inner.cls, inner.selfv, inner.depth, inner.stack, outer)

    def loc(self, node):
        return self.parent.loc(node)


def _copy_loc(new, old):
    ast.copy_location(new, old)
    return new


def _as_load(t):
    if isinstance(t, ast.Name):
        n = ast.Name(id=t.id, ctx=ast.Load())
    elif isinstance(t, ast.Attribute):
        n = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    elif isinstance(t, ast.Subscript):
        n = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    else:
        raise AnalysisError("augmented assignment target")
    return ast.copy_location(n, t)


def _segkey(segs):
    return tuple((s[0],) + tuple(x.key if isinstance(x, Term) else str(x) for x in s[1:]) for s in segs)
