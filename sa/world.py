"""The scenarios the rules share: an application, its API object and its serial protocol.

Only names that the repository's own tests (or asyncio / zigpy, as protocols) fix
are used to enter the program and to read results.
"""
from .load import AnalysisError
from .scen import *
from .terms import *

ALL_SEEN = set()
# whether the worlds are those of a program that has been running for a while
AGE = {"lived": False}

MOD_APP = "zigpy_cc.zigbee.application"


def tname(n):
    return sym(n, "byte")


class World(Scen):
    def __init__(self, interp=None):
        super().__init__(interp)
        self.I.seen = ALL_SEEN
        I = self.I
        self.CommandType = self.enum("zigpy_cc.types", "CommandType")
        self.Subsystem = self.enum("zigpy_cc.types", "Subsystem")
        self.PT = self.enum("zigpy_cc.types", "ParameterType")
        self.transport = sym("transport", "obj")
        self.dev = sym("device", "obj")
        self.nwk = sym("nwk", "u16")
        self._def = None
        self._lived = None
        I.hooks["strict_index"] = True

    # ------------------------------------------------------------ program facts
    def enum(self, mod, name):
        c = self.glob(mod, name)
        if c.op != "class":
            raise AnalysisError("anchor vanished: enum %s.%s" % (mod, name))
        return {k: v for k, v in c.args[0].members.items()}

    def members(self, mod, name):
        return {k: numval(v) for k, v in self.enum(mod, name).items()}

    def definition(self):
        """{subsystem value: [ {name, ID, type, request:[(name, ptype)], response:[...]|None} ]} from the abstract heap"""
        if self._def is not None:
            return self._def
        D = self.glob("zigpy_cc.definition", "Definition")
        st = self.state()
        ob = self.I.obj(st, D)
        if ob is None or ob.kind != "dict":
            raise AnalysisError("command table is not a dictionary")
        out = {}
        for k, v in ob.f["items"]:
            rows = lib.known_items(self.I, st, v)
            if rows is None:
                raise AnalysisError("command table of subsystem %s is not a known list" % show(k))
            lst = []
            for r in rows:
                ro = self.I.obj(st, r)
                if ro is None or ro.kind != "dict":
                    raise AnalysisError("a row of the command table is not a dictionary")
                d = {}
                for kk, vv in ro.f["items"]:
                    key = cval(kk)
                    if key in ("request", "response"):
                        d[key] = self._params(st, vv)
                    elif is_num(vv):
                        d[key] = numval(vv)
                    elif is_const(vv):
                        d[key] = cval(vv)
                lst.append(d)
            out[numval(k)] = lst
        self._def = out
        return out

    def _params(self, st, v):
        items = lib.known_items(self.I, st, v)
        if items is None:
            raise AnalysisError("a parameter list of the command table is not known")
        out = []
        for p in items:
            po = self.I.obj(st, p)
            d = {cval(a): b for a, b in po.f["items"]}
            out.append((cval(d["name"]), numval(d["parameterType"])))
        return out

    def cmd(self, ss, name):
        for c in self.definition().get(ss, ()):
            if c["name"] == name:
                return c
        return None

    # ------------------------------------------------------------------ worlds
    def lived(self):
        """-> (state, application) of a program that has started, lost its port and reconnected; None when not asked for"""
        if not AGE["lived"]:
            return None
        if self._lived is None:
            from .rules.life import lived

            AGE["lived"] = False
            try:
                self._lived = lived(self) or (None, None)
            finally:
                AGE["lived"] = True
        st, app = self._lived
        return (st.fork(), app) if st is not None else None

    def api_world(self, st=None, app=None):
        """an API with an open gateway on a recorded transport"""
        old = self.lived() if st is None else None
        if old is not None:
            st, a = old
            api = self.field(st, a, "_api")
            st, _ = self.one(self.meth(st, api, "set_application", [app if app is not None else NONE]), "set_application")
            return st, api, self.field(st, api, "_uart")
        st = st or self.state()
        st, api = self.one(self.call(st, self.glob("zigpy_cc.api", "API"), [sym("devcfg", "dict")]), "API()")
        st, gw = self.one(self.call(st, self.glob("zigpy_cc.uart", "Gateway"), [api]), "Gateway()")
        st, _ = self.one(self.meth(st, gw, "connection_made", [self.transport]), "connection_made")
        if "_uart" not in st.get(api).f:
            raise AnalysisError("anchor vanished: API._uart")
        st.w(api).f["_uart"] = gw
        if app is not None:
            st, _ = self.one(self.meth(st, api, "set_application", [app]), "set_application")
        return st, api, gw

    def app_world(self, sem=16, st=None):
        old = self.lived() if st is None else None
        if old is not None:
            st, app = old
            api = self.field(st, app, "_api")
            gw = self.field(st, api, "_uart")
        else:
            st, app, api, gw = self.new_app(st or self.state())
        st, s = self.one(self.call(st, mk("ext", "asyncio.Semaphore"), [const(sem)]))
        st.w(app).f["_semaphore"] = s
        st.oattrs[(self.dev, "nwk")] = mk("cast", "zigpy.types.NWK", self.nwk)
        st.oattrs[(self.dev, "_nwk")] = mk("cast", "zigpy.types.NWK", self.nwk)
        return st, app, api, gw, s

    def new_app(self, st):
        st, app = self.one(self.call(st, self.glob(MOD_APP, "ControllerApplication"), [sym("appcfg", "dict")]), "ControllerApplication()")
        st, api, gw = self.api_world(st, app)
        st.w(app).f["_api"] = api
        return st, app, api, gw

    # ------------------------------------------------------------------- values
    def enumval(self, mod, name, v):
        for m in self.enum(mod, name).values():
            if numval(m) == v:
                return m
        return const(v)

    def ss(self, v):
        return self.enumval("zigpy_cc.types", "Subsystem", v)

    def ct(self, v):
        return self.enumval("zigpy_cc.types", "CommandType", v)

    def frame(self, st, ct, ss, cid, data):
        return self.one(self.call(st, self.glob("zigpy_cc.uart", "UnpiFrame"), [self.ct(ct), self.ss(ss), const(cid), data]), "UnpiFrame()")

    def mcalls(self, st, obj=None, name=None, since=None):
        out = []
        for e in flat(st.trace() if since is None else self.I.since(st, since)):
            if e.kind == "mcall" and (obj is None or e.obj is obj) and (name is None or e.name == name):
                out.append(e)
        return out

    def writes(self, st, since=None):
        return [e for e in self.mcalls(st, self.transport, "write", since)]

    def ditems(self, st, v):
        """{key: value} of a known dictionary, else None"""
        ob = self.I.obj(st, v)
        if ob is None or ob.kind != "dict" or ob.f.get("rest") is not None:
            return None
        return {cval(k): x for k, x in ob.f["items"] if is_const(k)}

    def waits(self, st, api):
        """the outstanding waits, whatever container holds them; None when unknown"""
        held = self.field(st, api, "_waiters")
        if held is None:
            r = self.I.getattr_(st, api, "_waiters", self.cx, None)
            held = r[0][1] if len(r) == 1 and isinstance(r[0][1], Term) else None
        ob = self.I.obj(st, held) if held is not None else None
        if ob is None:
            return None
        if ob.kind in ("dict", "set"):
            if ob.f.get("rest") is not None:
                return None
            vals = [x[1] if ob.kind == "dict" else x for x in ob.f["items"]]
        elif ob.kind == "list":
            vals = lib.known_items(self.I, st, held)
            if vals is None:
                return None
        else:
            return None
        out = []
        for x in vals:
            o = self.I.obj(st, x)
            if o is not None and o.kind in ("list", "dict", "set"):
                # grouped by what is waited for
                y = lib.known_items(self.I, st, x) if o.kind != "dict" else [v for _, v in o.f["items"]]
                if y is None:
                    return None
                out += y
            else:
                out.append(x)
        return out

    def resolved(self, st, t):
        """a term with the values this path has fixed"""
        m = {a: const(v) for a, v in st.known.items()}
        return subst(strip(t), m) if m else strip(t)

    def eq(self, st, a, b):
        """three-valued equality of two abstract values on a path"""
        if a is None or b is None:
            return a is b
        a, b = self.plain(st, a), self.plain(st, b)
        if a is b:
            return True
        a, b = self.resolved(st, a), self.resolved(st, b)
        if a is b:
            return True
        if a.op == "tup" and b.op == "tup":
            if len(a.args) != len(b.args):
                return False
            r = True
            for x, y in zip(a.args, b.args):
                q = self.eq(st, x, y)
                if q is False:
                    return False
                if q is None:
                    r = None
            return r
        return equal_values(a, b, tuple((f, p) for f, p in st.facts.items() if f.op in ("eq0", "ge0")))

    def plain(self, st, v):
        """lists and byte arrays as value terms"""
        v = strip(v)
        ob = self.I.obj(st, v)
        if ob is not None:
            if ob.kind == "list":
                it = lib.known_items(self.I, st, v)
                if it is not None:
                    return mk("tup", *[self.plain(st, x) for x in it])
            if ob.kind == "bytearray":
                return strip(ob.f["v"])
            if ob.kind == "dict" and ob.f.get("rest") is None:
                return mk("tup", *[mk("tup", k, self.plain(st, x)) for k, x in ob.f["items"]])
        if v.op == "tup":
            return mk("tup", *[self.plain(st, x) for x in v.args])
        if v.op == "eui":
            b = v.args[0]
            n = const_len(b)
            if n is not None:
                return mk("tup", *[strip(bidx(b, const(i))) for i in range(n)])
        return v

    def show(self, st, v):
        try:
            return show(self.resolved(st, self.plain(st, v)))
        except Exception:
            return show(v)

    # ------------------------------------------------ wire oracle (MT protocol)
    WIDTH = {0: 1, 1: 2, 2: 4, 3: 8, 18: 1}
    FIXBUF = {5: 8, 6: 16, 7: 18, 8: 32, 9: 42, 10: 100}

    def sample(self, name, pt, tag="", count=2):
        """(value term, wire bytes) for one parameter; lists and buffers with `count` entries"""
        n = tag + name
        if pt == 0:
            v = sym(n, "byte")
            return v, mk("b", v)
        if pt == 1:
            v = sym(n, "u16")
            return v, tole(v, 2)
        if pt == 2:
            v = fromle(mkcat([mk("b", sym("%s.%d" % (n, i), "byte")) for i in range(4)]))
            return v, tole(v, 4)
        if pt == 3:
            w = mkcat([mk("b", sym("%s.%d" % (n, i), "byte")) for i in range(8)])
            return mk("eui", w), w
        if pt == 4 or pt in self.FIXBUF:
            k = self.FIXBUF.get(pt, count)
            w = mkcat([mk("b", sym("%s.%d" % (n, i), "byte")) for i in range(k)]) if k else const(b"")
            return w, w
        if pt == 18:
            b = sym(n, "byte")
            return fromle(mk("b", b), True), mk("b", b)
        if pt == 11:
            xs = [sym("%s.%d" % (n, i), "byte") for i in range(count)]
            return mk("tup", *xs), mkcat([mk("b", x) for x in xs])
        if pt == 12:
            xs = [sym("%s.%d" % (n, i), "u16") for i in range(count)]
            return mk("tup", *xs), mkcat([tole(x, 2) for x in xs])
        if pt == 15:
            vs, ws = [], []
            for i in range(count):
                v, w = self.lqi("%s.%d" % (n, i))
                vs.append(v)
                ws.append(w)
            return mk("tup", *vs), mkcat(ws)
        return None, None

    LQI = ("extPanId", "extAddr", "nwkAddr", "deviceType", "rxOnWhenIdle", "relationship", "permitJoin", "depth", "lqi")

    def lqi(self, n):
        """one neighbour record as received: expected field values and its 22 bytes"""
        pan = mkcat([mk("b", sym("%s.p%d" % (n, i), "byte")) for i in range(8)])
        adr = mkcat([mk("b", sym("%s.a%d" % (n, i), "byte")) for i in range(8)])
        nwk = sym(n + ".nwk", "u16")
        fl, pj, dp, lq = [sym("%s.%s" % (n, x), "byte") for x in ("flags", "pj", "depth", "lqi")]
        vals = {
            "extPanId": mk("eui", pan),
            "extAddr": mk("eui", adr),
            "nwkAddr": nwk,
            "deviceType": bitop("&", fl, const(3)),
            "rxOnWhenIdle": bitop(">>", bitop("&", fl, const(0x0C)), const(2)),
            "relationship": bitop(">>", bitop("&", fl, const(0x70)), const(4)),
            "permitJoin": bitop("&", pj, const(3)),
            "depth": dp,
            "lqi": lq,
        }
        w = mkcat([pan, adr, tole(nwk, 2), mk("b", fl), mk("b", pj), mk("b", dp), mk("b", lq)])
        return mk("tup", *[mk("tup", const(k), vals[k]) for k in self.LQI]), w

    READABLE = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 18}
    WRITABLE = {0, 1, 2, 3, 4, 11, 12, 15}
    UNIT = {4: 1, 11: 1, 12: 2, 13: 2, 14: 1, 15: 22, 16: 1, 17: 1}
    LISTY = {4, 11, 12, 13, 14, 15, 16, 17}

    def samples(self, params, count=2, lens=True, tag=""):
        """values and wire bytes of a whole parameter list; a length prefix is fixed to the count"""
        # several lists in one command get different lengths
        vals, wire, c, k = [], [], count, -1
        for i, (n, pt) in enumerate(params):
            nxt = params[i + 1][1] if i + 1 < len(params) else None
            if lens and nxt in self.LISTY and pt in (0, 1, 2):
                k += 1
                c = max(0, count - k if count % 2 else count + k)
                vals.append((n, pt, const(c)))
                wire.append(tole(const(c), self.WIDTH[pt]))
                continue
            v, w = self.sample(n, pt, tag=tag, count=c)
            if v is None:
                return None, None
            vals.append((n, pt, v))
            wire.append(w)
        return vals, mkcat(wire)


def expected_frame(ct, ss, cid, data):
    """the MT frame of a command: SOF, length, type/subsystem, id, data, checksum"""
    n = blen(data)
    head = [const(0xFE), n, const(((ct << 5) & 0xE0) | (ss & 0x1F)), const(cid)]
    body = mkcat([mk("b", x) for x in head] + [data])
    fcs = mkxor([n, head[2], head[3], xorall(data)])
    return mkcat([body, mk("b", fcs)])


class Adapter:
    """The other end of the serial line: answers the commands found in the transport writes.

    `script(st, row, n)` gives the frames (byte terms) to feed when the program
    waits, for the n-th command written; None means no answer.
    """

    def __init__(self, W, gw, script=None, timeouts=False, unanswered=None):
        self.W = W
        self.gw = gw
        self.script = script or self.srsp
        self.timeouts = timeouts
        self.stuck = unanswered
        W.I.hooks["await_future"] = self.on_wait

    def row(self, st, ev):
        b = ev.args[0]
        c0, cid = bidx(b, const(2)), bidx(b, const(3))
        if c0 is None or cid is None or not is_num(c0) or not is_num(cid):
            return None
        c0, cid = int(numval(c0)), int(numval(cid))
        for r in self.W.definition().get(c0 & 0x1F, ()):
            if r["ID"] == cid:
                return dict(r, ss=c0 & 0x1F, wire_type=c0 >> 5, bytes=b)
        return None

    def reply(self, ct, ss, cid, vals):
        data = mkcat(vals)
        n = blen(data)
        body = [n, const((ct << 5) | ss), const(cid)]
        return mkcat([mk("b", const(0xFE))] + [mk("b", x) for x in body] + [data, mk("b", mkxor(body + [xorall(data)]))])

    def srsp(self, st, row, n, over=None):
        if row is None or row["wire_type"] != 1:
            return []
        vals, wire = [], []
        params = row["response"]
        for i, (nm, pt) in enumerate(params):
            if over and nm in over:
                wire.append(tole(over[nm], self.W.WIDTH.get(pt, 1)) if is_num(over[nm]) or typ_of(over[nm]) in ("int", None) else over[nm])
                continue
            nxt = params[i + 1][1] if i + 1 < len(params) else None
            if nxt in self.W.LISTY:
                wire.append(tole(const(1), self.W.WIDTH[pt]))
                continue
            v, w = self.W.sample("%s:%d:%s" % (row["name"], n, nm), pt, count=1)
            wire.append(w)
        return [self.reply(3, row["ss"], row["ID"], wire)]

    def on_wait(self, I, st, fut, cx, node, timeout):
        W = self.W
        out = []
        if self.timeouts and timeout is not None and timeout is not NONE:
            s = st.fork()
            s.w(fut).f["$state"] = "cancelled"
            s.emit(Ev("timeout", cx.loc(node), aw=fut, timeout=timeout))
            out.append((s, I.exc(s, "asyncio.TimeoutError")))
        if I.cancel_points:
            s = st.fork()
            s.w(fut).f["$state"] = "cancelled"
            s.emit(Ev("cancelled", cx.loc(node)))
            out.append((s, I.exc(s, "asyncio.CancelledError")))
        cur = [st]
        ws = W.writes(st)
        k = st.flags.get("answered", 0)
        for i in range(k, len(ws)):
            row = self.row(st, ws[i])
            nxt = []
            for s in cur:
                s.flags["answered"] = i + 1
                step = [s]
                for fr in self.script(s, row, i) or []:
                    step2 = []
                    for s2 in step:
                        if callable(fr):
                            step2 += fr(s2)
                            continue
                        for s3, r in W.meth(s2, s2.flags.get("gw", self.gw), "data_received", [fr]):
                            if isinstance(r, Raise):
                                s3.emit(Ev("rx_raise", cx.loc(node), exc=W.exc(s3, r)))
                            step2.append(s3)
                    step = step2
                nxt += step
            cur = nxt
        for s in cur:
            ob = s.get(fut)
            state = ob.f.get("$state")
            if state == "done":
                out.append((s, ob.f["$result"]))
            elif state == "exception":
                out.append((s, Raise(ob.f["$result"])))
            elif state == "cancelled":
                out.append((s, I.exc(s, "asyncio.CancelledError")))
            else:
                s.emit(Ev("stuck", cx.loc(node), fut=fut))
                if self.stuck is not None:
                    out += self.stuck(I, s, fut, cx, node, timeout)
                elif timeout is not None and timeout is not NONE and not self.timeouts:
                    s.w(fut).f["$state"] = "cancelled"
                    out.append((s, I.exc(s, "asyncio.TimeoutError")))
        return out
