"""Starting the adapter: C09, C20, C21, C22, C23, C27, C30.

The adapter is modelled as the other end of the serial line: it decodes the bytes the
program writes, keeps NV items, endpoints and groups as abstract values and answers.
"""
from ..load import AnalysisError
from ..world import *
from .wire import judge, where, raise_where
from .send import byte, le
from .recv import APP, API, evs

NV = {
    0x0003: ("start-up option", 1),
    0x002D: ("extended PAN id", 8),
    0x0062: ("network key", 16),
    0x0063: ("key distribution", 1),
    0x0083: ("PAN id", 2),
    0x0084: ("channel mask", 4),
    0x0087: ("logical type", 1),
    0x008F: ("direct ZDO callbacks", 1),
    0x0101: ("trust centre link key", 32),
    0x0060: ("configured marker (Z-Stack 3)", 1),
    0x0F00: ("configured marker (Z-Stack 1.2)", 1),
}
MARKER = {0: 0x0F00, 1: 0x0060, 2: 0x0060}
TCLK = b"\xff" * 8 + b"ZigBeeAlliance09" + b"\0" * 8
ENDPOINTS = {  # endpoint: (profile, device id, in clusters, out clusters)
    1: (0x0104, 5, (), ()), 2: (0x0101, 5, (), ()), 3: (0x0106, 5, (), ()), 4: (0x0107, 5, (), ()), 5: (0x0108, 5, (), ()),
    6: (0x0109, 5, (), ()), 8: (0x0104, 5, (), ()), 11: (0x0104, 0x0400, (), (0x0500, 0x0502)), 0x6E: (0x0104, 5, (), ()),
    12: (0xC05E, 5, (), ()), 13: (0x0104, 5, (0x0019,), ()), 47: (0x0104, 5, (), ()), 242: (0xA1E0, 5, (), ()),
}
GREEN = (242, 0x0B84)
# status values that do not mean failure
ACCEPTED = {"osalNvItemInit": (0, 9), "startupFromApp": (0, 1), "extFindGroup": (0, 1), "osalNvRead": (0, 2)}
EVENTS = ("bdbStartCommissioning", "startupFromApp", "activeEpReq", "resetReq")


class Config:
    """network settings with unknown values; absent ones are None"""

    def __init__(self, absent=(), tag="cfg", pan_zero=False):
        u = tag + "."
        self.key = mk("eui", mkcat([byte(sym(u + "k%d" % i, "byte")) for i in range(16)]))
        self.pan = mk("cast", "zigpy.types.PanId", const(0) if pan_zero else sym(u + "pan", "u16"))
        self.ext = mk("eui", mkcat([byte(sym(u + "x%d" % i, "byte")) for i in range(8)]))
        self.chan = mk("cast", "zigpy.types.Channels", fromle(mkcat([byte(sym(u + "c%d" % i, "byte")) for i in range(4)])))
        self.absent = set(absent)

    def items(self):
        out = {"key": self.key, "pan_id": self.pan, "extended_pan_id": self.ext, "channels": self.chan}
        for a in self.absent:
            out[a] = NONE
        return out

    def wire(self):
        """what the NV items must hold"""
        d = {
            0x0062: strip(self.key).args[0], 0x0083: le(strip(self.pan), 2), 0x002D: strip(self.ext).args[0], 0x0084: le(strip(self.chan), 4),
        }
        if "key" in self.absent:
            d[0x0062] = const(bytes([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13]))
        if "pan_id" in self.absent:
            d[0x0083] = const(b"\x62\x1a")
        if "extended_pan_id" in self.absent:
            d[0x002D] = const(b"\xdd" * 8)
        if "channels" in self.absent:
            d[0x0084] = const(b"\x00\x08\x00\x00")
        return d


class Ncp(Adapter):
    """the adapter's firmware as far as start-up depends on it"""

    def __init__(self, W, gw, product, nv=None, coord=False, endpoints=(), green=False, early=False, fail=None, order=None):
        super().__init__(W, gw, None)
        self.script = self.firmware
        self.product = product
        self.early = early
        self.fail = fail
        self.order = order
        self.nv0 = nv
        self.coord = coord
        self.endpoints = tuple(endpoints)
        self.green = green
        self.stuck = self.give_up
        self.mem = {i: mkcat([byte(sym("old%x.%d" % (i, j), "byte")) for j in range(n)]) for i, (_, n) in NV.items() if i not in (0x0060, 0x0F00, 0x0101)}
        if nv is not None:
            self.mem = dict(nv)
        W.I.hooks["attr"] = self.attr
        W.I.hooks["getitem"] = None

    any_state = False

    # the state lives in the path
    def get(self, s, k, d=None):
        return s.flags.get("ncp:" + k, d)

    def put(self, s, k, v):
        s.flags["ncp:" + k] = v

    def nv(self, s):
        v = self.get(s, "nv")
        return dict(self.mem) if v is None else dict(v)

    def attr(self, I, st, b, name, cx, node):
        return None

    def give_up(self, I, s, fut, cx, node, timeout):
        """nothing more will arrive: the wait ends by its timeout"""
        if timeout is None or timeout is NONE:
            s.emit(Ev("hang", cx.loc(node)))
            return []
        s.w(fut).f["$state"] = "cancelled"
        s.emit(Ev("timeout", cx.loc(node), aw=fut, timeout=timeout))
        return [(s, I.exc(s, "asyncio.TimeoutError"))]

    def on_wait(self, I, st, fut, cx, node, timeout):
        # started tasks get to run before anything arrives
        cur = [st]
        done = st.flags.get("spawned", 0)
        sp = [e for e in flat(st.trace()) if e.kind == "spawn"]
        for i in range(done, len(sp)):
            nxt = []
            for s in cur:
                s.flags["spawned"] = i + 1
                # a task started on the side is not cancelled with its starter
                cp, I.cancel_points = I.cancel_points, 0
                try:
                    res = I.await_(s, sp[i].task, cx, node)
                finally:
                    I.cancel_points = cp
                for s2, r in res:
                    if isinstance(r, Raise):
                        s2.emit(Ev("task-raise", sp[i].loc, exc=self.W.exc(s2, r), raise_=r))
                    nxt.append(s2)
            cur = nxt
        out = []
        for s in cur:
            state = s.get(fut).f.get("$state")
            if state == "done":
                out.append((s, s.get(fut).f["$result"]))
                continue
            out += super().on_wait(I, s, fut, cx, node, timeout)
        return [self.told_to_stop(I, s, r) for s, r in out]

    def told_to_stop(self, I, s, r):
        """a cancelled task ends where it waits"""
        t = s.flags.get("driven")
        if t is None or s.get(t).f.get("$state") != "cancelled" or s.flags.get("stopped") is t:
            return s, r
        s.flags["stopped"] = t
        return s, I.exc(s, "asyncio.CancelledError")

    def fields(self, row):
        """request parameters of a written frame -> terms"""
        b = row["bytes"]
        data = bslice(b, const(4), add(blen(b), const(-1)))
        out = {}
        pos = 0
        prev = None
        n = const_len(data)
        if n is None:
            return None
        for nm, pt in row["request"]:
            if pt in (0, 1, 2, 3):
                w = self.W.WIDTH[pt]
                x = bslice(data, const(pos), const(pos + w))
                out[nm] = fromle(x) if pt != 3 else x
            elif pt in (4, 11, 12):
                if prev is None or not is_num(prev):
                    return None
                w = int(numval(prev)) * (2 if pt == 12 else 1)
                out[nm] = bslice(data, const(pos), const(pos + w))
            elif pt in self.W.FIXBUF:
                w = self.W.FIXBUF[pt]
                out[nm] = bslice(data, const(pos), const(pos + w))
            else:
                return None
            prev = out[nm]
            pos += w
            if pos > n:
                return None
        out["$len"] = (pos, n)
        return out

    def rsp(self, row, *vals):
        return self.reply(3, row["ss"], row["ID"], list(vals))

    def ind(self, ss, name, *vals):
        r = self.W.cmd(ss, name)
        return self.reply(2, ss, r["ID"], list(vals))

    def state9(self):
        out = []
        # the device passes other states on its way
        for x in (8, 9):
            out.append(self.ind(5, "stateChangeInd", byte(const(x))))
        return out

    def firmware(self, s, row, n):
        W = self.W
        if row is None:
            s.emit(Ev("bad-frame", ("?", 0, "?"), n=n))
            return []
        ws = W.writes(s)
        f = self.fields(row)
        ev = Ev("cmd", ws[n].loc, name=row["name"], ss=row["ss"], f=f, n=self.get(s, "n", 0), row=row)
        s.emit(ev)
        self.put(s, "n", self.get(s, "n", 0) + 1)
        if f is None or f["$len"][0] != f["$len"][1]:
            s.emit(Ev("malformed", ws[n].loc, name=row["name"], f=f))
            if f is None:
                return []
        if self.fail is not None:
            x = self.fail(s, ev)
            if x == "silent":
                s.emit(Ev("injected", ev.loc, name=row["name"], n=ev.n, how="silence"))
                return []
            if x == "reject":
                s.emit(Ev("injected", ev.loc, name=row["name"], n=ev.n, how="rejection"))
                # any status but those that mean success for this command
                bad = sym("refusal", "byte")
                for ok in ACCEPTED.get(row["name"], (0,)):
                    s.assume(eq0(sub(bad, const(ok))), False)
                return self.srsp(s, row, n, {"status": bad})
            if x == "no event":
                s.emit(Ev("injected", ev.loc, name=row["name"], n=ev.n, how="missing event"))
                return [fr for fr in self.perform(s, row, f, n) if int(numval(bidx(fr, const(2)))) >> 5 == 3]
        return self.perform(s, row, f, n)

    def perform(self, s, row, f, n):
        fn = getattr(self, "f_" + row["name"], None)
        if fn is None:
            return self.srsp(s, row, n, {"status": const(0)})
        return fn(s, row, f, n)

    # ---------------------------------------------------------- commands
    def f_ping(self, s, row, f, n):
        return [self.rsp(row, le(const(0x0779), 2))]

    def f_version(self, s, row, f, n):
        return self.srsp(s, row, n, {"product": const(self.product)})

    ieee = mk("eui", mkcat([byte(sym("own%d" % i, "byte")) for i in range(8)]))
    nwkaddr = sym("ownnwk", "u16")

    def f_getDeviceInfo(self, s, row, f, n):
        st = const(9 if self.get(s, "coord", self.coord) else 0)
        if self.any_state and not self.get(s, "coord", self.coord):
            # any state but the one of a running coordinator
            st = sym("devstate", "byte")
            s.assume(eq0(sub(st, const(9))), False)
        vals = [byte(const(0))]
        vals.append(mkcat([byte(sym("own%d" % i, "byte")) for i in range(8)]))
        vals.append(le(self.nwkaddr, 2))
        vals += [byte(const(7)), byte(st), byte(const(0))]
        return [self.rsp(row, *vals)]

    def item(self, f, k="id"):
        i = strip(f[k])
        return int(numval(i)) if is_num(i) else None

    def f_osalNvRead(self, s, row, f, n):
        i = self.item(f)
        v = self.nv(s).get(i)
        if v is None:
            return [self.rsp(row, byte(const(2)), byte(const(0)))]
        return [self.rsp(row, byte(const(0)), byte(blen(v)), v)]

    def f_osalNvWrite(self, s, row, f, n):
        i = self.item(f)
        nv = self.nv(s)
        nv[i] = strip(f["value"])
        s.emit(Ev("nv", W_loc(self.W, s, n), id=i, value=f["value"], f=f, via=row["name"]))
        if i in (0x0060, 0x0F00) and i not in self.nv(s):
            # the item has to be created first
            return [self.rsp(row, byte(const(0x0A)))]
        self.put(s, "nv", nv)
        return [self.rsp(row, byte(const(0)))]

    def f_osalNvItemInit(self, s, row, f, n):
        i = self.item(f)
        nv = self.nv(s)
        s.emit(Ev("nvinit", W_loc(self.W, s, n), id=i, f=f))
        if i in nv:
            return [self.rsp(row, byte(const(0)))]
        nv[i] = strip(f["initvalue"])
        self.put(s, "nv", nv)
        return [self.rsp(row, byte(const(9)))]

    def f_readConfiguration(self, s, row, f, n):
        i = self.item(f, "configid")
        v = self.nv(s).get(i)
        if v is None:
            return [self.rsp(row, byte(const(2)), byte(const(i or 0)), byte(const(0)))]
        return [self.rsp(row, byte(const(0)), byte(const(i)), byte(blen(v)), v)]

    def f_writeConfiguration(self, s, row, f, n):
        i = self.item(f, "configid")
        nv = self.nv(s)
        nv[i] = strip(f["value"])
        self.put(s, "nv", nv)
        s.emit(Ev("nv", W_loc(self.W, s, n), id=i, value=f["value"], f=f, via=row["name"]))
        return [self.rsp(row, byte(const(0)))]

    def f_resetReq(self, s, row, f, n):
        nv = self.nv(s)
        opt = strip(nv.get(0x0003, const(b"\0")))
        b = bidx(opt, const(0))
        if b is not None and is_num(b) and int(numval(b)) & 2:
            # network parameters return to their defaults, the request is consumed
            for i in (0x002D, 0x0062, 0x0063, 0x0083, 0x0084, 0x0087, 0x008F):
                nv[i] = const(b"\xEE" * NV[i][1])
            nv[0x0003] = const(b"\0")
            self.put(s, "cleared", True)
        self.put(s, "nv", nv)
        self.put(s, "coord", False)
        self.put(s, "eps", None)
        self.put(s, "commissioned", ())
        s.emit(Ev("reset", W_loc(self.W, s, n), kind_=f.get("type")))
        _, w = self.W.samples(self.W.cmd(1, "resetInd")["request"], 1)
        return [self.ind(1, "resetInd", w)]

    def f_bdbSetChannel(self, s, row, f, n):
        ch = dict(self.get(s, "bdb", ()))
        p = strip(f["isPrimary"])
        ch[int(numval(p)) if is_num(p) else None] = strip(f["channel"])
        self.put(s, "bdb", tuple(ch.items()))
        return [self.rsp(row, byte(const(0)))]

    def f_bdbStartCommissioning(self, s, row, f, n):
        m = strip(f["mode"])
        m = int(numval(m)) if is_num(m) else None
        self.put(s, "commissioned", self.get(s, "commissioned", ()) + ((m, self.get(s, "bdb", ()), tuple(sorted((k, v) for k, v in self.nv(s).items() if k is not None))),))
        ok = self.rsp(row, byte(const(0)))
        if m == 4:
            self.put(s, "coord", True)
            s.emit(Ev("formed", W_loc(self.W, s, n)))
            return (self.state9() + [ok]) if self.early else [ok] + self.state9()
        return [ok]

    def f_startupFromApp(self, s, row, f, n):
        self.put(s, "coord", True)
        s.emit(Ev("formed", W_loc(self.W, s, n)))
        ok = self.rsp(row, byte(const(1 if self.product == 0 else 0)))
        return (self.state9() + [ok]) if self.early else [ok] + self.state9()

    def f_activeEpReq(self, s, row, f, n):
        eps = self.eps(s)
        r = self.ind(5, "activeEpRsp", le(const(0), 2), byte(const(0)), le(const(0), 2), byte(const(len(eps))), const(bytes(eps)))
        ok = self.rsp(row, byte(const(0)))
        return [r, ok] if self.early else [ok, r]

    def eps(self, s):
        e = self.get(s, "eps")
        return self.endpoints if e is None else e

    def f_register(self, s, row, f, n):
        e = strip(f["endpoint"])
        e = int(numval(e)) if is_num(e) else None
        s.emit(Ev("register", W_loc(self.W, s, n), ep=e, f=f))
        if e in self.eps(s):
            return [self.rsp(row, byte(const(0xB8)))]
        self.put(s, "eps", self.eps(s) + (e,))
        return [self.rsp(row, byte(const(0)))]

    def f_extFindGroup(self, s, row, f, n):
        have = self.get(s, "groups", (GREEN,) if self.green else ())
        g = self.gkey(f)
        # what follows the status of a group that was not found has no meaning
        gid = le(strip(f["groupid"]), 2) if g in have else le(sym("nogroup", "u16"), 2)
        return [self.rsp(row, byte(const(0 if g in have else 1)), gid, byte(const(0)))] if len(row["response"]) == 4 else self.srsp(s, row, n, {"status": const(0 if g in have else 1)})

    def gkey(self, f):
        e, g = strip(f["endpoint"]), strip(f["groupid"])
        return (int(numval(e)) if is_num(e) else None, int(numval(g)) if is_num(g) else None)

    def f_extAddGroup(self, s, row, f, n):
        have = self.get(s, "groups", (GREEN,) if self.green else ())
        g = self.gkey(f)
        s.emit(Ev("group", W_loc(self.W, s, n), g=g, f=f, had=g in have))
        self.put(s, "groups", have + (g,))
        return [self.rsp(row, byte(const(0)))]


def W_loc(W, s, n):
    return W.writes(s)[n].loc


def boundaries(W, holder):
    """opening the port yields a connected protocol"""

    def connect(I, st, f, bound, cx, node):
        api = bound.get("api")
        if api is None:
            return None
        st, gw = W.one(W.call(st, W.glob("zigpy_cc.uart", "Gateway"), [api]), "Gateway()")
        st, _ = W.one(W.meth(st, gw, "connection_made", [W.transport]), "connection_made")
        holder["ncp"].gw = gw
        st.emit(Ev("connected", cx.loc(node), gw=gw))
        return [(st, gw)]

    W.I.run_boundary["zigpy_cc.uart.connect"] = connect


def fresh_app(W, cfg):
    """an application with a configuration, not yet started"""
    st = W.state()
    st, app = W.one(W.call(st, W.glob(MOD_APP, "ControllerApplication"), [sym("appcfg", "dict")]), "ControllerApplication()")
    chan = sym("cfg.channel", "byte")
    st.assume(ge0(add(chan, const(-11))), True)
    st.assume(ge0(sub(const(26), chan)), True)
    # the schema fills in every other setting
    more = {
        "channel": chan, "key_sequence_number": sym("cfg.keyseq", "byte"), "update_id": sym("cfg.updateid", "byte"), "tc_address": NONE,
        "tc_link_key": mk("eui", mkcat([byte(sym("cfg.tc%d" % i, "byte")) for i in range(16)])),
    }
    net = W.I.dict_(st, [(const(k), v) for k, v in list(cfg.items().items()) + list(more.items())])
    dev = W.I.dict_(st, [(const("path"), const("/dev/ttyACM0")), (const("baudrate"), const(115200)), (const("flow_control"), NONE)])
    c = W.I.dict_(st, [(const("device"), dev), (const("network"), net)])
    st.w(app).f["_config"] = c
    if W.I.obj(st, W.field(st, app, "devices", NONE)) is None:
        st.w(app).f["devices"] = W.I.dict_(st, [])
    return st, app


class ZigpyApp:
    """attributes of zigpy's base application"""

    def __init__(self, W, app):
        self.app = app

        def attr(I, st, b, name, cx, node):
            if b is app and name == "config":
                return [(st, st.get(app).f["_config"])]
            return None

        W.I.hooks["attr"] = attr


def start(W, product, cfg=None, auto=TRUE, nv=None, setup=None, again=None, nwkaddr=None, **kw):
    """-> ncp, app, [(state, result)] of one start-up, of a new application or `again` of one started before"""
    cfg = cfg or Config()
    W.I.hooks.pop("mcall", None)
    if again is None:
        st, app = fresh_app(W, cfg)
    else:
        st, app = again[0].fork(), again[1]
        st.events = None
        st.flags = {}
    if setup is not None:
        setup(st, app)
    ncp = Ncp(W, None, product, nv, **kw)
    if nwkaddr is not None:
        ncp.nwkaddr = nwkaddr
    ZigpyApp(W, app)
    boundaries(W, {"ncp": ncp})
    try:
        res = W.meth(st, app, "startup", [] if auto is None else [auto], aw=True)
    finally:
        W.I.run_boundary.pop("zigpy_cc.uart.connect", None)
    return ncp, app, res


def startup_world(W, product, auto):
    ncp, app, res = start(W, product, auto=auto)
    for s, r in res:
        yield s, r, app, ncp


# ------------------------------------------------------------- obligations
BUILTIN = ("builtins.KeyError", "builtins.StopIteration", "builtins.TypeError", "builtins.OverflowError", "builtins.ValueError",
           "builtins.AttributeError", "builtins.IndexError", "struct.error", "builtins.NameError", "builtins.RuntimeError")


def is_bug(W, s, r):
    return any(W.exc_is(s, r, q) for q in BUILTIN)


def cmds(s, *names):
    return [e for e in evs(s, "cmd") if not names or e.name in names]


def channels_given(W, cfg):
    """an empty channel list is no channel list"""
    I = W.I
    old = I.fresh_state

    def fresh():
        s = old()
        s.assume(eq0(strip(cfg.chan)), False)
        return s

    return old, fresh


def run(W, product, cfg=None, **kw):
    cfg = cfg or Config()
    old, fresh = channels_given(W, cfg)
    W.I.fresh_state = fresh
    try:
        return (cfg,) + start(W, product, cfg, **kw)
    finally:
        W.I.fresh_state = old


_conf = {}


def configured(W, product, cfg=None):
    """NV contents after a first start"""
    k = (product, id(cfg) if cfg else None)
    if k not in _conf:
        c, ncp, app, res = run(W, product, cfg)
        ok = [s for s, r in res if not isinstance(r, Raise)]
        if not ok:
            raise AnalysisError("no successful start-up on product %d" % product)
        _conf[k] = (c, ncp.nv(ok[0]))
    return _conf[k]


def scenarios(W, tier):
    """(label, product, kwargs) of the start-ups everything is judged on"""
    for p in (0, 1, 2):
        yield "first start, product %d" % p, p, {}
        yield "first start, events before replies, product %d" % p, p, {"early": True}
        yield "resumed start, product %d" % p, p, {"nv": "configured", "coord": True, "endpoints": tuple(ENDPOINTS), "green": True}
        yield "restart of a stopped stack, product %d" % p, p, {"nv": "configured", "coord": False, "endpoints": ()}
        yield "restart, events before replies, product %d" % p, p, {"nv": "configured", "coord": False, "endpoints": (), "early": True}
        yield "start without forming, product %d" % p, p, {"auto": FALSE}


def play(W, p, kw):
    kw = dict(kw)
    cfg = kw.pop("cfg", None)
    if kw.get("nv") == "configured":
        cfg, kw["nv"] = configured(W, p, cfg)
    return run(W, p, cfg, **kw)


def c09(rep):
    rep.explain = (
        "The whole start-up sequence and every adapter command the driver issues on its own (permit joining, LED, group"
        " membership) are interpreted against a model of the adapter that decodes the bytes written: each frame must be a"
        " command of the MT table with the table's type, its payload must consist of exactly the table's parameters, with"
        " length fields equal to the lengths of the buffers behind them, and no encoding step may raise."
    )
    import json
    import os

    W = World()
    gold = json.load(open(os.path.join(os.path.dirname(__file__), "..", "..", "golden", "mt_commands.json")))["commands"]
    used = {}
    for label, p, kw in scenarios(W, rep.tier):
        cfg, ncp, app, res = play(W, p, kw)
        if not res:
            rep.violation("start-up ends", label, APP + ".startup", "it waits for ever")
        for s, r in res:
            wellformed(rep, W, s, r, label, gold, used)
    from .conc import operations

    for name, args in (("permit_ncp", [sym("time", "byte")]),):
        st, app, api, gw, sem = W.app_world()
        st.assume(ge0(sub(const(254), args[0])), True)
        ncp = Ncp(W, gw, 1)
        for s, r in W.meth(st, app, name, args, aw=True):
            wellformed(rep, W, s, r, name, gold, used)
    for mode in range(5):
        for p in (0, 2):
            st, app, api, gw, sem = W.app_world()
            st.w(app).f["version"] = W.I.dict_(st, [(const("product"), const(p))])
            ncp = Ncp(W, gw, p)
            m = W.enumval("zigpy_cc.types", "LedMode", mode)
            for s, r in W.meth(st, app, "set_led", [m]):
                for s2, r2 in run_tasks(W, s):
                    wellformed(rep, W, s2, r2, "set_led %d product %d" % (mode, p), gold, used)
    call_sites(rep, W, used)


def run_tasks(W, st):
    """let the started tasks run to their end"""
    cur = [(st, NONE)]
    for e in [e for e in flat(st.trace()) if e.kind == "spawn"]:
        nxt = []
        for s, r in cur:
            for s2, r2 in W.I.await_(s, e.task, W.cx, _node()):
                nxt.append((s2, r2 if isinstance(r2, Raise) else r))
        cur = nxt
    return cur


def _node():
    from ..scen import _NODE

    return _NODE


def wellformed(rep, W, s, r, label, gold, used):
    if isinstance(r, Raise) and is_bug(W, s, r):
        rep.violation("commands can be encoded", label, raise_where(W, s, r), "raises %s" % W.exc(s, r))
        return
    for e in evs(s, "task-raise"):
        if any(q.rsplit(".", 1)[-1] in e.exc for q in BUILTIN):
            rep.violation("commands can be encoded", label, raise_where(W, s, e.raise_), "a background command raises %s" % e.exc)
            return
    for e in evs(s, "caught"):
        x = W.I.obj(s, e.exc)
        if x is not None and "uart" not in e.where() and "api.py" not in e.where() and any(W.exc_is(s, Raise(e.exc), q) for q in BUILTIN):
            rep.violation("commands can be encoded", label, e.where(), "%s is raised and swallowed" % W.exc(s, Raise(e.exc)))
            return
    for e in evs(s, "bad-frame"):
        rep.violation("frames are MT commands", label, W.writes(s)[e.n].where(), "a frame that is no MT command is written")
        return
    if isinstance(r, Raise):
        # an error reported by the adapter model means a command was wrong
        rep.violation("commands are accepted", label, raise_where(W, s, r), "start-up fails with %s" % W.exc(s, r))
        return
    for e in evs(s, "malformed"):
        f = e.f
        rep.violation("lengths fit", "%s, %s" % (label, e.name), e.where(), "the payload does not match its parameters: %s" % ("parameters run past the payload" if f is None else "%d of %d bytes are described" % f["$len"]))
        return
    for e in cmds(s):
        used.setdefault((e.ss, e.name), e)
        g = next((x for x in gold.get(str(e.ss), []) if x["ID"] == e.row["ID"]), None) if isinstance(gold, dict) else None
        if g is not None and g.get("type") != e.row["wire_type"]:
            rep.violation("frames are MT commands", "%s %s" % (label, e.name), e.where(), "sent as type %d, the MT command has type %d" % (e.row["wire_type"], g["type"]))
            return
        if e.row["wire_type"] != e.row["type"]:
            rep.violation("frames are MT commands", "%s %s" % (label, e.name), e.where(), "sent as type %d, the command has type %d" % (e.row["wire_type"], e.row["type"]))
            return
        fcs(rep, W, s, e, label)
    rep.ok("start-up commands", label)


def fcs(rep, W, s, e, label):
    b = e.row["bytes"]
    n = const_len(b)
    if n is None:
        return
    want = mkxor([bidx(b, const(i)) for i in range(1, n - 1)])
    if bidx(b, const(n - 1)) is not want and W.eq(s, bidx(b, const(n - 1)), want) is False:
        rep.violation("frames are MT commands", "%s %s" % (label, e.name), e.where(), "wrong check byte")


def call_sites(rep, W, used):
    """every request the sources name has been exercised"""
    import ast

    names = {}
    for mod in W.I.prog.modules.values():
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "request" and len(n.args) >= 2:
                c = n.args[1]
                if isinstance(c, ast.Constant) and isinstance(c.value, str):
                    names.setdefault(c.value, "%s:%d" % (mod.path, n.lineno))
    got = {n for _, n in used}
    for k, loc in sorted(names.items()):
        if k in got:
            rep.ok("issued commands are covered", k)
        else:
            cands = [ss for ss, rows in W.definition().items() if any(r["name"] == k for r in rows)]
            if not cands:
                rep.violation("commands exist", k, loc, "no such command in the table")
            else:
                rep.unknown("issued commands are covered", k, "the call at %s is not reached" % loc)


# ------------------------------------------------------------------- C20
def c20(rep):
    rep.explain = (
        "Every non-volatile item the start-up sequence writes, creates or reads is taken from the bytes on the wire: known"
        " id, offset 0, the item's own size, a value of exactly that many bytes. Every item factory is also interpreted on"
        " its own with unknown arguments."
    )
    W = World()
    seen = set()
    for label, p, kw in scenarios(W, rep.tier):
        cfg, ncp, app, res = play(W, p, kw)
        for s, r in res:
            for e in cmds(s, "osalNvWrite", "osalNvRead", "osalNvItemInit", "writeConfiguration", "readConfiguration"):
                f = e.f
                if f is None:
                    rep.violation("item fits its length field", "%s, %s" % (label, e.name), e.where(), "the value is shorter than its length field says")
                    continue
                k = "configid" if "configid" in f else "id"
                i = strip(f[k])
                i = int(numval(i)) if is_num(i) else None
                subj = "%s %s, %s" % (e.name, "%#06x" % i if i is not None else show(f[k]), label)
                if i not in NV:
                    rep.violation("item is known", subj, e.where(), "no known NV item has this id")
                    continue
                seen.add((e.name, i))
                if f["$len"][0] != f["$len"][1]:
                    rep.violation("item fits its length field", subj, e.where(), "%d bytes follow, the length fields describe %d" % (f["$len"][1], f["$len"][0]))
                    continue
                if "offset" in f and W.eq(s, f["offset"], const(0)) is not True:
                    rep.violation("item is accessed whole", subj, e.where(), "offset %s" % show(f["offset"]))
                    continue
                if e.name in ("osalNvRead", "readConfiguration"):
                    rep.ok("item is accessed whole", subj)
                    continue
                size = NV[i][1]
                for ln in ("len", "initlen"):
                    if ln in f and W.eq(s, f[ln], const(size)) is not True:
                        rep.violation("item has its size", subj, e.where(), "%s is %s, the item %s has %d bytes" % (ln, show(f[ln]), NV[i][0], size))
                        break
                else:
                    v = f.get("value", f.get("initvalue"))
                    n = const_len(v)
                    if n is None:
                        rep.unknown("item has its size", subj, "unknown length")
                    else:
                        rep.expect(n == size, "item has its size", subj, e.where(), "%d bytes are written to %s, which has %d" % (n, NV[i][0], size))
    rep.expect(len(seen) >= 15, "items covered", "%d" % len(seen), "zigpy_cc/zigbee/start_znp.py", "only %d item accesses were seen" % len(seen))


# ------------------------------------------------------------------- C21
SETTINGS = {
    0: (0x0087, 0x0063, 0x008F, 0x0084, 0x0083, 0x002D, 0x0062, 0x0101),
    1: (0x0087, 0x0063, 0x008F, 0x0084, 0x0083, 0x002D, 0x0062),
    2: (0x0087, 0x0063, 0x008F, 0x0084, 0x0083, 0x002D, 0x0062),
}


def c21(rep):
    rep.explain = (
        "The first start-up is interpreted once per command it issues, with that command rejected and with that command"
        " unanswered (a crash after it leaves the same adapter state): the marker that says the adapter is configured must"
        " not be written afterwards and start-up must not report success. On the undisturbed path the marker is the last"
        " setting written, after the clearing reset, all settings and, on Z-Stack 3, the forming of the network; a marker"
        " found missing always leads to the whole initialisation."
    )
    W = World()
    for p in (0, 1, 2):
        cfg, ncp, app, res = run(W, p)
        base = None
        for s, r in res:
            if isinstance(r, Raise):
                rep.violation("initialisation completes", "product %d" % p, raise_where(W, s, r), "fails with %s" % W.exc(s, r))
                continue
            base = s
            order_ok(rep, W, s, p)
        if base is None:
            continue
        seq = cmds(base)
        # positions that belong to the initialisation
        first = next((i for i, e in enumerate(seq) if e.name == "resetReq"), None)
        last = next((i for i, e in enumerate(seq) if is_marker(e, p)), None)
        if first is None or last is None:
            rep.violation("initialisation completes", "product %d" % p, APP + ".startup", "a first start writes no configured marker")
            continue
        for k in range(len(seq)):
            for how in ("silent", "reject", "no event"):
                if seq[k].name == "ledControl":
                    continue
                if how == "no event" and (seq[k].name not in EVENTS or (seq[k].name == "bdbStartCommissioning" and numval(strip(seq[k].f["mode"])) != 4)):
                    continue
                if how == "reject" and not any(n == "status" for n, _ in (seq[k].row.get("response") or ())):
                    continue
                if rep.tier == "quick" and seq[k].name == "register" and k % 4:
                    continue
                c2, ncp2, app2, res2 = run(W, p, fail=lambda s, e, k=k, how=how: how if e.n == k else None)
                subj = "product %d, %s %s (command %d)" % (p, seq[k].name, how, k)
                if not res2:
                    rep.violation("a failure ends start-up", subj, seq[k].where(), "start-up hangs")
                for s, r in res2:
                    inj = [e for e in evs(s, "injected")]
                    if not inj:
                        rep.unknown("a failure ends start-up", subj, "the command is not reached")
                        continue
                    after = False
                    bad = None
                    for e in flat(s.trace()):
                        if e.kind == "injected":
                            after = True
                        elif after and e.kind == "cmd" and is_marker(e, p) and first <= k < last:
                            bad = e
                    if bad is not None:
                        rep.violation("marker only after success", subj, bad.where(), "the adapter is marked configured although this step failed")
                        continue
                    if first <= k < last:
                        rep.ok("marker only after success", subj)
                    if isinstance(r, Raise):
                        if is_bug(W, s, r):
                            rep.violation("a failure ends start-up", subj, raise_where(W, s, r), "it is reported as %s" % W.exc(s, r))
                        else:
                            rep.ok("a failure ends start-up", subj)
                    elif tolerated(seq[k], k, seq, how):
                        rep.ok("a failure ends start-up", subj + " (tolerated)")
                    else:
                        rep.violation("a failure ends start-up", subj, seq[k].where(), "start-up reports success although this step failed")
        cut_off(rep, W, p)
        # a missing marker: everything else matching
        c3, nv = configured(W, p)
        nv2 = {k: v for k, v in nv.items() if k != MARKER[p]}
        for mk_, nvx in (("absent", nv2), ("cleared", dict(nv2, **{}) | {MARKER[p]: const(b"\0")})):
            c4, ncp4, app4, res4 = run(W, p, c3, nv=nvx)
            for s, r in res4:
                if isinstance(r, Raise):
                    rep.violation("initialisation completes", "product %d, marker %s" % (p, mk_), raise_where(W, s, r), "fails with %s" % W.exc(s, r))
                    continue
                order_ok(rep, W, s, p, "marker %s" % mk_)


def cut_off(rep, W, p):
    """start-up cancelled at every await: it ends there, and nothing more is sent"""
    W.I.cancel_points = 1
    try:
        cfg, ncp, app, res = run(W, p)
    finally:
        W.I.cancel_points = 0
    seen = 0
    for s, r in res:
        c = next((i for i, e in enumerate(flat(s.trace())) if e.kind == "cancelled"), None)
        if c is None:
            continue
        seen += 1
        ev = list(flat(s.trace()))
        subj = "product %d, cancelled at %s, %d commands sent" % (p, ev[c].where(), len([e for e in ev[:c] if e.kind == "cmd"]))
        m = [e for e in ev[c:] if e.kind == "mcall" and e.obj is W.transport and e.name == "write"]
        if m:
            rep.violation("a cut-off start-up stops", subj, m[0].where(), "commands are sent after start-up was cancelled")
        else:
            rep.expect(isinstance(r, Raise), "a cut-off start-up stops", subj, ev[c].where(), "start-up reports success although it was cancelled")
    if not seen:
        rep.unknown("a cut-off start-up stops", "product %d" % p, "no await found")


def is_marker(e, p):
    return e.name in ("osalNvWrite",) and e.f is not None and is_num(strip(e.f["id"])) and int(numval(strip(e.f["id"]))) == MARKER[p]


def tolerated(e, k, seq, how):
    """failures start-up is free to survive: probing the marker, and answers that mean 'no'"""
    if e.name == "osalNvRead" and k < 6 and how == "reject":
        return True
    return e.name in ("extFindGroup",) and how == "reject" and False


def order_ok(rep, W, s, p, tag="first start"):
    subj = "product %d, %s" % (p, tag)
    seq = [e for e in flat(s.trace()) if e.kind in ("cmd", "formed", "reset")]
    pos = {}
    for i, e in enumerate(seq):
        if e.kind == "cmd" and e.name in ("osalNvWrite", "writeConfiguration") and e.f is not None:
            k = "configid" if "configid" in e.f else "id"
            x = strip(e.f[k])
            if is_num(x):
                pos.setdefault(int(numval(x)), i)
    m = next((i for i, e in enumerate(seq) if e.kind == "cmd" and is_marker(e, p)), None)
    if m is None:
        rep.violation("marker comes last", subj, APP + ".startup", "the adapter is never marked configured")
        return
    for i in SETTINGS[p]:
        if i not in pos:
            rep.violation("all settings are written", subj, "zigpy_cc/zigbee/start_znp.py", "%s is never written" % NV[i][0])
            return
        if pos[i] > m:
            rep.violation("marker comes last", subj, seq[m].where(), "the adapter is marked configured before %s is written" % NV[i][0])
            return
    resets = [i for i, e in enumerate(seq) if e.kind == "reset"]
    if 0x0003 in pos:
        cl = next((i for i in resets if i > pos[0x0003]), None)
        if cl is None:
            rep.violation("old network is cleared", subj, seq[pos[0x0003]].where(), "no reset follows the request to clear")
            return
        for i in SETTINGS[p]:
            if pos[i] < cl and i != 0x0101:
                rep.violation("old network is cleared", subj, seq[pos[i]].where(), "%s is written before the clearing reset, which discards it" % NV[i][0])
                return
        rep.ok("old network is cleared", subj)
    else:
        rep.violation("old network is cleared", subj, "zigpy_cc/zigbee/start_znp.py", "the old network is not cleared")
    if p != 0:
        fm = [i for i, e in enumerate(seq) if e.kind == "formed"]
        rep.expect(bool(fm) and fm[0] < m and all(pos[i] < fm[0] for i in SETTINGS[p]), "network is formed with the settings", subj,
                   seq[fm[0]].where() if fm else APP, "the network is formed %s" % ("before all settings are written or after the marker" if fm else "never"))
    rep.ok("marker comes last", subj)
    rep.ok("all settings are written", subj)
    v = Ncp.nv
    final = s.flags.get("ncp:nv") or {}
    rep.expect(W.eq(s, final.get(MARKER[p], NONE), const(b"\x55")) is True, "marker value", subj, seq[m].where(), "the marker holds %s" % show(final.get(MARKER[p], NONE)))


# ------------------------------------------------------------------- C22
def c22(rep):
    rep.explain = (
        "The network settings are unknown values (any key, PAN id, extended PAN id, channel mask; each also absent); after"
        " the interpreted start-up the model adapter's NV items must hold exactly these, byte for byte in the adapter's"
        " layout, with the documented default only for an absent one, and the network must be formed with that channel mask."
    )
    W = World()
    names = ("key", "pan_id", "extended_pan_id", "channels")
    import itertools

    if rep.tier == "quick":
        sets = [()] + [(n,) for n in names] + [names]
    else:
        sets = [c for k in range(5) for c in itertools.combinations(names, k)]
    for p in (0, 1, 2):
        for absent in sets + ["pan zero"]:
            cfg = Config(() if absent == "pan zero" else absent, pan_zero=absent == "pan zero")
            c, ncp, app, res = run(W, p, cfg)
            subj = "product %d, %s" % (p, "PAN id 0" if absent == "pan zero" else "all given" if not absent else "without " + ", ".join(absent))
            for s, r in res:
                if isinstance(r, Raise):
                    rep.violation("settings reach the adapter", subj, raise_where(W, s, r), "start-up fails with %s" % W.exc(s, r))
                    continue
                nv = ncp.nv(s)
                want = dict(cfg.wire())
                want.update({0x0063: const(b"\0"), 0x0087: const(b"\0"), 0x008F: const(b"\x01"), 0x0003: const(b"\0")})
                if p == 0:
                    want[0x0101] = const(TCLK)
                for i, w in sorted(want.items()):
                    loc = next((e.where() for e in evs(s, "nv") if e.id == i), "zigpy_cc/zigbee/start_znp.py")
                    judge(rep, W, s, "settings reach the adapter", "%s: %s" % (subj, NV[i][0]), loc, nv.get(i, NONE), w)
                if p == 0:
                    tr = [e for e in flat(s.trace()) if e.kind in ("nv", "formed")]
                    at = max([k for k, e in enumerate(tr) if e.kind == "formed"], default=-1)
                    again = [e for e in tr[at + 1:] if e.kind == "nv" and e.id == 0x0084]
                    rep.expect(at >= 0 and bool(again), "a fresh Z-Stack 1.2 adapter keeps its channels", subj, tr[at].where() if at >= 0 else "zigpy_cc/zigbee/start_znp.py", "the channel mask is not written again after the network was started")
                if p != 0:
                    cm = dict((m, b) for m, b, _ in s.flags.get("ncp:commissioned", ()))
                    if 4 not in cm:
                        rep.violation("network is formed on the channels", subj, "zigpy_cc/zigbee/start_znp.py", "network formation is never started")
                        continue
                    ch = dict(cm[4])
                    judge(rep, W, s, "network is formed on the channels", subj, "zigpy_cc/zigbee/start_znp.py", le(ch.get(1, NONE), 4) if 1 in ch else NONE, want[0x0084])
                    judge(rep, W, s, "network is formed on the channels", subj + " (secondary)", "zigpy_cc/zigbee/start_znp.py", ch.get(0, NONE), const(0))


# ------------------------------------------------------------------- C23
def c23(rep):
    rep.explain = (
        "Start-up is interpreted with the adapter's event (network state, endpoint list, reset indication) arriving in the"
        " same read as the command's reply, right behind it and right in front of it: no wait may miss its event, time out"
        " or hang, and other states reported on the way must not end the wait."
    )
    W = World()
    for label, p, kw in scenarios(W, rep.tier):
        cfg, ncp, app, res = play(W, p, kw)
        if not res:
            rep.violation("no event is missed", label, APP + ".startup", "start-up hangs")
        for s, r in res:
            lost = [e for e in evs(s, "timeout")] + evs(s, "hang")
            if lost:
                rep.violation("no event is missed", label, lost[0].where(), "the wait ends by its timeout although the adapter sent the event")
            elif isinstance(r, Raise):
                rep.violation("no event is missed", label, raise_where(W, s, r), "start-up fails with %s" % W.exc(s, r))
            elif evs(s, "task-raise"):
                rep.violation("no event is missed", label, evs(s, "task-raise")[0].where(), "a background command fails with %s" % evs(s, "task-raise")[0].exc)
            else:
                rep.ok("no event is missed", label)
    # whatever state but a running coordinator's the adapter is in, it is started
    for p in (0, 1, 2):
        cfg0, nv = configured(W, p)
        Ncp.any_state = True
        try:
            cfg, ncp, app, res = run(W, p, cfg0, nv=nv, coord=False)
        finally:
            Ncp.any_state = False
        subj = "product %d, adapter in any other state" % p
        if not res:
            rep.violation("an adapter that does not run is started", subj, APP + ".startup", "start-up hangs")
        for s, r in res:
            if isinstance(r, Raise):
                rep.violation("an adapter that does not run is started", subj, raise_where(W, s, r), "start-up fails with %s" % W.exc(s, r))
                continue
            rep.expect(len(evs(s, "formed")) == 1, "an adapter that does not run is started", subj, APP + ".startup", "start-up succeeds on an adapter in state %s without starting it" % (s.interval(sym("devstate", "byte")),))
    # another state does not count as started
    for p in (0, 1, 2):
        for st_ in (1, 7, 8, 10):
            for which in ("first start", "restart"):
                kw = {} if which == "first start" else {"nv": "configured", "coord": False}
                cfg0 = None
                if kw:
                    cfg0, nv = configured(W, p)
                    kw["nv"] = nv
                old = Ncp.state9
                Ncp.state9 = lambda self, st_=st_: [self.ind(5, "stateChangeInd", byte(const(st_)))]
                try:
                    cfg, ncp, app, res = run(W, p, cfg0, **kw)
                finally:
                    Ncp.state9 = old
                subj = "state %d only, product %d, %s" % (st_, p, which)
                for s, r in res:
                    if not evs(s, "formed"):
                        rep.unknown("only state 9 means started", subj, "the network is never started")
                    else:
                        rep.expect(isinstance(r, Raise), "only state 9 means started", subj, evs(s, "formed")[0].where(), "start-up reports success although the coordinator did not start")


# ------------------------------------------------------------------- C27
def c27(rep):
    rep.explain = (
        "Start-up is interpreted against adapters that already have none, all, all but one, only one, or foreign endpoints:"
        " exactly the missing application endpoints are registered, each once, with its profile, device id and cluster"
        " lists, and the green power group is joined exactly when it was not."
    )
    W = World()
    all_ = tuple(ENDPOINTS)
    sets = [("none", ()), ("all", all_), ("all, shuffled", all_[::-1]), ("foreign", (7, 9, 200))]
    sets += [("all but %d" % e, tuple(x for x in all_ if x != e)) for e in all_]
    if rep.tier != "quick":
        sets += [("only %d" % e, (e,)) for e in all_]
    for p in (0, 1, 2) if rep.tier != "quick" else (1,):
        for label, have in sets:
            for green in (False, True) if label in ("none", "all") else (False,):
                cfg0, nv = configured(W, p)
                cfg, ncp, app, res = run(W, p, cfg0, nv=nv, coord=True, endpoints=have, green=green)
                subj = "%s present, product %d%s" % (label, p, ", in group" if green else "")
                first = [x for x in res if not isinstance(x[1], Raise)][:1]
                res = list(res)
                if label in ("none", "all", "all but 8", "foreign"):
                    # the same program once more, on an adapter in that state again
                    for s0, _ in first:
                        res += run(W, p, cfg, nv=nv, coord=True, endpoints=have, green=green, again=(s0, app))[3]
                for s, r in res:
                    if isinstance(r, Raise):
                        rep.violation("endpoints are registered", subj, raise_where(W, s, r), "start-up fails with %s" % W.exc(s, r))
                        continue
                    regs = evs(s, "register")
                    got = [e.ep for e in regs]
                    missing = [e for e in all_ if e not in have]
                    if sorted(map(str, got)) != sorted(map(str, missing)):
                        extra = [e for e in got if e not in missing] or [e for e in set(got) if got.count(e) > 1]
                        lost = [e for e in missing if e not in got]
                        rep.violation("endpoints are registered", subj, regs[0].where() if regs else "zigpy_cc/zigbee/start_znp.py",
                                      "registered needlessly: %s, not registered: %s" % (extra, lost))
                        continue
                    rep.ok("endpoints are registered", subj)
                    for e in regs:
                        prof, devid, ins, outs = ENDPOINTS[e.ep]
                        want = {
                            "appprofid": const(prof), "appdeviceid": const(devid), "appdevver": const(0), "latencyreq": const(0),
                            "appnuminclusters": const(len(ins)), "appnumoutclusters": const(len(outs)),
                            "appinclusterlist": mkcat([le(const(c), 2) for c in ins]) if ins else const(b""),
                            "appoutclusterlist": mkcat([le(const(c), 2) for c in outs]) if outs else const(b""),
                        }
                        for k, w in want.items():
                            if k not in e.f:
                                rep.violation("endpoint description", "endpoint %d" % e.ep, e.where(), "no %s is sent" % k)
                                break
                            if W.eq(s, e.f[k], w) is not True:
                                rep.violation("endpoint description", "endpoint %d, %s" % (e.ep, subj), e.where(), "%s is %s, expected %s" % (k, show(e.f[k]), show(w)))
                                break
                        else:
                            rep.ok("endpoint description", "endpoint %d, %s" % (e.ep, subj))
                    gr = evs(s, "group")
                    if green:
                        rep.expect(not gr, "green power group", subj, gr[0].where() if gr else "", "the group is added again")
                    else:
                        rep.expect(len(gr) == 1 and gr[0].g == GREEN, "green power group", subj, gr[0].where() if gr else "zigpy_cc/zigbee/start_znp.py", "groups added: %s" % [e.g for e in gr])


# ------------------------------------------------------------------- C30
def c30(rep):
    rep.explain = (
        "The NV contents left by a first start-up are handed to a second one: with the same settings nothing may be"
        " written, reset or formed again; with any single byte of one setting changed the whole initialisation must run and"
        " leave the new settings in the adapter."
    )
    W = World()
    for p in (0, 1, 2):
        cfg0, nv = configured(W, p)
        for coord in (True, False):
            cfg, ncp, app, res = run(W, p, cfg0, nv=nv, coord=coord, endpoints=tuple(ENDPOINTS), green=True)
            subj = "same settings, product %d, %s" % (p, "running" if coord else "stopped")
            for s, r in res:
                if s.facts.get(None):
                    continue
                bad = evs(s, "nv") + evs(s, "nvinit") + evs(s, "reset") + [e for e in cmds(s, "bdbStartCommissioning", "bdbSetChannel")]
                if isinstance(r, Raise):
                    rep.violation("a configured adapter is left alone", subj, raise_where(W, s, r), "start-up fails with %s" % W.exc(s, r))
                else:
                    rep.expect(not bad, "a configured adapter is left alone", subj, bad[0].where() if bad else "", "a matching adapter is initialised again (%s)" % (bad[0].get("name") or bad[0].kind if bad else ""))
                st9 = evs(s, "formed")
                rep.expect(bool(st9) == (not coord), "a stopped coordinator is started", subj, st9[0].where() if st9 else APP + ".startup", "started: %s" % bool(st9))
        for item, size in (("key", 16), ("extended_pan_id", 8), ("pan_id", 2), ("channels", 4)):
            for j in range(size) if rep.tier != "quick" or p == 1 else sorted({0, size - 1}):
                changed(rep, W, p, item, j)
                stored_other(rep, W, p, item, j)
        unmarked(rep, W, p)


def unmarked(rep, W, p):
    """a marker with any other content does not vouch for the settings"""
    cfg0, nv = configured(W, p)
    m = [i for i in (0x0060, 0x0F00) if i in nv]
    if len(m) != 1:
        rep.unknown("only the marker vouches", "product %d" % p, "markers stored: %s" % m)
        return
    x = sym("marker", "byte")
    nv = dict(nv)
    nv[m[0]] = byte(x)
    old = W.I.fresh_state

    def fresh():
        s = old()
        s.assume(eq0(sub(x, const(0x55))), False)
        return s

    W.I.fresh_state = fresh
    try:
        cfg, ncp, app, res = run(W, p, cfg0, nv=nv, coord=True, endpoints=tuple(ENDPOINTS), green=True)
    finally:
        W.I.fresh_state = old
    for s, r in res:
        if isinstance(r, Raise):
            continue
        bad = [i for i, _ in cfg.wire().items() if not any(e.id == i for e in evs(s, "nv"))]
        rep.expect(not bad, "only the marker vouches", "product %d, marker with another value" % p, "zigpy_cc/zigbee/start_znp.py", "the adapter is taken for configured: %s" % ", ".join(NV[i][0] for i in bad if i in NV))


def concrete(item=None, j=None):
    c = Config()
    key, pan, ext, chan = bytes(range(0x40, 0x50)), 0x1A2B, bytes(range(0x80, 0x88)), 0x00018800

    def flip(b):
        b = bytearray(b)
        b[j] ^= 0x11
        return bytes(b)

    if item == "key":
        key = flip(key)
    elif item == "extended_pan_id":
        ext = flip(ext)
    elif item == "pan_id":
        pan = int.from_bytes(flip(pan.to_bytes(2, "little")), "little")
    elif item == "channels":
        chan = int.from_bytes(flip(chan.to_bytes(4, "little")), "little")
    c.key, c.ext = mk("eui", const(key)), mk("eui", const(ext))
    c.pan = mk("cast", "zigpy.types.PanId", const(pan))
    c.chan = mk("cast", "zigpy.types.Channels", const(chan))
    return c


_base = None


def changed(rep, W, p, item, j):
    global _base
    if _base is None:
        _base = concrete()
    _, nv = configured(W, p, _base)
    cfg1 = concrete(item, j)
    cfg, ncp, app, res = run(W, p, cfg1, nv=nv, coord=True, endpoints=tuple(ENDPOINTS), green=True)
    subj = "%s byte %d changed, product %d" % (item, j, p)
    for s, r in res:
        if isinstance(r, Raise):
            rep.violation("changed settings are applied", subj, raise_where(W, s, r), "start-up fails with %s" % W.exc(s, r))
            continue
        got = ncp.nv(s)
        bad = [i for i, w in cfg1.wire().items() if W.eq(s, got.get(i, NONE), w) is not True]
        rep.expect(not bad, "changed settings are applied", subj, "zigpy_cc/zigbee/start_znp.py", "the adapter keeps %s" % ", ".join("%s %s" % (NV[i][0], show(got.get(i, NONE))) for i in bad), key="changed/%s/product_%d" % (item, p))
        if not bad:
            order_ok(rep, W, s, p, "%s byte %d changed" % (item, j))


ITEM_IDS = {"key": 0x0062, "pan_id": 0x0083, "extended_pan_id": 0x002D, "channels": 0x0084}


def stored_other(rep, W, p, item, j):
    """whatever the settings are: a stored byte that differs from them is corrected"""
    cfg0, nv = configured(W, p)
    i = ITEM_IDS[item]
    if i not in nv:
        return
    v = strip(nv[i])
    size = NV[i][1]
    x = sym("stored", "byte")
    parts = [bidx(v, const(k)) for k in range(size)]
    if any(b is None for b in parts):
        rep.unknown("changed settings are applied", "stored %s byte %d, product %d" % (item, j, p), "the stored bytes are not known")
        return
    was = parts[j]
    parts[j] = x
    nv = dict(nv)
    nv[i] = mkcat([byte(b) for b in parts])
    old = W.I.fresh_state

    def fresh():
        s = old()
        s.assume(eq0(sub(x, was)), False)
        return s

    W.I.fresh_state = fresh
    try:
        cfg, ncp, app, res = run(W, p, cfg0, nv=nv, coord=True, endpoints=tuple(ENDPOINTS), green=True)
    finally:
        W.I.fresh_state = old
    subj = "stored %s byte %d differs, product %d" % (item, j, p)
    for s, r in res:
        if isinstance(r, Raise):
            rep.violation("changed settings are applied", subj, raise_where(W, s, r), "start-up fails with %s" % W.exc(s, r))
            continue
        if p != 0 and item in ("pan_id",) and W.eq(s, nv[i], const(b"\xff\xff")) is True:
            continue
        if p != 0 and item == "extended_pan_id" and W.eq(s, nv[0x0083], const(b"\xff\xff")) is True:
            continue
        wrote = evs(s, "nv")
        bad = [k for k in ITEM_IDS.values() if not any(e.id == k for e in wrote)]
        rep.expect(not bad, "changed settings are applied", subj, "zigpy_cc/zigbee/start_znp.py", "the adapter is taken for matching: %s is not written" % ", ".join(NV[k][0] for k in bad), key="changed/%s/product_%d" % (item, p))


# ---------------------------------------------------- waits of start-up (C15)
def boot_waits(rep, W, finite):
    for label, p, kw in scenarios(W, rep.tier):
        cfg, ncp, app, res = play(W, p, kw)
        for s, r in res:
            finite(rep, W, s, label)
    # a silent adapter at every stage
    for p in (0, 1, 2):
        cfg, ncp, app, res = run(W, p)
        ok = [s for s, r in res if not isinstance(r, Raise)]
        if not ok:
            continue
        seq = cmds(ok[0])
        for k in range(len(seq)):
            if seq[k].name in ("ledControl",) or (rep.tier == "quick" and (p == 2 or (seq[k].name in ("register", "osalNvWrite") and k % 3))):
                continue
            c2, n2, a2, res2 = run(W, p, fail=lambda s, e, k=k: "silent" if e.n == k else None)
            subj = "product %d, no answer to %s (command %d)" % (p, seq[k].name, k)
            hang = [e for s, r in res2 for e in evs(s, "hang")]
            if not res2 or hang:
                rep.violation("waits are bounded", subj, hang[0].where() if hang else seq[k].where(), "start-up waits for ever")
            else:
                rep.ok("silence is reported", subj)
