"""Life of the connection and application services: C24, C25, C26, C28, C29, C31, C32."""
from ..load import AnalysisError
from ..world import *
from .recv import APP, API, Net, deliveries, evs, feed
from .send import byte, le, syms
from .start import Config, Ncp, ZigpyApp, cmds, fresh_app, run, run_tasks, channels_given
from .wire import raise_where, where

UART = "zigpy_cc.uart"


# --------------------------------------------------------------------- tools
def pending(W, s):
    """tasks started and neither finished nor cancelled"""
    return [e for e in evs(s, "spawn") if s.get(e.task).f.get("$state") == "pending"]


def is_close(W, e):
    return e.kind == "mcall" and e.obj is W.transport and e.name in ("close", "abort")


def port_events(W, s, since=None):
    """the opens, successful opens, closes and cancellations of a path, in order"""
    out = []
    for e in flat(s.trace() if since is None else W.I.since(s, since)):
        if e.kind in ("open_port", "opened", "cancelled"):
            out.append((e.kind, e))
        elif is_close(W, e):
            out.append(("close", e))
    return out


def left_open(evts):
    n = None
    for k, e in evts:
        if k == "opened":
            n = e
        elif k == "close":
            n = None
    return n


def device_config(W, st, path="/dev/ttyACM0", baud=None, flow=NONE, keys=("path", "baudrate", "flow_control")):
    vals = {"path": const(path), "baudrate": baud if baud is not None else const(115200), "flow_control": flow}
    return W.I.dict_(st, [(const(k), vals[k]) for k in keys])


def connected_app(W, product=0):
    """an application that was started and now runs on an open port"""
    cfg = Config()
    st, app = fresh_app(W, cfg)
    st.assume(eq0(strip(cfg.chan)), False)
    ZigpyApp(W, app)
    st, api, gw = W.api_world(st, app)
    st.w(app).f["_api"] = api
    st.flags["gw"] = gw
    return st, app, api, gw


def lived(W):
    """an application that was started, lost its port and has reconnected to an adapter of any generation"""
    I = W.I
    hooks, bounds = dict(I.hooks), dict(I.run_boundary)
    try:
        for p in (0,):
            app, n, out = start_reconnect(W, p)
            for s, r, task in out:
                api = W.field(s, app, "_api")
                ob = I.obj(s, api) if api is not None else None
                if isinstance(r, Raise) or ob is None or I.obj(s, ob.f.get("_uart")) is None:
                    continue
                s = s.fork()
                s.events = None
                s.flags = dict(W.state().flags)
                if s.get(task).f.get("$state") == "pending":
                    s.w(task).f["$state"] = "done"
                    s.w(task).f["$result"] = NONE
                # of any generation
                v = sym("product", "byte")
                s.assume(ge0(sub(const(2), v)), True)
                for i in list(s.heap):
                    o = s.heap[i]
                    if o.kind == "dict" and any(k is const("product") for k, _ in o.f.get("items") or ()):
                        s.w(i).f["items"] = tuple((k, v if k is const("product") else x) for k, x in o.f["items"])
                return s, app
    finally:
        I.hooks.clear()
        I.hooks.update(hooks)
        I.run_boundary.clear()
        I.run_boundary.update(bounds)


def close_state(W, s, app):
    """shut down and tell whether the port last opened was closed"""
    return [(s2, r) for s2, r in W.meth(s, app, "shutdown", [], aw=True)]


def ncp(W, product=0, **kw):
    n = Ncp(W, None, product, None, **kw)
    return n


EXC = sym("loss", "obj")


# ------------------------------------------------------------------------ C24
def c24(rep):
    rep.explain = (
        "The loss callback of the serial protocol is interpreted in every state of the application (connected, losing the"
        " port twice, reconnecting, closed, shut down, no application yet), the reconnecting task it starts is interpreted"
        " with ports that fail to open and adapters that do not answer, and cancellation is injected at every await of it."
        " A loss starts exactly one task, the task goes on until a start-up succeeds, never opens a port before the one it"
        " opened earlier is closed, and after shutdown or close nothing is opened and everything open is closed."
    )
    W = World()
    I = W.I
    I.hooks["unroll_while"] = 12
    loss(rep, W)
    reconnect(rep, W)
    for_ever(rep, W)
    lost_again(rep, W)
    cancelled(rep, W)
    shutdown(rep, W)
    connecting(rep, W)


def loss(rep, W):
    for exc, label in ((NONE, "end of file"), (EXC, "error")):
        st, app, api, gw = connected_app(W)
        for s, r in W.meth(st, gw, "connection_lost", [exc]):
            subj = "first loss (%s)" % label
            if isinstance(r, Raise):
                rep.violation("a loss starts reconnecting", subj, raise_where(W, s, r), "raises %s" % W.exc(s, r))
                continue
            t = pending(W, s)
            rep.expect(len(t) == 1, "a loss starts reconnecting", subj, t[0].where() if t else APP + ".connection_lost", "%d reconnecting tasks are started" % len(t))
            # again, from a new connection, while the task still runs
            s = s.fork()
            s2, gw2 = W.one(W.call(s, W.glob(UART, "Gateway"), [api]), "Gateway()")
            s2, _ = W.one(W.meth(s2, gw2, "connection_made", [W.transport]))
            for s3, r3 in W.meth(s2, gw2, "connection_lost", [exc]):
                subj = "second loss (%s)" % label
                if isinstance(r3, Raise):
                    rep.violation("one reconnecting task", subj, raise_where(W, s3, r3), "raises %s" % W.exc(s3, r3))
                    continue
                t3 = pending(W, s3)
                rep.expect(len(t3) == 1, "one reconnecting task", subj, t3[-1].where() if t3 else APP + ".connection_lost", "%d reconnecting tasks run at once" % len(t3))
        # after the task has ended
        st, app, api, gw = connected_app(W)
        for s, r in W.meth(st, gw, "connection_lost", [exc]):
            for e in pending(W, s):
                s.w(e.task).f["$state"] = "done"
            s2, gw2 = W.one(W.call(s, W.glob(UART, "Gateway"), [api]), "Gateway()")
            s2, _ = W.one(W.meth(s2, gw2, "connection_made", [W.transport]))
            for s3, r3 in W.meth(s2, gw2, "connection_lost", [exc]):
                t3 = pending(W, s3)
                rep.expect(len(t3) == 1, "a later loss starts reconnecting again", label, APP + ".connection_lost", "%d reconnecting tasks are started" % len(t3))
        # no application yet, or closed on purpose
        st = W.state()
        st, api, gw = W.api_world(st)
        for s, r in W.meth(st, gw, "connection_lost", [exc]):
            rep.expect(not isinstance(r, Raise) and not pending(W, s), "a loss without an application is harmless", label, raise_where(W, s, r) if isinstance(r, Raise) else API + ".connection_lost", "raises or starts a task")
        st, app, api, gw = connected_app(W)
        for s, r in W.meth(st, api, "close", []):
            for s2, r2 in W.meth(s, gw, "connection_lost", [exc]):
                bad = isinstance(r2, Raise) or pending(W, s2)
                rep.expect(not bad, "closing is not a loss", label, UART + ".Gateway.connection_lost", "closing the port on purpose starts reconnecting")
            for s2, r2 in W.meth(s, api, "close", []):
                rep.expect(not isinstance(r2, Raise), "closing twice is harmless", label, API + ".close", "raises %s" % (W.exc(s2, r2) if isinstance(r2, Raise) else ""))


FAILS = ("serial.SerialException", "builtins.FileNotFoundError", "builtins.OSError", "builtins.PermissionError", "asyncio.TimeoutError", "builtins.ValueError", "builtins.RuntimeError", "builtins.KeyError", "AnyException")


def start_reconnect(W, product, fail_opens=0, how="serial.SerialException", silent=(), reject=(), odd=(), **kw):
    """-> app, [(state, result, since)] of the reconnecting task"""
    I = W.I
    st, app, api, gw = connected_app(W)
    count = {"k": "attempt"}

    def open_fails(s):
        k = s.flags.get("attempts", 0)
        s.flags["attempts"] = k + 1
        return how if k < fail_opens else None

    def fail(s, e):
        k = s.flags.get("attempts", 0) - fail_opens
        if k in silent and e.name == kw.get("at", "ping"):
            return "silent"
        if k in reject and e.name == kw.get("at", "ping"):
            return "reject"
        return None

    n = ncp(W, product, fail=fail)
    usual = n.f_version
    # an adapter of a generation this driver does not know
    n.f_version = lambda s, row, f, k: n.srsp(s, row, k, {"product": const(77)}) if s.flags.get("attempts", 0) - fail_opens in odd else usual(s, row, f, k)
    lose_at = kw.get("lose_at")
    if lose_at is not None:
        answer = n.script

        def script(s, row, i):
            if s.flags.get("lost in") == s.flags.get("attempts", 0):
                return []
            out = answer(s, row, i)
            if "lost in" not in s.flags and asked(s)[-1:] == [lose_at]:
                out = list(out or []) + [lambda s2: lose(W, s2, row)]
            return out

        n.script = script
    I.hooks["open_fails"] = open_fails
    out = []
    try:
        for s, r in W.meth(st, gw, "connection_lost", [EXC]):
            if isinstance(r, Raise):
                raise AnalysisError("connection_lost raises %s" % W.exc(s, r))
            t = pending(W, s)
            if not t:
                continue
            since = s.mark() if hasattr(s, "mark") else len(s.trace())
            s.flags["spawned"] = len(evs(s, "spawn"))
            task = t[-1].task
            if lose_at is None:
                for s2, r2 in I.await_(s, task, W.cx, _node()):
                    out.append((s2, r2, task))
                continue
            s.flags["driven"] = task
            for s2, r2 in I.await_(s, s.get(task).f["$coro"], W.cx, _node()):
                s2.flags.pop("driven", None)
                if s2.get(task).f.get("$state") == "pending":
                    s2.w(task).f["$state"] = "done"
                    s2.w(task).f["$result"] = NONE if isinstance(r2, Raise) else r2
                cur = [s2]
                for e in evs(s2, "done_callback"):
                    if e.fut is task:
                        cur = [s4 for s3 in cur for s4, _ in I.call(s3, e.fn, [task], {}, W.cx, _node())]
                out += [(s3, r2, task) for s3 in cur]
    finally:
        I.hooks.pop("open_fails", None)
    return app, n, out


def asked(s):
    """the commands of a path as (name, how many of that name before it)"""
    out, n = [], {}
    for e in flat(s.trace()):
        if e.kind == "cmd":
            n[e.name] = n.get(e.name, 0) + 1
            out.append((e.name, n[e.name]))
    return out


def lose(W, s, row):
    s.flags["lost in"] = s.flags.get("attempts", 0)
    s.emit(Ev("lost", W.cx.loc(_node()), name=row["name"] if row else "?"))
    out = []
    for s2, r in W.meth(s, s.flags["gw"], "connection_lost", [EXC]):
        if isinstance(r, Raise):
            s2.emit(Ev("lost-raise", W.cx.loc(_node()), exc=W.exc(s2, r), raise_=r))
        out.append(s2)
    return out


def _node():
    from ..scen import _NODE

    return _NODE


def reconnect(rep, W):
    runs = []
    for p in (0, 1, 2):
        runs.append(("at once, product %d" % p, p, {}))
    for how in FAILS:
        for n in (1, 3):
            if rep.tier == "quick" and n == 3 and how != FAILS[0]:
                continue
            runs.append(("after %d failed opens (%s)" % (n, how.split(".")[-1]), 1, {"fail_opens": n, "how": how}))
    runs.append(("after a silent adapter", 0, {"silent": (1, 2)}))
    runs.append(("after an adapter of an unknown kind", 1, {"odd": (1,)}))
    runs.append(("after a silent version query", 0, {"silent": (1,), "at": "version"}))
    runs.append(("after a rejected setting", 1, {"reject": (1,), "at": "osalNvItemInit"}))
    runs.append(("after a silent endpoint registration", 1, {"silent": (1,), "at": "register"}))
    for label, p, kw in runs:
        app, n, res = start_reconnect(W, p, **kw)
        if not res:
            rep.violation("reconnecting goes on until it works", label, APP + ".reconnect", "the task waits for ever")
            continue
        for s, r, task in res:
            un = evs(s, "unfinished")
            if un:
                rep.violation("reconnecting goes on until it works", label, un[0].where(), "the task does not end after a start-up that works")
                continue
            if isinstance(r, Raise):
                rep.violation("reconnecting goes on until it works", label, raise_where(W, s, r), "the task ends with %s" % W.exc(s, r))
                continue
            pe = port_events(W, s)
            opens = [e for k, e in pe if k == "open_port"]
            want = 1 + kw.get("fail_opens", 0) + len(kw.get("silent", ()) or kw.get("reject", ()) or kw.get("odd", ()))
            rep.expect(len(opens) == want and pe[-1][0] == "opened", "reconnecting goes on until it works", label, opens[-1].where() if opens else APP + ".reconnect", "the port was opened %d times, %d expected; the task ends with the port %s" % (len(opens), want, "open" if left_open(pe) else "closed"))
            # one port at a time
            bad = None
            for i, (k, e) in enumerate(pe):
                if k == "open_port" and left_open(pe[:i]) is not None:
                    bad = e
            rep.expect(bad is None, "one port at a time", label, bad.where() if bad else "", "a port is opened before the one opened earlier is closed")
            # time to breathe between attempts
            gaps = pause_between(W, s)
            rep.expect(all(gaps), "attempts are spaced", label, APP + ".reconnect", "the port is opened again without a pause")
            # the application works on the new port
            api = W.field(s, app, "_api", NONE)
            gw = W.field(s, api, "_uart", NONE)
            rep.expect(gw is s.flags.get("gw"), "the new port is used", label, APP + ".reconnect", "the application does not use the port opened last")
            s.w(task).f["$state"] = "done"
            for s2, r2 in W.meth(s, s.flags["gw"], "connection_lost", [EXC]):
                t = pending(W, s2)
                started = [e for e in t if e.coro.op == "coro"]
                rep.expect(not isinstance(r2, Raise) and len([e for e in started if is_reconnect(W, e, task, s2)]) == 1, "the new port is watched", label, APP + ".connection_lost", "losing the new port does not start reconnecting")


def for_ever(rep, W):
    """a port that never opens again, an adapter that never answers again: the attempts do not run out"""
    for label, kw in (("the port never opens", {"fail_opens": 10**6}), ("the adapter never answers", {"silent": Always()})):
        app, n, res = start_reconnect(W, 1, **kw)
        for s, r, task in res:
            if evs(s, "unfinished"):
                rep.ok("reconnecting goes on until it works", label)
                continue
            pe = port_events(W, s)
            rep.violation("reconnecting goes on until it works", label, raise_where(W, s, r) if isinstance(r, Raise) else (pe[-1][1].where() if pe else APP + ".reconnect"), "the task gives up%s" % (" with %s" % W.exc(s, r) if isinstance(r, Raise) else ""))


class Always:
    def __contains__(self, x):
        return True

    def __len__(self):
        return 1


def lost_again(rep, W):
    """the port is lost again, together with an answer the start-up of the reconnecting task waits for"""
    I = W.I
    app, n, res = start_reconnect(W, 1)
    points = []
    for s, r, t in res:
        a = asked(s)
        for x in (a if rep.tier != "quick" else a[:1] + a[-2:]):
            if x not in points:
                points.append(x)
    if not points:
        rep.unknown("a loss while reconnecting", "working adapter", "no start-up found")
        return
    for p in points:
        app, n, res = start_reconnect(W, 1, lose_at=p)
        seen = False
        for s, r, task in res:
            ev = [e for e in flat(s.trace()) if e.kind == "lost"]
            if not ev:
                continue
            seen = True
            subj = "with the answer of %s no. %d" % p
            bad = [e for e in flat(s.trace()) if e.kind == "lost-raise"]
            if bad:
                rep.violation("a loss while reconnecting", subj, bad[0].where(), "raises %s" % bad[0].exc)
                continue
            t = pending(W, s)
            # the task that was told to stop does, another one takes over; or the task itself goes on
            opened_after = False
            for e in flat(s.trace()):
                if e.kind == "lost":
                    opened_after = False
                elif e.kind == "opened":
                    opened_after = True
            if evs(s, "unfinished") and not opened_after and not t:
                rep.ok("a loss while reconnecting", subj)
                continue
            rep.expect(len(t) + opened_after == 1, "a loss while reconnecting", subj, APP + ".connection_lost", "nothing reconnects the port that was lost" if not t and not opened_after else "%d reconnecting tasks run at once" % (len(t) + opened_after))
        if not seen:
            rep.unknown("a loss while reconnecting", "%s no. %d" % p, "the command is not sent")


def is_reconnect(W, e, task, s):
    """started by the loss just now (the LED command is a task too)"""
    ev = evs(s, "spawn")
    first = next((i for i, x in enumerate(ev) if x.task is task), 0)
    same = ev[first].coro
    return e.coro.args[0] is same.args[0]


def pause_between(W, s):
    """for every open but the first: was there a pause since the one before"""
    out = []
    slept, first = False, True
    for e in flat(s.trace()):
        if e.kind == "sleep" and is_num(e.delay) and numval(e.delay) > 0:
            slept = True
        elif e.kind == "open_port":
            if not first:
                out.append(slept)
            first, slept = False, False
    return out


def cancelled(rep, W):
    """cancelling the task at every await"""
    for p in (0, 1, 2) if rep.tier != "quick" else (1,):
        for kw, label in (({}, "working adapter"), ({"fail_opens": 1}, "failing port"), ({"silent": (1,)}, "silent adapter")):
            if label != "working adapter" and rep.tier == "quick" and label != "failing port":
                continue
            W.I.cancel_points = 1
            try:
                app, n, res = start_reconnect(W, p, **kw)
            finally:
                W.I.cancel_points = 0
            seen = 0
            for s, r, task in res:
                pe = port_events(W, s)
                c = next((i for i, (k, e) in enumerate(pe) if k == "cancelled"), None)
                if c is None:
                    continue
                seen += 1
                at = pe[c][1].where()
                subj = "%s, product %d, cancelled at %s" % (label, p, at)
                after = [e for k, e in pe[c:] if k == "open_port"]
                if after or evs(s, "unfinished"):
                    rep.violation("shutting down ends reconnecting", subj, (after or evs(s, "unfinished"))[0].where(), "the task goes on after it was cancelled")
                    continue
                if not isinstance(r, Raise) and left_open(pe) is None:
                    rep.ok("shutting down ends reconnecting", subj)
                    continue
                rep.ok("shutting down ends reconnecting", subj)
                # shutdown closes the port the application holds
                for s2, r2 in W.meth(s, app, "shutdown", [], aw=True):
                    lo = left_open(port_events(W, s2))
                    rep.expect(lo is None and not isinstance(r2, Raise), "shutting down closes the port", subj, lo.where() if lo else "", "a port opened by the task stays open")
            if not seen:
                rep.violation("shutting down ends reconnecting", "%s, product %d" % (label, p), APP + ".reconnect", "the task has no point at which it can be cancelled")


def shutdown(rep, W):
    # never connected
    cfg = Config()
    st, app = fresh_app(W, cfg)
    for s, r in W.meth(st, app, "shutdown", [], aw=True):
        rep.expect(not isinstance(r, Raise), "shutting down is safe", "never connected", raise_where(W, s, r) if isinstance(r, Raise) else "", "raises %s" % (W.exc(s, r) if isinstance(r, Raise) else ""))
    # connected
    st, app, api, gw = connected_app(W)
    for s, r in W.meth(st, app, "shutdown", [], aw=True):
        ok = not isinstance(r, Raise) and any(is_close(W, e) for e in flat(s.trace()))
        rep.expect(ok, "shutting down closes the port", "connected", raise_where(W, s, r) if isinstance(r, Raise) else APP + ".shutdown", "the port stays open")
        for s2, r2 in W.meth(s, gw, "connection_lost", [NONE]):
            rep.expect(not pending(W, s2), "closing is not a loss", "after shutdown", APP + ".connection_lost", "shutting down starts reconnecting")
        for s2, r2 in W.meth(s, app, "shutdown", [], aw=True):
            rep.expect(not isinstance(r2, Raise), "shutting down is safe", "twice", APP + ".shutdown", "raises %s" % (W.exc(s2, r2) if isinstance(r2, Raise) else ""))
    # reconnecting, the task in any state
    for state in ("pending", "done"):
        for how in ("at once", "after a second loss"):
            st, app, api, gw = connected_app(W)
            s, _ = W.one(W.meth(st, gw, "connection_lost", [EXC]))
            if how != "at once":
                s, gw2 = W.one(W.call(s, W.glob(UART, "Gateway"), [api]), "Gateway()")
                s, _ = W.one(W.meth(s, gw2, "connection_made", [W.transport]))
                s, _ = W.one(W.meth(s, gw2, "connection_lost", [EXC]))
            if state == "done":
                for e in pending(W, s):
                    s.w(e.task).f["$state"] = "done"
            for s2, r2 in W.meth(s, app, "shutdown", [], aw=True):
                t = pending(W, s2)
                rep.expect(not t and not isinstance(r2, Raise), "shutting down ends reconnecting", "%s, task %s" % (how, state), t[0].where() if t else APP + ".shutdown", "a reconnecting task keeps running")


def connecting(rep, W):
    """whatever ends the opening of a port, nothing is left open"""
    I = W.I
    n = 0
    for flow in (NONE, const("hardware")):
        st = W.state()
        st, api, _ = W.api_world(st)
        c = device_config(W, st, flow=flow)
        I.cancel_points = 1
        try:
            res = W.call(st, W.glob(UART, "connect"), [c, api], aw=True)
        finally:
            I.cancel_points = 0
        for s, r in res:
            pe = port_events(W, s)
            lo = left_open(pe)
            if isinstance(r, Raise):
                n += 1
                rep.expect(lo is None, "a failed open leaves nothing open", "uart.connect cancelled at %s" % next((e.where() for k, e in pe if k == "cancelled"), "?"), lo.where() if lo else "", "the port opened stays open")
            else:
                rep.expect(lo is not None, "a successful open stays open", "uart.connect", UART + ".connect", "the port is closed again")
    if not n:
        rep.unknown("a failed open leaves nothing open", "uart.connect", "no await found")


# ------------------------------------------------------------------------ C25
def c25(rep):
    rep.explain = (
        "Probing is interpreted against adapters that answer, stay silent, answer something else or with a damaged frame,"
        " ports that do not open and cancellation at every await. It must say yes exactly when the version reply arrived,"
        " no within a bounded time otherwise, and leave no port open on any path."
    )
    W = World()
    I = W.I

    def ver(ad, s, row, n):
        return ad.srsp(s, row, n) if row is not None and row["name"] == "version" else []

    def damaged(ad, s, row, n):
        out = ver(ad, s, row, n)
        return [mkcat([bslice(f, const(0), add(blen(f), const(-1))), byte(mkxor([bidx(f, add(blen(f), const(-1))), const(1)]))]) for f in out]

    def other(ad, s, row, n):
        r = W.cmd(1, "ping")
        if row is None or row["name"] != "version":
            return []
        return [ad.reply(3, 1, r["ID"], [le(sym("cap", "u16"), 2)])]

    def wrongtype(ad, s, row, n):
        if row is None or row["name"] != "version":
            return []
        vals, w = W.samples(row["response"], 1)
        return [ad.reply(2, 1, row["ID"], [w])]

    cases = (
        ("answers", ver, None, True),
        ("silent", lambda ad, s, row, n: [], None, False),
        ("damaged answer", damaged, None, False),
        ("another command's answer", other, None, False),
        ("port does not open", ver, "serial.SerialException", False),
    )
    for label, script, how, want in cases:
        for keys in (("path",), ("path", "baudrate", "flow_control")):
            for cancel in (0, 1):
                probe(rep, W, label, script, how, want, keys, cancel)


def probe(rep, W, label, script, how, want, keys, cancel):
    I = W.I
    I.hooks.pop("mcall", None)
    st = W.state()
    c = device_config(W, st, keys=keys)
    ad = Adapter(W, None)
    ad.script = lambda s, row, n: script(ad, s, row, n)

    def stuck(I, s, fut, cx, node, timeout):
        if timeout is None or timeout is NONE:
            s.emit(Ev("hang", cx.loc(node)))
            return []
        s.w(fut).f["$state"] = "cancelled"
        return [(s, I.exc(s, "asyncio.TimeoutError"))]

    ad.stuck = stuck
    I.hooks["open_fails"] = (lambda s: how) if how else None
    I.cancel_points = cancel
    try:
        res = W.call(st, W.attr(st, W.glob("zigpy_cc.api", "API"), "probe")[1], [c], aw=True)
    finally:
        I.cancel_points = 0
        I.hooks.pop("open_fails", None)
        I.hooks.pop("await_future", None)
    subj = "%s, %s%s" % (label, "defaults" if len(keys) == 1 else "all settings", ", cancelled" if cancel else "")
    if not res:
        rep.violation("probing ends", subj, API + ".probe", "probing waits for ever")
        return
    for s, r in res:
        pe = port_events(W, s)
        lo = left_open(pe)
        rep.expect(lo is None, "probing leaves no port open", subj, lo.where() if lo else "", "the port opened for probing stays open")
        if evs(s, "hang") and not cancel:
            rep.violation("probing ends", subj, evs(s, "hang")[0].where(), "probing waits without a timeout")
        if isinstance(r, Raise):
            rep.expect(cancel and W.exc_is(s, r, "asyncio.CancelledError"), "probing answers", subj, raise_where(W, s, r), "probing fails with %s" % W.exc(s, r))
            continue
        gaveup = [e for e in evs(s, "cancelled")] or evs(s, "timeout")
        exp = want and not gaveup
        rep.expect(r is const(exp), "probing answers", subj, API + ".probe", "probing says %s, expected %s" % (W.show(s, r), exp))
        if want is False and how is None:
            bounded = [e for e in evs(s, "waitfor") if is_num(e.timeout) and 0 < numval(e.timeout) <= 60] or [
                e for e in evs(s, "await") if e.get("timeout") is not None and is_num(e.timeout)
            ]
            rep.expect(bool(bounded), "probing ends", subj, API + ".probe", "the wait for the answer has no time limit")


# ------------------------------------------------------------------------ C26
LINE = {"baudrate": 9600, "bytesize": 8, "parity": "N", "stopbits": 1, "xonxoff": False, "rtscts": False, "dsrdtr": False}
POSITIONAL = ("baudrate", "bytesize", "parity", "stopbits", "timeout", "xonxoff", "rtscts")
SERIAL_CONST = {
    "serial.PARITY_NONE": "N", "serial.PARITY_EVEN": "E", "serial.PARITY_ODD": "O", "serial.PARITY_MARK": "M", "serial.PARITY_SPACE": "S",
    "serial.STOPBITS_ONE": 1, "serial.STOPBITS_ONE_POINT_FIVE": 1.5, "serial.STOPBITS_TWO": 2,
    "serial.EIGHTBITS": 8, "serial.SEVENBITS": 7, "serial.SIXBITS": 6, "serial.FIVEBITS": 5,
}


def line_settings(e):
    kw = dict(e.kwargs)
    args = list(e.args)
    d = {k: const(v) for k, v in LINE.items()}
    rest = args[2:]
    if rest:
        d["url"] = rest[0]
        for k, v in zip(POSITIONAL, rest[1:]):
            d[k] = v
    for k, v in kw.items():
        d["url" if k == "port" else k] = v
    out = {}
    for k, v in d.items():
        v = strip(v)
        q = v.args[0] if v.op == "ext" else None
        out[k] = const(SERIAL_CONST[q]) if q in SERIAL_CONST else v
    return out


def dev(i, device, hwid, description="n/a"):
    vid, _, pid = hwid.split("VID:PID=")[1].partition(":") if "VID:PID=" in hwid else ("0", "", "0 ")
    pid = pid.split()[0] if pid.split() else "0"
    return {"device": device, "name": device.rsplit("/", 1)[-1], "description": description, "hwid": hwid, "vid": int(vid, 16), "pid": int(pid, 16), "serial_number": "X", "manufacturer": "n/a", "product": "n/a", "location": "1-1", "interface": ""}


TI = dev(0, "/dev/ttyACM0", "USB VID:PID=0451:16A8 SER=X LOCATION=1-1")
TI2 = dev(1, "/dev/ttyACM1", "USB VID:PID=0451:BEF3 SER=Y LOCATION=1-2")
QH = dev(2, "/dev/ttyUSB0", "USB VID:PID=1A86:7523 LOCATION=1-3")
CP = dev(3, "/dev/ttyUSB1", "USB VID:PID=10C4:EA60 SER=Z LOCATION=1-4")
CH = dev(4, "/dev/ttyUSB2", "USB VID:PID=1A86:55D4 SER=W LOCATION=1-5")
PLAIN = {"device": "/dev/ttyS0", "name": "ttyS0", "description": "ttyS0", "hwid": "PNP0501", "vid": None, "pid": None, "serial_number": None, "manufacturer": None, "product": None, "location": None, "interface": None}


def c26(rep):
    rep.explain = (
        "Opening the port is interpreted for an unknown baud rate, every flow-control setting and device path, and for the"
        " automatic port with every mix of attached USB devices (a TI one, two, the QinHeng one, others, none): the call"
        " that opens the port must carry exactly these settings with 8 data bits, no parity, one stop bit, and an automatic"
        " choice must be made exactly when one supported device is attached. The device schema is interpreted on complete,"
        " minimal and wrong configurations."
    )
    W = World()
    I = W.I
    baud = sym("baudrate", "nat")
    for flow, (x, r) in ((NONE, (False, False)), (const("hardware"), (False, True)), (const("software"), (True, False))):
        for path in ("/dev/ttyACM0", "/dev/serial/by-id/usb-auto", "socket://10.0.0.2:8888", "automatic", "AUTO", "/dev/auto", "COM3"):
            I.hooks["ports"] = [TI2]
            want = {"url": const(path), "baudrate": baud, "xonxoff": const(x), "rtscts": const(r), "bytesize": const(8), "parity": const("N"), "stopbits": const(1)}
            opened_as(rep, W, "path %s, flow control %s" % (path, show(flow)), path, baud, flow, want)
    mixes = {
        "one TI device": ([TI], TI), "another TI device": ([TI2], TI2), "the QinHeng device": ([QH], QH), "TI among others": ([CP, TI, CH, PLAIN], TI),
        "QinHeng among others": ([PLAIN, CH, QH], QH), "no device": ([], None), "only other devices": ([CP, CH, PLAIN], None), "two TI devices": ([TI, TI2], None),
        "TI and QinHeng": ([TI, CP, QH], None), "three": ([QH, TI, TI2], None),
        "two devices that look the same": ([dict(TI, hwid="USB VID:PID=0451:16A8"), dict(TI, device="/dev/ttyACM3", name="ttyACM3", hwid="USB VID:PID=0451:16A8")], None),
        "two devices with the same name": ([TI, dict(TI2, description=TI["description"], name=TI["name"])], None),
    }
    for label, (ports, pick) in mixes.items():
        I.hooks["ports"] = ports
        if pick is None:
            not_opened(rep, W, "auto, %s" % label, baud)
        else:
            want = {"url": const(pick["device"]), "baudrate": baud, "xonxoff": FALSE, "rtscts": FALSE, "bytesize": const(8), "parity": const("N"), "stopbits": const(1)}
            opened_as(rep, W, "auto, %s" % label, "auto", baud, NONE, want)
    # the devices attached at the time decide, whatever was found the time before
    auto = {"baudrate": baud, "xonxoff": FALSE, "rtscts": FALSE, "bytesize": const(8), "parity": const("N"), "stopbits": const(1)}
    turns = {
        "the same device again": ((TI,), (TI,)), "the device at another port": ((TI,), (dict(TI, device="/dev/ttyACM7", name="ttyACM7"),)), "another device": ((TI,), (CP, QH)),
        "no device any more": ((TI,), ()), "a second device": ((TI,), (TI, TI2)), "a device at last": ((), (TI,)), "one of two devices left": ((TI, QH), (QH,)),
    }
    for label, (before, now) in turns.items():
        st, api, _ = W.api_world(W.state())
        c = device_config(W, st, "auto", baud, NONE)
        I.hooks["ports"] = list(before)
        first = W.call(st, W.glob(UART, "connect"), [c, api], aw=True)
        I.hooks["ports"] = list(now)
        want = dict(auto, url=const([p for p in now if p is not CP][0]["device"])) if len([p for p in now if p is not CP]) == 1 else None
        for s, _r in first:
            for how in ("the same configuration", "an equal configuration"):
                s1 = s.fork()
                c1 = c if how[4:8] == "same" else device_config(W, s1, "auto", baud, NONE)
                k = len(evs(s1, "open_port"))
                for s2, r in W.call(s1, W.glob(UART, "connect"), [c1, api], aw=True):
                    subj = "auto, then %s, %s" % (label, how)
                    op = evs(s2, "open_port")[k:]
                    if want is None:
                        rep.expect(not op and isinstance(r, Raise), "the automatic port is unambiguous", subj, op[0].where() if op else UART + ".connect", "a port is opened although not exactly one supported device is attached" if op else "no error is reported")
                    elif len(op) != 1:
                        rep.violation("the port is opened as configured", subj, op[1].where() if op else UART + ".connect", "%d ports are opened" % len(op))
                    else:
                        got = line_settings(op[0])
                        bad = [x for x, v in want.items() if W.eq(s2, got.get(x, NONE), v) is False]
                        rep.expect(not bad, "the port is opened as configured", subj, op[0].where(), "; ".join("%s is %s, expected %s" % (x, W.show(s2, got.get(x, NONE)), W.show(s2, want[x])) for x in bad))
    I.hooks.pop("ports", None)
    schema(rep, W)


def _connect(W, path, baud, flow):
    st = W.state()
    st, api, _ = W.api_world(st)
    c = device_config(W, st, path, baud, flow)
    st.flags["mark"] = len(list(flat(st.trace())))
    return W.call(st, W.glob(UART, "connect"), [c, api], aw=True)


def opened_as(rep, W, subj, path, baud, flow, want):
    for s, r in _connect(W, path, baud, flow):
        if isinstance(r, Raise):
            rep.violation("the port is opened as configured", subj, raise_where(W, s, r), "fails with %s" % W.exc(s, r))
            continue
        op = evs(s, "open_port")
        if len(op) != 1:
            rep.violation("the port is opened as configured", subj, op[1].where() if op else UART + ".connect", "%d ports are opened" % len(op))
            continue
        got = line_settings(op[0])
        bad = [k for k, v in want.items() if W.eq(s, got.get(k, NONE), v) is False]
        unk = [k for k, v in want.items() if W.eq(s, got.get(k, NONE), v) is None]
        if bad:
            rep.violation("the port is opened as configured", subj, op[0].where(), "; ".join("%s is %s, expected %s" % (k, W.show(s, got.get(k, NONE)), W.show(s, want[k])) for k in bad))
        elif unk:
            rep.unknown("the port is opened as configured", subj, "cannot compare %s" % ", ".join(unk))
        else:
            rep.ok("the port is opened as configured", subj)
        gw = s.flags.get("gw")
        rep.expect(r is gw, "the opened port is handed back", subj, UART + ".connect", "another protocol object is returned")
        ws = W.writes(s)
        ok = bool(ws) and W.eq(s, ws[0].args[0], const(b"\xef")) is True and len(ws) == 1
        rep.expect(ok, "the bootloader is skipped", subj, ws[0].where() if ws else UART + ".connect", "the bootloader of the adapter is not told to start the firmware")
        seen, slept = False, False
        for e in flat(s.trace()):
            if e.kind == "mcall" and e.obj is W.transport and e.name == "write":
                seen = True
            if seen and e.kind == "sleep" and is_num(e.delay) and numval(e.delay) >= 1:
                slept = True
        rep.expect(slept, "the firmware gets time to start", subj, UART + ".connect", "no pause of a second before the first command")


def not_opened(rep, W, subj, baud):
    for s, r in _connect(W, "auto", baud, NONE):
        op = evs(s, "open_port")
        if op:
            rep.violation("the automatic port is unambiguous", subj, op[0].where(), "a port is opened although not exactly one supported device is attached")
        elif not isinstance(r, Raise):
            rep.violation("the automatic port is unambiguous", subj, UART + ".connect", "no error is reported")
        else:
            rep.expect(W.exc_is(s, r, "serial.SerialException"), "the automatic port is unambiguous", subj, raise_where(W, s, r), "reported as %s, expected a serial port error" % W.exc(s, r))


def schema(rep, W):
    sch = W.glob("zigpy_cc.config", "SCHEMA_DEVICE")
    P = (("path", const("/dev/ttyACM0")),)
    full = P + (("baudrate", const(38400)), ("flow_control", const("software")))
    cases = (
        ("path only", P, {"path": const("/dev/ttyACM0"), "baudrate": const(115200), "flow_control": NONE}),
        ("complete", full, {"path": const("/dev/ttyACM0"), "baudrate": const(38400), "flow_control": const("software")}),
        ("hardware", P + (("flow_control", const("hardware")),), {"path": const("/dev/ttyACM0"), "baudrate": const(115200), "flow_control": const("hardware")}),
        ("no flow control", P + (("flow_control", NONE),), {"path": const("/dev/ttyACM0"), "baudrate": const(115200), "flow_control": NONE}),
        ("automatic path", (("path", const("auto")),), {"path": const("auto"), "baudrate": const(115200), "flow_control": NONE}),
        ("by-id path", (("path", const("/dev/serial/by-id/usb-ti")),), {"path": const("/dev/serial/by-id/usb-ti"), "baudrate": const(115200), "flow_control": NONE}),
        ("a path that does not exist", (("path", const("/dev/ttyACM7")),), None),
        ("almost the automatic path", (("path", const("autos")),), None),
        ("an empty path", (("path", const("")),), None),
        ("a path that is no text", (("path", const(5)),), None),
        ("no path", (("baudrate", const(9600)),), None),
        ("unsupported flow control", P + (("flow_control", const("xon")),), None),
        ("baud rate as text", P + (("baudrate", const("115200")),), None),
        ("unknown setting", P + (("speed", const(9600)),), None),
    )
    W.I.hooks["paths"] = ("/dev/ttyACM0", "/dev/serial/by-id/usb-ti")
    for label, items, want in cases:
        st = W.state()
        d = W.I.dict_(st, [(const(k), v) for k, v in items])
        for s, r in W.call(st, sch, [d]):
            if want is None:
                rep.expect(isinstance(r, Raise), "the configuration is validated", label, "zigpy_cc/config.py", "accepted as %s" % ("" if isinstance(r, Raise) else W.show(s, r)))
                continue
            if isinstance(r, Raise):
                rep.violation("the configuration is validated", label, "zigpy_cc/config.py", "a valid configuration is refused")
                continue
            got = W.ditems(s, r)
            if got is None:
                rep.unknown("the configuration is validated", label, "the result is not a known dictionary")
                continue
            bad = [k for k in want if k not in got or W.eq(s, got[k], want[k]) is False]
            rep.expect(not bad, "the configuration is validated", label, "zigpy_cc/config.py", "; ".join("%s is %s, expected %s" % (k, W.show(s, got[k]) if k in got else "absent", W.show(s, want[k])) for k in bad))
    W.I.hooks.pop("paths")


# ------------------------------------------------------------------------ C28
def c28(rep):
    rep.explain = (
        "Opening the network is interpreted for an unknown duration: for every duration of 0 to 254 seconds exactly one"
        " permit-joining command with that duration must be written, addressed to all routers and the coordinator; for every"
        " other duration nothing may be written."
    )
    W = World()
    row = W.cmd(5, "mgmtPermitJoinReq")
    if row is None:
        raise AnalysisError("mgmtPermitJoinReq is not in the table")
    inside = sym("t", "byte")

    def one(label, dur, ok, prep=None, kwargs=None):
        st, app, api, gw, sem = W.app_world()
        if prep:
            prep(st)
        ad = Adapter(W, gw)
        ad.script = lambda s, row, n: ad.srsp(s, row, n, {"status": const(0)})
        args = [dur] if dur is not None else []
        n = 0
        for s, r in W.meth(st, app, "permit_ncp", args if not kwargs else [], {"time_s": dur} if kwargs else None, aw=True):
            n += 1
            ws = W.writes(s)
            if not ok:
                rep.expect(not ws and isinstance(r, Raise), "only valid durations", label, ws[0].where() if ws else APP + ".permit_ncp", "the network is opened for an invalid duration" if ws else "an invalid duration is accepted silently")
                continue
            if isinstance(r, Raise):
                rep.violation("the network is opened as asked", label, raise_where(W, s, r), "fails with %s" % W.exc(s, r))
                continue
            d = dur if dur is not None else const(60)
            data = mkcat([byte(const(15)), le(const(0xFFFC), 2), byte(d), byte(const(0))])
            want = expected_frame(1, 5, 0x36, data)
            if len(ws) != 1:
                rep.violation("the network is opened as asked", label, ws[1].where() if ws else APP + ".permit_ncp", "%d commands are written" % len(ws))
                continue
            q = W.eq(s, ws[0].args[0], want)
            if q is None:
                rep.unknown("the network is opened as asked", label, "cannot compare the bytes")
            else:
                rep.expect(q, "the network is opened as asked", label, ws[0].where(), "writes %s, expected %s" % (W.show(s, ws[0].args[0])[:300], W.show(s, want)[:300]))
        if not n:
            rep.violation("the network is opened as asked", label, APP + ".permit_ncp", "the command never ends")

    def lim(st):
        st.assume(eq0(add(inside, const(-255))), False)

    one("any duration of 0..254", inside, True, lim)
    one("any duration of 0..254, by name", inside, True, lim, True)
    for v in (0, 1, 60, 127, 128, 253, 254):
        one("%d s" % v, const(v), True)
    one("default", None, True)
    for v in (255, 256, 300, 65535, -1, -60):
        one("%d s" % v, const(v), False)
    rejected(rep, W)


def rejected(rep, W):
    """a refusal by the adapter reaches the caller"""
    st, app, api, gw, sem = W.app_world()
    stt = sym("st", "byte")
    st.assume(eq0(stt), False)
    ad = Adapter(W, gw)
    ad.script = lambda s, row, n: ad.srsp(s, row, n, {"status": stt})
    for s, r in W.meth(st, app, "permit_ncp", [const(60)], aw=True):
        rep.expect(isinstance(r, Raise) and W.exc_is(s, r, "zigpy_cc.exception.CommandError"), "a refusal is reported", "any status but 0", APP + ".permit_ncp", "a refused command is reported as %s" % (W.exc(s, r) if isinstance(r, Raise) else W.show(s, r)))


# ------------------------------------------------------------------------ C29
def c29(rep):
    rep.explain = (
        "The frames that tell that joining was opened or closed are fed to the serial protocol of an application on each"
        " adapter generation, with an unknown duration, and the command they cause is followed to the bytes: the LED"
        " command for LED 3, on while joining is possible and off otherwise, never on Z-Stack 3.x.0, and sent in the"
        " background so that receiving goes on."
    )
    W = World()
    I = W.I
    led = W.cmd(7, "ledControl")
    pj = W.cmd(5, "permitJoinInd")
    rsp = W.cmd(5, "mgmtPermitJoinRsp")
    if not (led and pj and rsp):
        raise AnalysisError("LED or permit-join commands are not in the table")
    ad0 = Adapter(W, None)
    dur = sym("duration", "byte")
    cases = []
    for p in (0, 1, 2):
        for d, label in ((const(0), "closed"), (const(1), "1 s"), (const(60), "60 s"), (const(255), "255 s"), (dur, "any duration")):
            cases.append((p, "permitJoinInd %s" % label, ad0.reply(2, 5, pj["ID"], [byte(d)]), d))
        for stt in (const(0), sym("status", "byte")):
            cases.append((p, "mgmtPermitJoinRsp status %s" % show(stt), ad0.reply(2, 5, rsp["ID"], [le(W.nwk, 2), byte(stt)]), const(1)))
    for p, label, fr, d in cases:
        st, app, api, gw, sem = W.app_world()
        prod = const(p)
        st.w(app).f["version"] = I.dict_(st, [(const("product"), prod), (const("transportrev"), const(2))])
        Net(W, app)
        ad = Adapter(W, gw)
        ad.script = lambda s, row, n: ad.srsp(s, row, n, {"status": const(0)})
        subj = "product %d, %s" % (p, label)
        for s, r in feed(W, st, gw, fr):
            if isinstance(r, Raise):
                rep.violation("receiving goes on", subj, raise_where(W, s, r), "raises %s" % W.exc(s, r))
                continue
            rep.expect(not W.writes(s) and not evs(s, "acquire"), "the LED is switched in the background", subj, APP + ".set_led", "receiving waits for the LED command")
            for s2, r2 in run_tasks(W, s):
                ws = W.writes(s2)
                if isinstance(r2, Raise):
                    rep.violation("the LED shows joining", subj, raise_where(W, s2, r2), "the LED command fails with %s" % W.exc(s2, r2))
                    continue
                if p == 1:
                    rep.expect(not ws, "no LED command on Z-Stack 3.x.0", subj, ws[0].where() if ws else "", "an LED command is written")
                    continue
                z = W.resolved(s2, d)
                on = s2.decide(eq0(z)) if not is_num(z) else numval(z) == 0
                if on is None:
                    rep.unknown("the LED shows joining", subj, "the path does not depend on the duration")
                    continue
                want = expected_frame(1, 7, led["ID"], mkcat([byte(const(3)), byte(const(0 if on else 1))]))
                if len(ws) != 1:
                    rep.violation("the LED shows joining", subj, ws[1].where() if ws else APP + ".handle_znp", "%d commands are written, one LED command expected" % len(ws))
                    continue
                rep.expect(W.eq(s2, ws[0].args[0], want) is True, "the LED shows joining", subj, ws[0].where(), "writes %s, expected %s" % (W.show(s2, ws[0].args[0]), W.show(s2, want)))
    # after forming the network, also on an adapter that takes the place of another one
    from .conc import replaced

    for p, before in [(p, b) for p in (0, 1, 2) for b in (None, 0, 1, 2) if b != p]:
        if before is None:
            cfg, n, app, res = run(W, p)
        else:
            res = [(s, r) for s, r, _, _ in replaced(W, before, p)]
        for s, r in res:
            if isinstance(r, Raise):
                continue
            for s2, r2 in run_tasks(W, s):
                c = cmds(s2, "ledControl")
                k = len([e for e in flat(s2.trace()) if e.kind == "mcall" and e.obj is W.transport and e.name == "write"])
                ws = W.writes(s2)
                lw = [w for w in ws if is_led(W, s2, w, led)]
                if p == 1:
                    rep.expect(not lw, "no LED command on Z-Stack 3.x.0", "start-up, product 1", lw[0].where() if lw else "", "an LED command is written")
                else:
                    want = expected_frame(1, 7, led["ID"], mkcat([byte(const(3)), byte(const(0))]))
                    ok = len(lw) == 1 and W.eq(s2, lw[0].args[0], want) is True
                    rep.expect(ok, "the LED is off after start-up", "product %d" % p, lw[0].where() if lw else APP + ".form_network", "%d LED commands, expected one that switches it off" % len(lw))


def is_led(W, s, w, led):
    a, b = bidx(w.args[0], const(2)), bidx(w.args[0], const(3))
    return a is not None and b is not None and W.eq(s, a, const(0x27)) is True and W.eq(s, b, const(led["ID"])) is True


# ------------------------------------------------------------------------ C31
def c31(rep):
    rep.explain = (
        "The whole start-up is interpreted on each adapter generation, resumed and newly formed, with unknown addresses in"
        " the adapter's device information: afterwards the application's own addresses and the coordinator entry in its"
        " device table must be exactly these, and the version reply must be the one kept. An adapter that does not answer or"
        " refuses the first commands must make start-up fail."
    )
    W = World()
    for p in (0, 1, 2):
        for auto in (TRUE, FALSE, None):
          for stale in (False, True) if auto is not None else (False,):
            cfg, n, app, res = run(W, p, auto=auto, setup=old_entries if stale else None)
            label = "product %d, %s%s" % (p, "forming" if auto is TRUE else "without forming" if auto is FALSE else "not asked to form", ", with a stored device table" if stale else "")
            if not res:
                rep.violation("start-up ends", label, APP + ".startup", "start-up hangs")
            for s, r in res:
                if isinstance(r, Raise):
                    rep.violation("start-up ends", label, raise_where(W, s, r), "start-up fails with %s" % W.exc(s, r))
                    continue
                info = [e for e in cmds(s, "getDeviceInfo")]
                if not info:
                    rep.violation("the coordinator is known", label, APP + ".startup", "the adapter is not asked for its addresses")
                    continue
                ieee, nwk = n.ieee, n.nwkaddr
                check_coordinator(rep, W, s, app, label, ieee, nwk, auto)
                if auto is not TRUE:
                    bad = [e for e in evs(s, "nv") + evs(s, "reset") + evs(s, "formed") + evs(s, "register")]
                    rep.expect(not bad, "nothing is changed unless asked", label, bad[0].where() if bad else "", "start-up without forming changes the adapter")
    # the adapter comes back with another short address
    for p in (0, 1, 2):
        for auto in (TRUE, FALSE):
            cfg, n, app, res = run(W, p, auto=auto)
            label = "product %d, %s, started again with another short address" % (p, "forming" if auto is TRUE else "without forming")
            for s0, r0 in [x for x in res if not isinstance(x[1], Raise)][:1]:
                nwk2 = sym("ownnwk2", "u16")
                s0.assume(eq0(sub(nwk2, n.nwkaddr)), False)
                cfg, n2, app, res2 = run(W, p, cfg, auto=auto, again=(s0, app), nwkaddr=nwk2)
                if not res2:
                    rep.violation("start-up ends", label, APP + ".startup", "start-up hangs")
                for s, r in res2:
                    if isinstance(r, Raise):
                        rep.violation("start-up ends", label, raise_where(W, s, r), "start-up fails with %s" % W.exc(s, r))
                    else:
                        check_coordinator(rep, W, s, app, label, n2.ieee, nwk2, auto)
    # an adapter of another generation takes its place
    from .conc import replaced

    for p, before in ((0, 1), (1, 0), (2, 1), (1, 2), (0, 2)):
        label = "product %d in place of product %d" % (p, before)
        got = replaced(W, before, p)
        if not got:
            rep.violation("start-up ends", label, APP + ".startup", "start-up hangs")
        for s, r, app, n in got:
            if isinstance(r, Raise):
                rep.violation("start-up ends", label, raise_where(W, s, r), "start-up fails with %s" % W.exc(s, r))
                continue
            check_coordinator(rep, W, s, app, label, n.ieee, n.nwkaddr, TRUE)
            ver = W.ditems(s, W.field(s, app, "version", NONE))
            if ver is not None:
                rep.expect("product" in ver and W.eq(s, ver["product"], const(p)) is True, "the version reply is kept", label, APP + ".startup", "the version kept is that of an earlier adapter: %s" % W.show(s, ver.get("product", NONE)))
    for k in ("ping", "version", "getDeviceInfo"):
        for how in ("silent", "reject"):
            if how == "reject" and not any(a == "status" for a, _ in W.cmd(*[(ss, k) for ss in W.definition() if W.cmd(ss, k)][0])["response"]):
                continue
            cfg, n, app, res = run(W, 0, fail=lambda s, e, k=k, how=how: how if e.name == k else None)
            for s, r in res:
                rep.expect(isinstance(r, Raise), "a dead adapter is reported", "%s %s" % (k, how), APP + ".startup", "start-up succeeds")
            if not res:
                rep.violation("a dead adapter is reported", "%s %s" % (k, how), APP + ".startup", "start-up hangs")


OTHER = sym("otherdevice", "obj")


def old_entries(st, app):
    """a device table read from a database: the adapter's address under an earlier device, and another device"""
    key2 = mk("eui", mkcat([byte(sym("oth%d" % i, "byte")) for i in range(8)]))
    for i in range(8):
        pass
    st.assume(eq0(sub(sym("oth0", "byte"), sym("own0", "byte"))), False)
    st.w(st.get(app).f["devices"]).f["items"] = ((Ncp.ieee, sym("olddevice", "obj")), (key2, OTHER))


def check_coordinator(rep, W, s, app, label, ieee, nwk, auto):
    a = W.field(s, app, "_ieee", NONE)
    b = W.field(s, app, "_nwk", NONE)
    rep.expect(W.eq(s, a, ieee) is True and W.eq(s, b, nwk) is True, "the coordinator is known", label, APP + ".startup", "own addresses are %s / %s, expected %s / %s" % (W.show(s, a), W.show(s, b), W.show(s, ieee), W.show(s, nwk)))
    d = W.I.obj(s, W.field(s, app, "devices", NONE))
    if d is None or d.kind != "dict":
        rep.unknown("the coordinator is in the device table", label, "the device table is not a dictionary")
        return
    hit = [v for k, v in d.f["items"] if W.eq(s, k, ieee) is True]
    rest = [v for k, v in d.f["items"] if W.eq(s, k, ieee) is not True]
    if len(hit) != 1 or rest != ([OTHER] if "stored" in label else []):
        rep.violation("the coordinator is in the device table", label, APP + ".startup", "%d entries for the adapter's address, others: %s" % (len(hit), [W.show(s, x) for x in rest]))
        return
    ob = W.I.obj(s, hit[0])
    dev = ob is not None and ob.cls is not None and "zigpy.device.Device" in W.I.class_supers(ob.cls)
    args = {}
    if ob is not None:
        for e in evs(s, "super_init"):
            if e.obj is hit[0]:
                args = dict(zip(("application", "ieee", "nwk"), e.args))
                args.update(e.kwargs)
        if not args and "args" in ob.f:
            args = dict(zip(("application", "ieee", "nwk"), ob.f["args"].args))
            for n in ("application", "ieee", "nwk"):
                if "$kw_" + n in ob.f:
                    args[n] = ob.f["$kw_" + n]
    ok = dev and strip(args.get("application", NONE)) is strip(app) and W.eq(s, args.get("ieee"), ieee) is True and W.eq(s, args.get("nwk"), nwk) is True
    rep.expect(ok, "the coordinator is in the device table", label, APP + ".startup", "the entry is not a device of this application with the adapter's addresses")
