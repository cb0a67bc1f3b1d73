"""Pacing, isolation and scheduling: C33 to C36."""
import ast

from ..load import AnalysisError, walk_own
from ..world import *
from .wire import raise_where, wval
from .send import byte, le, syms
from .recv import APP, API, Net, deliveries, decodable, evs, feed, opened
from .conc import is_reply_wait, lock_kind, operations, payload_of, script_for, timeline

SETTLE = 0.2


# ------------------------------------------------------------------- C33
def c33(rep):
    rep.explain = (
        "Group, broadcast and unicast messages are interpreted with the adapter accepting and refusing them. On every path"
        " that reports success for a group or broadcast message a pause of 0.2 s follows the adapter's acceptance, while the"
        " message permit is still held and the command lock is not; unicast messages and refused ones are not paused."
    )
    W = World()
    I = W.I
    v = syms()
    d = mkcat([byte(sym("z%d" % i, "byte")) for i in range(3)])
    kinds = [
        ("group message", True, lambda st, app: W.meth(st, app, "mrequest", [v["grp"], const(0x104), v["cl"], v["se"], v["tsn"], d], aw=True)),
        ("group message, default endpoint", True, lambda st, app: W.meth(st, app, "mrequest", [v["grp"], const(0x104), v["cl"], const(0), v["tsn"], d], {"hops": const(3), "non_member_radius": const(7)}, aw=True)),
        ("broadcast message", True, lambda st, app: W.meth(st, app, "broadcast", [const(0x104), v["cl"], v["se"], v["de"], v["grp"], v["rad"], v["tsn"], d], aw=True)),
        ("broadcast message to all", True, lambda st, app: W.meth(st, app, "broadcast", [const(0xC05E), v["cl"], v["se"], v["de"], v["grp"], v["rad"], v["tsn"], d], {"broadcast_address": const(0xFFFF)}, aw=True)),
        ("unicast message", False, lambda st, app: W.meth(st, app, "request", [W.dev, const(0x104), v["cl"], v["se"], v["de"], v["tsn"], d], aw=True)),
        ("unicast message without reply", False, lambda st, app: W.meth(st, app, "request", [W.dev, const(0x104), v["cl"], v["se"], v["de"], v["tsn"], d], {"expect_reply": FALSE}, aw=True)),
        ("device management message", False, lambda st, app: W.meth(st, app, "request", [W.dev, const(0), const(5), const(0), const(0), v["tsn"], mkcat([byte(v["tsn"]), le(W.nwk, 2)])], aw=True)),
    ]
    for name, paced, fn in kinds:
        for accepted in (True, False):
            I.hooks.pop("mcall", None)
            st, app, api, gw, sem = W.app_world()
            x = sym("refusal", "byte")
            if not accepted:
                st.assume(eq0(x), False)
            ad = Adapter(W, gw)
            ad.script = script_for(W, ad, const(0) if accepted else x)
            subj = "%s, %s" % (name, "accepted" if accepted else "refused")
            res = fn(st, app)
            n = 0
            for s, r in res:
                if not W.writes(s):
                    continue
                n += 1
                pace(rep, W, s, r, subj, sem, paced and accepted)
            if not n:
                rep.unknown("messages settle", subj, "the message is never written")


def pace(rep, W, s, r, subj, sem, want):
    tl, _ = timeline(W, s)
    wrote = max(i for i, (e, _) in enumerate(tl) if e.kind == "mcall" and e.obj is W.transport and e.name == "write")
    pauses = [(i, e, held) for i, (e, held) in enumerate(tl) if e.kind == "sleep" and not (is_num(e.delay) and numval(e.delay) == 0)]
    at = tl[wrote][0].where()
    if not want:
        rep.expect(not pauses, "only group and broadcast messages are paused", subj, pauses[0][1].where() if pauses else "", "the caller is delayed by %s s" % (show(pauses[0][1].delay) if pauses else ""))
        return
    # the pause counts from the adapter's answer on
    answers = [i for i, (e, _) in enumerate(tl) if i > wrote and e.kind in ("await", "waitfor") and is_reply_wait(W, s, e)]
    after = max(answers) if answers else wrote
    good = [(e, held) for i, e, held in pauses if i > after and any(h is strip(sem) for h in held)]
    total = sum((numval(e.delay) for e, _ in good if is_num(e.delay)), 0)
    if any(not is_num(e.delay) for e, _ in good):
        rep.unknown("messages settle", subj, "pause of %s" % show(good[0][0].delay))
        return
    if total < SETTLE - 1e-9:
        loc = pauses[0][1].where() if pauses else at
        why = "no pause" if not pauses else "the pause is not taken under the message permit after the adapter accepted" if not good else "the pause is only %s s" % float(total)
        rep.violation("messages settle", subj, loc, "the permit is given back without the settling time: " + why)
        return
    rep.expect(total <= 1, "messages settle", subj, good[0][0].where(), "the pause takes %s s" % float(total))
    locked = [e for e, held in good if any(lock_kind(W, s, h) == "lock" for h in held)]
    rep.expect(not locked, "other commands go on during the pause", subj, locked[0].where() if locked else "", "the command lock is held during the pause")


# ------------------------------------------------------------------- C34
def two(W):
    """two independent adapters in one program"""
    I = W.I
    I.hooks.pop("mcall", None)
    st, app, api, gw, sem = W.app_world()
    opened(W, st, app)
    t1 = W.transport
    W.transport = sym("transport2", "obj")
    try:
        st, app2, api2, gw2, sem2 = W.app_world(st=st)
    finally:
        W.transport = t1
    opened(W, st, app2)
    Net2(W, (app, app2))
    return st, (app, api, gw), (app2, api2, gw2), sym("transport2", "obj")


class Net2(Net):
    def __init__(self, W, apps):
        super().__init__(W, apps[0])
        self.apps = apps
        W.I.hooks["mcall"] = self.both

    def both(self, I, st, obj, name, args, kwargs, cx, node):
        for a in self.apps:
            if strip(obj) is strip(a):
                self.app = a
                n = len(st.trace())
                out = self.hook(I, st, a, name, args, kwargs, cx, node)
                for s, _ in out or ():
                    for e in s.trace()[n:]:
                        if e.kind == "app":
                            s.flags["app:%d" % id(e)] = a
                return out
        return self.hook(I, st, obj, name, args, kwargs, cx, node)


def got(s, app):
    """joins an application was told of"""
    return [e for e in evs(s, "app") if s.flags.get("app:%d" % id(e)) is app and e.name == "handle_join"]


def announce(W, ad, tag):
    r = W.cmd(5, "endDeviceAnnceInd")
    _, w = W.samples([(n + tag, pt) for n, pt in r["request"]], 1)
    return ad.reply(2, 5, r["ID"], [w])


def snap(W, st, v, depth=0, seen=None):
    """a value with everything it refers to"""
    seen = seen or {}
    v = strip(v)
    if v.op != "ref":
        if v.op == "tup":
            return ("tup",) + tuple(snap(W, st, x, depth, seen) for x in v.args)
        return v
    if v in seen or depth > 8:
        return ("seen",)
    seen = dict(seen)
    seen[v] = True
    o = st.get(v)
    it = lib.known_items(W.I, st, v) if o.kind in ("list", "set") else None
    if it is not None:
        return (o.kind,) + tuple(snap(W, st, x, depth + 1, seen) for x in it)
    if o.kind == "dict":
        return ("dict", snapf(o.f.get("rest"))) + tuple((snap(W, st, k, depth + 1, seen), snap(W, st, x, depth + 1, seen)) for k, x in o.f["items"])
    out = [o.kind]
    for k in sorted(o.f):
        x = o.f[k]
        out.append((k, snap(W, st, x, depth + 1, seen) if isinstance(x, Term) else snapf(x)))
    return tuple(out)


def snapf(x):
    return repr(x) if not isinstance(x, Term) else x


def c34(rep):
    rep.explain = (
        "Two adapters are set up in one program and their receive and send paths are interpreted interleaved: partial frames,"
        " outstanding waits and the command lock of one must not show in the other. Frames decoded one after the other are"
        " compared before and after, as are the payloads handed in by callers, the command table and the endpoint list;"
        " start-up is run twice in one program and must send the same commands."
    )
    W = World()
    ports(rep, W)
    waits_apart(rep, W)
    locks_apart(rep, W)
    objects_apart(rep, W)
    callers_payload(rep, W)
    tolerance(rep, W)
    started_twice(rep, W)


def tolerance(rep, W):
    """which statuses one call tolerates is no other call's business"""
    from .send import one_status

    W.I.hooks.pop("mcall", None)
    names = ((1, "osalNvItemInit"), (5, "startupFromApp"), (5, "extFindGroup"), (1, "osalNvWrite"))
    for ps, pn in names:
        for ss, name in names:
            p, r = W.cmd(ps, pn), W.cmd(ss, name)
            if p is None or r is None:
                continue
            vals, _ = W.samples(r["request"], 1)
            for tolerated in ((0,), (9, 0, 1, 2)):
                one_status(rep, W, ss, r, vals, None, (ps, p), tolerated)


def ports(rep, W):
    st, A, B, t2 = two(W)
    ad = Adapter(W, A[2])
    f1, f2 = announce(W, ad, "a"), announce(W, ad, "b")
    n = const_len(f1)
    for cut in range(1, n):
        subj = "%d of %d bytes on one port, a frame on the other" % (cut, n)
        for s, _ in feed(W, st.fork(), A[2], bslice(f1, const(0), const(cut))):
            for s1, _ in feed(W, s, B[2], f2):
                ok = len(got(s1, B[0])) == 1 and not got(s1, A[0])
                if not ok:
                    rep.violation("ports do not mix", subj, "zigpy_cc.uart.Gateway.data_received", "the frame reaches %d handlers of its own application and %d of the other" % (len(got(s1, B[0])), len(got(s1, A[0]))))
                    return
                for s2, _ in feed(W, s1, A[2], bslice(f1, const(cut), const(n))):
                    ok = len(got(s2, A[0])) == 1 and len(got(s2, B[0])) == 1
                    if not ok:
                        rep.violation("ports do not mix", subj, "zigpy_cc.uart.Gateway.data_received", "the interrupted frame is delivered %d times" % len(got(s2, A[0])))
                        return
        rep.ok("ports do not mix", subj)


def waits_apart(rep, W):
    v = syms()
    d = mkcat([byte(sym("z0", "byte"))])
    conf = W.cmd(4, "dataConfirm")
    for name, args in (
        ("data message", [W.dev, const(0x104), v["cl"], v["se"], v["de"], v["tsn"], d]),
        ("device management message", [W.dev, const(0), const(5), const(0), const(0), v["tsn"], mkcat([byte(v["tsn"]), le(W.nwk, 2)])]),
    ):
        st, A, B, t2 = two(W)
        ad = Adapter(W, A[2])
        ad.script = lambda s, r, n: ad.srsp(s, r, n, {"status": const(0)})
        if name.startswith("data"):
            ans = ad.reply(2, 4, conf["ID"], [byte(const(0)), byte(v["se"]), byte(v["tsn"])])
        else:
            r = W.cmd(5, "activeEpRsp")
            ans = ad.reply(2, 5, r["ID"], [le(W.nwk, 2), byte(const(0)), le(W.nwk, 2), byte(const(1)), byte(const(1))])
        for s, r in W.meth(st, A[0], "request", args, aw=True):
            a, b = W.waits(s, A[1]), W.waits(s, B[1])
            if a is None or b is None:
                rep.unknown("waits do not mix", name, "the waiters are not known")
                continue
            if b:
                rep.violation("waits do not mix", name, API + ".wait_for", "the other adapter holds a waiter for it")
                continue
            for s1, _ in feed(W, s, B[2], ans):
                rep.expect(len(W.waits(s1, A[1]) or ()) == len(a) and len(a) > 0, "waits do not mix", name + ", answer on the other port", API + ".data_received", "a frame of one adapter ends a wait for the other")
                del s1
            for s1, _ in feed(W, s.fork(), A[2], ans):
                rep.expect(not W.waits(s1, A[1]), "waits do not mix", name + ", answer on its own port", API + ".data_received", "the answer is not taken")


def locks_apart(rep, W):
    for name in ("version query",):
        st, A, B, t2 = two(W)

        def held(s, t):
            return {h for e, hs in timeline(W, s)[0] if e.kind == "mcall" and e.obj is t and e.name == "write" for h in hs if lock_kind(W, s, h) == "lock"}

        for X, t in ((A, W.transport), (B, t2)):
            pass
        ad = Adapter(W, A[2])
        for s, r in W.meth(st, A[1], "version", [], aw=True):
            la = held(s, W.transport)
            keep, W.transport = W.transport, t2
            try:
                n = s.flags.pop("answered", None)
                ad2 = Adapter(W, B[2])
                for s2, r2 in W.meth(s, B[1], "version", [], aw=True):
                    lb = held(s2, t2)
                    rep.expect(bool(la) and bool(lb) and not (la & lb), "locks do not mix", name, API + "._request_raw", "commands to two adapters are written under one lock" if la & lb else "a command is written without a lock")
            finally:
                W.transport = keep


def objects_apart(rep, W):
    """decoding the next frame leaves the decoded ones as they were"""
    I = W.I
    I.hooks.pop("mcall", None)
    Z = W.glob("zigpy_cc.zpi_object", "ZpiObject")
    table = W.glob("zigpy_cc.definition", "Definition")
    st0 = W.state()
    before = snap(W, st0, table)
    for ss, rows in sorted(W.definition().items()):
        for row in rows:
            if row["type"] != 2 or not decodable(W, row["request"]):
                continue
            subj = "%d.%s" % (ss, row["name"])
            st = W.state()
            cur = [(st, [])]
            # another frame, then the first one again
            for tag in ("a", "b", "a"):
                _, w = W.samples([(n + tag, pt) for n, pt in row["request"]], 2 if tag == "a" else 1)
                nxt = []
                for s, objs in cur:
                    s, fr = W.frame(s, 2, ss, row["ID"], w)
                    for s2, o in W.call(s, W.attr(s, Z, "from_unpi_frame")[1], [fr]):
                        if isinstance(o, Raise):
                            nxt.append((s2, objs))
                            continue
                        nxt.append((s2, objs + [(o, snap(W, s2, o))]))
                cur = nxt
            for s, objs in cur:
                changed = [i for i, (o, x) in enumerate(objs) if snap(W, s, o) != x]
                one = {strip(o) for o, _ in objs if strip(o).op == "ref"}
                parts = [strip(W.field(s, o, "payload", NONE)) for o, _ in objs]
                shared = [x for x in parts if x.op == "ref"]
                if changed or len(one) != len(objs) or len(set(shared)) != len(shared):
                    rep.violation("decoded frames are independent", subj, "zigpy_cc.zpi_object.ZpiObject.from_unpi_frame", "decoding the next frame changes one decoded before" if changed else "two frames are decoded into one object")
                    break
                if snap(W, s, table) != before:
                    rep.violation("the command table stays as it is", subj, "zigpy_cc.zpi_object.ZpiObject.from_unpi_frame", "decoding changes the command table")
                    break
            else:
                rep.ok("decoded frames are independent", subj)


def callers_payload(rep, W):
    """a request leaves the caller's parameters and the command table alone"""
    I = W.I
    table = W.glob("zigpy_cc.definition", "Definition")
    before = snap(W, W.state(), table)
    for ss, rows in sorted(W.definition().items()):
        for row in rows:
            if row["type"] != 1 or any(pt not in W.WRITABLE for _, pt in row["request"]):
                continue
            if rows.index(row) != [r["name"] for r in rows].index(row["name"]):
                continue
            subj = "%d.%s" % (ss, row["name"])
            I.hooks.pop("mcall", None)
            st, api, gw = W.api_world()
            ad = Adapter(W, gw, timeouts=True)
            ad.script = (lambda s, r, n: ad.srsp(s, r, n, {"status": const(0)})) if decodable(W, row["response"]) else (lambda s, r, n: [])
            ad.stuck = lambda I, s, fut, cx, node, timeout: []
            pl = payload_of(W, st, row)
            # an item description has more entries than the command has parameters
            more = tuple((const(k), sym("more." + k, "byte")) for k in ("id", "configid", "len", "offset", "value", "status", "type", "initlen") if k not in {n for n, _ in row["request"]})
            st.w(pl).f["items"] = st.get(pl).f["items"] + more
            was = snap(W, st, pl)
            for s, r in W.meth(st, api, "request", [W.ss(ss), const(row["name"]), pl], aw=True):
                if snap(W, s, pl) != was:
                    rep.violation("the caller's parameters stay as they are", subj, API + ".request", "the request changes the caller's payload")
                    break
                if snap(W, s, table) != before:
                    rep.violation("the command table stays as it is", subj, API + ".request", "the request changes the command table")
                    break
            else:
                rep.ok("the caller's parameters stay as they are", subj)


def started_twice(rep, W):
    from .start import ENDPOINTS, cmds, configured, play, run, scenarios

    I = W.I
    for p in (0, 1, 2):
        for kw in ({}, {"nv": "configured", "coord": False, "endpoints": (1, 2)}):
            cfg = None
            k = dict(kw)
            if k.get("nv"):
                cfg, k["nv"] = configured(W, p)
            label = "product %d, %s" % (p, "configured adapter" if kw else "new adapter")
            cfg, ncp, app, res = run(W, p, cfg, **k)
            ok = [s for s, r in res if not isinstance(r, Raise)]
            if not ok:
                rep.unknown("the second start-up is like the first", label, "start-up never succeeds")
                continue
            first = sent(W, ok[0])
            base = ok[0]
            old = I.fresh_state

            def again():
                s = base.fork()
                s.events = None
                s.flags = {}
                return s

            I.fresh_state = again
            try:
                cfg2, ncp2, app2, res2 = run(W, p, cfg, **k)
            finally:
                I.fresh_state = old
            if not res2:
                rep.violation("the second start-up is like the first", label, APP + ".startup", "it hangs")
            for s, r in res2:
                if isinstance(r, Raise):
                    rep.violation("the second start-up is like the first", label, raise_where(W, s, r), "it fails with %s" % W.exc(s, r))
                    break
                second = sent(W, s)
                if [x for x, _ in second] != [x for x, _ in first]:
                    i = next((i for i, (a, b) in enumerate(zip(first, second)) if a[0] != b[0]), min(len(first), len(second)))
                    loc = (second[i:] or first[i:])[0][1]
                    rep.violation("the second start-up is like the first", label, loc, "command %d differs from the first start-up's (%d and %d commands)" % (i, len(second), len(first)))
                    break
            else:
                if res2:
                    rep.ok("the second start-up is like the first", "%s, %d commands" % (label, len(first)))


def sent(W, s):
    return [(strip(e.args[0]), e.where()) for e in W.writes(s)]


# ------------------------------------------------------------------- C35
BLOCKING = {
    "time.sleep", "os.system", "os.popen", "os.wait", "os.waitpid", "os.spawnl", "os.spawnv", "input", "builtins.input",
    "socket.create_connection", "socket.socket", "socket.gethostbyname", "socket.getaddrinfo", "select.select", "select.poll",
    "signal.pause", "signal.sigwait", "serial.Serial", "serial.serial_for_url", "asyncio.run", "threading.Event", "threading.Lock",
    "threading.RLock", "threading.Condition", "threading.Semaphore", "threading.Barrier", "queue.Queue", "queue.SimpleQueue",
    "threading.BoundedSemaphore", "queue.LifoQueue", "queue.PriorityQueue", "concurrent.futures.wait",
}
BLOCKING_PKG = ("subprocess.", "urllib.request.", "http.client.", "requests.", "multiprocessing.", "telnetlib.", "ftplib.", "smtplib.")
BLOCKING_METHODS = {"run_until_complete", "run_forever"}
EXECUTORS = {"run_in_executor", "to_thread", "submit"}


def c35(rep):
    rep.explain = (
        "Every function of the package runs on the event loop. Every reference in a function body is resolved through the"
        " module's and the function's imports and compared with the known blocking calls of the standard library and of"
        " pyserial (sleeping, processes, sockets, synchronous serial ports, thread primitives, nested event loops); handing"
        " one to an executor is allowed. A loop that waits for something without ever yielding to the event loop is reported"
        " too. The interpreted operations must leave the event loop between the frame written and its answer."
    )
    W = World()
    n = 0
    for name, m in sorted(W.I.prog.modules.items()):
        top = imports(m.tree)
        for fn, qual in functions(m.tree, name):
            n += 1
            al = dict(top)
            al.update(imports(fn))
            for p in params(fn) | assigned(fn):
                if p not in imports(fn):
                    al.pop(p, None)
            bad = None
            allowed = set()
            for x in ast.walk(fn):
                if isinstance(x, ast.Call) and tail(x.func) in EXECUTORS:
                    for a in list(x.args) + [k.value for k in x.keywords]:
                        allowed.update(id(y) for y in ast.walk(a))
            for x in ast.walk(fn):
                if id(x) in allowed:
                    continue
                q = dotted(x, al)
                if q and (q in BLOCKING or q.startswith(BLOCKING_PKG)):
                    bad = (x, "uses %s, which blocks the event loop" % q)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in BLOCKING_METHODS:
                    bad = (x, "runs the event loop from inside it (%s)" % x.func.attr)
                elif isinstance(x, ast.While) and spins(x, fn):
                    bad = (x, "waits in a loop that never yields to the event loop")
                if bad:
                    break
            if bad:
                rep.violation("nothing blocks the event loop", qual, "%s:%d (%s)" % (m.path_rel if hasattr(m, "path_rel") else m.path, bad[0].lineno, qual), bad[1])
            else:
                rep.ok("nothing blocks the event loop", qual)
    if n < 60:
        rep.unknown("nothing blocks the event loop", "package", "only %d functions found" % n)
    yields_(rep, W)


def yields_(rep, W):
    """between a command and its answer other activities run"""
    I = W.I
    for name, needs_sem, fn in operations(W):
        I.hooks.pop("mcall", None)
        st, app, api, gw, sem = W.app_world()
        ad = Adapter(W, gw)
        ad.script = script_for(W, ad, const(0))
        for s, r in fn(st, app, api):
            tr = list(flat(s.trace()))
            w = [i for i, e in enumerate(tr) if e.kind == "mcall" and e.obj is W.transport and e.name == "write"]
            if not w or isinstance(r, Raise) or name.startswith("one-way"):
                continue
            ok = any(e.kind in ("await", "waitfor") for e in tr[w[-1]:])
            rep.expect(ok, "waiting yields to others", name, tr[w[-1]].where(), "the answer is not awaited on the event loop")


def imports(node):
    out = {}
    for x in walk_own(node) if not isinstance(node, ast.Module) else ast.walk(node):
        if isinstance(x, ast.Import):
            for a in x.names:
                if a.asname:
                    out[a.asname] = a.name
                else:
                    out[a.name.split(".")[0]] = a.name.split(".")[0]
        elif isinstance(x, ast.ImportFrom) and not x.level:
            for a in x.names:
                out[a.asname or a.name] = "%s.%s" % (x.module, a.name)
    return out


def functions(tree, mod):
    """every function and method, nested ones as part of the outer one"""
    def go(body, q):
        for x in body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield x, "%s.%s" % (q, x.name)
            elif isinstance(x, ast.ClassDef):
                yield from go(x.body, "%s.%s" % (q, x.name))
            elif isinstance(x, (ast.If, ast.Try, ast.With)):
                for k in ("body", "orelse", "finalbody"):
                    yield from go(getattr(x, k, []) or [], q)

    return list(go(tree.body, mod))


def params(fn):
    a = fn.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}


def assigned(fn):
    return {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def dotted(x, al):
    parts = []
    while isinstance(x, ast.Attribute):
        parts.append(x.attr)
        x = x.value
    if not isinstance(x, ast.Name):
        return None
    if x.id not in al:
        return "builtins." + x.id if x.id == "input" and not parts else None
    return ".".join([al[x.id]] + parts[::-1])


def tail(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


LOOKS = ("done", "cancelled", "is_set", "time", "monotonic", "locked", "perf_counter", "is_closing", "is_alive", "empty", "full")
HARMLESS = ("debug", "info", "warning", "error", "exception", "log", "cancel", "print") + LOOKS


def spins(loop, fn):
    """a loop none of whose ways out can be changed by what is in it, and that never awaits"""
    own = list(ast.walk(loop))
    if any(isinstance(x, (ast.Await, ast.AsyncFor, ast.AsyncWith, ast.Raise, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Try)) for x in own):
        return False
    stored = {x.id for x in own if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
    if any(isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)) for x in own):
        return False
    tests = []
    if not (isinstance(loop.test, ast.Constant) and loop.test.value):
        if isinstance(loop.test, ast.Constant):
            return False
        tests.append(loop.test)

    def ways_out(body, under):
        for x in body:
            if isinstance(x, (ast.Break, ast.Return)):
                if not under:
                    return False
                tests.extend(under)
            for part in ("body", "orelse", "finalbody"):
                inner = getattr(x, part, None)
                if isinstance(inner, list) and not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    if not ways_out(inner, under + ([x.test] if isinstance(x, (ast.If, ast.While)) else [])):
                        return False
        return True

    if not ways_out(loop.body, []):
        return False
    # a call in the body may change what the tests look at
    intests = {id(y) for t in tests for y in ast.walk(t)}
    calls = [x for b in loop.body for x in ast.walk(b) if isinstance(x, ast.Call) and id(x) not in intests]
    if any(tail(c.func) not in HARMLESS for c in calls) and tests:
        return False
    for t in tests:
        if {x.id for x in ast.walk(t) if isinstance(x, ast.Name)} & stored:
            return False
        if any(isinstance(x, ast.Call) and tail(x.func) not in LOOKS for x in ast.walk(t)):
            return False
    return True


# ------------------------------------------------------------------- C36
def c36(rep):
    rep.explain = (
        "Every operation, start-up on each adapter generation, losing the port, shutting down and every received frame are"
        " interpreted; a coroutine that is created and then dropped without being awaited or handed to the event loop is"
        " reported."
    )
    W = World()
    I = W.I
    for name, needs_sem, fn in operations(W):
        I.hooks.pop("mcall", None)
        st, app, api, gw, sem = W.app_world()
        opened(W, st, app)
        ad = Adapter(W, gw)
        ad.script = script_for(W, ad, const(0))
        carried(rep, W, name, fn(st, app, api))
    from .start import play, scenarios

    for label, p, kw in scenarios(W, rep.tier):
        cfg, ncp, app, res = play(W, p, kw)
        carried(rep, W, label, res)
    for name, fn in (
        ("losing the port", lambda st, app, api, gw: W.meth(st, gw, "connection_lost", [NONE])),
        ("shutting down", lambda st, app, api, gw: W.meth(st, app, "shutdown", [], aw=True)),
        ("shutting down while reconnecting", lambda st, app, api, gw: [y for s, _ in W.meth(st, gw, "connection_lost", [NONE]) for y in W.meth(s, app, "shutdown", [], aw=True)]),
        ("closing the port", lambda st, app, api, gw: W.meth(st, api, "close", [])),
        ("removing a device", lambda st, app, api, gw: W.meth(st, app, "force_remove", [W.dev], aw=True)),
    ):
        I.hooks.pop("mcall", None)
        st, app, api, gw, sem = W.app_world()
        opened(W, st, app)
        carried(rep, W, name, fn(st, app, api, gw))
    received(rep, W)


def carried(rep, W, subj, res):
    for s, r in res:
        bad = [e for e in flat(s.trace()) if e.kind == "dropped"] or forgotten(s, r)
        if bad:
            rep.violation("every started activity is carried out", subj, bad[0].where(), "the coroutine %s is created but never awaited" % short(bad[0].coro))
            return
    if res:
        rep.ok("every started activity is carried out", "%s (%d paths)" % (subj, len(res)))


def forgotten(s, r):
    """the coroutines of a path that were not awaited and that nothing refers to any more"""
    tr = list(flat(s.trace()))
    made = [e for e in tr if e.kind == "coro" and e.loc[0] != "<entry>"]
    used = {e.coro for e in tr if e.kind == "coro_used"}
    left = [e for e in made if e.coro not in used]
    if not left:
        return []
    held = set()
    seen = set()
    todo = [r.exc if isinstance(r, Raise) else r] + [v for e in tr if e.kind != "coro" for v in e.d.values()]
    # the variables of a function that returned are gone unless a closure refers to them
    todo += [v for o in s.heap.values() if o.kind != "frame" for v in o.f.values()] + list(s.facts) + list(s.oattrs.values()) + list(s.flags.values())
    while todo:
        x = todo.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "coro":
                held.add(x)
            elif x.op == "ref" and s.get(x).kind == "frame":
                todo.extend(s.get(x).f.values())
            todo.extend(x.args)
        elif isinstance(x, (tuple, list, set)):
            todo.extend(x)
        elif isinstance(x, dict):
            todo.extend(x.keys())
            todo.extend(x.values())
    return [e for e in left if e.coro not in held]


def short(c):
    f = c.args[0]
    return f if isinstance(f, str) else getattr(f, "qual", None) or show(c)[:60]


def received(rep, W):
    I = W.I
    for ss, rows in sorted(W.definition().items()):
        for row in rows:
            if row["type"] != 2 or not decodable(W, row["request"]):
                continue
            I.hooks.pop("mcall", None)
            st, app, api, gw, sem = W.app_world()
            opened(W, st, app)
            Net(W, app)
            ad = Adapter(W, gw)
            _, w = W.samples(row["request"], 1)
            carried(rep, W, "frame %d.%s" % (ss, row["name"]), feed(W, st.fork(), gw, ad.reply(2, ss, row["ID"], [w])))
            for s1, r1 in W.meth(st, gw, "connection_lost", [NONE])[:1]:
                # the port was lost and is being reopened in the background
                carried(rep, W, "frame %d.%s while reconnecting" % (ss, row["name"]), feed(W, s1, gw, ad.reply(2, ss, row["ID"], [w])))
