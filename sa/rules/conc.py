"""Concurrency and waiting: C14, C15."""
from ..load import AnalysisError
from ..world import *
from .wire import judge, where, raise_where, wval
from .send import byte, le, syms
from .recv import APP, API, Net, decodable, feed, opened, writable, zdo_payload, zrow

LOCKS = ("asyncio.Lock", "asyncio.Semaphore", "asyncio.BoundedSemaphore")


def lock_kind(W, s, o):
    ob = W.I.obj(s, strip(o)) if isinstance(o, Term) else None
    if ob is not None and ob.cls is not None and ob.cls.op == "ext" and ob.cls.args[0] in LOCKS:
        return "lock" if ob.cls.args[0] == "asyncio.Lock" else "sem"
    return None


def timeline(W, s):
    """(event, held objects before it) for every event of the path"""
    held = []
    out = []
    for e in flat(s.trace()):
        out.append((e, tuple(held)))
        if e.kind == "acquire" and lock_kind(W, s, e.obj):
            held.append(strip(e.obj))
        elif e.kind == "release" and lock_kind(W, s, e.obj):
            o = strip(e.obj)
            if o in held:
                held.remove(o)
            else:
                out.append((Ev("over-release", e.loc, obj=o), tuple(held)))
    return out, held


def payload_of(W, st, row, count=1, over=None):
    vals, data = W.samples(row["request"], count)
    return W.I.dict_(st, [(const(n), wval(W, st, pt, (over or {}).get(n, x))) for n, pt, x in vals])


def operations(W):
    """(name, needs the message semaphore, fn(st, app, api) -> results)"""
    v = syms()
    d = mkcat([byte(sym("z%d" % i, "byte")) for i in range(3)])
    t = v["tsn"]
    reset = W.cmd(1, "resetReq")
    ops = [
        ("unicast message", True, lambda st, app, api: W.meth(st, app, "request", [W.dev, const(0x104), v["cl"], v["se"], v["de"], t, d], aw=True)),
        ("unicast message without reply", True, lambda st, app, api: W.meth(st, app, "request", [W.dev, const(0x104), v["cl"], v["se"], v["de"], t, d], {"expect_reply": FALSE}, aw=True)),
        ("group message", True, lambda st, app, api: W.meth(st, app, "mrequest", [v["grp"], const(0x104), v["cl"], const(1), t, d], aw=True)),
        ("broadcast message", True, lambda st, app, api: W.meth(st, app, "broadcast", [const(0x104), v["cl"], v["se"], v["de"], v["grp"], v["rad"], t, d], aw=True)),
        ("device management message", True, lambda st, app, api: W.meth(st, app, "request", [W.dev, const(0), const(5), const(0), const(0), t, mkcat([byte(t), le(W.nwk, 2)])], aw=True)),
        ("permit joining", True, lambda st, app, api: W.meth(st, app, "permit_ncp", [const(60)], aw=True)),
        ("adapter command", False, lambda st, app, api: W.meth(st, api, "request", [W.ss(1), const("version"), W.I.dict_(st, [])], aw=True)),
        ("adapter command with status", False, lambda st, app, api: W.meth(st, api, "request", [W.ss(1), const("osalNvWrite"), payload_of(W, st, W.cmd(1, "osalNvWrite"))], aw=True)),
        ("adapter reset", False, lambda st, app, api: W.meth(st, api, "request", [W.ss(1), const("resetReq"), payload_of(W, st, reset)], aw=True)),
        ("version query", False, lambda st, app, api: W.meth(st, api, "version", [], aw=True)),
    ]
    # commands that are not answered, and the other reset command
    for ss, rows in sorted(W.definition().items()):
        for row in rows:
            if row["type"] == 2 and row["name"] in ("systemReset", "autoFindDestination") and all(pt in W.WRITABLE for _, pt in row["request"]):
                ops.append(("one-way command %d.%s" % (ss, row["name"]), False, lambda st, app, api, ss=ss, row=row: W.meth(st, api, "request", [W.ss(ss), const(row["name"]), payload_of(W, st, row)], aw=True)))
    return ops


def script_for(W, ad, status=None):
    """answers commands, and a reset with its indication"""
    ind = W.cmd(1, "resetInd")

    def script(s, row, n):
        if row is None:
            return []
        if row["name"] == "resetReq":
            _, w = W.samples(ind["request"], 1)
            return [ad.reply(2, 1, ind["ID"], [w])]
        return ad.srsp(s, row, n, {"status": status} if status is not None else None)

    return script


def c14(rep):
    rep.explain = (
        "Every send operation is interpreted with the adapter answering, rejecting or staying silent and with cancellation"
        " at every await. On each path the events between acquire and release are examined: a frame is written only under"
        " the one command lock, which is held until the command's own answer, rejection, timeout or cancellation; messages"
        " additionally hold a permit of the message semaphore, taken before the lock; everything taken is given back exactly"
        " once on every exit; nothing waits for a permit or for itself while holding the lock. The start-up sequence must"
        " size the semaphore 16 for Z-Stack 3.x.0 and 2 otherwise."
    )
    W = World()
    I = W.I
    for name, needs_sem, fn in operations(W):
        for answer in ("answered", "silent"):
            I.hooks.pop("mcall", None)
            st, app, api, gw, sem = W.app_world()
            ad = Adapter(W, gw, timeouts=True)
            ad.script = script_for(W, ad) if answer == "answered" else (lambda s, row, n: [])
            if answer == "silent":
                # only a timeout or a cancellation ends the wait
                ad.stuck = lambda I, s, fut, cx, node, timeout: []
            I.cancel_points = 1
            try:
                res = fn(st, app, api)
            finally:
                I.cancel_points = 0
            subj = "%s, %s" % (name, answer)
            if not res:
                rep.violation("every wait can end", subj, API, "the operation waits without a timeout")
                continue
            lockset(rep, W, subj, res, sem, needs_sem)
    # one lock and one set of permits for everything an adapter is sent
    for name, needs_sem, fn in operations(W):
        I.hooks.pop("mcall", None)
        st, app, api, gw, sem = W.app_world()
        ad = Adapter(W, gw)
        ad.script = script_for(W, ad, const(0))
        for s0, _ in W.meth(st, api, "version", [], aw=True):
            for s, r in fn(s0, app, api):
                ls = {h for e, held in timeline(W, s)[0] if e.kind == "mcall" and e.obj is W.transport and e.name == "write" for h in held if lock_kind(W, s, h) == "lock"}
                rep.expect(len(ls) == 1, "one command lock", "version query, then %s" % name, API, "the two commands are written under %d different locks" % len(ls))
    every_command(rep, W)
    semaphore_size(rep, W)


def every_command(rep, W):
    """whatever command is sent, it is written under the lock of all the others and answered before that is released"""
    I = W.I
    I.hooks.pop("mcall", None)
    st, api, gw = W.api_world()
    ad = Adapter(W, gw)
    ad.script = script_for(W, ad, const(0))
    base = []
    for s, r in W.meth(st, api, "version", [], aw=True):
        ls = {h for e, held in timeline(W, s)[0] if e.kind == "mcall" and e.obj is W.transport and e.name == "write" for h in held if lock_kind(W, s, h) == "lock"}
        if not isinstance(r, Raise) and len(ls) == 1:
            base.append((s, ls.pop()))
    if not base:
        rep.unknown("one command lock", "every command", "the version query is not answered")
        return
    s0, lock = base[0]
    for ss, row in commands(W):
        subj = "%d.%s" % (ss, row["name"])
        s1 = s0.fork()
        n0 = len(list(flat(s1.trace())))
        bad = None
        wrote = 0
        for s, r in W.meth(s1, api, "request", [W.ss(ss), const(row["name"]), payload_of(W, s1, row)], aw=True):
            tl = timeline(W, s)[0][n0:]
            ws = [(i, e, held) for i, (e, held) in enumerate(tl) if e.kind == "mcall" and e.obj is W.transport and e.name == "write"]
            for i, e, held in ws:
                wrote += 1
                if lock not in held:
                    bad = bad or (e.where(), "the command is not written under the lock the other commands are written under")
                for e2, h2 in tl[i:]:
                    if e2.kind in ("await", "waitfor") and lock not in h2 and is_reply_wait(W, s, e2):
                        bad = bad or (e2.where(), "the command lock is released before the command's answer")
            if timeline(W, s)[1]:
                bad = bad or (ws[-1][1].where() if ws else API, "a lock is still held after the command ended")
        if bad:
            rep.violation("one command lock", subj, *bad)
        elif wrote:
            rep.ok("one command lock", subj)


def commands(W):
    """the commands of the table the driver can send"""
    for ss, rows in sorted(W.definition().items()):
        seen = set()
        for row in rows:
            if row.get("type") not in (1, 2) or "request" not in row or row["name"] in seen or any(pt not in W.WRITABLE for _, pt in row["request"]):
                continue
            seen.add(row["name"])
            yield ss, row


def lockset(rep, W, subj, res, sem, needs_sem):
    ok = True
    wrote = 0
    for s, r in res:
        tl, left = timeline(W, s)
        order = []
        end = "cancelled" if any(e.kind == "cancelled" for e, _ in tl) else "timeout" if any(e.kind == "timeout" for e, _ in tl) else "raise" if isinstance(r, Raise) else "return"
        if left:
            rep.violation("everything taken is given back", subj, first_loc(tl, left[0]), "%s is still held after the operation ended by %s" % (lock_kind(W, s, left[0]), end))
            return
        last_write = None
        for i, (e, held) in enumerate(tl):
            if e.kind == "over-release":
                rep.violation("everything taken is given back", subj, e.where(), "a %s is released that is not held" % lock_kind(W, s, e.obj))
                return
            if e.kind == "acquire" and lock_kind(W, s, e.obj):
                o = strip(e.obj)
                if o in held:
                    rep.violation("no wait for itself", subj, e.where(), "a %s already held by this operation is awaited" % lock_kind(W, s, o))
                    return
                if lock_kind(W, s, o) == "sem" and any(lock_kind(W, s, h) == "lock" for h in held):
                    rep.violation("permits before the lock", subj, e.where(), "a message permit is awaited while holding the command lock")
                    return
            if e.kind == "mcall" and e.obj is W.transport and e.name == "write":
                wrote += 1
                hl = [h for h in held if lock_kind(W, s, h) == "lock"]
                if len(hl) != 1:
                    rep.violation("written under the command lock", subj, e.where(), "a frame is written while holding %d locks" % len(hl))
                    return
                if needs_sem and not any(h is strip(sem) for h in held):
                    rep.violation("sent with a permit", subj, e.where(), "a message is written without holding a permit of the message semaphore")
                    return
                last_write = (i, hl[0])
        if last_write is not None:
            i, lk = last_write
            for e, held in tl[i:]:
                if e.kind in ("await", "waitfor") and lk not in held and is_reply_wait(W, s, e):
                    rep.violation("lock held until the answer", subj, e.where(), "the command lock is released before the answer is awaited")
                    return
                if e.kind == "acquire" and strip(e.obj) is lk:
                    break
    if not wrote:
        rep.violation("written under the command lock", subj, APP, "no frame is written on any path")
        return
    for rule in ("everything taken is given back", "no wait for itself", "permits before the lock", "written under the command lock", "lock held until the answer") + (("sent with a permit",) if needs_sem else ()):
        rep.ok(rule, "%s (%d paths)" % (subj, len(res)))


def is_reply_wait(W, s, e):
    a = e.get("what") or e.get("aw")
    a = a if isinstance(a, Term) else None
    ob = W.I.obj(s, a) if a is not None else None
    return ob is not None and ob.cls is not None and ob.cls.op == "ext" and ob.cls.args[0] == "asyncio.Future"


def first_loc(tl, o):
    for e, _ in tl:
        if e.kind == "acquire" and strip(e.obj) is o:
            return e.where()
    return API


def semaphore_size(rep, W):
    from .start import startup_world

    for product, size in ((0, 2), (1, 16), (2, 2)):
        for auto in (TRUE, FALSE):
            n = 0
            seen = list(startup_world(W, product, auto))
            if auto is TRUE:
                # an adapter of another generation takes the place of the one before
                for p0 in (0, 1, 2):
                    if p0 != product:
                        seen += replaced(W, p0, product)
            for s, r, app, peer in seen:
                if isinstance(r, Raise):
                    continue
                sem = W.field(s, app, "_semaphore")
                ob = W.I.obj(s, sem) if sem is not None else None
                if ob is None or lock_kind(W, s, sem) != "sem":
                    rep.violation("number of permits", "product %d" % product, APP + ".startup", "no message semaphore after start-up")
                    continue
                v = sem_count(ob)
                if v is None:
                    rep.unknown("number of permits", "product %d" % product, "unknown size")
                    continue
                n += 1
                rep.expect(W.eq(s, v, const(size)) is True, "number of permits", "product %d, forming %s" % (product, cval(auto)), APP + ".startup", "the semaphore admits %s messages, expected %d" % (show(v), size))
            if not n:
                rep.unknown("number of permits", "product %d" % product, "start-up never succeeds")


def replaced(W, before, now, auto=TRUE):
    """[(state, result, application, adapter)] of a second start-up of the same program, on another, fresh adapter"""
    from .start import run

    cfg, n, app, res = run(W, before)
    out = []
    for s0, r0 in [x for x in res if not isinstance(x[1], Raise)][:1]:
        c, n2, app, res2 = run(W, now, cfg, auto=auto, again=(s0, app))
        out += [(s, r, app, n2) for s, r in res2]
    return out


def sem_count(ob):
    a = ob.f.get("args")
    if a is not None and a.op == "tup" and a.args:
        return strip(a.args[0])
    for k in ("$kw_value",):
        if k in ob.f:
            return strip(ob.f[k])
    if a is not None and a.op == "tup":
        return const(1)
    return None


# ------------------------------------------------------------------- C15
def c15(rep):
    rep.explain = (
        "Every operation is interpreted against a silent adapter: each wait for a frame must carry a positive constant"
        " timeout of at most a minute and end in a timeout error for the caller. All timers are then fired: no waiter may be"
        " left behind, whether the operation ended by answer, rejection, timeout or cancellation, and a waiter may not be"
        " dropped before its own wait is over."
    )
    W = World()
    I = W.I
    for name, needs_sem, fn in operations(W):
        for answer in ("silent", "answered"):
            I.hooks.pop("mcall", None)
            st, app, api, gw, sem = W.app_world()
            opened(W, st, app)
            Net(W, app)
            ad = Adapter(W, gw, timeouts=True)
            ad.script = script_for(W, ad) if answer == "answered" else (lambda s, row, n: [])
            ad.stuck = lambda I, s, fut, cx, node, timeout: []
            I.cancel_points = 1
            try:
                res = fn(st, app, api)
            finally:
                I.cancel_points = 0
            subj = "%s, %s" % (name, answer)
            timed = 0
            for s, r in res:
                if not finite(rep, W, s, subj):
                    break
                ev = flat(s.trace())
                to = [e for e in flat(s.trace()) if e.kind == "timeout"]
                if to:
                    timed += 1
                    if not isinstance(r, Raise) or not W.exc_is(s, r, "asyncio.TimeoutError"):
                        rep.violation("silence is reported", subj, to[-1].where(), "a command that is never answered ends with %s" % (W.exc(s, r) if isinstance(r, Raise) else show(r)))
                        break
                if not drained(rep, W, s, api, subj):
                    break
            else:
                if timed or answer == "answered" or name.startswith("one-way command") or not any(W.writes(s) for s, _ in res):
                    rep.ok("silence is reported", subj)
                else:
                    rep.violation("silence is reported", subj, API, "the command waits for ever for its answer" if not res else "no wait for an answer")
    # waits of the start-up sequence
    from .start import boot_waits

    boot_waits(rep, W, finite)
    kept(rep, W)
    independent(rep, W)
    rejects(rep, W)


def junk(W, row):
    """(label, bytes) of frames that are no answer to anything"""
    ss, cid = row["ss"], row["ID"]

    def raw(ct, ss, cid, data=(), wrong=0):
        body = [len(data), (ct << 5) | ss, cid] + list(data)
        fcs = wrong
        for x in body:
            fcs ^= x
        return const(bytes([0xFE] + body + [fcs]))

    table = W.definition()
    free = next(i for i in range(255, -1, -1) if i not in {r["ID"] for r in table[ss]})
    fixed = [r for r in table[ss] if r["type"] == 1 and r["ID"] != cid and r["response"] and r["response"][0][1] in (0, 1, 2, 3)]
    yield "a wrong checksum", raw(3, ss, cid, (0,), 1)
    yield "a command that does not exist", raw(3, ss, free, (0,))
    yield "an undefined type", raw(5, ss, cid, (0,))
    yield "an undefined subsystem", raw(3, 31, cid, (0,))
    if row["response"] and row["response"][0][1] in (0, 1, 2, 3):
        yield "a truncated answer", raw(3, ss, cid)
    for r in fixed[:1]:
        yield "a truncated answer to another command", raw(3, ss, r["ID"])
    yield "a truncated event", raw(2, 5, W.cmd(5, "stateChangeInd")["ID"])
    yield "an event that does not exist", raw(2, ss, free, (0, 0))


def rejects(rep, W, only=None):
    """a frame that is rejected, or is no answer, leaves every wait as it is"""
    I = W.I
    rule = "a rejected frame leaves the waits alone"
    for name, needs_sem, fn in operations(W):
        if only is not None and name not in only:
            continue

        def go(label):
            I.hooks.pop("mcall", None)
            st, app, api, gw, sem = W.app_world()
            opened(W, st, app)
            Net(W, app)
            ad = Adapter(W, gw)
            answer = script_for(W, ad, const(0))

            def script(s, row, n):
                bad = [f for l, f in junk(W, row) if l == label] if row is not None and row.get("response") is not None else []
                return bad + list(answer(s, row, n) or [])

            ad.script = script
            lost = []
            ad.stuck = lambda I, s, fut, cx, node, timeout: lost.append(s) or []
            res = fn(st, app, api)
            left = sorted({len(W.waits(s, api) or ()) for s, r in res})
            return lost, left, res

        lost0, left0, res0 = go(None)
        if lost0 or any(isinstance(r, Raise) for _, r in res0) or not res0 or not any(W.writes(s) for s, _ in res0):
            continue
        for label in ("a wrong checksum", "a command that does not exist", "an undefined type", "an undefined subsystem", "a truncated answer", "a truncated answer to another command", "a truncated event", "an event that does not exist"):
            lost, left, res = go(label)
            subj = "%s, %s" % (name, label)
            bad = [(s, r) for s, r in res if isinstance(r, Raise)]
            if lost:
                rep.violation(rule, subj, API + ".data_received", "the answer that follows does not end the wait any more")
            elif bad:
                rep.violation(rule, subj, raise_where(W, *bad[0]), "the command ends with %s" % W.exc(*bad[0]))
            elif left != left0:
                rep.violation(rule, subj, API + ".data_received", "%s waiter(s) are left, expected %s" % (left, left0))
            else:
                rep.ok(rule, subj)


def kept(rep, W):
    """the waits of start-up stay registered for as long as they are waited for, and no longer"""
    for label, app, res, want in lost_events(W):
        if not res:
            rep.violation("waits are bounded", label, API + ".wait_for", "start-up waits for ever")
        for s, r in res:
            to = [e for e in flat(s.trace()) if e.kind == "timeout"]
            api = W.field(s, app, "_api")
            if not [e for e in flat(s.trace()) if e.kind == "injected"] or not to or W.I.obj(s, api) is None:
                continue
            t = strip(to[0].timeout)
            if not is_num(t):
                continue
            tm = sorted((e for e in timers(s) if is_num(strip(e.delay))), key=lambda e: numval(strip(e.delay)))
            cur = [s.fork()]
            for e in [e for e in tm if numval(strip(e.delay)) < numval(t)]:
                cur = [y for x in cur for y, _ in W.call(x, e.fn, list(e.args))]
            for x in cur:
                w = W.waits(x, api)
                if w is None:
                    rep.unknown("a waiter outlives its wait", label, "the waiters are not known")
                else:
                    rep.expect(len(w) >= 1, "a waiter outlives its wait", label, tm[-1].where() if tm else API + ".wait_for", "the waiter is dropped before the %s s its event is awaited for are over" % show(t))
            for e in [e for e in tm if numval(strip(e.delay)) >= numval(t)]:
                cur = [y for x in cur for y, _ in W.call(x, e.fn, list(e.args))]
            for x in cur:
                w = W.waits(x, api)
                if w is not None:
                    rep.expect(not w, "no waiter is left behind", label, tm[-1].where() if tm else API + ".wait_for", "%d waiter(s) stay registered for ever" % len(w))


def lost_events(W):
    """(label, application, paths, seconds) of the start-ups one of whose events never comes"""
    from .start import configured, run

    def lost(*names):
        return lambda s, e: "no event" if e.name in names and not (e.name == "bdbStartCommissioning" and cval(strip(e.f["mode"])) != 4) else None

    for p in (0, 1, 2):
        app, res = run(W, p, fail=lost("bdbStartCommissioning", "startupFromApp"))[2:4]
        yield "product %d, the coordinator does not start" % p, app, res, 60
        cfg, nv = configured(W, p)
        app, res = run(W, p, cfg, nv=nv, coord=False, fail=lost("startupFromApp"))[2:4]
        yield "product %d, the stopped coordinator does not start" % p, app, res, 60
        app, res = run(W, p, cfg, nv=nv, coord=True, fail=lost("activeEpReq"))[2:4]
        yield "product %d, no endpoint list" % p, app, res, 10


def finite(rep, W, s, subj):
    waits = {}
    for e in flat(s.trace()):
        if e.kind == "waitfor":
            t = e.timeout
            waits[e.aw] = True
            if t is NONE:
                rep.violation("waits are bounded", subj, e.where(), "an answer is awaited without a timeout")
                return False
            if not is_num(strip(t)):
                rep.unknown("waits are bounded", subj, "timeout %s" % show(t))
                continue
            x = numval(strip(t))
            if not 0 < x <= 65:
                rep.violation("waits are bounded", subj, e.where(), "an answer is awaited for %s s" % show(strip(t)))
                return False
        elif e.kind == "await" and is_reply_wait(W, s, e) and e.get("timeout") is None and e.what not in waits:
            rep.violation("waits are bounded", subj, e.where(), "an answer is awaited without a timeout")
            return False
    rep.ok("waits are bounded", subj)
    return True


def timers(s):
    cancelled = [e.get("obj") or e.get("handle") for e in flat(s.trace()) if e.kind == "timer_cancel"]
    return [e for e in flat(s.trace()) if e.kind == "call_later" and e.get("handle") not in cancelled]


def held(W, s, api):
    """waits (a future, or an object that holds one) in any container of the API object other than a bounded queue"""
    out, seen = [], set()

    def is_wait(v):
        ob = W.I.obj(s, v)
        if ob is None or ob.kind != "inst":
            return False
        if "$state" in ob.f:
            return True
        return any(isinstance(x, Term) and x.op == "ref" and s.has(x) and s.get(x).kind == "inst" and "$state" in s.get(x).f and s.get(x).cls == mk("ext", "asyncio.Future") for x in ob.f.values())

    def walk(v, depth):
        ob = W.I.obj(s, v) if isinstance(v, Term) and v.op == "ref" else None
        if ob is None or v in seen or depth > 4:
            return
        seen.add(v)
        if ob.kind == "dict":
            vals = [x for _, x in ob.f.get("items") or ()]
        elif ob.kind in ("list", "set"):
            if ob.f.get("maxlen") not in (None, NONE):
                return
            vals = lib.known_items(W.I, s, v) or ()
        else:
            return
        for x in vals:
            if is_wait(x):
                out.append(x)
            else:
                walk(x, depth + 1)

    ob = W.I.obj(s, api)
    for x in ob.f.values() if ob is not None else ():
        walk(x, 0)
    return out


def drained(rep, W, s, api, subj):
    """fire every timer, earliest first: no waiter is left"""
    w = W.waits(s, api)
    if w is None:
        rep.unknown("no waiter is left behind", subj, "the waiters are not known")
        return True
    w = w or held(W, s, api)
    if not w:
        rep.ok("no waiter is left behind", subj)
        return True
    tm = timers(s)
    for e in tm:
        d = strip(e.delay)
        if not is_num(d) or not 0 < numval(d) <= 66:
            rep.violation("no waiter is left behind", subj, e.where(), "a clean-up timer runs after %s s" % show(d))
            return False
    cur = [s.fork()]
    for e in sorted(tm, key=lambda e: numval(strip(e.delay))):
        cur = [s2 for s1 in cur for s2, r in W.call(s1, e.fn, list(e.args))]
    for s2 in cur:
        w2 = W.waits(s2, api) or held(W, s2, api)
        if w2:
            loc = tm[-1].where() if tm else API + ".wait_for"
            rep.violation("no waiter is left behind", subj, loc, "%d waiter(s) stay registered for ever" % len(w2))
            return False
    rep.ok("no waiter is left behind", subj)
    # a waiter outlives its own wait
    longest = [numval(strip(e.timeout)) for e in flat(s.trace()) if e.kind == "waitfor" and is_num(strip(e.timeout))]
    if longest and tm and max(numval(strip(e.delay)) for e in tm) < max(longest):
        rep.violation("a waiter outlives its wait", subj, tm[0].where(), "the waiter is dropped after %s s while its answer is awaited for %s s" % (float(max(numval(strip(e.delay)) for e in tm)), float(max(longest))))
        return False
    return True


def independent(rep, W):
    """the clean-up of one waiter leaves the others alone, and an answered waiter is gone at once"""
    v = syms()
    I = W.I
    I.hooks.pop("mcall", None)
    st, app, api, gw, sem = W.app_world()
    opened(W, st, app)
    Net(W, app)
    ad = Adapter(W, gw)
    ad.script = lambda s, r, n: ad.srsp(s, r, n, {"status": const(0)})
    d = mkcat([byte(sym("z0", "byte"))])
    t2 = sym("tsn2", "byte")
    st.assume(eq0(sub(t2, v["tsn"])), False)
    conf = W.cmd(4, "dataConfirm")
    cur = W.meth(st, app, "request", [W.dev, const(0x104), v["cl"], v["se"], v["de"], v["tsn"], d], aw=True)
    for s, r in cur:
        first = timers(s)
        for s1, r1 in W.meth(s, app, "request", [W.dev, const(0x104), v["cl"], v["se"], v["de"], t2, d], aw=True):
            states = [s1.fork()]
            for e in first:
                states = [y for x in states for y, _ in W.call(x, e.fn, list(e.args))]
            for x in states:
                w = W.waits(x, api) or {}
                rep.expect(len(w) == 1, "clean-up is per waiter", "first of two messages expires", API + ".wait_for", "%d waiters are left, expected the second message's" % len(w))
                for y, _ in feed(W, x, gw, ad.reply(2, 4, conf["ID"], [byte(const(0)), byte(v["se"]), byte(t2)])):
                    w = W.waits(y, api) or {}
                    rep.expect(not w, "clean-up is per waiter", "second message's confirmation", API + ".data_received", "the confirmation of the second message finds no waiter")
            for s2, _ in feed(W, s1.fork(), gw, ad.reply(2, 4, conf["ID"], [byte(const(0)), byte(v["se"]), byte(v["tsn"])])):
                w = W.waits(s2, api) or {}
                rep.expect(len(w) == 1, "an answered waiter is gone", "confirmation of the first message", API + ".data_received", "%d waiters are left, expected one" % len(w))
                # a late timer of an answered waiter does no harm
                sts = [s2]
                raised = None
                for e in first:
                    nxt = []
                    for x in sts:
                        for y, rr in W.call(x, e.fn, list(e.args)):
                            if isinstance(rr, Raise):
                                raised = (y, rr)
                            nxt.append(y)
                    sts = nxt
                for x in sts:
                    w = W.waits(x, api) or {}
                    rep.expect(len(w) == 1 and raised is None, "clean-up is per waiter", "timer of an answered waiter", API + ".wait_for", "it removes another waiter or raises")


# ------------------------------------------------------------------- C32
SLOW = ("bdbStartCommissioning", "startupFromApp")
RESETS = ((1, "resetReq"), (6, "systemReset"))


def c32(rep):
    rep.explain = (
        "Every command of the table that can be encoded is interpreted from API.request against an adapter that stays silent"
        " and against one that answers. On the silent paths the wait that ends in the time-out must have exactly the time"
        " the command is given: 6 s for a reply, 20 s for the two commands that start the network, 30 s for the adapter to"
        " come back after either reset command. A one-way command ends without any wait. A reset is completed by the"
        " adapter's reset indication and by nothing else. Waiters for a device's reply must survive 10 s, and start-up must"
        " give the coordinator 60 s to start and the endpoint list 10 s."
    )
    W = World()
    I = W.I
    n = 0
    for ss, row in commands(W):
        n += 1
        one_command(rep, W, ss, row, row["type"])
    if n < 150:
        rep.unknown("time given to a command", "command table", "only %d commands can be encoded" % n)
    reply_time(rep, W)
    boot_time(rep, W)


def command_paths(W, ss, row, script, status=None, stuck=None):
    I = W.I
    I.hooks.pop("mcall", None)
    st, api, gw = W.api_world()
    ad = Adapter(W, gw, timeouts=True)
    ad.script = script(ad)
    ad.stuck = lambda I, s, fut, cx, node, timeout: []
    if stuck is not None:
        # only paths on which the script's frames have arrived
        ad.timeouts = False
        ad.stuck = lambda I, s, fut, cx, node, timeout: stuck.append(s) or []
    return W.meth(st, api, "request", [W.ss(ss), const(row["name"]), payload_of(W, st, row)], aw=True)


def one_command(rep, W, ss, row, ct):
    subj = "%d.%s" % (ss, row["name"])
    reset = ct == 2 and (ss, row["name"]) in RESETS
    want = None if ct == 2 and not reset else 30 if reset else 20 if row["name"] in SLOW else 6
    res = command_paths(W, ss, row, lambda ad: lambda s, r, n: [])
    ended = 0
    for s, r in res:
        ws = W.writes(s)
        if not ws:
            if isinstance(r, Raise):
                continue
            rep.violation("time given to a command", subj, API + ".request", "the command is not written")
            return
        waits = [e for e in flat(s.trace()) if e.kind == "waitfor"]
        to = [e for e in flat(s.trace()) if e.kind == "timeout"]
        if want is None:
            bare = [e for e in flat(s.trace()) if e.kind == "await" and is_reply_wait(W, s, e)]
            bad = waits or bare
            if bad or isinstance(r, Raise):
                rep.violation("a one-way command does not wait", subj, bad[0].where() if bad else raise_where(W, s, r), "nothing answers this command, yet the caller " + ("waits" if bad else "gets %s" % W.exc(s, r)))
                return
            late = [e for e in pauses(s) if e[1]]
            if late:
                rep.violation("a one-way command does not wait", subj, late[0][0].where(), "the caller is held up after the command was written")
                return
            ended += 1
            continue
        if not to:
            rep.violation("time given to a command", subj, ws[0].where(), "the command ends with %s although the adapter is silent" % (W.exc(s, r) if isinstance(r, Raise) else show(r)))
            return
        t = strip(to[0].timeout)
        if not is_num(t):
            rep.unknown("time given to a command", subj, "timeout %s" % show(t))
            return
        ended += 1
        if numval(t) != want:
            rep.violation("time given to a command", subj, waits[0].where() if waits else to[0].where(), "its completion is awaited for %s s, expected %d s" % (float(numval(t)), want))
            return
    if not ended:
        rep.violation("time given to a command", subj, API + ".request", "the command waits for ever" if not res else "the command is never sent")
        return
    rep.ok("a one-way command does not wait" if want is None else "time given to a command", subj)
    if want is None:
        return
    # what completes it
    ind = W.cmd(1, "resetInd")
    _, w = W.samples(ind["request"], 1)
    if reset:
        done = lambda ad: lambda s, r, n: [ad.reply(2, 1, ind["ID"], [w])]
        other = lambda ad: lambda s, r, n: [ad.reply(3, ss, row["ID"], []), ad.reply(2, 1, W.cmd(1, "osalTimerExpired")["ID"], [byte(const(0))])]
    else:
        done = lambda ad: lambda s, r, n: ad.srsp(s, r, n, {"status": const(0)})
        other = lambda ad: lambda s, r, n: [ad.reply(2, 1, ind["ID"], [w])]
    if not reset and not decodable(W, row["response"]):
        return
    for label, script, ends in (("answered", done, True), ("another frame arrives", other, False)):
        late = []
        res = command_paths(W, ss, row, script, stuck=late)
        got = [(s, r) for s, r in res if W.writes(s) and not any(e.kind == "timeout" for e in flat(s.trace()))]
        # whatever else the answer says
        ok = bool(got) and not late if ends else not got
        loc = W.writes(got[0][0])[0].where() if got else API + ".request"
        rep.expect(ok, "completed by its own answer", "%s, %s" % (subj, label), loc, "the command is not completed by %s" % ("every possible answer" if got else "its answer") if ends else "the command ends with a frame that is not its answer")


def pauses(s):
    """(pause, was something written before it)"""
    out, written = [], False
    for e in flat(s.trace()):
        if e.kind == "mcall" and e.name == "write":
            written = True
        elif e.kind == "sleep" and not (is_num(e.delay) and numval(e.delay) <= 0):
            out.append((e, written))
    return out


def reply_time(rep, W):
    """a device has 10 s to reply"""
    v = syms()
    I = W.I
    d = mkcat([byte(sym("z0", "byte"))])
    for name, args in (
        ("data message", [W.dev, const(0x104), v["cl"], v["se"], v["de"], v["tsn"], d]),
        ("device management message", [W.dev, const(0), const(5), const(0), const(0), v["tsn"], mkcat([byte(v["tsn"]), le(W.nwk, 2)])]),
    ):
        I.hooks.pop("mcall", None)
        st, app, api, gw, sem = W.app_world()
        opened(W, st, app)
        Net(W, app)
        ad = Adapter(W, gw)
        ad.script = lambda s, r, n: ad.srsp(s, r, n, {"status": const(0)})
        for s, r in W.meth(st, app, "request", args, aw=True):
            before = W.waits(s, api)
            if before is None or len(before) != 1:
                rep.unknown("a device has 10 s to reply", name, "%s waiters after the message" % (None if before is None else len(before)))
                continue
            early = [e for e in timers(s) if not is_num(strip(e.delay)) or numval(strip(e.delay)) < 10]
            cur = [s.fork()]
            for e in early:
                cur = [y for x in cur for y, _ in W.call(x, e.fn, list(e.args))]
            for x in cur:
                left = W.waits(x, api)
                rep.expect(left is not None and len(left) == 1, "a device has 10 s to reply", name, early[-1].where() if early else API, "the reply is no longer accepted after less than 10 s")


def boot_time(rep, W):
    def judge_(label, res, want):
        seen = 0
        for s, r in res:
            inj = [e for e in flat(s.trace()) if e.kind == "injected"]
            to = [e for e in flat(s.trace()) if e.kind == "timeout"]
            if not inj:
                continue
            if not to:
                rep.violation("time given to start-up", label, inj[0].where(), "start-up does not wait for the event")
                return
            seen += 1
            t = strip(to[0].timeout)
            rep.expect(is_num(t) and numval(t) == want, "time given to start-up", label, to[0].where(), "the event is awaited for %s s, expected %d s" % (show(t), want))
        if not seen:
            rep.unknown("time given to start-up", label, "the stage is never reached")

    for label, app, res, want in lost_events(W):
        judge_(label, res, want)
