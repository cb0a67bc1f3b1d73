"""Sending: C10, C11, C16."""
from ..world import *
from .wire import judge, where, raise_where

D = "zigpy_cc.zigbee.application.ControllerApplication"


def le(t, n):
    return tole(t, n)


def byte(t):
    return mk("b", t)


def run_send(W, name, args, kwargs=None, ready=True, script=None, timeouts=False):
    """one application call answered by the adapter"""
    st, app, api, gw, sem = W.app_world()
    ad = Adapter(W, gw, script, timeouts)
    return st, app, api, gw, ad, lambda s=st: W.meth(s, app, name, args(s) if callable(args) else args, kwargs or {}, aw=True)


def check_bytes(rep, W, rule, subj, results, want, extra=None, short_ok=False):
    """every path writes exactly the expected frame"""
    seen = 0
    for s, r in results:
        ws = W.writes(s)
        if not ws:
            if isinstance(r, Raise) and too_long(s, r, want):
                continue
            rep.violation(rule, subj, raise_where(W, s, r), "nothing is sent: %s" % (W.exc(s, r) if isinstance(r, Raise) else "returns %s" % show(r)))
            return False
        if len(ws) > 1:
            rep.violation(rule, subj, where(ws[1]), "%d frames are sent for one message" % len(ws))
            return False
        seen += 1
        if not judge(rep, W, s, rule, subj, where(ws[0]), ws[0].args[0], want):
            return False
    if not seen:
        rep.unknown(rule, subj, "no path sends")
        return False
    return True


def too_long(s, r, want):
    """refusing data whose length field cannot hold it is no loss"""
    for f, p in list(s.facts.items()):
        for t in subterms(f):
            if t.op == "len":
                lo, hi = s.interval(t)
                if lo is not None and lo > 200:
                    return True
    return False


def frame(W, ss, name, data):
    row = W.cmd(ss, name)
    if row is None:
        raise AnalysisError("anchor vanished: command %d.%s" % (ss, name))
    return expected_frame(row["type"], ss, row["ID"], data)


from ..load import AnalysisError  # noqa: E402


def syms():
    return dict(
        cl=sym("cluster", "u16"), se=sym("src_ep", "byte"), de=sym("dst_ep", "byte"), tsn=sym("tsn", "byte"),
        data=sym("data", "bytes"), grp=sym("group", "u16"), rad=sym("radius", "byte"), bc=sym("bcast", "u16"), prof=sym("profile", "u16"),
    )


PROFILES = (("home automation", 0x0104), ("light link", 0xC05E), ("green power", 0xA1E0), ("smart energy", 0x0109), ("manufacturer", 0xFC01))


def c10(rep):
    rep.explain = (
        "The unicast, group and broadcast entry points are interpreted with unknown addresses, endpoints, cluster, tsn,"
        " radius and payload of any length, for unknown application profiles; the bytes written to the transport must be"
        " the AF data request carrying exactly these values."
    )
    W = World()
    v = syms()
    datas = [("any data", v["data"])] + [("%d bytes" % n, mkcat([byte(sym("z%d" % i, "byte")) for i in range(n)])) for n in (0, 1, 3, 60)]
    if rep.tier != "quick":
        datas += [("%d bytes" % n, mkcat([byte(sym("z%d" % i, "byte")) for i in range(n)])) for n in (2, 10, 80, 100, 128, 200, 220)]
    profs = [(n, const(p)) for n, p in PROFILES] + [("any profile", v["prof"])]
    for pn, p in profs:
        for dn, d in datas if pn in ("home automation", "any profile") else datas[:2]:
            def prep(st, p=p):
                if not is_const(p):
                    st.assume(eq0(p), False)
                # the MT protocol's frames hold at most 250 bytes
                st.assume(ge0(sub(const(220), blen(v["data"]))), True)
                return st

            # unicast, with and without an expected reply
            for er in (TRUE, FALSE):
                W.I.hooks.pop("await_future", None)
                st, app, api, gw, sem = W.app_world()
                Adapter(W, gw)
                want = frame(W, 4, "dataRequest", mkcat([le(W.nwk, 2), byte(v["de"]), byte(v["se"]), le(v["cl"], 2), byte(v["tsn"]), byte(const(0)), byte(const(30)), byte(blen(d)), d]))
                res = W.meth(prep(st.fork()), app, "request", [W.dev, p, v["cl"], v["se"], v["de"], v["tsn"], d], {"expect_reply": er}, aw=True)
                check_bytes(rep, W, "unicast data request", "%s, %s, reply %s" % (pn, dn, cval(er)), res, want)
                if dn == datas[0][0]:
                    res = W.meth(prep(st.fork()), app, "request", [W.dev, p, v["cl"], v["se"], v["de"], v["tsn"], d], {"expect_reply": er, "use_ieee": TRUE}, aw=True)
                    check_bytes(rep, W, "unicast data request", "%s, %s, reply %s, use_ieee" % (pn, dn, cval(er)), res, want)
            # group
            st, app, api, gw, sem = W.app_world()
            Adapter(W, gw)
            for epn, ep in (("endpoint", v["se"]), ("endpoint 3", const(3))):
                s0 = prep(st.fork())
                if ep is v["se"]:
                    s0.assume(eq0(ep), False)
                want = frame(W, 4, "dataRequestExt", mkcat(
                    [byte(const(1)), le(v["grp"], 2)] + [byte(const(0))] * 6 + [byte(const(0xFF)), le(const(0), 2), byte(ep), le(v["cl"], 2), byte(v["tsn"]), byte(const(0)), byte(const(30)), le(blen(d), 2), d]))
                res = W.meth(s0, app, "mrequest", [v["grp"], p, v["cl"], ep, v["tsn"], d], aw=True)
                check_bytes(rep, W, "group data request", "%s, %s, %s" % (pn, dn, epn), res, want)
                if ep is not v["se"] or dn != "any data":
                    continue
                # a hop limit is the radius of the message; 0 means the default
                for hn, h in (("a hop limit", v["rad"]), ("no hop limit", const(0)), ("hop limit 1", const(1))):
                    st, app, api, gw, sem = W.app_world()
                    Adapter(W, gw)
                    s0 = prep(st.fork())
                    s0.assume(eq0(ep), False)
                    if not is_const(h):
                        s0.assume(eq0(h), False)
                    r = const(30) if h == const(0) else h
                    want = frame(W, 4, "dataRequestExt", mkcat(
                        [byte(const(1)), le(v["grp"], 2)] + [byte(const(0))] * 6 + [byte(const(0xFF)), le(const(0), 2), byte(ep), le(v["cl"], 2), byte(v["tsn"]), byte(const(0)), byte(r), le(blen(d), 2), d]))
                    res = W.meth(s0, app, "mrequest", [v["grp"], p, v["cl"], ep, v["tsn"], d], {"hops": h}, aw=True)
                    check_bytes(rep, W, "group data request", "%s, %s, %s" % (pn, dn, hn), res, want)
            # broadcast
            for bn, b in (("any address", v["bc"]), ("default address", None), ("all routers", W.I.prog.ext.term("zigpy.types.BroadcastAddress.ALL_ROUTERS_AND_COORDINATOR") or const(0xFFFC))):
                st, app, api, gw, sem = W.app_world()
                Adapter(W, gw)
                dst = v["bc"] if b is not None else const(0xFFFD)
                if bn == "all routers":
                    dst = const(0xFFFC)
                want = frame(W, 4, "dataRequestExt", mkcat(
                    [byte(const(2)), le(dst, 2)] + [byte(const(0))] * 6 + [byte(v["de"]), le(const(0), 2), byte(v["se"]), le(v["cl"], 2), byte(v["tsn"]), byte(const(0)), byte(v["rad"]), le(blen(d), 2), d]))
                args = [p, v["cl"], v["se"], v["de"], v["grp"], v["rad"], v["tsn"], d] + ([b] if b is not None else [])
                res = W.meth(prep(st), app, "broadcast", args, aw=True)
                check_bytes(rep, W, "broadcast data request", "%s, %s, %s" % (pn, dn, bn), res, want)


    # however many messages were sent before
    d = mkcat([byte(sym("z%d" % i, "byte")) for i in range(3)])
    for name, args, want in (
        ("request", [W.dev, const(0x104), v["cl"], v["se"], v["de"], v["tsn"], d],
         frame(W, 4, "dataRequest", mkcat([le(W.nwk, 2), byte(v["de"]), byte(v["se"]), le(v["cl"], 2), byte(v["tsn"]), byte(const(0)), byte(const(30)), byte(const(3)), d]))),
        ("broadcast", [const(0x104), v["cl"], v["se"], v["de"], v["grp"], v["rad"], v["tsn"], d],
         frame(W, 4, "dataRequestExt", mkcat(
             [byte(const(2)), le(const(0xFFFD), 2)] + [byte(const(0))] * 6 + [byte(v["de"]), le(const(0), 2), byte(v["se"]), le(v["cl"], 2), byte(v["tsn"]), byte(const(0)), byte(v["rad"]), le(const(3), 2), d]))),
    ):
        st, app, api, gw, sem = W.app_world()
        ad = Adapter(W, gw)
        ad.script = lambda s, r, n: ad.srsp(s, r, n, {"status": const(0)})
        for s, r in W.meth(st.fork(), app, name, args, aw=True):
            s = None if isinstance(r, Raise) else many(st, s, W)
            if s is None:
                continue
            n = len(W.writes(s))
            for s2, r2 in W.meth(s, app, name, args, aw=True):
                ws = W.writes(s2)[n:]
                if isinstance(r2, Raise) or len(ws) != 1:
                    rep.violation("%s after many messages" % name, name, raise_where(W, s2, r2), "%d commands are written for the message" % len(ws))
                    break
                judge(rep, W, s2, "%s after many messages" % name, name, ws[0].where(), ws[0].args[0], want)
    # a message that differs from an earlier one in its contents only
    d2 = mkcat([byte(sym("y%d" % i, "byte")) for i in range(3)])
    for name, lead, tail in (
        ("request", mkcat([le(W.nwk, 2), byte(v["de"]), byte(v["se"]), le(v["cl"], 2), byte(v["tsn"]), byte(const(0)), byte(const(30)), byte(const(3))]), [W.dev, const(0x104), v["cl"], v["se"], v["de"], v["tsn"]]),
        ("broadcast", mkcat([byte(const(2)), le(const(0xFFFD), 2)] + [byte(const(0))] * 6 + [byte(v["de"]), le(const(0), 2), byte(v["se"]), le(v["cl"], 2), byte(v["tsn"]), byte(const(0)), byte(v["rad"]), le(const(3), 2)]), [const(0x104), v["cl"], v["se"], v["de"], v["grp"], v["rad"], v["tsn"]]),
        ("mrequest", mkcat([byte(const(1)), le(v["grp"], 2)] + [byte(const(0))] * 6 + [byte(const(0xFF)), le(const(0), 2), byte(const(3)), le(v["cl"], 2), byte(v["tsn"]), byte(const(0)), byte(const(30)), le(const(3), 2)]), [v["grp"], const(0x104), v["cl"], const(3), v["tsn"]]),
    ):
        st, app, api, gw, sem = W.app_world()
        ad = Adapter(W, gw)
        ad.script = lambda s, r, n: ad.srsp(s, r, n, {"status": const(0)})
        for s, r in W.meth(st, app, name, tail + [d], aw=True):
            n = len(W.writes(s))
            for s2, r2 in W.meth(s, app, name, tail + [d2], aw=True) if not isinstance(r, Raise) else ():
                ws = W.writes(s2)[n:]
                subj = "%s, the contents differ" % name
                if isinstance(r2, Raise) or len(ws) != 1:
                    rep.violation("the next message", subj, raise_where(W, s2, r2), "%d commands are written for the message" % len(ws))
                    break
                judge(rep, W, s2, "the next message", subj, ws[0].where(), ws[0].args[0], frame(W, 4, "dataRequest" if name == "request" else "dataRequestExt", mkcat([lead, d2])))


# ------------------------------------------------------------------- C11
ZDO = [0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x20, 0x21, 0x22, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35]
# requests of the ZigBee device profile whose id differs from the adapter's command id
OTHER = {0x38: "network update"}


def c11(rep):
    rep.explain = (
        "Unicast (and, for opening the network, broadcast) device-management messages with unknown tsn, destination and"
        " field values are interpreted down to the transport; the bytes must be the adapter command of that cluster with"
        " the destination in its address field and the message's own fields behind it."
    )
    W = World()
    v = syms()
    for cl in ZDO:
        row = next((r for r in W.definition().get(5, ()) if r["ID"] == cl), None)
        if row is None:
            rep.violation("device management request", "%#x" % cl, "zigpy_cc/definition.py", "no adapter command for the cluster")
            continue
        params = list(row["request"])
        has = params and params[0] == ("dstaddr", 1)
        body = params[1:] if has else params
        for count in ((1, 2) if any(pt in W.LISTY for _, pt in body) else (2,)) if rep.tier == "quick" else (0, 1, 2, 3):
            for mode in ("device", "group") if cl in (0x21, 0x22) else ("device",):
                vals, wire = W.samples(body, count)
                fields = dict((n, x) for n, _, x in vals)
                if cl in (0x21, 0x22):
                    m = const(3 if mode == "device" else 1)
                    wire = subst(wire, {fields["dstaddrmode"]: m})
                    msg = wire
                    if mode == "group":
                        g = sym("grp", "u16")
                        head = bslice(wire, const(0), const(12))
                        msg = mkcat([head, le(g, 2)])
                        wire = mkcat([head, le(g, 2)] + [byte(const(0))] * 6 + [byte(const(0xFF))])
                else:
                    msg = wire
                for prof in (const(0),):
                    st, app, api, gw, sem = W.app_world()
                    Adapter(W, gw)
                    data = mkcat([byte(v["tsn"]), msg])
                    want = frame(W, 5, row["name"], mkcat(([le(W.nwk, 2)] if has else []) + [wire]))
                    res = W.meth(st, app, "request", [W.dev, prof, const(cl), const(0), const(0), v["tsn"], data], aw=True)
                    check_bytes(rep, W, "device management request", "%#06x %s %s/%d" % (cl, row["name"], mode, count), res, want)
    # opening the network: by unicast and by broadcast
    dur, tc = sym("duration", "byte"), sym("tc", "byte")
    data = mkcat([byte(v["tsn"]), byte(dur), byte(tc)])
    for how in ("unicast", "broadcast"):
        st, app, api, gw, sem = W.app_world()
        Adapter(W, gw)
        if how == "unicast":
            st.assume(eq0(add(W.nwk, const(-0xFFFC))), False)
            dst, mode = W.nwk, const(2)
            res = W.meth(st, app, "request", [W.dev, const(0), const(0x36), const(0), const(0), v["tsn"], data], aw=True)
        else:
            b = W.I.prog.ext.term("zigpy.types.BroadcastAddress.ALL_ROUTERS_AND_COORDINATOR") or const(0xFFFC)
            dst, mode = const(0xFFFC), const(15)
            res = W.meth(st, app, "broadcast", [const(0), const(0x36), const(0), const(0), const(0), v["rad"], v["tsn"], data, b], aw=True)
        want = frame(W, 5, "mgmtPermitJoinReq", mkcat([byte(mode), le(dst, 2), byte(dur), byte(tc)]))
        check_bytes(rep, W, "permit joining request", how, res, want)
    for cl, nm in OTHER.items():
        st, app, api, gw, sem = W.app_world()
        Adapter(W, gw)
        data = mkcat([byte(v["tsn"])] + [byte(sym("u%d" % i, "byte")) for i in range(8)])
        for s, r in W.meth(st, app, "request", [W.dev, const(0), const(cl), const(0), const(0), v["tsn"], data], aw=True):
            if isinstance(r, Raise) and not W.writes(s):
                rep.violation("request is supported", "%#x %s" % (cl, nm), raise_where(W, s, r), "sending it raises %s: the adapter command has another id" % W.exc(s, r), "unsupported/%#x" % cl)
                break
        else:
            rep.ok("request is supported", "%#x %s" % (cl, nm))


# ------------------------------------------------------------------- C16
def c16(rep):
    rep.explain = (
        "Replies with an unknown status are fed to a waiting command: the caller gets the reply exactly when the status is"
        " among the accepted ones, otherwise a command error carrying that status; the three send operations turn such an"
        " error into a result tuple with the status and turn everything else into success only for an accepted reply,"
        " whether or not the confirmation arrived first or the response waiter has expired."
    )
    W = World()
    v = syms()
    # API.request
    rows = [(ss, r) for ss, rs in sorted(W.definition().items()) for r in rs if r["type"] == 1 and r.get("response") and r["response"][0] == ("status", 0)]
    pick = [x for x in rows if x[1]["name"] in ("osalNvWrite", "osalNvItemInit", "startupFromApp", "bdbStartCommissioning", "dataRequest", "register", "extFindGroup", "ledControl", "activeEpReq")]
    for ss, r in pick if rep.tier == "quick" else rows:
        vals, data = W.samples(r["request"], 1)
        if vals is None or any(pt not in W.WRITABLE or pt == 15 for _, pt, _ in vals) or any(pt not in W.READABLE for _, pt in r["response"]):
            continue
        for acc in (None, (0,), (0, 9), (0, 1), (0, 2)):
            one_status(rep, W, ss, r, vals, acc)
    # what one command tolerates does not matter for the next
    other = next(r for _, r in pick if r["name"] == "osalNvItemInit")
    for ss, r in pick:
        vals, data = W.samples(r["request"], 1)
        if vals is None or any(pt not in W.WRITABLE or pt == 15 for _, pt, _ in vals) or any(pt not in W.READABLE for _, pt in r["response"]):
            continue
        for prev, acc in ((r, None), (r, (0,)), (other, None)):
            one_status(rep, W, ss, r, vals, acc, (1 if prev is other else ss, prev))
        for ps, pr in pick:
            if rep.tier != "quick" or pr["name"] in ("osalNvItemInit", "startupFromApp", "extFindGroup", "osalNvWrite", r["name"]):
                one_status(rep, W, ss, r, vals, None, (ps, pr), (0,))
    for name in ("request", "mrequest", "broadcast"):
        for order in ("reply", "confirmation first", "waiter expired"):
            send_status(rep, W, v, name, order)
    # whatever else is asked for
    for how, kw in (("no reply expected", {"expect_reply": FALSE}), ("by long address", {"use_ieee": TRUE})):
        send_status(rep, W, v, "request", "reply", how, kw)
    for cl in ZDO if rep.tier != "quick" else (0, 2, 5, 0x21, 0x31):
        row = next((r for r in W.definition().get(5, ()) if r["ID"] == cl), None)
        for er in (TRUE, FALSE) if row else ():
            send_status(rep, W, v, "request", "reply", "management request %#x%s" % (cl, "" if er is TRUE else ", no reply expected"), {"expect_reply": er}, cl)


def one_status(rep, W, ss, r, vals, acc, before=None, tolerated=(9, 0, 1, 2)):
    from .wire import wval

    st, api, gw = W.api_world()
    status = sym("%s:0:status" % r["name"], "byte")
    subj = "%s accepts %s" % (r["name"], acc or "0")
    cur = [st]
    if before is not None:
        # an earlier command that tolerates more
        bs, br = before
        subj += ", after %s%s" % (br["name"], " with other tolerated statuses" if len(tolerated) > 1 else "")
        ad = Adapter(W, gw)
        ad.script = lambda s, row, n: ad.srsp(s, row, n, {"status": const(tolerated[0])})
        kw = {"expected_status": W.I.list_(st, [const(x) for x in sorted(tolerated)])} if len(tolerated) > 1 else {}
        pl = W.I.dict_(st, [(const(n), wval(W, st, pt, x)) for n, pt, x in W.samples(br["request"], 1)[0]])
        cur = [s for s, res in W.meth(st, api, "request", [W.ss(bs), const(br["name"]), pl], kw, aw=True) if not isinstance(res, Raise)]
        if not cur:
            rep.unknown("accepted status", subj, "the earlier command fails")
            return
    ad = Adapter(W, gw)
    ad.script = lambda s, row, n: ad.srsp(s, row, n, {"status": status})
    good = bad = 0
    for st in cur:
        payload = W.I.dict_(st, [(const(n), wval(W, st, pt, x)) for n, pt, x in vals])
        kw = {} if acc is None else {"expected_status": W.I.list_(st, [const(x) for x in acc])}
        for s, res in W.meth(st, api, "request", [W.ss(ss), const(r["name"]), payload], kw, aw=True):
            ok = accepted(s, status, acc or (0,))
            if isinstance(res, Raise):
                if not W.exc_is(s, res, "zigpy_cc.exception.CommandError"):
                    rep.violation("accepted status", subj, raise_where(W, s, res), "raises %s" % W.exc(s, res))
                    return
                if ok is not False:
                    rep.violation("accepted status", subj, raise_where(W, s, res), "a reply with an accepted status is reported as an error")
                    return
                s2, sv = W.attr(s, res.exc, "status")
                if W.eq(s2, sv, status) is not True:
                    rep.violation("status of the error", subj, raise_where(W, s, res), "the error carries %s, the reply's status is %s" % (W.show(s2, sv), show(status)))
                    return
                bad += 1
            else:
                if ok is not True:
                    rep.violation("accepted status", subj, "API.request", "a reply with a status outside %s is returned as a success" % (acc or (0,),))
                    return
                p = W.ditems(s, W.field(s, res, "payload", NONE)) or {}
                if W.eq(s, p.get("status", NONE), status) is not True:
                    rep.violation("returned reply", subj, "API.request", "the result is not the reply of the command")
                    return
                good += 1
    rep.expect(good and bad, "accepted status", subj, "API.request", "accepting paths: %d, rejecting paths: %d" % (good, bad))


def accepted(s, status, acc):
    r = False
    for a in acc:
        d = s.decide(eq0(sub(status, const(a))))
        if d is True:
            return True
        if d is None:
            r = None
    return r


def send_status(rep, W, v, name, order, how="", kw=None, zdo=None):
    subj = "%s, %s%s" % (name, order, ", " + how if how else "")
    st, app, api, gw, sem = W.app_world()
    status = sym("sendstatus", "byte")
    cst = sym("confirm", "byte")
    ad = Adapter(W, gw)

    def script(s, row, n):
        fr = ad.srsp(s, row, n, {"status": status})
        if order == "confirmation first":
            fr = [ad.reply(2, 4, W.cmd(4, "dataConfirm")["ID"], [byte(cst), byte(sym("cep", "byte")), byte(v["tsn"])])] + fr
        if order == "waiter expired":
            fr = [lambda s2: expire(W, s2)] + fr
        return fr

    ad.script = script
    d = mkcat([byte(sym("z%d" % i, "byte")) for i in range(3)])
    args = {
        "request": [W.dev, const(0x104), v["cl"], v["se"], v["de"], v["tsn"], d],
        "mrequest": [v["grp"], const(0x104), v["cl"], const(1), v["tsn"], d],
        "broadcast": [const(0x104), v["cl"], v["se"], v["de"], v["grp"], v["rad"], v["tsn"], d],
    }[name]
    if zdo is not None:
        from .recv import zdo_payload

        row = next(r for r in W.definition()[5] if r["ID"] == zdo)
        args = [W.dev, const(0), const(zdo), const(0), const(0), v["tsn"], mkcat([byte(v["tsn"]), zdo_payload(W, zdo, row, 1)])]
    okp = badp = 0
    for s, r in W.meth(st, app, name, args, dict(kw or {}), aw=True):
        stt = s.decide(eq0(status))
        if isinstance(r, Raise):
            rep.violation("outcome of a send", subj, raise_where(W, s, r), "raises %s instead of returning the status" % W.exc(s, r))
            return
        t = strip(r)
        items = lib.known_items(W.I, s, t)
        if items is None or len(items) != 2:
            rep.violation("outcome of a send", subj, D + "." + name, "returns %s, not a (status, message) pair" % show(t))
            return
        code = items[0]
        if stt is True:
            okp += 1
            if W.eq(s, code, const(0)) is not True:
                rep.violation("outcome of a send", subj, D + "." + name, "an accepted message yields status %s" % W.show(s, code))
                return
        elif stt is False:
            badp += 1
            if W.eq(s, code, status) is not True:
                rep.violation("outcome of a send", subj, D + "." + name, "a message rejected with status %s yields %s" % (show(status), W.show(s, code)))
                return
        else:
            rep.violation("outcome of a send", subj, D + "." + name, "the outcome %s does not depend on the adapter's status" % W.show(s, code))
            return
    rep.expect(okp and badp, "outcome of a send", subj, D + "." + name, "accepted paths %d, rejected paths %d" % (okp, badp))


def expire(W, st):
    """run the timer callbacks registered before the application's turn to send, as the event loop does

    (the command waits for its turn; its own reply timer starts with the transmission)"""
    cur = [st]
    n = st.flags.get("timers", 0)
    evs = []
    for e in flat(st.trace()):
        if e.kind == "acquire":
            break
        if e.kind == "call_later":
            evs.append(e)
    for e in evs[n:]:
        nxt = []
        for s in cur:
            for s2, r in W.call(s, e.fn, list(e.args)):
                nxt.append(s2)
        cur = nxt
    for s in cur:
        s.flags["timers"] = len(evs)
    return cur
