"""Receiving: C12, C13, C17, C18, C19."""
import ast

from ..load import AnalysisError
from ..world import *
from .wire import judge, where, raise_where
from .send import accepted, byte, expire, le, syms

APP = "zigpy_cc.zigbee.application.ControllerApplication"
API = "zigpy_cc.api.API"


class Net:
    """zigpy's side: device lookup, joins and message delivery are recorded"""

    def __init__(self, W, app, missing=False):
        self.W = W
        self.app = app
        self.missing = missing
        W.I.hooks["mcall"] = self.hook

    def hook(self, I, st, obj, name, args, kwargs, cx, node):
        if obj is self.app or (obj.op == "ref" and obj is strip(self.app)):
            if name == "get_device":
                kw = dict(kwargs)
                if args:
                    kw.setdefault("ieee", args[0])
                if len(args) > 1:
                    kw.setdefault("nwk", args[1])
                k = "ieee" if kw.get("ieee", NONE) is not NONE else "nwk"
                d = mk("device", k, self.W.plain(st, kw.get(k, NONE)))
                st.emit(Ev("get_device", cx.loc(node), by=k, key=kw.get(k, NONE), dev=d))
                out = []
                if self.missing:
                    s = st.fork()
                    s.flags["missing"] = True
                    out.append((s, I.exc(s, "builtins.KeyError")))
                if self.missing != "only":
                    out.append((st, d))
                return out
            if name in ("handle_message", "handle_join", "handle_leave", "handle_relays"):
                st.emit(Ev("app", cx.loc(node), name=name, args=tuple(args), kwargs=dict(kwargs)))
                return [(st, NONE)]
        if obj.op == "device":
            st.emit(Ev("dev", cx.loc(node), name=name, dev=obj, args=tuple(args), kwargs=dict(kwargs)))
            return [(st, NONE)]
        return None


MSG = ("sender", "profile", "cluster", "src_ep", "dst_ep", "message")
JOIN = ("nwk", "ieee", "parent_nwk")


def argmap(e, names):
    d = dict(zip(names, e.args))
    d.update(e.kwargs)
    return d


def evs(s, kind, since=None, I=None):
    return [e for e in flat(s.trace() if since is None else I.since(s, since)) if e.kind == kind]


def deliveries(s, name="handle_message"):
    return [e for e in evs(s, "app") if e.name == name]


def feed(W, st, gw, fr):
    """bytes from the adapter -> states"""
    out = []
    for s, r in W.meth(st, gw, "data_received", [fr]):
        out.append((s, r))
    return out


def is_dev(W, s, d, by, key):
    if d is None or strip(d).op != "device":
        return False
    d = strip(d)
    if d.args[0] != by:
        return False
    return W.eq(s, d.args[1], key)


def check_message(rep, W, s, rule, subj, e, want):
    a = argmap(e, MSG)
    for k, v in want.items():
        if k == "sender":
            r = is_dev(W, s, a.get(k), *v)
            if r is not True:
                rep.violation(rule, subj, where(e), "attributed to %s, expected the device with %s %s" % (W.show(s, a.get(k, NONE)), v[0], W.show(s, v[1])))
                return False
            continue
        g = a.get(k)
        if g is None:
            rep.violation(rule, subj, where(e), "delivered without its %s" % k)
            return False
        r = W.eq(s, g, v)
        if r is None:
            rep.unknown(rule, subj, "%s: cannot compare %s with %s" % (k, W.show(s, g)[:200], W.show(s, v)[:200]))
            return True
        if r is False:
            rep.violation(rule, subj, where(e), "%s is %s, expected %s" % (k, W.show(s, g)[:300], W.show(s, v)[:300]))
            return False
    rep.ok(rule, subj)
    return True


# request cluster -> (request body parameters' sample, adapter reply command, reply cluster)
PAIRS = {
    0x0002: ("nodeDescReq", "nodeDescRsp"),
    0x0003: ("powerDescReq", "powerDescRsp"),
    0x0004: ("simpleDescReq", "simpleDescRsp"),
    0x0005: ("activeEpReq", "activeEpRsp"),
    0x0006: ("matchDescReq", "matchDescRsp"),
    0x0021: ("bindReq", "bindRsp"),
    0x0022: ("unbindReq", "unbindRsp"),
    0x0031: ("mgmtLqiReq", "mgmtLqiRsp"),
    0x0034: ("mgmtLeaveReq", "mgmtLeaveRsp"),
    0x0036: ("mgmtPermitJoinReq", "mgmtPermitJoinRsp"),
}


def zdo_payload(W, cl, row, count=2):
    """a ZDO message for the cluster (without tsn)"""
    if cl == 0x36:
        return mkcat([byte(sym("duration", "byte")), byte(sym("tc", "byte"))])
    params = row["request"]
    body = params[1:] if params and params[0] == ("dstaddr", 1) else params
    vals, wire = W.samples(body, count)
    if cl in (0x21, 0x22):
        f = dict((n, x) for n, _, x in vals)
        wire = subst(wire, {f["dstaddrmode"]: const(3)})
    return wire


def reply_payload(W, row, nwk, count=2, tag=""):
    """(payload bytes of the reply from nwk, status symbol)"""
    params = row["request"]
    if not params or params[0] != ("srcaddr", 1):
        raise AnalysisError("reply %s does not start with the source address" % row["name"])
    vals, wire = W.samples([(tag + n, pt) for n, pt in params[1:]], count)
    if wire is None:
        raise AnalysisError("reply %s has no wire form" % row["name"])
    # the reserved bits of a neighbour record are zero
    m = {}
    for t in subterms(wire):
        if t.op == "sym" and str(t.args[0]).endswith(".flags"):
            m[t] = bitop("&", t, const(0x7F))
        elif t.op == "sym" and str(t.args[0]).endswith(".pj"):
            m[t] = bitop("&", t, const(3))
    return mkcat([le(nwk, 2), subst(wire, m) if m else wire])


def send_zdo(W, st, app, gw, cl, tsn, dev=None, script=None, count=2):
    """states after a ZDO request was accepted by the adapter"""
    row = next(r for r in W.definition()[5] if r["ID"] == cl)
    ad = Adapter(W, gw, script)
    if script is None:
        ad.script = lambda s, r, n: ad.srsp(s, r, n, {"status": const(0)})
    data = mkcat([byte(tsn), zdo_payload(W, cl, row, count)])
    res = W.meth(st, app, "request", [dev or W.dev, const(0), const(cl), const(0), const(0), tsn, data], aw=True)
    return ad, res


def device2(W, st, name="nwk2"):
    d, n = sym("device_" + name, "obj"), sym(name, "u16")
    st.oattrs[(d, "nwk")] = mk("cast", "zigpy.types.NWK", n)
    st.oattrs[(d, "_nwk")] = mk("cast", "zigpy.types.NWK", n)
    return d, n


def zrow(W, name):
    r = W.cmd(5, name)
    if r is None:
        raise AnalysisError("anchor vanished: command 5.%s" % name)
    return r


def opened(W, st, app):
    """the adapter's version is known, as after startup"""
    st, v = st, sym("product", "byte")
    st.w(app).f["version"] = W.I.dict_(st, [(const("product"), v)])
    return st


def c12(rep):
    rep.explain = (
        "Every device-management request whose reply the adapter reports separately is sent with an unknown tsn to an"
        " unknown device; the reply frame, with unknown status and content, is then fed to the serial protocol. It must be"
        " handed to zigpy exactly once, as a message of the requested device, with the reply cluster, endpoint 0 and the"
        " tsn followed by the reply's own fields; also when it overtakes the command's confirmation."
    )
    W = World()
    tsn = sym("tsn", "byte")
    for cl, (req, rsp) in PAIRS.items():
        row = zrow(W, rsp)
        unit = sum(W.UNIT.get(pt, 0) for _, pt in row["request"])
        # the longest lists a frame can hold, too
        for count in (2, "full") if rep.tier == "quick" else (0, 1, 2, 3, "full"):
            if count != 2 and not unit:
                continue
            if count == "full":
                count = min(200, (250 - 30) // unit)
            for order in ("after the confirmation", "before the confirmation"):
                subj = "%#06x %s %s/%d" % (cl, rsp, order, count)
                W.I.hooks.pop("mcall", None)
                st, app, api, gw, sem = W.app_world()
                opened(W, st, app)
                Net(W, app)
                pay = reply_payload(W, row, W.nwk, count)
                ad = Adapter(W, gw)
                fr = ad.reply(2, 5, row["ID"], [pay])
                if cl == 0x36:
                    # opening the network on one device only
                    st.assume(eq0(add(W.nwk, const(-0xFFFC))), False)
                if order.startswith("before"):
                    ad, res = send_zdo(W, st, app, gw, cl, tsn, script=lambda s, r, n: [fr] + ad.srsp(s, r, n, {"status": const(0)}))
                else:
                    ad, res = send_zdo(W, st, app, gw, cl, tsn)
                    res2 = []
                    for s, r in res:
                        if isinstance(r, Raise):
                            res2.append((s, r))
                        else:
                            res2 += feed(W, s, gw, fr)
                    res = res2
                n = 0
                for s, r in res:
                    if isinstance(r, Raise):
                        rep.violation("reply is delivered", subj, raise_where(W, s, r), "raises %s" % W.exc(s, r))
                        break
                    dl = deliveries(s)
                    if len(dl) != 1:
                        bad = [e for e in evs(s, "caught")]
                        rep.violation("reply is delivered", subj, where(dl[1]) if dl else where(bad[-1]) if bad else APP + ".handle_znp", "the reply is delivered %d times" % len(dl))
                        break
                    want = {
                        "sender": ("nwk", W.nwk), "cluster": const(0x8000 | cl), "src_ep": const(0), "dst_ep": const(0),
                        "message": mkcat([byte(tsn), bslice(pay, const(2), blen(pay))]),
                    }
                    if not check_message(rep, W, s, "reply is delivered", subj, dl[0], want):
                        break
                    n += 1
                if not res:
                    rep.unknown("reply is delivered", subj, "no path")
    # the numbers of requests come round again
    for cl, (req, rsp) in PAIRS.items():
        if rep.tier == "quick" and cl not in (0, 2, 5, 0x21, 0x31, 0x36):
            continue
        again(rep, W, cl, rsp, tsn)
    # a group or broadcast request never swallows or fakes a reply: unsolicited replies are not delivered
    for cl, (req, rsp) in PAIRS.items():
        row = zrow(W, rsp)
        W.I.hooks.pop("mcall", None)
        st, app, api, gw, sem = W.app_world()
        opened(W, st, app)
        Net(W, app)
        ad = Adapter(W, gw)
        pay = reply_payload(W, row, W.nwk)
        for s, r in feed(W, st, gw, ad.reply(2, 5, row["ID"], [pay])):
            dl = deliveries(s)
            rep.expect(not dl and not isinstance(r, Raise), "unsolicited reply is dropped", rsp, where(dl[0]) if dl else APP, "a reply nobody asked for is delivered or raises")


def again(rep, W, cl, rsp, tsn):
    row = zrow(W, rsp)
    subj = "%#06x %s, the same request again" % (cl, rsp)
    for other in (False, True):
        W.I.hooks.pop("mcall", None)
        st, app, api, gw, sem = W.app_world()
        opened(W, st, app)
        Net(W, app)
        if cl == 0x36:
            st.assume(eq0(add(W.nwk, const(-0xFFFC))), False)
        pays = [reply_payload(W, row, W.nwk, 1), reply_payload(W, row, W.nwk, 1, "again.") if other else None]
        pays[1] = pays[1] or pays[0]
        cur = [st]
        for pay in pays:
            nxt = []
            for s in cur:
                ad, res = send_zdo(W, s, app, gw, cl, tsn, count=1)
                for s1, r in res:
                    if isinstance(r, Raise):
                        rep.violation("reply is delivered", subj, raise_where(W, s1, r), "raises %s" % W.exc(s1, r))
                        return
                    nxt += [s2 for s2, _ in feed(W, s1, gw, ad.reply(2, 5, row["ID"], [pay]))]
            cur = nxt
        for s in cur:
            dl = deliveries(s)
            if len(dl) != 2:
                rep.violation("reply is delivered", subj, where(dl[-1]) if dl else APP + ".handle_znp", "the replies to two requests with the same number are delivered %d times" % len(dl))
                return
            for e, pay in zip(dl, pays):
                want = {
                    "sender": ("nwk", W.nwk), "cluster": const(0x8000 | cl), "src_ep": const(0), "dst_ep": const(0),
                    "message": mkcat([byte(tsn), bslice(pay, const(2), blen(pay))]),
                }
                if not check_message(rep, W, s, "reply is delivered", subj, e, want):
                    return
        if not cur:
            rep.unknown("reply is delivered", subj, "no path")


def c17(rep):
    rep.explain = (
        "Requests and replies are followed for tsn 0, 1, 127, 128, 254, 255 and an unknown tsn: the bytes sent carry it as"
        " transaction id, every reply is delivered with it in front, and the reply is consumed by the request it answers."
    )
    W = World()
    v = syms()
    tsns = [const(x) for x in (0, 1, 127, 128, 254, 255)] + [v["tsn"]]
    for t in tsns:
        tn = show(t)
        d = mkcat([byte(sym("z0", "byte")), byte(sym("z1", "byte"))])
        for name, args, at in (
            ("request", [W.dev, const(0x104), v["cl"], v["se"], v["de"], t, d], 10),
            ("mrequest", [v["grp"], const(0x104), v["cl"], const(1), t, d], 19),
            ("broadcast", [const(0x104), v["cl"], v["se"], v["de"], v["grp"], v["rad"], t, d], 19),
        ):
            st, app, api, gw, sem = W.app_world()
            W.I.hooks.pop("mcall", None)
            ad = Adapter(W, gw)
            ad.script = lambda s, r, n: ad.srsp(s, r, n, {"status": const(0)})
            for s, r in W.meth(st, app, name, args, aw=True):
                ws = W.writes(s)
                if isinstance(r, Raise) or len(ws) != 1:
                    rep.violation("transaction id of a data request", "%s tsn %s" % (name, tn), raise_where(W, s, r), "%d frames are sent, %s" % (len(ws), W.exc(s, r) if isinstance(r, Raise) else "returns"))
                    break
                judge(rep, W, s, "transaction id of a data request", "%s tsn %s" % (name, tn), where(ws[0]), bidx(ws[0].args[0], const(at)), t)
        for cl, (req, rsp) in PAIRS.items():
            row = zrow(W, rsp)
            W.I.hooks.pop("mcall", None)
            st, app, api, gw, sem = W.app_world()
            opened(W, st, app)
            st.assume(eq0(add(W.nwk, const(-0xFFFC))), False)
            Net(W, app)
            pay = reply_payload(W, row, W.nwk, 1)
            ad, res = send_zdo(W, st, app, gw, cl, t, count=1)
            subj = "%s tsn %s" % (rsp, tn)
            for s0, r0 in res:
                if isinstance(r0, Raise):
                    rep.violation("tsn of a reply", subj, raise_where(W, s0, r0), "raises %s" % W.exc(s0, r0))
                    continue
                for s, r in feed(W, s0, gw, ad.reply(2, 5, row["ID"], [pay])):
                    dl = deliveries(s)
                    if len(dl) != 1 or isinstance(r, Raise):
                        rep.violation("tsn of a reply", subj, APP + ".handle_znp", "the reply to tsn %s is delivered %d times" % (tn, len(dl)))
                        continue
                    m = argmap(dl[0], MSG).get("message", NONE)
                    judge(rep, W, s, "tsn of a reply", subj, where(dl[0]), bidx(W.plain(s, m), const(0)), t)


# ------------------------------------------------------------------- C13
def c13(rep):
    rep.explain = (
        "Two outstanding requests, to two devices or twice to the same device, are followed by their replies in either"
        " order: each reply is delivered once, to the request it answers. A waiting command is fed replies of other"
        " commands, other subsystems, other kinds and repeated replies: only its own reply ends the wait. A data request's"
        " confirmation with another transaction id leaves its waiter alone."
    )
    W = World()
    I = W.I
    t1, t2 = sym("tsn1", "byte"), sym("tsn2", "byte")
    # two outstanding requests
    for cl, (req, rsp) in PAIRS.items():
        row = zrow(W, rsp)
        for same in (False, True):
            for order in ((0, 1), (1, 0)) if not same else ((0, 1),):
                I.hooks.pop("mcall", None)
                st, app, api, gw, sem = W.app_world()
                opened(W, st, app)
                Net(W, app)
                d2, n2 = device2(W, st)
                st.assume(eq0(sub(n2, W.nwk)), False)
                for n in (W.nwk, n2):
                    st.assume(eq0(add(n, const(-0xFFFC))), False)
                if same:
                    d2, n2 = W.dev, W.nwk
                pays = [reply_payload(W, row, W.nwk, 1, "first."), reply_payload(W, row, n2, 1, "second.")]
                subj = "%s, %s, replies %s" % (rsp, "same device" if same else "two devices", "in order" if order == (0, 1) else "swapped")
                ok = True
                ad, res = send_zdo(W, st, app, gw, cl, t1, count=1)
                cur = []
                for s, r in res:
                    if not isinstance(r, Raise):
                        ad, res2 = send_zdo(W, s, app, gw, cl, t2, d2, count=1)
                        cur += [x for x in res2 if not isinstance(x[1], Raise)]
                if not cur:
                    rep.unknown("reply reaches its request", subj, "no request succeeds")
                    continue
                for k in order:
                    cur = [y for s, _ in cur for y in feed(W, s, gw, ad.reply(2, 5, row["ID"], [pays[k]]))]
                for s, r in cur:
                    dl = deliveries(s)
                    if len(dl) != 2:
                        rep.violation("reply reaches its request", subj, where(dl[-1]) if dl else APP, "two replies are delivered %d times" % len(dl))
                        ok = False
                        break
                    for j, k in enumerate(order):
                        want = {
                            "sender": ("nwk", (W.nwk, n2)[k]), "cluster": const(0x8000 | cl),
                            "message": mkcat([byte((t1, t2)[k]), bslice(pays[k], const(2), blen(pays[k]))]),
                        }
                        if not check_message(rep, W, s, "reply reaches its request", subj, dl[j], want):
                            ok = False
                            break
                    if not ok:
                        break
    # a reply of some other command type to the same device is not mistaken
    names = list(PAIRS.items())
    for i, (cl, (req, rsp)) in enumerate(names):
        cl2, (req2, rsp2) = names[(i + 1) % len(names)]
        row2 = zrow(W, rsp2)
        I.hooks.pop("mcall", None)
        st, app, api, gw, sem = W.app_world()
        opened(W, st, app)
        Net(W, app)
        st.assume(eq0(add(W.nwk, const(-0xFFFC))), False)
        ad, res = send_zdo(W, st, app, gw, cl, t1, count=1)
        for s, r in res:
            if isinstance(r, Raise):
                continue
            for s2, r2 in feed(W, s, gw, ad.reply(2, 5, row2["ID"], [reply_payload(W, row2, W.nwk, 1)])):
                dl = deliveries(s2)
                rep.expect(not dl, "reply of another command", "%s while waiting for %s" % (rsp2, rsp), where(dl[0]) if dl else APP, "it is delivered with the tsn of the %s" % req)
    # synchronous replies
    for ss, rows in sorted(W.definition().items()):
        cand = [r for r in rows if r["type"] == 1 and decodable(W, r["response"]) and writable(W, r["request"])]
        if rep.tier == "quick":
            cand = cand[:: max(1, len(cand) // 8)]
        for r in cand:
            sync_reply(rep, W, ss, r, 3 if rep.tier == "quick" else 12)
    # confirmations
    confirm(rep, W)
    identical(rep, W)
    refused(rep, W)
    overtaken(rep, W)


def overtaken(rep, W):
    """a wait stays what it is while hundreds of later ones come: running numbers that grow by a fixed step for each
    new wait are taken as far as the source compares or divides by, and to the usual powers of two"""
    I = W.I
    row = zrow(W, "activeEpRsp")
    I.hooks.pop("mcall", None)
    st, app, api, gw, sem = W.app_world()
    opened(W, st, app)
    Net(W, app)
    ad = Adapter(W, gw, timeouts=False)
    ad.script = lambda s, r, n: []
    ad.stuck = lambda I, s, fut, cx, node, timeout: [(s, I.exc(s, "asyncio.TimeoutError"))]

    def wait(st, name, key):
        match = I.dict_(st, [(const("srcaddr"), key)])
        return W.one(W.meth(st, api, "wait_for", [W.ct(2), W.ss(5), const(name), match, const(10000)]), "wait_for()")

    def numbers(st):
        out = {}
        for i, ob in list(st.base.items()) + list(st.heap.items()):
            for k, v in ob.f.items():
                if isinstance(v, Term) and is_num(v) and isinstance(numval(v), int) and isinstance(k, str):
                    out[(i, k)] = numval(v)
        return out

    c0 = numbers(st)
    st, w0 = wait(st, "activeEpRsp", W.nwk)
    c1 = numbers(st)
    st, _ = wait(st, "nodeDescRsp", sym("nwk2", "u16"))
    c2 = numbers(st)
    run = {k: (v, c1[k] - v) for k, v in c0.items() if k in c1 and k in c2 and c1[k] != v and c2[k] - c1[k] == c1[k] - v}
    found = {100, 128, 250, 255, 256, 500, 512, 1000, 1024}
    for m in W.I.prog.modules.values():
        for n in ast.walk(m.tree):
            # operands of comparisons and divisions, and named constants
            xs = [n.left] + n.comparators if isinstance(n, ast.Compare) else [n.right] if isinstance(n, ast.BinOp) else [n.value] if isinstance(n, (ast.Assign, ast.AugAssign)) else []
            for x in xs:
                if isinstance(x, ast.Constant) and isinstance(x.value, int) and 4 <= x.value <= 8192:
                    found |= {x.value, x.value + 1}
    pay = reply_payload(W, row, W.nwk, 1, "answer.")
    subj = "one wait, then many others"
    for m in sorted(found) if run else ():
        s = st.fork()
        for (i, k), (v, d) in run.items():
            s.w(i).f[k] = const(v + d * (m - 2))
        for j in range(5):
            s, _ = wait(s, "nodeDescRsp", sym("nwk%d" % (3 + j), "u16"))
        bad = None
        for s2, r in feed(W, s, gw, ad.reply(2, 5, row["ID"], [pay])):
            for s3, r in W.meth(s2, w0, "wait", aw=True):
                if isinstance(r, Raise):
                    bad = W.exc(s3, r)
        if bad:
            rep.violation("waits are not replaced", subj, API + ".wait_for", "after %d more waits the first one no longer gets its answer (%s)" % (m, bad))
            return
    rep.ok("waits are not replaced", subj + (" (running numbers: %s)" % ", ".join(sorted({k for _, k in run})) if run else ""))


def refused(rep, W):
    """a request the adapter refused is over: the next answer belongs to the next request"""
    I = W.I
    t1, t2 = sym("tsn1", "byte"), sym("tsn2", "byte")
    for cl, (req, rsp) in PAIRS.items():
        row = zrow(W, rsp)
        for code in (1, 0xC2):
            I.hooks.pop("mcall", None)
            st, app, api, gw, sem = W.app_world()
            opened(W, st, app)
            Net(W, app)
            st.assume(eq0(add(W.nwk, const(-0xFFFC))), False)
            pay = reply_payload(W, row, W.nwk, 1)
            subj = "%s after a %s refused with status %d" % (rsp, req, code)
            bad = Adapter(W, gw)
            bad.script = lambda s, r, n: bad.srsp(s, r, n, {"status": const(code)})
            r1 = next(r for r in W.definition()[5] if r["ID"] == cl)
            cur = []
            for s, r in W.meth(st, app, "request", [W.dev, const(0), const(cl), const(0), const(0), t1, mkcat([byte(t1), zdo_payload(W, cl, r1, 1)])], aw=True):
                ad, res = send_zdo(W, s, app, gw, cl, t2, count=1)
                cur += [x for x in res if not isinstance(x[1], Raise)]
            if not cur:
                rep.unknown("a refused request takes no answer", subj, "no request succeeds")
                continue
            for s, r in [y for s, _ in cur for y in feed(W, s, gw, ad.reply(2, 5, row["ID"], [pay]))]:
                dl = deliveries(s)
                if len(dl) != 1:
                    rep.violation("a refused request takes no answer", subj, where(dl[-1]) if dl else APP, "the answer is delivered %d times" % len(dl))
                    break
                want = {"message": mkcat([byte(t2), bslice(pay, const(2), blen(pay))])}
                if not check_message(rep, W, s, "a refused request takes no answer", subj, dl[0], want):
                    break


def identical(rep, W):
    """several waits for the same answer, registered through the API: the oldest one gets it"""
    I = W.I
    row = zrow(W, "activeEpRsp")
    kinds = [
        ("equal limits", (5000, 5000, 5000), (1, 2, 3)),
        ("shorter limit later", (5000, 2000, 1000), (1, 2, 3)),
        ("longer limit later", (1000, 2000, 5000), (1, 2, 3)),
        ("falling transaction numbers", (5000, 5000, 5000), (255, 2, 0)),
        ("equal transaction numbers", (5000, 5000, 5000), (7, 7, 7)),
    ]
    for label, limits, tsn in kinds:
        I.hooks.pop("mcall", None)
        st, app, api, gw, sem = W.app_world()
        opened(W, st, app)
        Net(W, app)
        ad = Adapter(W, gw, timeouts=False)
        ad.script = lambda s, r, n: []
        ad.stuck = lambda I, s, fut, cx, node, timeout: [(s, I.exc(s, "asyncio.TimeoutError"))]
        ws = []
        for lim, q in zip(limits, tsn):
            match = I.dict_(st, [(const("srcaddr"), W.nwk)])
            st, w = W.one(W.meth(st, api, "wait_for", [W.ct(2), W.ss(5), const("activeEpRsp"), match, const(lim)], {"sequence": const(q)}), "wait_for()")
            ws.append(w)
        cur = [st]
        ok = True
        for k in range(len(ws)):
            pay = reply_payload(W, row, W.nwk, 1, "answer%d." % k)
            cur = [y for s in cur for y, _ in feed(W, s, gw, ad.reply(2, 5, row["ID"], [pay]))]
            for s in cur:
                for j, w in enumerate(ws):
                    for s2, r in W.meth(s.fork(), w, "wait", aw=True):
                        done = not isinstance(r, Raise)
                        if done != (j <= k) and ok:
                            ok = False
                            rep.violation("oldest first", label, API + ".data_received", "after %d answers the wait number %d is %s" % (k + 1, j + 1, "over" if done else "still open"))
        if ok and cur:
            rep.ok("oldest first", label)
        elif ok:
            rep.unknown("oldest first", label, "no path")


def decodable(W, ps):
    return ps is not None and all(pt in W.READABLE for _, pt in ps) and not misled(W, ps)


def misled(W, ps):
    """a list without a length in front of it"""
    for i, (n, pt) in enumerate(ps):
        if pt in W.LISTY and (i == 0 or ps[i - 1][1] not in (0, 1, 2)):
            return True
    return False


def writable(W, ps):
    return ps is not None and all(pt in W.WRITABLE and pt != 15 for _, pt in ps)


def decoys(W, ss, row, k):
    """(label, frame type, subsystem, id, params) of frames that do not answer the command"""
    out = []
    D = W.definition()
    near = [r for r in D[ss] if r["ID"] != row["ID"] and r["type"] == 1 and decodable(W, r["response"])]
    for r in near[:k]:
        out.append(("the reply of %s" % r["name"], 3, ss, r["ID"], r["response"]))
    for s2, rows in sorted(D.items()):
        if s2 == ss:
            continue
        for r in rows:
            if (r["ID"] == row["ID"] or r["name"] == row["name"]) and r["type"] == 1 and decodable(W, r["response"]):
                out.append(("the reply of %d.%s" % (s2, r["name"]), 3, s2, r["ID"], r["response"]))
    out = out[: 2 * k]
    for r in D[ss]:
        if r["type"] == 2 and decodable(W, r["request"]) and r["name"] not in ("resetInd",):
            out.append(("the notification %s" % r["name"], 2, ss, r["ID"], r["request"]))
            if sum(1 for x in out if x[1] == 2) >= k:
                break
    return out


def sync_reply(rep, W, ss, row, k):
    from .wire import wval

    I = W.I
    I.hooks.pop("mcall", None)
    st, api, gw = W.api_world()
    vals, data = W.samples(row["request"], 1)
    payload = I.dict_(st, [(const(n), wval(W, st, pt, x)) for n, pt, x in vals])
    ad = Adapter(W, gw)
    mine = []
    over = {"status": const(0)}
    rv, rw = W.samples(row["response"], 1)
    if row["response"] and row["response"][0][0] == "status":
        rw = subst(rw, {rv[0][2]: const(0)})
    own = ad.reply(3, ss, row["ID"], [rw])
    fr = []
    labels = []
    for i, (lab, ct, s2, cid, ps) in enumerate(decoys(W, ss, row, k)):
        _, w = W.samples([("decoy%d.%s" % (i, n), pt) for n, pt in ps], 1)
        if w is None:
            continue
        fr.append(ad.reply(ct, s2, cid, [w]))
        labels.append(lab)
    ad.script = lambda s, r, n: fr + [own]
    subj = "%d.%s among %d other frames" % (ss, row["name"], len(fr))
    n = 0
    for s, res in W.meth(st, api, "request", [W.ss(ss), const(row["name"]), payload], aw=True):
        if isinstance(res, Raise):
            rep.violation("only its own reply ends a command", subj, raise_where(W, s, res), "raises %s" % W.exc(s, res))
            return
        p = W.ditems(s, W.field(s, res, "payload", NONE))
        cmd = W.field(s, res, "command", NONE)
        if p is None:
            rep.unknown("only its own reply ends a command", subj, "the result is %s" % show(res))
            return
        if cmd is not const(row["name"]):
            rep.violation("only its own reply ends a command", subj, API + ".data_received", "the command is completed with the reply of %s" % show(cmd))
            return
        for nm, pt, x in rv:
            x = subst(x, {rv[0][2]: const(0)}) if rv[0][0] == "status" else x
            e = W.eq(s, p.get(nm), x)
            if e is False:
                rep.violation("only its own reply ends a command", subj, API + ".data_received", "the command is completed with %s=%s, its reply has %s" % (nm, W.show(s, p.get(nm, NONE)), show(x)))
                return
        n += 1
    if n:
        rep.ok("only its own reply ends a command", subj)
    else:
        rep.unknown("only its own reply ends a command", subj, "no path")


def confirm(rep, W):
    v = syms()
    I = W.I
    t2 = sym("other_tsn", "byte")
    I.hooks.pop("mcall", None)
    st, app, api, gw, sem = W.app_world()
    Net(W, app)
    st.assume(eq0(sub(t2, v["tsn"])), False)
    ad = Adapter(W, gw)
    ad.script = lambda s, r, n: ad.srsp(s, r, n, {"status": const(0)})
    d = mkcat([byte(sym("z0", "byte"))])
    conf = W.cmd(4, "dataConfirm")
    for s, r in W.meth(st, app, "request", [W.dev, const(0x104), v["cl"], v["se"], v["de"], v["tsn"], d], aw=True):
        n0 = len(W.waits(s, api) or {})
        for s1, _ in feed(W, s, gw, ad.reply(2, 4, conf["ID"], [byte(const(0)), byte(v["se"]), byte(t2)])):
            n1 = len(W.waits(s1, api) or {})
            rep.expect(n1 == n0, "confirmation reaches its message", "another transaction id", API + ".data_received", "the confirmation of another message is taken for this one")
            for s2, _ in feed(W, s1.fork(), gw, ad.reply(2, 4, conf["ID"], [byte(const(0)), byte(v["se"]), byte(v["tsn"])])):
                n2 = len(W.waits(s2, api) or {})
                rep.expect(n2 == 0 and n0 == 1, "confirmation reaches its message", "own transaction id", API + ".data_received", "the confirmation does not reach its message's waiter (%d waiting before, %d after)" % (n0, n2))


# ------------------------------------------------------------------- C18
def c18(rep):
    rep.explain = (
        "Incoming-message frames with unknown sender, cluster, endpoints, link quality and payload of every tried length"
        " are fed to the serial protocol: each must be handed to zigpy once, unchanged, as a message of the device with the"
        " frame's source address; frames of unknown devices and of other kinds deliver nothing and raise nothing."
    )
    W = World()
    I = W.I
    row = W.cmd(4, "incomingMsg")
    if row is None:
        raise AnalysisError("anchor vanished: command 4.incomingMsg")
    lens = (0, 1, 3, 40, 200) if rep.tier == "quick" else tuple(range(0, 12)) + (20, 40, 80, 100, 127, 128, 200, 233)
    for n in lens:
        st, app, api, gw, sem = W.app_world()
        Net(W, app, missing=True)
        ad = Adapter(W, gw)
        f = {k: sym("in." + k, "u16" if pt == 1 else "byte") for k, pt in row["request"] if pt in (0, 1)}
        data = mkcat([byte(sym("d%d" % i, "byte")) for i in range(n)]) if n else const(b"")
        wire = []
        for k, pt in row["request"]:
            if k == "len":
                wire.append(byte(const(n)))
            elif k == "data":
                wire.append(data)
            elif pt == 2:
                wire.append(mkcat([byte(sym("ts%d" % i, "byte")) for i in range(4)]))
            else:
                wire.append(le(f[k], W.WIDTH[pt]))
        subj = "payload of %d bytes" % n
        got = 0
        for s, r in feed(W, st, gw, ad.reply(2, 4, row["ID"], wire)):
            dl = deliveries(s)
            bad = evs(s, "caught")
            if s.flags.get("missing"):
                raised = [e for e in bad if "uart" in where(e)]
                rep.expect(not dl and not isinstance(r, Raise), "unknown device", subj, where(dl[0]) if dl else APP, "a frame of an unknown device is delivered or raises")
                continue
            if isinstance(r, Raise) or len(dl) != 1:
                rep.violation("message is delivered", subj, where(dl[1]) if dl else where(bad[-1]) if bad else APP + ".handle_znp", "the message is delivered %d times" % len(dl))
                break
            got += 1
            want = {
                "sender": ("nwk", f["srcaddr"]), "cluster": f["clusterid"], "src_ep": f["srcendpoint"], "dst_ep": f["dstendpoint"], "message": data, "profile": const(0x0104),
            }
            if not check_message(rep, W, s, "message is delivered", subj, dl[0], want):
                break
            rd = [e for e in evs(s, "dev") if e.name == "radio_details"]
            if not rd:
                rep.violation("link quality", subj, APP + ".handle_znp", "the link quality is not recorded")
                break
            judge(rep, W, s, "link quality", subj, where(rd[0]), argmap(rd[0], ("lqi", "rssi")).get("lqi", NONE), f["linkquality"])
            if is_dev(W, s, rd[0].dev, "nwk", f["srcaddr"]) is not True:
                rep.violation("link quality", subj, where(rd[0]), "recorded for %s" % W.show(s, rd[0].dev))
        if not got:
            rep.unknown("message is delivered", subj, "no delivering path")
    ext = W.cmd(4, "incomingMsgExt")
    if ext:
        incoming_ext(rep, W, ext)
    # consecutive messages are delivered in order
    st, app, api, gw, sem = W.app_world()
    I.hooks.pop("mcall", None)
    Net(W, app)
    ad = Adapter(W, gw)
    frames = []
    cls = []
    for j in range(3):
        wire = []
        for k, pt in row["request"]:
            if k == "len":
                wire.append(byte(const(2)))
            elif k == "data":
                wire.append(mkcat([byte(sym("m%d.%d" % (j, i), "byte")) for i in range(2)]))
            else:
                wire.append(W.sample("m%d.%s" % (j, k), pt)[1])
        frames.append(ad.reply(2, 4, row["ID"], wire))
        cls.append(mkcat([byte(sym("m%d.%d" % (j, i), "byte")) for i in range(2)]))
    for s, r in feed(W, st.fork(), gw, mkcat(frames)):
        dl = [argmap(e, MSG).get("message", NONE) for e in deliveries(s)]
        ok = len(dl) == 3 and all(W.eq(s, a, b) is True for a, b in zip(dl, cls))
        rep.expect(ok, "messages keep their order", "three messages in one read", APP, "delivered: %s" % ", ".join(W.show(s, x) for x in dl))
    # however many came before
    for s, r in feed(W, st.fork(), gw, frames[0]):
        s = many(st, s, W)
        for s, r in feed(W, s, gw, frames[1]) if s is not None else ():
            dl = [argmap(e, MSG).get("message", NONE) for e in deliveries(s)]
            rep.expect(len(dl) == 2 and W.eq(s, dl[1], cls[1]) is True, "message is delivered", "after many messages", APP, "delivered: %s" % ", ".join(W.show(s, x) for x in dl))
    # other traffic is never delivered as a message
    for ss, rows in sorted(W.definition().items()):
        for r0 in rows:
            kinds = [(2, r0["request"])] if r0["type"] == 2 else [(3, r0["response"])] if r0["type"] == 1 else []
            for ct, ps in kinds:
                if not decodable(W, ps) or (ss, r0["name"]) in ((4, "incomingMsg"), (4, "incomingMsgExt"), (5, "endDeviceAnnceInd")):
                    continue
                st, app, api, gw, sem = W.app_world()
                opened(W, st, app)
                I.hooks.pop("mcall", None)
                Net(W, app)
                _, w = W.samples(ps, 1)
                if w is None:
                    continue
                for s, r in feed(W, st, gw, ad.reply(ct, ss, r0["ID"], [w])):
                    dl = evs(s, "app")
                    rep.expect(not dl and not isinstance(r, Raise), "other frames deliver nothing", "%s %d.%s" % ({2: "AREQ", 3: "SRSP"}[ct], ss, r0["name"]), where(dl[0]) if dl else APP, "the frame causes %s" % (dl[0].name if dl else "an exception"))


def incoming_ext(rep, W, row):
    """messages whose source address comes in a 64-bit field, with its mode in front"""
    for mode, label in ((2, "16-bit source"), (3, "64-bit source")):
        st, app, api, gw, sem = W.app_world()
        W.I.hooks.pop("mcall", None)
        Net(W, app)
        ad = Adapter(W, gw)
        wire = []
        nwk = sym("ext.src", "u16")
        ieee, ieee_w = W.sample("ext.ieee", 3)
        data = mkcat([byte(sym("e%d" % i, "byte")) for i in range(2)])
        f = {}
        for k, pt in row["request"]:
            if k == "len":
                wire.append(le(const(2), W.WIDTH[pt]))
            elif k == "data":
                wire.append(data)
            elif k == "srcaddrmode":
                wire.append(byte(const(mode)))
            elif k == "srcaddr":
                wire.append(ieee_w if mode == 3 else mkcat([le(nwk, 2)] + [byte(const(0))] * 6))
            else:
                f[k], w = W.sample("ext." + k, pt)
                wire.append(w)
        n = 0
        for s, r in feed(W, st, gw, ad.reply(2, 4, row["ID"], wire)):
            dl = deliveries(s)
            if len(dl) != 1 or isinstance(r, Raise):
                bad = evs(s, "caught")
                rep.violation("extended message is delivered", label, where(bad[-1]) if bad else APP + ".handle_znp", "it is delivered %d times" % len(dl))
                continue
            n += 1
            want = {"sender": ("ieee", ieee) if mode == 3 else ("nwk", nwk), "cluster": f["clusterid"], "src_ep": f["srcendpoint"], "dst_ep": f["dstendpoint"], "message": data}
            check_message(rep, W, s, "extended message is delivered", label, dl[0], want)


# ------------------------------------------------------------------- C19
def c19(rep):
    rep.explain = (
        "A device announcement with unknown addresses and capability is fed to the serial protocol: zigpy must be told of"
        " the join with exactly these two addresses and parent 0, before the announcement itself is delivered to that"
        " device as a Device_annce message with tsn 0. No other frame may cause a join or a leave."
    )
    W = World()
    I = W.I
    row = zrow(W, "endDeviceAnnceInd")
    for missing in (False, "only"):
        st, app, api, gw, sem = W.app_world()
        opened(W, st, app)
        I.hooks.pop("mcall", None)
        Net(W, app, missing)
        ad = Adapter(W, gw)
        f = {}
        wire = []
        ieee = None
        for k, pt in row["request"]:
            v, w = W.sample("ann." + k, pt)
            f[k] = (v, w)
            wire.append(w)
        subj = "device known after the join" if not missing else "device refused"
        for s, r in feed(W, st, gw, ad.reply(2, 5, row["ID"], wire)):
            js = deliveries(s, "handle_join")
            dl = deliveries(s)
            if isinstance(r, Raise) or len(js) != 1:
                bad = evs(s, "caught")
                rep.violation("join is reported", subj, where(js[1]) if js else where(bad[-1]) if bad else APP, "the join is reported %d times" % len(js))
                continue
            a = argmap(js[0], JOIN)
            for k, want in (("nwk", f["nwkaddr"][0]), ("ieee", f["ieeeaddr"][0]), ("parent_nwk", const(0))):
                judge(rep, W, s, "join is reported", "%s: %s" % (subj, k), where(js[0]), a.get(k, NONE), want)
            t = a.get("ieee", NONE)
            rep.expect(is_eui(t), "address type", subj, where(js[0]), "the IEEE address is handed over as %s, not as an EUI64" % show(t))
            if missing:
                rep.expect(not dl, "announcement", subj, where(dl[0]) if dl else APP, "delivered to an unknown device")
                continue
            if len(dl) != 1:
                rep.violation("announcement", subj, APP + ".handle_znp", "the announcement is delivered %d times" % len(dl))
                continue
            order = [e.name for e in evs(s, "app")]
            rep.expect(order == ["handle_join", "handle_message"], "join comes first", subj, where(dl[0]), "order is %s" % order)
            snd = argmap(dl[0], MSG).get("sender")
            by_ieee = is_dev(W, s, snd, "ieee", f["ieeeaddr"][0])
            by_nwk = is_dev(W, s, snd, "nwk", f["nwkaddr"][0])
            rep.expect(by_ieee is True or by_nwk is True, "announcement", subj + ": device", where(dl[0]), "attributed to %s" % W.show(s, snd))
            want = {"cluster": const(0x13), "src_ep": const(0), "dst_ep": const(0),
                    "message": mkcat([byte(const(0)), f["nwkaddr"][1], f["ieeeaddr"][1], f["capabilities"][1]])}
            check_message(rep, W, s, "announcement", subj, dl[0], want)
    # two announcements in a row
    st, app, api, gw, sem = W.app_world()
    opened(W, st, app)
    I.hooks.pop("mcall", None)
    Net(W, app)
    ad = Adapter(W, gw)
    cur = [(st.fork(), NONE)]
    want = []
    for j in range(2):
        w = [W.sample("a%d.%s" % (j, k), pt) for k, pt in row["request"]]
        names = [k for k, _ in row["request"]]
        want.append(w[names.index("nwkaddr")][0])
        cur = [y for s, _ in cur for y in feed(W, s, gw, ad.reply(2, 5, row["ID"], [x[1] for x in w]))]
    for s, r in cur:
        js = [argmap(e, JOIN).get("nwk", NONE) for e in deliveries(s, "handle_join")]
        rep.expect(len(js) == 2 and all(W.eq(s, a, b) is True for a, b in zip(js, want)), "join is reported", "two announcements", APP, "joins: %s" % ", ".join(show(x) for x in js))
    # however many came before
    w = [[x[1] for x in (W.sample("a%d.%s" % (j, k), pt) for k, pt in row["request"])] for j in range(2)]
    for s, r in feed(W, st.fork(), gw, ad.reply(2, 5, row["ID"], w[0])):
        s = many(st, s, W)
        for s, r in feed(W, s, gw, ad.reply(2, 5, row["ID"], w[1])) if s is not None else ():
            js = deliveries(s, "handle_join")
            rep.expect(len(js) == 2, "join is reported", "after many announcements", where(js[-1]) if js else APP, "the join is reported %d times" % (len(js) - 1))
    # nothing else joins or leaves
    for ss, rows in sorted(W.definition().items()):
        for r0 in rows:
            ct, ps = (2, r0["request"]) if r0["type"] == 2 else (3, r0["response"])
            if r0["type"] not in (1, 2) or not decodable(W, ps) or (ss, r0["name"]) == (5, "endDeviceAnnceInd"):
                continue
            st, app, api, gw, sem = W.app_world()
            opened(W, st, app)
            I.hooks.pop("mcall", None)
            Net(W, app)
            _, w = W.samples(ps, 1)
            if w is None:
                continue
            for s, r in feed(W, st, gw, ad.reply(ct, ss, r0["ID"], [w])):
                js = [e for e in evs(s, "app") if e.name in ("handle_join", "handle_leave")]
                rep.expect(not js, "nothing else joins or leaves", "%d.%s" % (ss, r0["name"]), where(js[0]) if js else APP, "the frame causes %s" % (js[0].name if js else ""))


def is_eui(t):
    while t.op in ("cast", "ecast"):
        if "EUI64" in str(t.args[0]):
            return True
        t = t.args[1]
    return t.op == "eui"
