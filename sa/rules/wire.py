"""Framing and parameter encoding: C01 - C06."""
from ..load import AnalysisError
from ..world import *

API = "API.request -> Gateway"


def where(e):
    return e.where()


def raise_where(W, s, r):
    """the last construct the failing path went through"""
    tr = s.trace()
    return tr[-1].where() if tr else "entry"


# ------------------------------------------------------------------- C01
def c01(rep):
    rep.explain = (
        "For every encodable request row of the command table the path from API.request to the serial transport is"
        " interpreted with unknown parameter values; the bytes written must be the MT frame of the values."
        " UnpiFrame.to_buffer is also decided for every type/subsystem with an unknown id and unknown data of any length."
    )
    W = World()
    # the frame itself, any data
    F = W.glob("zigpy_cc.uart", "UnpiFrame")
    types = W.members("zigpy_cc.types", "CommandType")
    subs = W.members("zigpy_cc.types", "Subsystem")
    cid, D = sym("id", "byte"), sym("data", "bytes")
    for cn, ct in sorted(types.items()):
        for sn, ss in sorted(subs.items()):
            st = W.state()
            subj = "%s/%s" % (cn, sn)
            st, f = W.one(W.call(st, F, [W.ct(ct), W.ss(ss), cid, D]), "UnpiFrame()")
            n = blen(D)
            c0 = const(((ct << 5) & 0xE0) | (ss & 0x1F))
            want = mkcat([mk("b", const(0xFE)), mk("b", n), mk("b", c0), mk("b", cid), D, mk("b", mkxor([n, c0, cid, xorall(D)]))])
            okp = 0
            for s, b in W.meth(st, f, "to_buffer"):
                if isinstance(b, Raise):
                    # only lengths beyond the protocol's largest payload may be refused
                    lo, hi = s.interval(n)
                    if lo is not None and lo > 250:
                        continue
                    rep.violation("frame bytes", subj, raise_where(W, s, b), "to_buffer raises %s" % W.exc(s, b))
                    continue
                okp += 1
                judge(rep, W, s, "frame bytes", subj, "UnpiFrame.to_buffer", b, want)
            if not okp:
                rep.violation("frame bytes", subj, "UnpiFrame.to_buffer", "no path yields the bytes of a frame")
    # end to end, per command
    for ss, rows in sorted(W.definition().items()):
        for row in rows:
            if row["type"] not in (1, 2):
                continue
            listy = any(pt in W.LISTY for _, pt in row["request"])
            for count in (0, 2, 19) if listy else (2,):
                send_one(rep, W, ss, row, count)
            if [pt for _, pt in row["request"] if pt in W.LISTY] == [4]:
                # as much as a frame can hold
                rest = sum({0: 1, 1: 2, 2: 4, 3: 8}.get(pt, 0) for _, pt in row["request"])
                for count in (129 - rest, 250 - rest):
                    send_one(rep, W, ss, row, count)
            if any(pt == 3 for _, pt in row["request"]):
                # an address given as one 64 bit number
                send_one(rep, W, ss, row, 1, ieee_int=True)
            refused(rep, W, ss, row)


TOO_BIG = {0: (256, -1), 1: (65536, -1), 2: (1 << 32,)}


def refused(rep, W, ss, row):
    """a value that is missing or does not fit its format is not made into something else"""
    vals, data = W.samples(row["request"], 1)
    if vals is None or any(pt not in W.WRITABLE or pt == 15 for _, pt, _ in vals):
        return
    st, api, gw = W.api_world()
    done = 0
    for i, (n, pt, v) in enumerate(vals):
        cases = [("None", NONE), ("missing", None)] + [(str(x), const(x)) for x in TOO_BIG.get(pt, ())]
        for label, x in cases:
            s0 = st.fork()
            items = [(const(a), wval(W, s0, t, b) if a != n else x) for a, t, b in vals if a != n or x is not None]
            payload = W.I.dict_(s0, items)
            for s, r in W.meth(s0, api, "request", [W.ss(ss), const(row["name"]), payload], aw=True):
                ws = W.writes(s)
                if ws:
                    rep.violation("a command without a proper value is not sent", "%s.%s" % (ss, row["name"]), where(ws[0]), "%s is %s, yet %s is written" % (n, label, W.show(s, ws[0].args[0])[:200]))
                    return
            done += 1
    if done:
        rep.ok("a command without a proper value is not sent", "%s.%s (%d values)" % (ss, row["name"], done))


def send_one(rep, W, ss, row, count, ieee_int=False):
    vals, data = W.samples(row["request"], count)
    subj = "%s.%s/%d%s" % (ss, row["name"], count, " numeric address" if ieee_int else "")
    if ieee_int and vals is not None:
        vals = [(n, pt, fromle(v.args[0]) if pt == 3 else v) for n, pt, v in vals]
    if vals is None or any(pt not in W.WRITABLE or pt == 15 for _, pt, _ in vals):
        return
    st, api, gw = W.api_world()
    payload = W.I.dict_(st, [(const(n), wval(W, st, pt, v)) for n, pt, v in vals])
    want = expected_frame(row["type"], ss, row["ID"], data)
    seen = False
    for s, r in W.meth(st, api, "request", [W.ss(ss), const(row["name"]), payload], aw=True):
        ws = W.writes(s)
        if not ws:
            rep.violation("one frame per request", subj, raise_where(W, s, r), "a path writes nothing: %s" % (W.exc(s, r) if isinstance(r, Raise) else "returns"))
            return
        if len(ws) != 1:
            rep.violation("one frame per request", subj, where(ws[1]), "%d frames are written for one request" % len(ws))
            return
        seen = True
        if not judge(rep, W, s, "request bytes", subj, where(ws[0]), ws[0].args[0], want):
            return
        if count < 3 and not ieee_int and not send_next(rep, W, s, api, ss, row, count, subj):
            return
    if not seen:
        rep.unknown("request bytes", subj, "no path")


def send_next(rep, W, s, api, ss, row, count, subj):
    """the same command again, with other values: nothing of the one before is in its bytes"""
    vals, data = W.samples(row["request"], count, tag="next:")
    s = s.fork()
    payload = W.I.dict_(s, [(const(n), wval(W, s, pt, v)) for n, pt, v in vals])
    want = expected_frame(row["type"], ss, row["ID"], data)
    for s2, r in W.meth(s, api, "request", [W.ss(ss), const(row["name"]), payload], aw=True):
        ws = W.writes(s2)[1:]
        if len(ws) != 1:
            rep.violation("one frame per request", subj + ", once more", where(ws[-1]) if ws else raise_where(W, s2, r), "%d frames are written for the second request" % len(ws))
            return False
        if not judge(rep, W, s2, "request bytes", subj + ", once more", where(ws[0]), ws[0].args[0], want):
            return False
    return True


def wval(W, st, pt, v):
    """the Python shape a caller passes for a value"""
    if pt in (11, 12):
        return W.I.list_(st, list(v.args))
    if pt == 15:
        return W.I.list_(st, [W.I.dict_(st, [(a.args[0], a.args[1]) for a in rec.args]) for rec in v.args])
    return v


def judge(rep, W, s, rule, subj, loc, got, want):
    e = W.eq(s, got, want)
    if e is True:
        rep.ok(rule, subj)
        return True
    if e is None:
        rep.unknown(rule, subj, "cannot compare %s with %s" % (W.show(s, got)[:300], W.show(s, want)[:300]))
        return True
    rep.violation(rule, subj, loc, "%s is %s, expected %s" % (rule, W.show(s, got)[:400], W.show(s, want)[:400]))
    return False


# ------------------------------------------------------- receiving frames
class Rx:
    """a Gateway whose API only records (or, when told to, fails)"""

    def __init__(self, W, fail=(), how="AnyException"):
        self.W = W
        self.how = how
        self.apis = sym("api", "obj")
        self.fail = fail
        self.n = 0
        W.I.hooks["mcall"] = self.hook
        st = W.state()
        self.st, self.gw = W.one(W.call(st, W.glob("zigpy_cc.uart", "Gateway"), [self.apis]), "Gateway()")
        self.st, _ = W.one(W.meth(self.st, self.gw, "connection_made", [W.transport]), "connection_made")

    def hook(self, I, st, obj, name, args, kwargs, cx, node):
        if obj is self.apis and name == "data_received":
            n = st.flags.get("n", 0)
            st.flags["n"] = n + 1
            st.emit(Ev("mcall", cx.loc(node), obj=obj, name=name, args=tuple(args), kwargs=dict(kwargs)))
            if n in self.fail:
                return [(st, I.exc(st, self.how))]
            return [(st, NONE)]
        return None

    def feed(self, st, data):
        return self.W.meth(st, self.gw, "data_received", [data])

    def delivered(self, s, since=None):
        """bytes of each frame handed to the API, with the construct that handed it over; None for the bytes when it
        happens in a loop of unknown extent"""
        out = []
        for e in self.W.mcalls(s, self.apis, "data_received", since):
            if e.args[0].op == "ref" and not s.has(e.args[0]):
                out.append((e, None))
                continue
            s2, b = self.W.one(self.W.meth(s.fork(), e.args[0], "to_buffer"), "to_buffer of a delivered frame")
            out.append((e, b))
        return out


def mkframe(W, ct, ss, L, tag="", fcs=None):
    """a received frame with unknown id and data; the checksum is right unless given"""
    cid = sym(tag + "id", "byte")
    data = [sym("%sd%d" % (tag, i), "byte") for i in range(L)]
    c0 = const(((ct << 5) & 0xE0) | ss)
    body = [const(L), c0, cid] + data
    if fcs is None:
        fcs = mkxor(body)
    return [mk("b", x) for x in [const(0xFE)] + body + [fcs]]


LENS_Q = (0, 1, 2, 3, 4, 5, 7, 8, 16, 20, 31, 32, 64, 100, 127, 128, 129, 200, 249, 250)


def lens(rep):
    return LENS_Q if rep.tier == "quick" else tuple(range(251))


def combos(W, rep, few=False):
    subs = sorted(W.members("zigpy_cc.types", "Subsystem").values())
    types = sorted(W.members("zigpy_cc.types", "CommandType").values())
    out = [(c, s) for c in types for s in subs]
    if few:
        out = [(2, 5), (3, 1)] if rep.tier == "quick" else [(2, 5), (3, 1), (1, 4), (0, 7)]
        out = [x for x in out if x[0] in types and x[1] in subs]
    return out


def expect_delivery(rep, rx, rule, subj, res, frames, since=None):
    """every path hands over exactly these frames, in this order, and does not raise"""
    W = rx.W
    open_ = None
    for s, r in res:
        if isinstance(r, Raise):
            rep.violation(rule, subj, raise_where(W, s, r), "processing the bytes raises %s" % W.exc(s, r))
            return False
        got = rx.delivered(s, since)
        if any(b is None for _, b in got):
            open_ = "frames are delivered by a loop of unknown extent"
            continue
        if len(got) != len(frames):
            rep.violation(
                rule, subj, where(got[-1][0]) if got else "Gateway.data_received",
                "%d frame(s) delivered, expected %d" % (len(got), len(frames)),
            )
            return False
        for (e, b), f in zip(got, frames):
            q = W.eq(s, b, mkcat(f))
            if q is False:
                rep.violation(rule, subj, where(e), "delivered frame is %s, received %s" % (W.show(s, b)[:300], show(mkcat(f))[:300]))
                return False
            if q is None:
                open_ = "cannot compare the delivered frame"
    if open_:
        rep.unknown(rule, subj, open_)
        return False
    if not res:
        rep.unknown(rule, subj, "no path")
        return False
    rep.ok(rule, subj)
    return True


def c02(rep):
    rep.explain = (
        "Frames of every type, subsystem and payload length with unknown id and payload are fed to the serial protocol;"
        " a correct checksum must hand over exactly those bytes, any other checksum must hand over nothing."
    )
    W = World()
    rx = Rx(W)
    for ct, ss in combos(W, rep):
        f = mkframe(W, ct, ss, 3)
        expect_delivery(rep, rx, "content of a delivered frame", "%d/%d" % (ct, ss), rx.feed(rx.st.fork(), mkcat(f)), [f])
    for L in lens(rep):
        f = mkframe(W, 2, 5, L)
        expect_delivery(rep, rx, "content of a delivered frame", "length %d" % L, rx.feed(rx.st.fork(), mkcat(f)), [f])
        fields(rep, rx, L)
        bad_fcs(rep, rx, L)
    # a frame that looks like the one before is a frame of its own
    for L in (0, 2, 5):
        f = mkframe(W, 2, 5, L)
        expect_delivery(rep, rx, "a repeated frame is handed on again", "length %d, one read" % L, rx.feed(rx.st.fork(), mkcat(f + f + f)), [f, f, f])
        cur = [(rx.st.fork(), NONE)]
        for _ in range(3):
            cur = [y for s, r in cur for y in rx.feed(s, mkcat(f))]
        expect_delivery(rep, rx, "a repeated frame is handed on again", "length %d, three reads" % L, cur, [f, f, f])
    # an undefined type or subsystem is not handed on as a defined one
    types = set(W.members("zigpy_cc.types", "CommandType").values())
    subs = set(W.members("zigpy_cc.types", "Subsystem").values())
    for ct, ss in [(c, s) for c in range(8) for s in range(32) if c not in types or s not in subs]:
        if rep.tier == "quick" and ss not in (5, 10, 31) and ct != 2:
            continue
        f = mkframe(W, ct, ss, 1)
        subj = "%d/%d" % (ct, ss)
        for s, r in rx.feed(rx.st.fork(), mkcat(f)):
            bad = [(e, b) for e, b in rx.delivered(s) if b is not None and W.eq(s, b, mkcat(f)) is False]
            rep.expect(not bad, "nothing is handed on as something else", subj, where(bad[0][0]) if bad else "", "a frame of type %d, subsystem %d is handed on as %s" % (ct, ss, W.show(s, bad[0][1])[:200] if bad else ""))
    # a frame damaged in any one byte after the length: the checksum no longer fits
    for L in (0, 1, 2, 5):
        for pos in range(2, 4 + L):
            x = sym("x", "byte")
            good = mkframe(W, 2, 5, L)
            st = rx.st.fork()
            if pos == 2:
                for nv in (0x45 ^ (1 << k) for k in range(8)):
                    if nv & 0x1F not in W.members("zigpy_cc.types", "Subsystem").values() or nv >> 5 > 3:
                        continue
                    f = list(good)
                    f[2] = mk("b", const(nv))
                    expect_delivery(rep, rx, "damaged frame is dropped", "length %d byte 2=%#x" % (L, nv), rx.feed(rx.st.fork(), mkcat(f)), [])
                continue
            f = list(good)
            f[pos] = mk("b", x)
            a = eq0(mkxor([x, good[pos].args[0]]))
            st.assume(a, False)
            c = eq0(sub(x, good[pos].args[0]))
            st.assume(c, False)
            damaged(rep, rx, L, pos, st, f)


def damaged(rep, rx, L, pos, st, f):
    """frame with one altered byte: paths on which it is delivered must be those where the byte is the original"""
    W = rx.W
    subj = "length %d byte %d" % (L, pos)
    for s, r in rx.feed(st, mkcat(f)):
        if isinstance(r, Raise):
            rep.violation("damaged frame is dropped", subj, raise_where(W, s, r), "raises %s" % W.exc(s, r))
            return
        got = rx.delivered(s)
        if any(b is None for _, b in got):
            rep.unknown("damaged frame is dropped", subj, "frames are delivered by a loop of unknown extent")
            return
        if got and not impossible(s, f):
            rep.violation("damaged frame is dropped", subj, where(got[0][0]), "a frame whose checksum does not match is delivered")
            return
    rep.ok("damaged frame is dropped", subj)


def impossible(s, f):
    """does the path require the checksum to match although one byte was altered?"""
    want = mkxor([x.args[0] for x in f[1:-1]])
    d = mkxor([want, f[-1].args[0]])
    for fact, pol in s.facts.items():
        if pol and fact.op == "eq0":
            for t in subterms(fact):
                pass
            c, p = lin_parts(fact.args[0])
            if mkxor([k for k in p]) is d or fact.args[0] is d:
                return True
    return False


def bad_fcs(rep, rx, L):
    W = rx.W
    x = sym("fcs", "byte")
    f = mkframe(W, 2, 5, L, fcs=x)
    want = mkxor([y.args[0] for y in f[1:-1]])
    subj = "length %d" % L
    good = bad = 0
    for s, r in rx.feed(rx.st.fork(), mkcat(f)):
        if isinstance(r, Raise):
            rep.violation("checksum gate", subj, raise_where(W, s, r), "raises %s" % W.exc(s, r))
            return
        got = rx.delivered(s)
        if any(b is None for _, b in got):
            rep.unknown("checksum gate", subj, "frames are delivered by a loop of unknown extent")
            return
        match = None
        for q in (eq0(sub(x, want)), eq0(sub(want, x)), eq0(mkxor([x, want]))):
            d = s.decide(q)
            if d is not None:
                match = d
        if match is None:
            # the path does not depend on the checksum, or in a form the domain does not relate
            match = related(s, x, want)
        if match is None and got:
            rep.violation("checksum gate", subj, where(got[0][0]), "a frame is delivered on a path that does not compare its checksum with the XOR of the preceding bytes")
            return
        if match is False and got:
            rep.violation("checksum gate", subj, where(got[0][0]), "a frame with a wrong checksum is delivered")
            return
        if match is True and not got:
            rep.violation("checksum gate", subj, "Gateway.data_received", "a frame with the right checksum is not delivered")
            return
        if got:
            good += 1
        else:
            bad += 1
    if not good:
        rep.violation("checksum gate", subj, "Gateway.data_received", "no frame is delivered whatever its checksum")
    elif not bad:
        rep.violation("checksum gate", subj, "Gateway.data_received", "the frame is delivered whatever its checksum")
    else:
        rep.ok("checksum gate", subj)


def related(s, x, want):
    """truth of `x == want` on a path whose facts state it in another form"""
    for f, p in s.facts.items():
        if f.op == "eq0":
            vals = set()
            for env in valuations([x, want, f], 40):
                try:
                    eqv = teval(x, env) == teval(want, env)
                    env2 = dict(env)
                    env2[x] = teval(want, env)
                    vals.add((True, teval(f, env2)))
                    if not eqv:
                        vals.add((False, teval(f, env)))
                except NoValue:
                    vals.add(None)
            if vals == {(True, True), (False, False)}:
                return p
            if vals == {(True, False), (False, True)}:
                return not p
    return None


def fields(rep, rx, L):
    """the delivered object carries data equal to the payload bytes"""
    W = rx.W
    f = mkframe(W, 3, 1, L)
    for s, r in rx.feed(rx.st.fork(), mkcat(f)):
        for e, _ in rx.delivered(s):
            d = W.field(s, e.args[0], "data")
            if d is None:
                rep.unknown("payload of a delivered frame", "length %d" % L, "frame has no data attribute")
                return
            want = mkcat(f[4:-1])
            judge(rep, W, s, "payload of a delivered frame", "length %d" % L, where(e), d, want)


# ------------------------------------------------------------------- C03
def c03(rep):
    rep.explain = (
        "The receive path is interpreted over frames of every length class split at every chunk boundary, several frames"
        " per chunk, and unknown non-start bytes before and between frames; each frame must be handed over exactly once,"
        " in order, in the call that carries its last byte."
    )
    W = World()
    rx = Rx(W)
    for L in lens(rep):
        f = mkframe(W, 2, 5, L)
        n = len(f)
        cuts = range(1, n) if (rep.tier != "quick" and L <= 40) or L <= 8 else sorted({1, 2, 3, 4, 5, n // 2, n - 2, n - 1} & set(range(1, n)))
        for c in cuts:
            two_chunks(rep, rx, f, c, "length %d cut %d" % (L, c))
        single(rep, rx, f, "length %d byte by byte" % L)
    for L1, L2 in ((0, 0), (0, 3), (3, 0), (2, 5), (5, 2), (20, 1), (1, 20)):
        a, b = mkframe(W, 2, 5, L1, "a"), mkframe(W, 3, 1, L2, "b")
        expect_delivery(rep, rx, "frames sharing a chunk", "%d+%d" % (L1, L2), rx.feed(rx.st.fork(), mkcat(a + b)), [a, b])
        for c in range(1, len(a + b)):
            split(rep, rx, a, b, c, "%d+%d cut %d" % (L1, L2, c))
        for g in (1, 2, 3):
            st = rx.st.fork()
            gs = [sym("g%d" % i, "byte") for i in range(2 * g)]
            for x in gs:
                st.assume(eq0(sub(x, const(0xFE))), False)
            pre, mid = [mk("b", x) for x in gs[:g]], [mk("b", x) for x in gs[g:]]
            expect_delivery(rep, rx, "noise before and between frames", "%d+%d noise %d" % (L1, L2, g), rx.feed(st, mkcat(pre + a + mid + b)), [a, b])
    abc = [mkframe(W, 2, 5, L, t) for L, t in ((2, "a"), (0, "b"), (4, "c"))]
    expect_delivery(rep, rx, "frames sharing a chunk", "three frames", rx.feed(rx.st.fork(), mkcat(sum(abc, []))), abc)
    # long reads: what a busy adapter sends while the program does something else
    W.I.hooks["unroll"] = 8000
    long_ = [mkframe(W, 2, 5, 250, "l%d." % i) for i in range(18)]
    expect_delivery(rep, rx, "frames sharing a chunk", "18 frames of the largest size", rx.feed(rx.st.fork(), mkcat(sum(long_, []))), long_)
    plain = []
    for i in range(18):
        body = [250, 0x45, 0xC0 + i] + [(i + j) % 0xFE for j in range(250)]
        fcs = 0
        for x in body:
            fcs ^= x
        plain.append([mk("b", const(x)) for x in [0xFE] + body + [fcs]])
    expect_delivery(rep, rx, "frames sharing a chunk", "18 frames of the largest size, known bytes", rx.feed(rx.st.fork(), mkcat(sum(plain, []))), plain)
    short = [mkframe(W, 3, 1, 0, "s%d." % i) for i in range(150)]
    expect_delivery(rep, rx, "frames sharing a chunk", "150 frames of the smallest size", rx.feed(rx.st.fork(), mkcat(sum(short, []))), short)
    cur = [(rx.st.fork(), NONE)]
    bts = sum(long_[:5], [])
    for i in range(0, len(bts), 64):
        cur = [y for s, r in cur for y in rx.feed(s, mkcat(bts[i : i + 64]))]
    expect_delivery(rep, rx, "chunk boundaries", "frames of the largest size in reads of 64 bytes", cur, long_[:5])
    for n in (300, 3000):
        for kind in (0x00, 0xEF, 0xFF):
            f = mkframe(W, 2, 5, 3)
            expect_delivery(rep, rx, "noise before and between frames", "%d bytes %02x" % (n, kind), rx.feed(rx.st.fork(), mkcat([const(bytes([kind]) * n)] + f + [const(bytes([kind]) * 7)] + f)), [f, f])
    W.I.hooks.pop("unroll")
    # however many frames were received before
    a, b = mkframe(W, 2, 5, 2, "a"), mkframe(W, 3, 1, 0, "b")
    for s, r in rx.feed(rx.st.fork(), mkcat(a)):
        s = None if isinstance(r, Raise) else many(rx.st, s, rx.W)
        if s is not None:
            expect_delivery(rep, rx, "frames sharing a chunk", "after many frames", rx.feed(s, mkcat(a + b)), [a, a, b])
    # payload bytes equal to the start byte are data
    for pos in range(5):
        f = mkframe(W, 2, 5, 4)
        i = 3 + pos
        f[i] = mk("b", const(0xFE))
        f[-1] = mk("b", mkxor([x.args[0] for x in f[1:-1]]))
        g = mkframe(W, 3, 1, 2, "g")
        expect_delivery(rep, rx, "start byte inside a frame", "byte %d" % i, rx.feed(rx.st.fork(), mkcat(f + g)), [f, g])


def two_chunks(rep, rx, f, c, subj):
    W = rx.W
    st = rx.st.fork()
    for s, r in rx.feed(st, mkcat(f[:c])):
        if isinstance(r, Raise):
            rep.violation("chunk boundaries", subj, raise_where(W, s, r), "raises %s" % W.exc(s, r))
            return
        if rx.delivered(s):
            rep.violation("chunk boundaries", subj, where(rx.delivered(s)[0][0]), "a frame is delivered before its last byte arrived")
            return
        if not expect_delivery(rep, rx, "chunk boundaries", subj, rx.feed(s, mkcat(f[c:])), [f]):
            return


def split(rep, rx, a, b, c, subj):
    W = rx.W
    f = a + b
    n1 = 1 if c >= len(a) else 0
    for s, r in rx.feed(rx.st.fork(), mkcat(f[:c])):
        if isinstance(r, Raise):
            rep.violation("chunk boundaries", subj, raise_where(W, s, r), "raises %s" % W.exc(s, r))
            return
        got = rx.delivered(s)
        if len(got) != n1:
            rep.violation("chunk boundaries", subj, where(got[-1][0]) if got else "Gateway.data_received", "%d frame(s) delivered with the first chunk, expected %d" % (len(got), n1))
            return
        if not expect_delivery(rep, rx, "chunk boundaries", subj, rx.feed(s, mkcat(f[c:])), [a, b]):
            return


def single(rep, rx, f, subj):
    W = rx.W
    cur = [rx.st.fork()]
    for i, x in enumerate(f):
        nxt = []
        for s in cur:
            for s2, r in rx.feed(s, mkcat([x])):
                if isinstance(r, Raise):
                    rep.violation("byte by byte", subj, raise_where(W, s2, r), "raises %s" % W.exc(s2, r))
                    return
                nxt.append(s2)
        cur = nxt
        if i < len(f) - 1:
            for s in cur:
                if s.flags.get("n", 0):
                    rep.violation("byte by byte", subj, "Gateway.data_received", "a frame is delivered after %d of %d bytes" % (i + 1, len(f)))
                    return
    expect_delivery(rep, rx, "byte by byte", subj, [(s, NONE) for s in cur], [f])


# ------------------------------------------------------------------- C04
def c04(rep):
    rep.explain = (
        "Every way a received frame can be rejected (wrong checksum, undefined type or subsystem, a handler that fails"
        " with any exception) is followed by a good frame in the same and in a later chunk; the good frame must be"
        " handed over on every path and the protocol callback must not raise."
    )
    W = World()
    good = mkframe(W, 2, 5, 2, "g")
    good2 = mkframe(W, 3, 1, 0, "h")
    for L in (0, 1, 2, 5, 20, 250):
        rx = Rx(W)
        x = sym("fcs", "byte")
        bad = mkframe(W, 2, 5, L, "b", fcs=x)
        after(rep, rx, "after a wrong checksum", "length %d" % L, bad, good, good2)
    # undefined command types / subsystems
    subs = set(W.members("zigpy_cc.types", "Subsystem").values())
    types = set(W.members("zigpy_cc.types", "CommandType").values())
    cmds = [(c, s) for c in range(8) for s in range(32) if c not in types or s not in subs]
    if rep.tier == "quick":
        cmds = [(c, s) for c, s in cmds if s in (5, 10, 14, 31) or c in (2,)]
    for c, s_ in cmds:
        rx = Rx(W)
        bad = mkframe(W, c, s_, 1, "b")
        after(rep, rx, "after an undefined header", "%d/%d" % (c, s_), bad, good, good2)
    # handler failures
    for L in (0, 1, 3):
        rx = Rx(W, fail=(0,))
        bad = mkframe(W, 2, 5, L, "b")
        after(rep, rx, "after a failing handler", "length %d" % L, bad, good, good2)
    for how in FAILURES:
        rx = Rx(W, fail=(0,), how=how)
        after(rep, rx, "after a failing handler", how, mkframe(W, 2, 5, 1, "b"), good, good2)
    # a start byte inside the rejected frame does not make the bytes behind it a frame
    for data in ((0xFE,), (0xFE, 0xFE), (0xFE, 0x20, 0x45, 0xC0), (0xFE, 0x00, 0x45), (0x01, 0xFE), (0xFE, 0x05, 0x45, 0xC0, 0x00), (0x00, 0xFE, 0x02), (0xFE,) * 20):
        body = [len(data), 0x45, 0xC1] + list(data)
        fcs = 0
        for x in body:
            fcs ^= x
        for wrong in {fcs ^ 0x01, 0xFE} - {fcs}:
            rx = Rx(W)
            bad = [mk("b", const(x)) for x in [0xFE] + body + [wrong]]
            after(rep, rx, "after a wrong checksum", "payload %s, checksum %02x" % (bytes(data).hex(), wrong), bad, good, good2)
    # through the real dispatcher: unknown command ids and truncated payloads
    for ss, rows in sorted(W.definition().items()):
        ids = {r["ID"] for r in rows}
        free = next(i for i in range(256) if i not in ids)
        dispatch_bad(rep, W, "after an unknown command", "%d/%d" % (ss, free), 2, ss, free, 0)
        row = next((r for r in rows if r["type"] == 2 and r["request"] and r["request"][0][1] in (1, 2, 3)), None)
        if row:
            dispatch_bad(rep, W, "after a truncated command", row["name"], 2, ss, row["ID"], 1)
    # the good frame that follows still reaches whoever waits for it
    from .conc import rejects

    rejects(rep, World(), ("unicast message", "adapter command", "adapter command with status"))


FAILURES = (
    "builtins.KeyError", "builtins.IndexError", "builtins.ValueError", "builtins.AttributeError", "builtins.TypeError", "builtins.StopIteration",
    "builtins.OverflowError", "builtins.AssertionError", "builtins.RuntimeError", "builtins.OSError", "builtins.NotImplementedError", "asyncio.InvalidStateError",
    "asyncio.TimeoutError", "zigpy.exceptions.DeliveryError", "asyncio.QueueFull",
)


def after(rep, rx, rule, subj, bad, good, good2):
    W = rx.W
    for mode in ("same chunk", "next chunk", "after many"):
        if mode == "same chunk":
            res = rx.feed(rx.st.fork(), mkcat(bad + good + good2))
        elif mode == "after many":
            # whatever counts the rejected frames has any value
            res = []
            more = [many(rx.st, s, rx.W) for s, r in rx.feed(rx.st.fork(), mkcat(bad)) if not isinstance(r, Raise)]
            for s0 in more:
                if s0 is not None:
                    s0.flags["n"] = 0
                    res += rx.feed(s0, mkcat(bad + good + good2))
            if not res:
                continue
        else:
            res = []
            for s, r in rx.feed(rx.st.fork(), mkcat(bad)):
                if isinstance(r, Raise):
                    res.append((s, r))
                else:
                    res += rx.feed(s, mkcat(good + good2))
        okay = True
        for s, r in res:
            if isinstance(r, Raise):
                rep.violation(rule, "%s, %s" % (subj, mode), raise_where(W, s, r), "data_received raises %s: the rest of the chunk is lost" % W.exc(s, r))
                okay = False
                break
            shut = [e for e in W.mcalls(s, W.transport) if e.name in ("close", "abort", "pause_reading")]
            if shut:
                rep.violation(rule, "%s, %s" % (subj, mode), where(shut[0]), "a rejected frame makes the driver call %s on the port: nothing is received any more" % shut[0].name)
                okay = False
                break
            bufs = [b for _, b in rx.delivered(s)]
            if None in bufs:
                rep.unknown(rule, "%s, %s" % (subj, mode), "frames are delivered by a loop of unknown extent")
                okay = False
                break
            tail = bufs[-2:]
            if len(tail) != 2 or W.eq(s, tail[0], mkcat(good)) is False or W.eq(s, tail[1], mkcat(good2)) is False:
                rep.violation(rule, "%s, %s" % (subj, mode), "Gateway.data_received", "the frames after the rejected one are not delivered (%d frame(s) seen)" % len(bufs))
                okay = False
                break
        if not res:
            rep.unknown(rule, subj, "no path")
        elif okay:
            rep.ok(rule, "%s, %s" % (subj, mode))


def dispatch_bad(rep, W, rule, subj, ct, ss, cid, L):
    """an undecodable frame, then a good one, through API.data_received to the application"""
    W.I.hooks.pop("mcall", None)
    app = sym("app", "obj")
    st, api, gw = W.api_world(app=app)
    body = [const(L), const((ct << 5) | ss), const(cid)] + [sym("p%d" % i, "byte") for i in range(L)]
    bad = [mk("b", x) for x in [const(0xFE)] + body + [mkxor(body)]]
    row = W.cmd(5, "stateChangeInd")
    if row is None:
        raise AnalysisError("command row stateChangeInd vanished")
    v = sym("state", "byte")
    body = [const(1), const((2 << 5) | 5), const(row["ID"]), v]
    good = [mk("b", x) for x in [const(0xFE)] + body + [mkxor(body)]]
    res = W.meth(st, gw, "data_received", [mkcat(bad + good)])
    for s, r in res:
        if isinstance(r, Raise):
            rep.violation(rule, subj, raise_where(W, s, r), "data_received raises %s" % W.exc(s, r))
            return
        hs = W.mcalls(s, app, "handle_znp")
        if not hs:
            rep.violation(rule, subj, "API.data_received", "the good frame that follows is not handled")
            return
        p = W.ditems(s, W.field(s, hs[-1].args[0], "payload", NONE))
        if p is None or "state" not in p or W.eq(s, p["state"], v) is False:
            rep.violation(rule, subj, where(hs[-1]), "the good frame that follows is handled with other content")
            return
    rep.ok(rule, subj) if res else rep.unknown(rule, subj, "no path")


# ------------------------------------------------------------------- C05
def c05(rep):
    rep.explain = (
        "For every row of the command table a received frame with unknown field values is interpreted through"
        " API.data_received to the application callback; each field of the delivered payload must be the value at its"
        " wire position, and a frame too short for its fields must not be delivered at all."
    )
    W = World()
    W.I.hooks.pop("mcall", None)
    for ss, rows in sorted(W.definition().items()):
        for row in rows:
            for ct, key in ((2, "request"), (3, "response")) if row["type"] == 2 else ((3, "response"),):
                params = row.get(key)
                if params is None or (row["type"] == 2 and ct == 3):
                    continue
                if row["type"] == 1 and ct == 2:
                    continue
                unit = sum(W.UNIT.get(pt, 0) for _, pt in params)
                for count in (0, 1, 2, 5, 19, 250) if rep.tier == "quick" else tuple(range(12)) + (16, 17, 19, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 250):
                    if count and not unit:
                        continue
                    if count > 2 and count * unit + 24 > 250:
                        count = (250 - 24) // unit  # as many as a frame can hold
                        if count <= 2:
                            continue
                    decode(rep, W, ct, ss, row, params, count)
                    if count < 2 and (unit or count == 0):
                        decode(rep, W, ct, ss, row, params, count, 3)


def decode(rep, W, ct, ss, row, params, count, extra=0):
    """`extra` bytes behind the fields may be refused, but never become part of them"""
    subj = "%d.%s/%d%s" % (ss, row["name"], count, " with %d bytes behind" % extra if extra else "")
    if extra and (any(pt not in W.READABLE for _, pt in params) or not params):
        return
    if any(pt not in W.READABLE for _, pt in params):
        key = "undecodable/%d.%s" % (ss, row["name"])
        if count == 0:
            bad = [W_pt for _, W_pt in params if W_pt not in W.READABLE]
            probe_undecodable(rep, W, ct, ss, row, params, key, bad)
        return
    if any(pt in (4,) and (i == 0 or params[i - 1][1] not in (0, 1, 2)) for i, (n, pt) in enumerate(params)):
        return  # no length on the wire: the row itself does not determine a layout
    vals, data = W.samples(params, count)
    app = sym("app", "obj")
    st, api, gw = W.api_world(app=app)
    if extra:
        data = mkcat([data] + [mk("b", sym("extra%d" % i, "byte")) for i in range(extra)])
    s0, fr = W.frame(st, ct, ss, row["ID"], data)
    for v in vals:
        if v[0].endswith("addrmode"):
            ms = list(W.members("zigpy_cc.types", "AddressMode").values())
            s0.flags["am"] = ms
    base = s0.fork()
    okp = 0
    for s, r in W.meth(s0, api, "data_received", [fr]):
        if isinstance(r, Raise):
            if any(v[0].endswith("addrmode") for v in vals) and W.exc_is(s, r, "builtins.ValueError"):
                continue  # an address mode that does not exist
            if extra:
                okp += 1
                continue
            rep.violation("fields of a received command", subj, raise_where(W, s, r), "a complete frame is rejected with %s" % W.exc(s, r))
            return
        hs = W.mcalls(s, app, "handle_znp")
        if len(hs) != 1:
            rep.violation("fields of a received command", subj, "API.data_received", "the application sees the frame %d times" % len(hs))
            return
        o = hs[0].args[0]
        p = W.ditems(s, W.field(s, o, "payload", NONE))
        if p is None:
            rep.unknown("fields of a received command", subj, "payload is not a known dictionary")
            return
        okp += 1
        if set(p) != {n for n, _, _ in vals}:
            rep.violation("fields of a received command", subj, where(hs[0]), "payload fields are %s, expected %s" % (sorted(p), sorted(n for n, _, _ in vals)))
            return
        for n, pt, v in vals:
            q = W.eq(s, p[n], v)
            if q is False:
                rep.violation("fields of a received command", subj + "." + n, where(hs[0]), "field %s is %s, expected %s" % (n, W.show(s, p[n])[:300], W.show(s, v)[:300]))
                return
            if q is None:
                rep.unknown("fields of a received command", subj + "." + n, "cannot compare %s with %s" % (W.show(s, p[n])[:200], W.show(s, v)[:200]))
            else:
                rep.ok("fields of a received command", subj + "." + n)
        cmd = W.field(s, o, "command")
        if cmd is not const(row["name"]):
            rep.violation("name of a received command", subj, where(hs[0]), "command is %s, expected %s" % (cmd, row["name"]))
            return
        if count < 3 and not extra and not decode_next(rep, W, s, ct, ss, row, params, count, subj, app, api):
            return
    if not okp:
        rep.violation("fields of a received command", subj, "API.data_received", "no path delivers the frame")
        return
    if extra:
        return
    # one byte short
    n = const_len(data)
    if not n:
        return
    for short in (n - 1,) if rep.tier == "quick" else sorted({0, n // 2, n - 1}):
        s1, fr = W.frame(base.fork(), ct, ss, row["ID"], bslice(data, const(0), const(short)))
        for s, r in W.meth(s1, api, "data_received", [fr]):
            if not isinstance(r, Raise) and W.mcalls(s, app, "handle_znp"):
                rep.violation("truncated command", subj, where(W.mcalls(s, app, "handle_znp")[0]), "a frame of %d bytes where %d are needed is delivered" % (short, n))
                return
        rep.ok("truncated command", "%s %d of %d" % (subj, short, n))


def decode_next(rep, W, s, ct, ss, row, params, count, subj, app, api):
    """the same command again, with other values: nothing of the one before is in its fields"""
    vals, data = W.samples(params, count, tag="next:")
    s0, fr = W.frame(s.fork(), ct, ss, row["ID"], data)
    if any(n.endswith("addrmode") for n, _, _ in vals):
        s0.flags["am"] = list(W.members("zigpy_cc.types", "AddressMode").values())
    rule, subj = "fields of a received command", subj + ", once more"
    for s2, r in W.meth(s0, api, "data_received", [fr]):
        hs = W.mcalls(s2, app, "handle_znp")[1:]
        if isinstance(r, Raise):
            if any(n.endswith("addrmode") for n, _, _ in vals) and W.exc_is(s2, r, "builtins.ValueError"):
                continue
            rep.violation(rule, subj, raise_where(W, s2, r), "a complete frame is rejected with %s" % W.exc(s2, r))
            return False
        p = W.ditems(s2, W.field(s2, hs[0].args[0], "payload", NONE)) if len(hs) == 1 else {}
        if p is None:
            rep.unknown(rule, subj, "payload is not a known dictionary")
            return True
        bad = [n for n, _, v in vals if n not in p or W.eq(s2, p[n], v) is False]
        if bad or len(hs) != 1:
            n = bad[0] if bad else ""
            rep.violation(rule, subj + "." + n, where(hs[0]) if hs else "API.data_received", "field %s is %s" % (n, W.show(s2, p[n])[:300]) if n in p else "the application sees the frame %d times" % len(hs))
            return False
        for n, _, v in vals:
            if W.eq(s2, p[n], v) is None:
                rep.unknown(rule, subj + "." + n, "cannot compare %s with %s" % (W.show(s2, p[n])[:200], W.show(s2, v)[:200]))
    rep.ok(rule, subj)
    return True


def probe_undecodable(rep, W, ct, ss, row, params, key, bad):
    app = sym("app", "obj")
    st, api, gw = W.api_world(app=app)
    data = mkcat([mk("b", const(0))] * 80)
    s0, fr = W.frame(st, ct, ss, row["ID"], data)
    for s, r in W.meth(s0, api, "data_received", [fr]):
        if isinstance(r, Raise):
            names = {v: k for k, v in W.members("zigpy_cc.types", "ParameterType").items()}
            rep.violation(
                "decodable reply", row["name"], raise_where(W, s, r),
                "every received %s is rejected: reading a parameter of type %s is not implemented" % (row["name"], ", ".join(names.get(b, str(b)) for b in bad)), key,
            )
            return
    rep.ok("decodable reply", row["name"])


# ------------------------------------------------------------------- C06
def c06(rep):
    rep.explain = (
        "Writer and reader of every parameter type are composed on unknown values: reading what was written yields the"
        " value again and consumes exactly the bytes written; for neighbour records every flag byte is evaluated over its"
        " whole finite domain.  Every row that can be written and read is also composed as a whole."
    )
    W = World()
    B = W.glob("zigpy_cc.buffalo", "Buffalo")
    names = {v: k for k, v in W.members("zigpy_cc.types", "ParameterType").items()}
    for pt in sorted(W.WRITABLE & W.READABLE):
        if pt == 15:
            continue
        for pname in ("value", "dstaddr", "shortaddress", "nwkaddrofinterest") if pt == 1 else ("value",):
            for count in (1, 3) if pt in W.LISTY else (0, "number") if pt == 3 else (0,):
                v, wire = W.sample(pname, pt, count=0 if count == "number" else count)
                subj = "%s %s/%s" % (names.get(pt, pt), pname, count)
                given = v
                if count == "number":
                    # the same address as one 64 bit number
                    given, count = fromle(v.args[0]), 0
                st, b = W.one(W.call(W.state(), B, [const(b"")]), "Buffalo()")
                res = W.meth(st, b, "write_parameter", [W.enumval("zigpy_cc.types", "ParameterType", pt), wval(W, st, pt, given), W.I.dict_(st, [])])
                for s, r in res:
                    if isinstance(r, Raise):
                        rep.violation("written bytes", subj, raise_where(W, s, r), "writing an in-range value raises %s" % W.exc(s, r))
                        break
                    buf = W.field(s, b, "buffer")
                    if buf is None:
                        raise AnalysisError("anchor vanished: Buffalo.buffer")
                    if not judge(rep, W, s, "written bytes", subj, "Buffalo.write_parameter", buf, wire):
                        break
                    s2, b2 = W.one(W.call(s, B, [buf]), "Buffalo()")
                    read_back(rep, W, s2, b2, pname, pt, v, count, subj)
    lqi(rep, W, B)
    rows_roundtrip(rep, W)


def read_back(rep, W, st, b, pname, pt, v, count, subj):
    O = W.glob("zigpy_cc.buffalo", "BuffaloOptions")
    st, o = W.one(W.call(st, O, []), "BuffaloOptions()")
    st.w(o).f["length"] = const(count)
    for s, r in W.meth(st, b, "read_parameter", [const(pname), W.enumval("zigpy_cc.types", "ParameterType", pt), o]):
        if isinstance(r, Raise):
            rep.violation("read of written bytes", subj, raise_where(W, s, r), "reading back raises %s" % W.exc(s, r))
            return
        if not judge(rep, W, s, "read of written bytes", subj, "Buffalo.read_parameter", r, v):
            return
        pos = W.field(s, b, "position")
        if pos is not None:
            judge(rep, W, s, "bytes consumed", subj, "Buffalo.read_parameter", pos, blen(W.field(s, b, "buffer")))


def lqi(rep, W, B):
    """read then write a neighbour record: same record for every flag byte"""
    O = W.glob("zigpy_cc.buffalo", "BuffaloOptions")
    for count in (1, 2):
        v, wire = W.sample("lqi", 15, count=count)
        st, b = W.one(W.call(W.state(), B, [wire]), "Buffalo()")
        st, o = W.one(W.call(st, O, []), "BuffaloOptions()")
        st.w(o).f["length"] = const(count)
        T = W.enumval("zigpy_cc.types", "ParameterType", 15)
        for s, r in W.meth(st, b, "read_parameter", [const("lqilist"), T, o]):
            if isinstance(r, Raise):
                rep.violation("neighbour record", "read/%d" % count, raise_where(W, s, r), "raises %s" % W.exc(s, r))
                return
            if not judge(rep, W, s, "neighbour record", "read/%d" % count, "Buffalo.read_parameter", lqi_val(W, s, r), lqi_sorted(v)):
                return
            s2, b2 = W.one(W.call(s, B, [const(b"")]), "Buffalo()")
            for s3, r3 in W.meth(s2, b2, "write_parameter", [T, r, W.I.dict_(s2, [])]):
                if isinstance(r3, Raise):
                    rep.violation("neighbour record", "write/%d" % count, raise_where(W, s3, r3), "raises %s" % W.exc(s3, r3))
                    return
                buf = W.field(s3, b2, "buffer")
                s4, b4 = W.one(W.call(s3, B, [buf]), "Buffalo()")
                for s5, r5 in W.meth(s4, b4, "read_parameter", [const("lqilist"), T, o]):
                    if isinstance(r5, Raise):
                        rep.violation("neighbour record", "re-read/%d" % count, raise_where(W, s5, r5), "raises %s" % W.exc(s5, r5))
                        return
                    finite(rep, W, s5, "re-read/%d" % count, lqi_val(W, s5, r5), lqi_sorted(v))


def lqi_val(W, s, r):
    items = lib.known_items(W.I, s, r)
    if items is None:
        return W.plain(s, r)
    out = []
    for it in items:
        ob = W.I.obj(s, it)
        if ob is None or ob.kind != "dict":
            return W.plain(s, r)
        d = {cval(k): W.plain(s, x) for k, x in ob.f["items"]}
        out.append(mk("tup", *[mk("tup", const(k), d[k]) for k in sorted(d)]))
    return mk("tup", *out)


def lqi_sorted(v):
    out = []
    for rec in v.args:
        d = {x.args[0].args[0]: x.args[1] for x in rec.args}
        out.append(mk("tup", *[mk("tup", const(k), d[k]) for k in sorted(d)]))
    return mk("tup", *out)


def finite(rep, W, s, subj, got, want):
    """two records equal over the whole domain of every byte they depend on"""
    if len(got.args) != len(want.args):
        rep.violation("neighbour record", subj, "Buffalo.write_parameter", "%d records, expected %d" % (len(got.args), len(want.args)))
        return
    for g, w in zip(got.args, want.args):
        gd = {x.args[0].args[0]: x.args[1] for x in g.args}
        wd = {x.args[0].args[0]: x.args[1] for x in w.args}
        if set(gd) != set(wd):
            rep.violation("neighbour record", subj, "Buffalo.read_parameter", "fields %s, expected %s" % (sorted(gd), sorted(wd)))
            return
        for k in sorted(wd):
            a, b = W.plain(s, gd[k]), W.plain(s, wd[k])
            if a is b:
                rep.ok("neighbour record", "%s.%s" % (subj, k))
                continue
            syms = [x for x in subterms(mk("tup", a, b)) if x.op == "sym"]
            if len(syms) == 1 and syms[0].args[1] == "byte":
                try:
                    for x in range(256):
                        va, vb = teval(a, {syms[0]: x}), teval(b, {syms[0]: x})
                        if va != vb:
                            rep.violation("neighbour record", "%s.%s" % (subj, k), "Buffalo.write_parameter", "flag byte %#x: %s becomes %s" % (x, vb, va))
                            return
                    rep.ok("neighbour record", "%s.%s" % (subj, k))
                    continue
                except NoValue:
                    pass
            judge(rep, W, s, "neighbour record", "%s.%s" % (subj, k), "Buffalo.write_parameter", a, b)


def rows_roundtrip(rep, W):
    """encode the payload of a received command again: the same bytes"""
    Z = W.glob("zigpy_cc.zpi_object", "ZpiObject")
    for ss, rows in sorted(W.definition().items()):
        for row in rows:
            key = "request" if row["type"] == 2 else "response"
            params = row.get(key)
            if not params or any(pt not in W.READABLE or pt not in W.WRITABLE or pt == 15 for _, pt in params):
                continue
            if any(pt in W.LISTY and (i == 0 or params[i - 1][1] not in (0, 1, 2)) for i, (n, pt) in enumerate(params)):
                continue
            vals, data = W.samples(params, 2)
            subj = "%d.%s" % (ss, row["name"])
            st = W.state()
            ct = 2 if key == "request" else 3
            st, fr = W.frame(st, ct, ss, row["ID"], data)
            for s, o in W.meth(st, Z, "from_unpi_frame", [fr]):
                if isinstance(o, Raise):
                    if W.exc_is(s, o, "builtins.ValueError"):
                        continue
                    rep.violation("re-encoded command", subj, raise_where(W, s, o), "raises %s" % W.exc(s, o))
                    break
                stop = False
                for s2, f2 in W.meth(s, o, "to_unpi_frame"):
                    if isinstance(f2, Raise):
                        rep.violation("re-encoded command", subj, raise_where(W, s2, f2), "raises %s" % W.exc(s2, f2))
                        stop = True
                        break
                    d = W.field(s2, f2, "data")
                    if not judge(rep, W, s2, "re-encoded command", subj, "ZpiObject.to_unpi_frame", d, data):
                        stop = True
                        break
                if stop:
                    break
