"""The command table: C07, C08."""
import ast
import json
import os

from ..world import *

GOLD = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "golden", "mt_commands.json")
TBL = "zigpy_cc/definition.py (Definition)"
LENGTHISH = ("len", "count", "num", "groups")


_lines = {}


def line_of(W, ss, name):
    """source line of a row, found by its literal name"""
    if not _lines:
        _lines[None] = 0
        m = W.I.prog.modules.get("zigpy_cc.definition")
        for n in ast.walk(m.tree) if m is not None else ():
            if isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and k.value == "name" and isinstance(v, ast.Constant):
                        _lines.setdefault(v.value, []).append(n.lineno)
    at = _lines.get(name)
    return "zigpy_cc/definition.py:%s (%d.%s)" % ("/".join(map(str, at)), ss, name) if at else TBL


def c07(rep):
    rep.explain = (
        "The evaluated command table is queried for the facts the codec depends on: within a subsystem no two rows share"
        " an id or a name, ids fit a byte, parameter names are unique, every synchronous request has a reply layout, and"
        " every variable-length parameter follows an integer that can carry its length. Every row is also decoded"
        " through the reader so that the lookup by subsystem and id selects it."
    )
    W = World()
    types = W.members("zigpy_cc.types", "CommandType")
    names = {v: k for k, v in W.members("zigpy_cc.types", "ParameterType").items()}
    subs = set(W.members("zigpy_cc.types", "Subsystem").values())
    for ss, rows in sorted(W.definition().items()):
        rep.expect(ss in subs, "subsystem exists", ss, TBL, "table for undefined subsystem %d" % ss)
        ids, nm = {}, {}
        for r in rows:
            subj = "%d.%s" % (ss, r.get("name"))
            at = line_of(W, ss, r.get("name"))
            if not {"name", "ID", "type", "request"} <= set(r):
                rep.violation("row is complete", subj, at, "row lacks %s" % sorted({"name", "ID", "type", "request"} - set(r)))
                continue
            rep.ok("row is complete", subj)
            rep.expect(r["ID"] not in ids, "ids are unique", subj, at, "id %#x is also used by %s: one of them can never be received" % (r["ID"], ids.get(r["ID"])))
            ids[r["ID"]] = r["name"]
            rep.expect(r["name"] not in nm, "names are unique", subj, at, "the name is used twice in the subsystem")
            nm[r["name"]] = 1
            rep.expect(isinstance(r["ID"], int) and 0 <= r["ID"] <= 255, "id fits a byte", subj, at, "id %r" % r["ID"])
            rep.expect(r["type"] in (types.get("SREQ"), types.get("AREQ")), "type is a request type", subj, at, "type %r" % r["type"])
            if r["type"] == types.get("SREQ"):
                rep.expect(r.get("response") is not None, "synchronous request has a reply layout", subj, at, "no response parameters: its reply cannot be decoded")
            for key in ("request", "response"):
                ps = r.get(key)
                if ps is None:
                    continue
                pn = [n for n, _ in ps]
                rep.expect(len(set(pn)) == len(pn), "parameter names are unique", subj + "." + key, at, "duplicate in %s: one value overwrites the other" % pn)
                for i, (n, pt) in enumerate(ps):
                    rep.expect(pt in names, "parameter type exists", "%s.%s" % (subj, n), at, "type %r" % (pt,))
                    received = key == "response" or r["type"] == types.get("AREQ")
                    if pt in W.LISTY and received:
                        prev = ps[i - 1] if i else ("", None)
                        rep.expect(
                            prev[1] in (0, 1, 2) and any(x in prev[0].lower() for x in LENGTHISH),
                            "variable part has a length", "%s.%s" % (subj, n), at,
                            "no length precedes the variable-length %s of a received command" % n,
                            "length/%s.%s.%s" % (subj, key, n),
                        )


def c08(rep):
    rep.explain = (
        "The evaluated command table and protocol enumerations are compared with a snapshot of the MT command set kept"
        " apart from the code: every command of the snapshot must be there with its id, its direction and its parameters"
        " in order, with their wire types."
    )
    W = World()
    g = json.load(open(GOLD))
    names = {v: k for k, v in W.members("zigpy_cc.types", "ParameterType").items()}
    for en, ms in sorted(g["enums"].items()):
        cur = W.members("zigpy_cc.types", en)
        for k, v in sorted(ms.items()):
            rep.expect(cur.get(k) == v, "protocol constant", "%s.%s" % (en, k), "zigpy_cc/types.py (%s)" % en, "value is %r, the protocol's is %r" % (cur.get(k), v))
    cur = W.members("zigpy_cc.zigbee.common", "NvItemsIds")
    for k, v in sorted(g["nv"].items()):
        rep.expect(cur.get(k) == v, "non-volatile item id", k, "zigpy_cc/zigbee/common.py (NvItemsIds)", "value is %r, the protocol's is %r" % (cur.get(k), v))
    D = W.definition()
    for ss, rows in sorted(g["commands"].items()):
        have = {r.get("name"): r for r in D.get(int(ss), ())}
        for r in rows:
            subj = "%s.%s" % (ss, r["name"])
            c = have.get(r["name"])
            if c is None:
                rep.violation("command exists", subj, TBL, "the command is missing from the table")
                continue
            at = line_of(W, int(ss), r["name"])
            rep.expect(c.get("ID") == r["ID"], "command id", subj, at, "id is %r, the protocol's is %#x" % (c.get("ID"), r["ID"]))
            rep.expect(c.get("type") == r["type"], "command type", subj, at, "type is %r, the protocol's is %r" % (c.get("type"), r["type"]))
            for key in ("request", "response"):
                want = None if r[key] is None else [tuple(x) for x in r[key]]
                got = c.get(key)
                got = None if got is None else [(n, names.get(p, p)) for n, p in got]
                if want is None and r["type"] == 2:
                    rep.ok("%s layout" % key, subj)
                    continue
                rep.expect(got == want, "%s layout" % key, subj, at, diff(got, want))


def diff(got, want):
    if got is None or want is None:
        return "layout is %s, the protocol's is %s" % (got, want)
    for i in range(max(len(got), len(want))):
        a = got[i] if i < len(got) else None
        b = want[i] if i < len(want) else None
        if a != b:
            return "parameter %d is %s, the protocol's is %s" % (i, a, b)
    return ""
