#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one description (run by hand after an edit)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "zigpy_cc/api.py"
U = "zigpy_cc/uart.py"
Z = "zigpy_cc/zpi_object.py"
B = "zigpy_cc/buffalo.py"
D = "zigpy_cc/definition.py"
T = "zigpy_cc/types.py"
P = "zigpy_cc/zigbee/application.py"
S = "zigpy_cc/zigbee/start_znp.py"
N = "zigpy_cc/zigbee/nv_items.py"
C = "zigpy_cc/config.py"

PROPS = []
NA = []


def prop(id, title, statement, over, text, why, mech, state=(), observe=(), na=None, note=None):
    files = []
    for _, w in mech:
        f = w.split("::")[0]
        if f not in files:
            files.append(f)
    p = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
    }
    if state:
        p["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        p["anchors"]["observe_at"] = list(observe)
    PROPS.append((p, note, na))


TX = ["bytes written to the serial transport"]
RX = ["frames handed from the serial protocol to the command layer"]
APPRX = ["join and message callbacks of the zigpy application"]

prop("C01", "Commands are framed exactly as the MT protocol prescribes",
     "Every command sent to the adapter is written as one frame: start byte, payload length, command type and subsystem, command id, the parameter values in the command's order and wire format, and the XOR checksum over all of these but the start byte. Nothing else is written for it, and a command with a value missing or not fitting its format is not sent.",
     ["inputs"], "every command of the table that can be encoded, every parameter value, every payload of up to 250 bytes",
     "tests encode a handful of commands with fixed values; the guarantee is for every command and value",
     [("frame serialisation", U + "::UnpiFrame.to_buffer"), ("command encoding", Z + "::ZpiObject.from_command, to_unpi_frame"), ("parameter writers", B + "::Buffalo.write_parameter")], observe=TX)
prop("C02", "Only frames with a correct checksum are accepted, and unchanged",
     "A received frame is handed on exactly when its checksum matches, with exactly the type, subsystem, command id and payload bytes that were received. A frame with any other checksum value is dropped and causes no delivery.",
     ["inputs", "fault_sequences"], "every frame type, subsystem, command id, payload length and content, every wrong checksum value",
     "tests use single recorded frames and one corrupted one",
     [("frame parsing", U + "::UnpiFrame.from_buffer"), ("checksum", U + "::UnpiFrame.calculate_checksum")], observe=RX)
prop("C03", "Frames are recognised however the byte stream is chunked",
     "For every sequence of frames, with any non-start bytes before or between them, every frame is handed on exactly once, in order, as soon as its last byte has arrived, no matter how the stream is split into reads. No byte of a later frame is lost because of an earlier one.",
     ["inputs", "schedules"], "every frame length, every split of a stream into reads, any noise bytes other than the start byte between frames",
     "tests feed whole frames or a single split",
     [("stream parser", U + "::Parser.write"), ("read callback", U + "::Gateway.data_received")],
     state=[("receive buffer", "bytes of the frame being received", U + "::Parser.buffer")], observe=RX)
prop("C04", "A bad frame never takes later frames with it",
     "Whatever is wrong with a received frame (checksum, undefined type, subsystem or command, undecodable payload, a handler that fails), the read callback does not raise and every following good frame in the same or later reads is still handed on.",
     ["fault_sequences", "inputs"], "every way one frame can be rejected or fail in its handler, followed by good frames in the same or a later read",
     "tests feed one bad frame alone or none",
     [("per-frame error isolation", U + "::Gateway.data_received"), ("frame parsing", U + "::Parser.write, UnpiFrame.from_buffer"), ("dispatch", A + "::API.data_received")], observe=RX)
prop("C05", "Received commands are decoded field by field as defined",
     "For every command the adapter may send, each decoded parameter is exactly the value at its position and in its format in the payload, including variable-length lists whose length an earlier field gives. A payload too short for its command is never delivered with made-up values.",
     ["inputs"], "every command of the table that can be received, every field value, several list lengths, every truncation",
     "tests decode a few recorded frames",
     [("frame to object", Z + "::ZpiObject.from_unpi_frame"), ("parameter readers", B + "::Buffalo.read_parameter"), ("command lookup", D + "::Definition")], observe=["decoded objects delivered to the application"])
prop("C06", "Encoding and decoding are inverse for every parameter type",
     "For every parameter type that can be both written and read, decoding what was encoded yields the original value and consumes exactly the bytes written. The same holds for whole commands built from such parameters.",
     ["inputs"], "every value of every parameter type, lists of several lengths, every flag byte of a neighbour record",
     "tests round-trip single values of some types",
     [("writers", B + "::Buffalo.write_parameter"), ("readers", B + "::Buffalo.read_parameter")])
prop("C07", "The command table is unambiguous and self-consistent",
     "Within a subsystem no two commands share an id or a name, ids fit one byte, parameter names are unique within a command, every synchronous request has a reply layout, and every variable-length parameter directly follows an integer parameter that carries its length. Looking a command up by subsystem and id from the wire yields that command.",
     ["programs"], "all commands of all subsystems",
     "tests touch a few rows of a table of some 300 commands",
     [("command table", D + "::Definition"), ("lookup", Z + "::ZpiObject.from_unpi_frame")])
prop("C08", "The command table matches the adapter's MT command set",
     "Every MT command this library supports keeps its subsystem, id, direction, and its request and reply parameters in their documented order and wire types; the protocol's command types, subsystem numbers, reset, address-mode, device-state, start-up option and NV item codes keep their documented numbers.",
     ["programs"], "every command and every code of the snapshot of the MT command set",
     "tests exercise some dozens of commands and compare against the same table",
     [("command table", D + "::Definition"), ("codes", "zigpy_cc/const.py::Constants"), ("enumerations", T + "::CommandType, Subsystem, AddressMode"), ("device states", "zigpy_cc/zigbee/common.py::Common")])
prop("C09", "Every command the driver itself issues is well-formed",
     "Each command issued during start-up, network forming, permit joining, LED control and group membership, under every adapter generation and setting, exists in the command set, is sent with the right command type, supplies every parameter of the command, and carries length fields equal to the actual lengths. Building it never fails.",
     ["configurations", "inputs"], "every command-issuing step of the driver, all adapter generations, unknown settings",
     "tests mock the command layer, so mistakes in parameter names, sizes or types go unnoticed",
     [("start-up sequence", S + "::start_znp"), ("application services", P + "::ControllerApplication"), ("encoding", Z + "::ZpiObject.from_command")], observe=TX)
prop("C10", "Application messages reach the adapter with every attribute intact",
     "A unicast, group or broadcast application message becomes exactly one data request whose destination and address mode, endpoints, cluster, transaction id, radius, options, payload length and payload bytes are exactly those requested, for every profile other than device management (a group message's hop limit is its radius; 0 means the adapter's maximum).",
     ["inputs"], "every address, endpoint, cluster, sequence number, radius and payload; every application profile",
     "tests send a few fixed messages",
     [("message to command", Z + "::ZpiObject.from_cluster"), ("send operations", P + "::ControllerApplication.request, mrequest, broadcast")], observe=TX)
prop("C11", "Device-management requests are translated to the matching command",
     "Every supported device-management request becomes exactly one command: the adapter command of that cluster, addressed to the requested device, carrying the fields of the message (after its sequence number) unchanged and in the command's layout.",
     ["inputs"], "every supported management cluster, every destination and every field value",
     "tests cover a few clusters with fixed payloads",
     [("message to command", Z + "::ZpiObject.from_cluster, read_zdo_cmd"), ("command lookup", D + "::Definition")], observe=TX)
prop("C12", "Device-management replies reach the requester in zigpy's format",
     "When a device answers a management request, zigpy receives exactly one message from that device on endpoint 0, with the reply cluster, the request's sequence number first and the reply's fields behind it unchanged, also when the reply overtakes the command's confirmation.",
     ["inputs", "schedules"], "every supported request, any status and reply content, reply before or after the confirmation",
     "tests feed a few recorded replies with the confirmation already in",
     [("reply forwarding", P + "::ControllerApplication.handle_znp"), ("reply matching", A + "::API.create_response_waiter, data_received")], observe=APPRX)
prop("C13", "Each answer goes to the request it answers",
     "A wait ends only with a frame of the awaited kind, command and matching fields, and each received frame answers at most one of several identical device-management requests, the oldest one first. A request the adapter refused takes no answer any more: the next answer belongs to the next request. A wait keeps its place however many later ones come and go. Answers to other requests, repeated answers and unsolicited frames neither end the wait nor disturb it.",
     ["schedules", "histories"], "two outstanding requests to the same or different devices and their replies in either order; a refused request before an accepted one; unrelated, repeated and unsolicited frames",
     "tests keep one request outstanding at a time",
     [("matching", A + "::Waiter.match, API.data_received"), ("registration", A + "::API.wait_for, create_response_waiter")],
     state=[("outstanding waits", "waits keyed by id, oldest first", A + "::API._waiters")])
prop("C14", "One command at a time, bounded messages, everything given back",
     "A command is written only while no other command is waiting for its answer, and at most 2 (16 on Z-Stack 3.x.0) messages are in progress. Whatever way an operation ends (answer, rejection, timeout, cancellation), the command slot and its message permit are given back exactly once, and no operation waits on itself.",
     ["schedules", "fault_sequences"], "every send operation, every outcome, cancellation at every await",
     "tests run one operation at a time without cancellation",
     [("command lock", A + "::API.request_raw"), ("message permits", P + "::ControllerApplication.request, mrequest, broadcast, permit_ncp"), ("permit count", P + "::ControllerApplication.startup")])
prop("C15", "Every wait ends in bounded time and leaves nothing behind",
     "Every wait for a frame ends within a minute: by the frame, or by a timeout error for the caller. When it is over no bookkeeping of it remains, however it ended, and none is dropped while the wait is still going on.",
     ["fault_sequences", "schedules"], "every operation and start-up step against a silent adapter, every ending of a wait",
     "tests never let a wait expire or be cancelled",
     [("wait", A + "::Waiter.wait"), ("expiry", A + "::API.wait_for"), ("synchronous commands", A + "::API._request_raw")],
     state=[("outstanding waits", "waits keyed by id", A + "::API._waiters")])
prop("C16", "Refusals by the adapter are reported, never taken for success",
     "A command whose reply carries a status other than the accepted ones fails for the caller with an error that carries this status; an accepted reply is returned as it is. Message operations report the status of such a refusal in their result, and report success only for an accepted command.",
     ["inputs", "schedules"], "every status value, every set of accepted statuses the driver uses, confirmation before or after, waiter expired or not",
     "tests reply with success, or one failure",
     [("status check", A + "::API._request_raw"), ("result of messages", P + "::ControllerApplication.request, mrequest, broadcast")])
prop("C17", "Sequence numbers survive the round trip, all 256 of them",
     "The sequence number of a message is used unchanged as its transaction id, and the reply delivered for a device-management request carries the number of the request it answers, for every value from 0 to 255.",
     ["inputs"], "every sequence number, every management request with a reply",
     "tests use one or two nonzero numbers",
     [("reply forwarding", P + "::ControllerApplication.handle_znp"), ("sequence bookkeeping", A + "::API.data_received, create_response_waiter")])
prop("C18", "Incoming messages are delivered once, intact, with the right sender",
     "Every incoming application message from a known device is delivered exactly once, with its cluster, endpoints and payload unchanged and attributed to the device with the frame's source address; its link quality is recorded for that device. A message from an unknown device is dropped without disturbing anything.",
     ["inputs"], "every source address, cluster, endpoint, link quality and payload, plain and extended indications, known and unknown senders",
     "tests feed a few recorded messages",
     [("delivery", P + "::ControllerApplication.handle_znp"), ("decoding", Z + "::ZpiObject.from_unpi_frame")], observe=APPRX)
prop("C19", "Device announcements become joins, and nothing else does",
     "Each device announcement causes exactly one join with the announced short and long address, before the announcement itself is passed on as a management message of that device. No other frame causes a join or a leave.",
     ["inputs"], "every announced address pair and capability, every other command",
     "tests feed one announcement",
     [("announcement handling", P + "::ControllerApplication.handle_znp")], observe=APPRX)
prop("C20", "Adapter memory items are written with their own id, size and value",
     "Every access to the adapter's non-volatile memory uses the item's documented id and its exact size at offset 0, with length fields that match the value, and identical encoding when an item is created, written and compared.",
     ["configurations", "inputs"], "every item access of start-up under every adapter generation, unknown settings",
     "tests compare against the same item definitions, or mock the command layer",
     [("items", N + "::Items"), ("start-up sequence", S + "::initialise, needsToBeInitialised")], observe=TX)
prop("C21", "An interrupted or failed initialisation is never taken for a finished one",
     "The adapter is marked as configured only after every setting was accepted and, on Z-Stack 3, the network was formed. If any step is refused, unanswered or cut off by a crash, the marker is not written, start-up reports failure, and a start-up that finds no marker performs the whole initialisation.",
     ["crash_points", "fault_sequences"], "failure or crash at every single command of the first start-up, all adapter generations",
     "tests mock the command layer and run only the successful path",
     [("initialisation order", S + "::initialise"), ("decision to initialise", S + "::needsToBeInitialised, start_znp")],
     state=[("configured marker", "NV item that tells a finished initialisation", N + "::Items.znpHasConfigured")], observe=TX)
prop("C22", "The network formed has exactly the configured parameters",
     "After initialisation the adapter's memory holds exactly the configured network key, PAN id, extended PAN id and channel mask, each in the adapter's byte order, with the documented default only for a parameter that was not configured, and the network is formed on that channel mask as coordinator. On a Z-Stack 1.2 adapter that was not configured before, the channel mask is written once more after the network was started.",
     ["configurations"], "every key, PAN id, extended PAN id and channel mask, each also absent; all adapter generations",
     "tests use the default configuration",
     [("options", T + "::NetworkOptions"), ("items", N + "::Items"), ("initialisation", S + "::initialise")], observe=TX)
prop("C23", "Start-up never misses an event that arrives with or before the reply",
     "Start-up completes whether the adapter's network-state event, endpoint list or reset indication arrives before, together with or after the reply of the command that causes it. Other states reported on the way do not end the wait early, and an adapter that reports any state other than running as coordinator is started and waited for.",
     ["schedules"], "event before, with and after the reply, for every awaited event of start-up, all adapter generations",
     "tests deliver events in one fixed order",
     [("event waits", S + "::boot, registerEndpoints, initialise"), ("dispatch", A + "::API.data_received")])
prop("C24", "A lost port is reopened until it works; a closed one stays closed",
     "When the port is lost, exactly one background activity reconnects: it closes what it opened, pauses and tries again until a start-up succeeds on the new port, whatever error an attempt ends with. After closing or shutting down nothing is reopened, no reconnecting activity remains and every port opened is closed.",
     ["histories", "fault_sequences", "crash_points"], "loss in every state, repeated losses, attempts that fail in every way, shutdown at every await of the reconnecting activity",
     "tests check that a task is started and that close is called, with everything mocked",
     [("loss", U + "::Gateway.connection_lost"), ("reconnecting", P + "::ControllerApplication.connection_lost, reconnect"), ("shutdown", P + "::ControllerApplication.shutdown"), ("opening", U + "::connect")],
     observe=["ports opened and closed", "background tasks"])
prop("C25", "Probing tells the truth, in bounded time, and frees the port",
     "Probing a port says yes exactly when an adapter answered the version query there, and no within seconds when the port cannot be opened or the answer is missing, damaged or of another command. The port is closed afterwards in every case, including cancellation.",
     ["fault_sequences", "schedules"], "answering, silent and wrong adapters, ports that do not open, cancellation at every await",
     "tests mock the version query and the port",
     [("probe", A + "::API.probe, _probe"), ("opening", U + "::connect")], observe=["result of probing", "ports opened and closed"])
prop("C26", "The port is opened as configured, or chosen unambiguously",
     "The serial port is opened on the configured path with the configured baud rate, 8 data bits, no parity, one stop bit and the configured flow control, and the adapter's bootloader is skipped before the first command. With the automatic path, a port is opened exactly when exactly one supported USB adapter is attached, otherwise a serial error is raised; defaults are 115200 baud without flow control, and invalid device settings are refused.",
     ["configurations"], "every baud rate, flow control and path; every mix of attached USB devices; complete, minimal and invalid configurations",
     "tests mock the serial library and check one configuration",
     [("opening", U + "::connect"), ("automatic path", U + "::detect_port"), ("schema", C + "::SCHEMA_DEVICE")], observe=["arguments of the port-opening call"])
prop("C27", "Exactly the missing endpoints are registered, each once",
     "After start-up the adapter has every application endpoint of the driver with its documented profile, device id and cluster lists; endpoints that exist already are not registered again, and the green power group is joined exactly when it was not joined before.",
     ["configurations", "inputs"], "adapters with none, some, all or foreign endpoints; group joined or not; all generations",
     "tests answer with one fixed endpoint list",
     [("endpoint registration", S + "::registerEndpoints, Endpoints"), ("group", S + "::addToGroup")], observe=TX)
prop("C28", "The network opens for exactly the requested time",
     "Opening the network for 0 to 254 seconds sends exactly one permit-joining command with that duration to all routers and the coordinator; any other duration sends nothing and is refused, and a refusal by the adapter is reported to the caller.",
     ["inputs"], "every duration, every reply status",
     "tests use the default duration with the command layer mocked",
     [("permit joining", P + "::ControllerApplication.permit_ncp")], observe=TX)
prop("C29", "The LED follows the joining state and never on Z-Stack 3.x.0",
     "The adapter's LED is switched on when joining becomes possible and off when it ends or the network was started, by one background command that receiving does not wait for. Z-Stack 3.x.0 adapters are never sent LED commands.",
     ["inputs", "configurations"], "every reported duration, every permit-joining reply, start-up on every generation",
     "tests mock the LED function",
     [("LED", P + "::ControllerApplication.set_led, handle_znp, form_network")], observe=TX)
prop("C30", "A matching adapter is resumed, a differing one re-initialised",
     "A start-up on an adapter that was configured with the same settings writes, resets and forms nothing. If any bit of the configured key, channel mask, PAN id or extended PAN id differs, the whole initialisation runs and the adapter holds the new settings (a Z-Stack 3 adapter whose stored PAN id is 0xFFFF counts as matching in PAN id and extended PAN id).",
     ["histories", "configurations"], "two start-ups in a row with equal settings or settings that differ in any one byte, all generations",
     "tests mock the command layer and run a single start-up",
     [("comparison", S + "::validate_item, needsToBeInitialised"), ("items", N + "::Items"), ("start-up sequence", S + "::start_znp")], observe=TX)
prop("C31", "After start-up the application knows its coordinator",
     "After a successful start-up the application's own long and short address are those the adapter reports, and the device table holds exactly one entry for that long address: the coordinator, a device of this application with these addresses. If the adapter does not answer or refuses the first commands, start-up fails; without forming, start-up changes nothing on the adapter.",
     ["inputs", "configurations", "fault_sequences"], "every address the adapter may report, every generation, with and without forming, silence or refusal at each of the first commands",
     "tests mock the adapter's answers or the start-up itself",
     [("start-up", P + "::ControllerApplication.startup"), ("coordinator device", P + "::Coordinator")])

prop("C32", "Every command waits for its own completion, for the time it is given",
     "A command that is answered by a reply is completed by its own reply and fails after 6 s without one, after 20 s for the two commands that start the network (bdbStartCommissioning, startupFromApp). Either reset command is completed by the adapter's reset indication and fails after 30 s without one. Any other one-way command is complete as soon as it is written. Start-up gives the coordinator 60 s to start and the endpoint list 10 s, and a device's reply is accepted for at least 10 s after the request.",
     ["inputs", "schedules", "fault_sequences"], "every command of the table that can be encoded, against a silent adapter, its own answer and foreign frames",
     "tests never let time pass and send a few commands only",
     [("choice of the wait", A + "::API._request_raw"), ("reset commands", Z + "::ZpiObject.is_reset_command"), ("waits", A + "::API.wait_for, Waiter.wait"), ("start-up waits", S + "::boot, initialise, registerEndpoints")],
     state=[("time limits", "milliseconds for replies, resets and everything else", T + "::Timeouts")], observe=TX)
prop("C33", "Group and broadcast messages settle before the next takes their place",
     "After the adapter accepted a group or broadcast message, its permit is given back and the caller gets its result only after a pause of 0.2 s. The pause does not hold the command slot, so other commands go on, and unicast messages and refused messages are not paused.",
     ["schedules", "inputs"], "every group, broadcast and unicast message, accepted or refused",
     "tests send one message at a time and measure no times",
     [("settle delay", P + "::ControllerApplication.mrequest, broadcast"), ("message permits", P + "::ControllerApplication.request")], observe=TX)
prop("C34", "Adapters, frames and calls do not share state",
     "Two adapters used by one program never influence each other: not by partial frames, outstanding waits or command locks. A decoded frame never changes when another one is decoded, even an identical one, a request leaves the caller's parameters and the command table as they were, and a second start-up in the same program sends exactly what the first one sent.",
     ["histories", "schedules"], "every split of a frame over two interleaved ports, every decodable command decoded repeatedly, every encodable command, two start-ups in a row on each generation",
     "tests use one adapter, one frame and one start-up at a time",
     [("parser state", U + "::Parser"), ("command layer state", A + "::API"), ("decoded objects", Z + "::ZpiObject.from_unpi_frame, read_parameters"), ("endpoint list", S + "::Endpoints, registerEndpoints")])
prop("C35", "The event loop is never blocked",
     "Nothing the driver does blocks the event loop: no function sleeps synchronously, starts a nested loop, uses synchronous sockets, processes, serial ports or thread primitives, or spins until something happens. Every wait for the adapter leaves other activities running.",
     ["schedules"], "every function of the package, every operation that waits for an answer",
     "tests run one activity, for which blocking and waiting look the same",
     [("waits", A + "::Waiter.wait"), ("pauses", P + "::ControllerApplication.reconnect, mrequest, broadcast"), ("opening", U + "::connect")])
prop("C36", "Every started activity is carried out",
     "Each asynchronous activity the driver creates is awaited or handed to the event loop; none is created and then silently dropped.",
     ["inputs", "configurations"], "every operation, start-up on each generation, losing the port, shutting down, every received frame",
     "a forgotten await shows no failure in tests with mocked functions",
     [("commands", A + "::API.request"), ("start-up", S + "::start_znp"), ("background commands", P + "::ControllerApplication.set_led, connection_lost")])

prop("C40", "A queued message is eventually sent",
     "A message waiting for its turn is sent after finitely many others, in the order of arrival.",
     ["schedules"], "every schedule of concurrent callers",
     "tests run no concurrent callers",
     [("command lock", A + "::API.request_raw"), ("message permits", P + "::ControllerApplication.request")],
     na="fairness is a property of asyncio's wait queues and of the event loop's scheduling at run time, not of this source: the code only delegates to them. What the source decides (slots always given back, waits bounded) is C14 and C15.")
prop("C41", "The adapter answers within the time limits used",
     "The time limits for replies, resets, commissioning and joining exceed what working adapters need.",
     ["schedules", "configurations"], "every supported adapter, firmware and load",
     "tests have no adapter",
     [("time limits", T + "::Timeouts"), ("start-up", S + "::boot, initialise")],
     na="the quantity compared with the limits is the response time of physical firmware; no source in this repository bounds it, so no static argument can decide it.")
prop("C42", "The network formed on air works for real devices",
     "After a successful start-up real devices can join, route and exchange messages through the coordinator.",
     ["configurations"], "every adapter firmware and device",
     "tests have no radio",
     [("start-up", S + "::start_znp")],
     na="depends on radio hardware and closed firmware; only the commands sent and the reactions to the frames received are in this source, and those are covered by C09, C20 to C23, C27, C30.")
prop("C43", "Recovery and delivery times stay within service limits",
     "After a port comes back, service resumes within a few seconds, and message latency stays bounded under load.",
     ["schedules", "histories"], "every load and outage pattern",
     "tests measure no times",
     [("reconnecting", P + "::ControllerApplication.reconnect"), ("settle delays", P + "::ControllerApplication.mrequest, broadcast")],
     na="a bound on elapsed time sums queue lengths, operating-system delays and adapter response times that are run-time quantities; C24 and C15 decide the static part (bounded single waits, retry until success).")

TECH = "static analysis: path-sensitive abstract interpretation of the Python AST (values as canonical symbolic terms, no solver, no execution of the code under test)"
TECHS = {
    "C07": "static analysis: queries over the abstractly evaluated command table",
    "C08": "static analysis: comparison of the abstractly evaluated command table and enumerations with a stored protocol snapshot",
    "C14": "static analysis: lock-set and typestate analysis over abstractly interpreted paths with injected cancellation",
    "C15": "static analysis: typestate of waits and timers over abstractly interpreted paths",
    "C32": "static analysis: typestate of waits over abstractly interpreted paths of every command",
    "C33": "static analysis: lock-set and effect-order analysis over abstractly interpreted paths",
    "C34": "static analysis: heap-effect (non-interference) analysis over abstractly interpreted paths",
    "C35": "static analysis: blocking-call lint over resolved references plus abstractly interpreted paths",
    "C36": "static analysis: typestate of coroutines over abstractly interpreted paths",
    "C24": "static analysis: typestate of ports and tasks over abstractly interpreted paths with injected failures and cancellation",
    "C25": "static analysis: resource typestate over abstractly interpreted paths with injected failures and cancellation",
    "C21": "static analysis: effect-order analysis over abstractly interpreted paths with injected failures",
    "C20": "static analysis: value-flow of memory items to the wire over abstractly interpreted paths",
}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _, _ in PROPS:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, note, n in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        if n:
            na.append({"property": p["id"], "reason": n})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "./check %s quick" % p["id"],
            "thorough_cmd": "./check %s thorough" % p["id"],
            "technique": TECHS.get(p["id"], TECH),
            "level": "other",
            "level_note": note or "every obligation is decided from the source for unknown values along every path of the scenarios in DESIGN.md; sound up to the library models and the bounds named there",
        })
    doc = {"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 9)'", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
