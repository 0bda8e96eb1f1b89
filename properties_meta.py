"""How each property's check is run, and what its counts mean."""
SIM = "virtual time and the simulated network stand for the real clock and sockets; the go-artnet sources run unmodified but for the import paths of net and sync and added scheduling points"
META = {
 "C01": dict(bins=["codec"], level="exploration", races=True, min_evals=20000, min_distinct=1000),
 "C02": dict(bins=["codec"], level="exploration", min_evals=100000, min_distinct=1000),
 "C03": dict(bins=["codec"], level="exploration", min_evals=20000, min_distinct=1000),
 "C04": dict(bins=["codec"], level="exploration", min_evals=10000, min_distinct=1000),
 "C05": dict(bins=["codec"], level="exploration", min_evals=20000, min_distinct=1000),
 "C06": dict(bins=["codec"], level="exploration", races=True, min_evals=10000, min_distinct=1000),
 "C07": dict(bins=["codec"], level="exploration", exhaustive=True, min_evals=20000, min_distinct=10000),
 "C08": dict(bins=["codec"], level="exploration", exhaustive=True, min_evals=60000, min_distinct=60000),
 "C09": dict(bins=["codec"], level="exploration", min_evals=10000, min_distinct=1000),
 "C10": dict(bins=["codec"], level="exploration", min_evals=10000, min_distinct=1000),
 "C11": dict(bins=["system"], level="exploration", leaks=True, procs=[1, 2, 4], min_evals=1000, min_distinct=200, assumptions=[SIM]),
 "C12": dict(bins=["system"], level="exploration", procs=[1, 2, 4], min_evals=300, min_distinct=200, assumptions=[SIM]),
 "C13": dict(bins=["system"], level="exploration", races=True, procs=[1, 2, 4], min_evals=1000, min_distinct=100, assumptions=[SIM]),
 "C14": dict(bins=["system"], level="exploration", procs=[1, 2, 4], min_evals=500, min_distinct=200, assumptions=[SIM]),
 "C15": dict(bins=["system"], level="exploration", leaks=True, procs=[1, 2, 4], min_evals=300, min_distinct=200, assumptions=[SIM]),
 "C16": dict(bins=["system"], level="exploration", leaks=True, procs=[1, 2, 4], min_evals=200, min_distinct=150, assumptions=[SIM]),
 "C17": dict(bins=["system"], level="exploration", procs=[1, 2, 4], min_evals=1000, min_distinct=200, assumptions=[SIM]),
 "C18": dict(bins=["system"], level="exploration", procs=[1, 2, 4], min_evals=5000, min_distinct=1000, assumptions=[SIM]),
 "C19": dict(bins=["system"], level="exploration", procs=[1, 2, 4], min_evals=50000, min_distinct=500, assumptions=[SIM]),
 "C20": dict(bins=["system"], level="exploration", procs=[1, 2, 4], min_evals=50000, min_distinct=500, assumptions=[SIM]),
 "C21": dict(bins=["system"], level="exploration", procs=[1, 2, 4], min_evals=50000, min_distinct=500, min_counts={"wrap-arounds": 500}, assumptions=[SIM]),
 "C22": dict(bins=["system"], level="exploration", procs=[1, 2, 4], min_evals=50000, min_distinct=500, assumptions=[SIM]),
 "C24": dict(bins=["system", "real"], shards={"real": 4}, level="exploration", races=True, leaks=True, procs=[2, 4, 8, 1], min_evals=20000, min_distinct=150, assumptions=[SIM]),
 "C25": dict(bins=["system"], level="exploration", procs=[1, 2, 4], min_evals=10000, min_distinct=1000, assumptions=[SIM]),
 "C26": dict(bins=["system"], level="exploration", procs=[1, 2, 4], min_evals=10000, min_distinct=300, assumptions=[SIM]),
 "C27": dict(bins=["system"], level="exploration", procs=[1, 2, 4], min_evals=500, min_distinct=300, assumptions=[SIM]),
 "C28": dict(bins=["system"], level="exploration", races=True, also=["github.com/sirupsen/logrus"], procs=[1, 2, 4], min_evals=5000, min_distinct=300, assumptions=[SIM]),
 "C23": dict(bins=["system"], level="exploration", procs=[1, 2, 4], min_evals=20000, min_distinct=500, assumptions=[SIM]),
}
RULES = {
 "C01": "An evaluation is one decoding compared with its twin (other surroundings, exact capacity, used receiver, after scribbling over the input, concurrent). Distinct: (class of input, length, accepted or not), non-empty inputs.",
 "C02": "An evaluation is one datagram judged by a decoder and by the reference. Distinct: (stream, type, reason of the reference's verdict, length).",
 "C03": "An evaluation is one accepted datagram decoded and compared field by field with the reference decoder. Distinct: (type, field, value) of the sweeps, and random datagrams.",
 "C04": "An evaluation is one packet encoded and compared byte by byte with the reference encoder. Distinct: (type, field, value) of the sweeps, and random packets.",
 "C05": "An evaluation is one encode-decode generation through the generic and the type's own decoder. Distinct: random packets.",
 "C06": "An evaluation is one encoding compared with the first one and the packet with its copy. Distinct: random packets.",
 "C07": "An evaluation is one setter call on one value with its getter. Distinct: (type, flag or field, value, argument); the space is enumerated completely.",
 "C08": "An evaluation is one value looked up, or one flag found in a printed form. Distinct: (table, value); the space is enumerated completely.",
 "C09": "An evaluation is one poll reply converted and compared with the reference conversion. Distinct: (port count, port types, net, sub-net, universes).",
 "C11": "An evaluation is one start judged, or one probe of the service after a start. Distinct: (node or controller, sequence of steps and outcomes).",
 "C12": "An evaluation is the comparison of all polls and replies of one run of a node. Distinct: (sequence of traffic steps, number of polls), at least one poll.",
 "C13": "An evaluation is one comparison of all callback invocations with all datagrams so far. Distinct: (registrations in force, polls answered, distinct packets).",
 "C14": "An evaluation is one probe of the whole service after a disturbance, or one batch of refused datagrams checked for effects. Distinct: (node or controller, sequence of disturbances, write fault).",
 "C15": "An evaluation is one stopped node checked for sockets, goroutines, traffic and callbacks, followed by a restart that is probed. Distinct: histories before the stop.",
 "C16": "An evaluation is one stopped controller checked for sockets, goroutines and traffic, followed by a restart that is probed. Distinct: (history before the stop, devices, blocked writes, callers, stops, frame rate).",
 "C17": "An evaluation is one poll of a running controller, with its time, contents and replies. Distinct: (frame rate, polls, foreign polls, devices, load).",
 "C18": "An evaluation is one comparison of the controller's tables with the routing model after a step, or one universe's DMX checked for its destination. Distinct: routing tables reached.",
 "C19": "An evaluation is one DMX datagram judged for origin, order and freshness, or one send judged for its transmission. Distinct: interleavings of sends and datagrams of one universe (sends between consecutive datagrams), with the frame rate.",
 "C20": "An evaluation is one DMX datagram judged for its distance from the previous one and its contents. Distinct: (frame rate, first announcement or not, withdrawn or expired, sends, datagrams) of a routed time.",
 "C21": "An evaluation is one DMX datagram's sequence number against the count of its node. Distinct: (node, discovery, datagrams).",
 "C22": "An evaluation is one DMX datagram's distance from the previous one of its universe. Distinct: interleavings of sends and datagrams of one universe, with the frame rate.",
 "C23": "An evaluation is one comparison of the controller's tables with the model, at ages of 7 and 10 seconds among others, or one routed universe found served. Distinct: (nodes known, last six events among silences, takeovers and returns).",
 "C24": "An evaluation is one public call or injected datagram under the race detector, with every call awaited and leaks counted at the end. Distinct: orders of all datagrams sent in a case (sender and kind).",
 "C25": "An evaluation is one start judged for its listening address, one broadcast judged for its destination, or one frame rate measured. Distinct: sequences of options.",
 "C26": "An evaluation is one node found discovered, one universe found with the data last sent to it, or one check of all data a node received. Distinct: (nodes, frame rate, history of faults, restarts and sends).",
 "C27": "An evaluation is one phase of traffic after which heap, goroutines and sockets are measured. Distinct: (kind of traffic, events, heap size reached).",
 "C28": "An evaluation is one log entry, written line or finished history whose logger and standard streams are examined. Distinct: (node or controller, level, history), or the shape of a tree of loggers.",
 "C10": "An evaluation is one configuration announced, compared with the reference announcement and read back. Distinct: (numbers of ports, port types, text lengths).",
}

_COD = "monitored executions of the real decoders and encoders on generated and swept inputs, against an independent reference codec"
_SIM = "runtime monitors over recorded traces of the real node/controller in virtual time on a fault-injecting simulated network"
TECH = {
 "C01": "differential monitoring of decodes (surroundings, receivers, concurrency) under the race detector and Go's bounds checks",
 "C02": _COD, "C03": _COD, "C04": _COD,
 "C05": "round-trip monitor on generated packets",
 "C06": "mutation and repeatability monitor on generated packets, concurrent, under the race detector",
 "C07": "complete run of every setter and getter on every byte value, monitored against the documented bits",
 "C08": "complete run of the tables and printed forms over every value, monitored against the documented names",
 "C09": "monitored conversions of generated poll replies against a reference conversion",
 "C10": "monitored announcements of generated configurations against a reference announcement, and read back",
 "C11": _SIM + ": start/stop histories with listen faults",
 "C12": _SIM + ": conservation of polls and replies",
 "C13": _SIM + ": exactly-once matching of datagrams and callbacks, under the race detector",
 "C14": _SIM + ": hostile traffic and injected read/write errors, service probes after each",
 "C15": _SIM + ": stops at arbitrary points with goroutine, socket and trace monitors",
 "C16": _SIM + ": stops under load and blocked writes, deadlock and leak detection",
 "C17": _SIM + ": online check of the poll schedule",
 "C18": _SIM + ": lock-step comparison of routing tables and traffic with a routing model",
 "C19": _SIM + ": offline history checker (origin, order, freshness) with concurrent senders",
 "C20": _SIM + ": refresh-interval monitor per routed universe",
 "C21": _SIM + ": sequence-number monitor per discovered node",
 "C22": _SIM + ": frame-distance monitor per universe",
 "C23": _SIM + ": lock-step comparison with an ageing model",
 "C24": "Go race detector, deadlock and leak detection under concurrent stress with added scheduling points, simulated and on real loopback sockets",
 "C25": _SIM + ": option sequences against a model of what is in force, frame rate measured",
 "C27": _SIM + ": heap, goroutine and socket measurements after equal phases of traffic",
 "C28": _SIM + ": log entries captured at a hook, bytes on the standard streams, race detector",
 "C26": _SIM + ": controller and nodes of the library end to end under loss, duplication, delay and restarts, convergence monitor",
}
_NC = "Sampled (seeded, reproducible) inputs and per-field value sweeps on the real code, not all inputs; trusts the reference codec in harness/wire, written from the documented layouts, and the Go toolchain."
_NS = "Sampled (seeded) histories and schedules of the real code, not all of them; trusts testing/synctest, the simulated network and lock stand-ins (harness/verifnet, verifsync) and the monitor's model."
NOTE = {p: (_NC if int(p[1:]) <= 10 else _NS) for p in META}
NOTE["C07"] = NOTE["C08"] = "The whole space of values is run on the real code; trusts the expected tables in harness/codec/codes_test.go, written from the documentation."
NOTE["C24"] = "No race report, deadlock or leak in sampled schedules; races are found when the accesses are unordered in an observed run, whichever came first. Trusts the race detector."
