#!/usr/bin/env python3
"""Writes properties.jsonl. The text of the properties lives here."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

PK = ["packet/packet.go", "packet/header.go", "packet/artpoll.go", "packet/artpollreply.go", "packet/artdmx.go", "packet/artnzs.go",
      "packet/artsync.go", "packet/artaddress.go", "packet/arttimecode.go", "packet/arttrigger.go", "packet/artipprog.go",
      "packet/artipprogreply.go", "packet/artcommand.go", "packet/artdiagdata.go"]
CODE = ["packet/code/status1.go", "packet/code/status2.go", "packet/code/goodinput.go", "packet/code/goodoutput.go",
        "packet/code/porttype.go", "packet/code/swmacro.go", "packet/code/swremote.go", "packet/code/talktome.go"]

prop("C01", "Decoding any bytes never crashes and is isolated",
 "Decoding any byte sequence, through the generic decoder or any packet type's own decoder, returns a packet or an error and never panics, modifies the input, or lets bytes outside the given slice influence the outcome. The outcome depends on the input bytes only: not on what the receiving packet held before, nor on what other goroutines decode. A decoded packet shares no memory with the input buffer or with any other packet.",
 ["inputs", "histories", "schedules"],
 "Every byte sequence of every length, every decoder, every earlier content of the receiving packet, any number of concurrent decodings.",
 "The tests decode a few dozen fixed datagrams, each once, into a fresh packet, on one goroutine.",
 PK, [("generic decoder", "packet/packet.go Unmarshal"), ("header length check", "packet/header.go Header.unmarshal"), ("DMX length checks and copy", "packet/artdmx.go UnmarshalBinary"), ("fixed layout read", "packet/header.go unmarshalPacket")],
 ["return values, panics and contents of packets from packet.Unmarshal and UnmarshalBinary", "input buffers before and after"])

prop("C02", "The decoders accept exactly the well-formed supported datagrams",
 "A datagram is accepted if and only if it starts with the Art-Net identifier, carries a supported opcode (low byte first) and a protocol revision of at least 14 (a poll reply carries none), and is long enough for its layout: a DMX datagram announces an even channel count from 2 to 512 that it really contains, every other type its full fixed layout, trailing bytes being ignored. A poll reply must also name port 6454 in either byte order and a defined equipment style, and a text command the broadcast manufacturer code. The generic decoder yields the packet type the opcode names, and each type's own decoder refuses every datagram with another opcode or identifier.",
 ["inputs"],
 "Every datagram; every identifier, opcode, revision, length, channel count, port, style and manufacturer value; generic and typed decoders.",
 "The tests show a handful of accepted and refused examples; the boundary is a statement about all opcodes, all versions and all pairs of announced and real length.",
 PK, [("opcode dispatch", "packet/packet.go Unmarshal"), ("identifier and version check", "packet/header.go Header.validate"), ("per-type validation", "packet/art*.go validate"), ("DMX bounds", "packet/artdmx.go UnmarshalBinary")],
 ["error or nil, and dynamic type, from the decoders"])

prop("C03", "Decoded fields equal the fields on the wire",
 "For every accepted datagram of every supported type, each field of the decoded packet equals the value at that field's documented position and byte order in the datagram, and the packet reports the datagram's identifier, opcode and revision. For a DMX datagram the first announced-count channels are the transmitted ones and all later channels are zero.",
 ["inputs"],
 "Every accepted datagram of the twelve supported types, all field values, either port byte order, trailing bytes and later revisions included.",
 "The tests compare a few literal packets of three types; nine types have no decoding test at all.",
 PK, [("layout = struct order, big endian", "packet/header.go unmarshalPacket"), ("opcode swap", "packet/header.go swapOpCode"), ("port swap", "packet/artpollreply.go validate"), ("DMX field reads", "packet/artdmx.go UnmarshalBinary")],
 ["fields of decoded packets against a reference decoder"])

prop("C04", "Encoders emit the documented Art-Net layout",
 "Encoding a packet of any supported type with any field values yields exactly the documented datagram of that type: identifier, that type's own opcode low byte first, revision 14 (except poll replies), each field at its documented offset and byte order, and zero filler bytes. This holds whatever the packet's header fields contained before, and the protocol constants (512 DMX channels, port 6454 low byte first, the broadcast manufacturer code of text commands) are emitted whatever the packet held there.",
 ["inputs", "histories"],
 "Every packet type, all field values, every prior content of header and constant fields, packets made by literal, constructor, or by decoding another datagram.",
 "Encoding tests exist for three of the twelve types, with a few literals.",
 PK, [("finish", "packet/art*.go finish"), ("fixed layout write", "packet/header.go marshalPacket"), ("version", "version/version.go Bytes")],
 ["bytes returned by MarshalBinary against a reference encoder"])

prop("C05", "Encoding then decoding gives the same packet back",
 "Whatever a user can put in a packet of a supported type (poll replies with a defined equipment style), encoding succeeds, the generic decoder accepts the result as the same type, and the decoded packet has the same field values, protocol constants aside. Encoding the decoded packet again gives the same bytes.",
 ["inputs", "histories"],
 "Every supported type, all field values, any number of encode-decode generations, through generic and typed decoders.",
 "No test composes encoder and decoder; for nine types neither direction is exercised.",
 PK, [("finish/validate inverse of each other", "packet/header.go, packet/art*.go"), ("marshalPacket/unmarshalPacket", "packet/header.go")],
 ["packet -> bytes -> packet -> bytes chains"])

prop("C06", "Encoding leaves the packet alone and is repeatable",
 "Encoding a packet any number of times, also from several goroutines at once, gives the same bytes every time and leaves the packet observably unchanged, opcode included. The bytes returned are the caller's: changing them affects neither the packet nor any other encoding.",
 ["histories", "schedules", "inputs"],
 "Every packet type and content, every number of repetitions, concurrent encoders of one packet, packets obtained by decoding.",
 "Tests encode each packet once and look at the bytes only.",
 PK, [("marshalPacket works on a copy", "packet/header.go marshalPacket"), ("finish", "packet/art*.go finish")],
 ["packet before and after MarshalBinary", "race detector"])

prop("C07", "Flag setters and getters agree with the documented bits",
 "For every flag byte value, each boolean setter changes exactly its documented bit to the value asked for and nothing else, and each boolean getter reports exactly that bit. The multi-bit fields (programming authority, indicator state, port protocol) likewise: a setter given a documented name replaces that field and nothing else, a getter names the field's value, and an undocumented name changes nothing.",
 ["inputs"],
 "All 256 values of each of the eight flag types, every setter with every argument, every getter.",
 "There is no test of the flag types.",
 CODE, [("With* setters", "packet/code/*.go"), ("getters", "packet/code/*.go")],
 ["values returned by setters and getters"])

prop("C08", "Code tables: names and validity match the protocol constants",
 "Every defined opcode, equipment style, diagnostics priority and node report code has the protocol's numeric value and is printed by its own name, every undefined value is printed as a number, and the validity tests accept exactly the defined values. The printed form of a flag byte states every documented flag of that byte correctly.",
 ["inputs"],
 "All 65536 opcodes, all 256 values of each one-byte code, all 256 values of each flag type.",
 "There is no test of the code tables.",
 CODE + ["packet/code/opcode.go", "packet/code/opcode_string.go", "packet/code/stylecode.go", "packet/code/prioritycode.go", "packet/code/prioritycode_string.go", "packet/code/nodereportcode.go", "packet/code/nodereportcode_string.go"],
 [("stringer tables", "packet/code/*_string.go"), ("ValidOp, ValidStyle", "packet/code/opcode.go, stylecode.go"), ("String methods", "packet/code/*.go")],
 ["String(), ValidOp, ValidStyle"])

prop("C09", "A poll reply is turned into the configuration it announces",
 "Turning a poll reply into a node configuration gives each announced input and output port exactly once, in order, for at most four ports and never beyond the announced count, with its own type and status and the 15-bit address composed of the announced net, the sub-net in bits 7-4 and the port's universe nibble. Names and manufacturer are the text before the first zero byte, every other field is carried over unchanged. The configuration is independent of the reply it came from, and an address's number and printed form state exactly its net, sub-net and universe.",
 ["inputs"],
 "All poll replies: every port count 0..65535, port types, net, sub-net and universe values, text with and without terminator.",
 "There is no test of the conversion.",
 ["config.go", "controller.go"], [("ConfigFromArtPollReply", "config.go"), ("decodeString", "config.go"), ("Address", "config.go")],
 ["NodeConfig returned by ConfigFromArtPollReply"])

prop("C10", "A node announces its configuration completely and it reads back",
 "The poll reply made from any valid node configuration states that configuration: identity, versions, status, address, and for every configured port its direction, protocol type, status and universe, with unused port slots empty; names too long for their field are cut so that they stay zero-terminated. Reading the announcement back gives an equivalent configuration, for ports that share the node's net and sub-net.",
 ["configurations", "inputs"],
 "All valid node configurations with ASCII texts of any length, 0 to 4 input and output ports of every type, any address.",
 "There is no test of the conversion, and its code had a to-do for missing fields.",
 ["config.go"], [("ArtPollReplyFromConfig", "config.go"), ("PortTypes, NumberOfPorts", "config.go")],
 ["ArtPollReplyPacket returned by ArtPollReplyFromConfig and its round trip"])

prop("C11", "Starting reports success exactly when the node is running",
 "Starting a node or controller returns no error exactly when it is then listening and serving; a configuration that cannot be announced (more than four inputs or outputs, or an input and output of one index with different protocols) and an unavailable listen address are reported as an error. A failed start leaves nothing behind: no socket, no background activity, no traffic, callbacks can still be registered, stopping is harmless, and a later start with the cause removed works.",
 ["configurations", "fault_sequences", "histories"],
 "All port configurations valid and invalid, listen failures at any attempt, sequences of failed and successful starts and stops, nodes and controllers.",
 "No test starts a node or a controller.",
 ["node.go", "config.go", "controller.go"], [("validate", "config.go NodeConfig.validate"), ("Start", "node.go Node.Start, controller.go Controller.Start")],
 ["return value of Start, sockets opened, datagrams sent, goroutines left, reply to a probing poll"])

prop("C12", "Every poll gets exactly one reply announcing the node",
 "While a node runs, every ArtPoll from another address results in exactly one ArtPollReply sent to the configured broadcast address, for bursts and interleaved traffic of any kind too; nothing else makes it send. Every reply is a well-formed poll reply that announces the node's configuration.",
 ["histories", "schedules", "inputs", "configurations"],
 "Every traffic history and burst size, poll contents and revisions, slow network writes, any valid node configuration.",
 "No test runs a node.",
 ["node.go", "config.go"], [("pollReplyLoop", "node.go"), ("handlePacketPoll", "node.go"), ("sendLoop", "node.go")],
 ["datagrams the node sends, per datagram injected"])

prop("C13", "Callbacks fire exactly once per accepted packet of their opcode",
 "Every well-formed datagram received from another address while a node runs invokes the callback registered for its opcode exactly once, with that datagram's contents; malformed datagrams, opcodes without callback and the node's own datagrams invoke none. The last registration before the start wins, a deregistered opcode has none, and registering or deregistering while the node runs has no effect. A packet handed to one callback is not changed by later traffic, and a slow callback delays no other.",
 ["histories", "schedules", "inputs"],
 "Every sequence of registrations around starts and stops and every traffic history, with callbacks of any duration.",
 "No test runs a node or registers a callback.",
 ["node.go"], [("handlePacket", "node.go"), ("RegisterCallback, DeregisterCallback", "node.go"), ("recvLoop", "node.go")],
 ["callback invocations and their arguments, against the injected datagrams"])

prop("C14", "Hostile traffic and network errors never stop a node or controller",
 "No datagram of any content, size or source, no number of them, and no error reported by the network when reading or writing makes a running node or controller crash, stop answering polls, stop calling back, or stop polling and sending DMX; an error costs at most the datagram it was reported for, and once the disturbance ends every later request is served as before. Refused datagrams have no effect.",
 ["inputs", "fault_sequences", "histories"],
 "All datagram contents up to the maximum UDP size, all positions of read and write errors in a history, nodes and controllers.",
 "No test runs a node or controller, let alone under faults.",
 ["node.go", "controller.go", "packet/packet.go"], [("reader goroutine error handling", "node.go recvLoop"), ("write error handling", "node.go sendLoop"), ("reply handling", "controller.go pollLoop")],
 ["service probes after each disturbance", "process crashes"])

prop("C15", "Stopping a node silences it and releases everything",
 "Once stopping a node has returned and the calls already under way have ended, the node sends nothing, reads nothing, invokes no callback, its port is free again and none of its background activity remains, whatever traffic was in flight, also when the network was blocked. Stopping is safe at any time: before any start, twice, and from several goroutines; once nothing is under way any more, a stopped node can be started again and then serves as a new one, without leftovers from before.",
 ["histories", "schedules", "fault_sequences"],
 "Every point of a traffic history at which stop can be called, full queues, blocked writes, repeated and concurrent stops, restarts.",
 "No test starts or stops a node.",
 ["node.go"], [("Stop", "node.go Node.Stop"), ("shutdown signal in every loop", "node.go"), ("socket close", "node.go Node.Stop")],
 ["datagrams after Stop, open sockets, goroutines left", "goroutine stacks"])

prop("C16", "Stopping a controller always completes, under any load",
 "Stopping a controller returns, whatever it is doing: many universes with pending updates, polling, discovery and expiry in progress, callers sending DMX concurrently, a blocked network. After that and once running calls have ended it sends nothing, its port is free and none of its background activity remains; sending DMX to a stopped controller returns without effect. Stopping before a start, twice, or after a failed start is harmless, and a stopped controller can be started again.",
 ["histories", "schedules", "fault_sequences"],
 "Every instant of a history at which stop can be called, number of universes, pending updates, concurrent callers, blocked writes.",
 "No test starts or stops a controller.",
 ["controller.go", "node.go"], [("Stop", "controller.go Controller.Stop"), ("pollLoop, dmxUpdateLoop shutdown", "controller.go"), ("lock discipline around sends", "controller.go dmxUpdateLoop")],
 ["return of Stop and SendDMXToAddress, datagrams afterwards, goroutine stacks"])

prop("C17", "A running controller polls on schedule and answers its own poll",
 "A running controller broadcasts a valid ArtPoll to its broadcast address at start and then every 2.5 to 3 seconds without gap or burst for as long as it runs, whatever DMX or discovery traffic there is, on a network that accepts datagrams without delay. With each poll it broadcasts one poll reply of its own, so that other controllers can see it.",
 ["schedules", "histories", "configurations"],
 "Every running time, traffic load, number of nodes and frame rate, restarts included.",
 "No test runs a controller; the guarantee is about all times.",
 ["controller.go"], [("pollLoop and pollTicker", "controller.go"), ("pollInterval", "controller.go")],
 ["times and contents of the controller's polls and replies, in virtual time"])

prop("C18", "DMX routing follows the latest announcements",
 "A universe is routed to the output-capable node or controller that last announced it as an output, from that announcement until that node withdraws it, expires, or another node announces it; universes nobody announces get no traffic, and equipment that is neither node nor output-capable controller is ignored. A device is identified by its address together with its bind index, so several bound devices on one address are kept apart. The controller's public tables of nodes, output and input addresses always state exactly this, each listed node with the configuration it announced last.",
 ["histories", "schedules"],
 "Every history of announcements, re-announcements with changed ports, address conflicts between nodes, withdrawals and expiries.",
 "No test discovers a node.",
 ["controller.go", "config.go"], [("updateNode", "controller.go"), ("gcNode", "controller.go"), ("OutputAddress, InputAddress, Nodes", "controller.go")],
 ["destinations of DMX datagrams and the exported tables, against a routing model"])

prop("C19", "DMX sent to a universe reaches its node intact and in order",
 "After DMX is sent to a routed universe, its node receives, at the Art-Net port of the announced address and within one frame interval on a network that accepts datagrams without delay, a DMX datagram for exactly that universe with exactly those 512 channels, unless a newer value replaced it first. No node ever receives data that was never sent to that universe (except the initial all-zero frame), data of another universe, a mixture of two updates, or an older update after a newer one, also with concurrent senders.",
 ["schedules", "histories", "inputs"],
 "Every interleaving of senders on one or several universes with the update loop, announcements and expiry; any data; any number of nodes; maximum frame rates up to 10000.",
 "No test sends DMX through a controller.",
 ["controller.go", "packet/artdmx.go"], [("SendDMXToAddress", "controller.go"), ("setDMXBuffer, dmxUpdate", "controller.go"), ("dmxUpdateLoop", "controller.go")],
 ["history of SendDMXToAddress calls against DMX datagrams on the wire"])

prop("C20", "Every routed universe is refreshed with its latest data",
 "On a network that accepts datagrams without delay: while a universe that one device at a time announces is routed to a node, consecutive DMX datagrams for it are never further apart than 250 milliseconds plus one frame interval, and each carries the latest data sent to it. A universe that was never sent to, a newly announced one, and one announced again after it was withdrawn or its node expired starts all-zero, and the first frame follows the announcement within one frame interval.",
 ["schedules", "histories", "configurations"],
 "Every running time, number of universes and nodes, frame rate, pattern of updates and re-announcements.",
 "No test runs a controller; the guarantee is about all times.",
 ["controller.go"], [("forceUpdate", "controller.go dmxUpdateLoop"), ("fresh buffers", "controller.go updateNode")],
 ["gaps and contents of DMX datagrams per universe, in virtual time"])

prop("C21", "Sequence numbers count 1 to 255 per node and never become 0",
 "The DMX datagrams a controller sends to one discovered node carry consecutive sequence numbers: the first is 1, each next one is one more, and 255 is followed by 1; 0, which would disable resequencing at the receiver, is never sent. The count of one node does not depend on traffic to others, and re-announcements of a known node do not disturb it.",
 ["histories", "schedules"],
 "Every length of run beyond any number of wrap-arounds, mixes of universes, several nodes, re-announcement and expiry histories.",
 "No test sends DMX through a controller, and a wrap needs 256 frames.",
 ["controller.go"], [("Sequence", "controller.go ControlledNode.dmxUpdate")],
 ["sequence field of DMX datagrams per destination node"])

prop("C22", "DMX output never exceeds the configured frame rate",
 "On a network that accepts datagrams without delay: however often and from however many goroutines DMX is sent to a universe, its datagrams are never closer together than one frame interval of the configured maximum frame rate, and a universe without new data is repeated only as keep-alive, no sooner than 250 milliseconds after the last frame (the first frame after its announcement aside). Between two frames only the newest data counts; superseded data is not transmitted.",
 ["schedules", "configurations", "histories"],
 "Every maximum frame rate, update rate, number of senders and universes.",
 "No test sends DMX through a controller.",
 ["controller.go", "options.go"], [("MaxFPS ticker", "controller.go dmxUpdateLoop, options.go MaxFPS"), ("Stale flag", "controller.go")],
 ["gaps between DMX datagrams per universe, in virtual time"])

prop("C23", "Silent nodes expire and only silent nodes expire",
 "A node heard from within the last 7 seconds stays known and routed; a node not heard from for more than 10 seconds is gone: no longer listed, none of its universes routed to it, no DMX sent to it, however many nodes fall silent together. Its expiry does not affect any other node, in particular not universes another node has taken over, and when it is heard again it is discovered as a new node.",
 ["histories", "schedules"],
 "Every history of announcement times, sets of nodes falling silent and returning, universe takeovers before expiry.",
 "No test runs a controller for even one second.",
 ["controller.go"], [("gcNode", "controller.go"), ("LastSeen", "controller.go updateNode")],
 ["exported tables and DMX destinations over virtual time"])

prop("C24", "No data race or deadlock under concurrent use",
 "Nodes and controllers are free of data races and deadlocks in every legitimate concurrent use: sending DMX from many goroutines, receiving any traffic, discovery, expiry and re-announcement, callbacks that call back into the library, concurrent starts and stops of separate instances, and stopping while all this goes on. Every call returns.",
 ["schedules", "histories"],
 "Every interleaving of public calls, callbacks, network traffic and timers, in simulated and in real time.",
 "The tests are single-threaded and start nothing.",
 ["node.go", "controller.go"], [("shutdownLock", "node.go"), ("Controller.nodeLock, ControlledNode.nodeLock", "controller.go"), ("channels between loops", "node.go, controller.go")],
 ["race detector reports, goroutine stacks"])

prop("C25", "Options and defaults are honoured",
 "A node or controller listens on the configured address and port (all addresses, port 6454 by default) and sends its polls and poll replies to the configured broadcast address (2.255.255.255 port 6454 by default) and to no other; options given at construction and options set later but before starting have the same effect, and a later option overrides an earlier one. The maximum frame rate is the configured one (1000 a second by default). A maximum frame rate of any value, sensible or not, never crashes a controller, and a rate that cannot be honoured is refused and leaves the previous rate in force.",
 ["configurations"],
 "Every combination and order of options with any addresses and any integer frame rate, for nodes and controllers.",
 "No test constructs a node or controller.",
 ["options.go", "node.go", "controller.go"], [("functional options", "options.go"), ("defaults", "node.go NewNode, controller.go NewController")],
 ["listen address of the socket, destinations of datagrams, frame rate observed"])

prop("C26", "A controller drives a library node end to end",
 "On one network a controller of this library discovers every running node of this library with its configured output universes, within one poll interval of a loss-free network, and the data last sent to each of those universes arrives at that node's DMX callback, complete and under the right universe. Loss, duplication, delay and reordering of datagrams only delay this: once the network is well again the node is known again within one poll interval and its latest received data converges to the last data sent since it is known, without ever presenting data sent to another universe or node.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "Every set of nodes and universes, every DMX history, every fault history of the network, start order and restarts of either side.",
 "No test connects a controller and a node.",
 ["node.go", "controller.go", "config.go", "packet/artdmx.go", "packet/artpollreply.go"], [("poll / reply discovery", "node.go, controller.go"), ("announcement of universes", "config.go ArtPollReplyFromConfig"), ("DMX path", "controller.go, packet/artdmx.go")],
 ["DMX callbacks of library nodes against SendDMXToAddress calls"])

prop("C27", "What a node or controller holds does not grow with its past",
 "However long a node or controller runs and whatever it goes through (datagrams of any kind from any number of sources, devices that come, change and go, sends to known and unknown universes, network errors, a blocked network, failed starts, starts and stops without number), nothing accumulates: once nothing is under way, its goroutines, its sockets and the memory it keeps are determined by what is configured, registered and known at that moment, not by how much has happened before. The same holds for encoding, decoding and converting packets.",
 ["histories", "inputs"],
 "Every history of traffic, calls and faults of any length.",
 "Tests are short and do not measure; a leak shows after hours of a running show.",
 ["node.go", "controller.go", "packet/packet.go", "config.go"], [("goroutine per received packet", "node.go handlePacket"), ("tables of nodes and universes", "controller.go updateNode, gcNode"), ("channels, connection and loops made at each start", "node.go Start, controller.go Start")],
 ["heap in use, goroutine stacks and open sockets after equal phases of traffic, when everything is quiet"])

prop("C28", "The library speaks through its logger and nowhere else",
 "Whatever a node or controller goes through, everything it has to say goes to the logger it was given: it writes nothing to standard output or standard error itself, keeps the user's fields on every entry, leaves the user's logger (level, output, format, fields) as it was, and never ends the program. Adding fields to a logger gives one with exactly these fields in addition and affects no other logger, also when it is done from several goroutines; the default logger writes every entry as one whole line to standard output, also from several goroutines.",
 ["histories", "inputs", "schedules", "configurations"],
 "Every history of traffic, faults, starts and stops, loggers of every level and format, trees of loggers made and used concurrently.",
 "No test looks at the log output or runs anything that logs.",
 ["logger.go", "node.go", "controller.go"], [("With, NewLogger, NewDefaultLogger", "logger.go"), ("the loggers of nodes and controllers", "node.go NewNode, controller.go NewController"), ("uses of the logger", "node.go, controller.go")],
 ["entries at a hook of the user's logger, its settings, bytes written to the process's standard output and error, its exit"])

with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
