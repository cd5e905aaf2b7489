UC = "src/app/common/ua/protocols/connection/"
M = "src/app/modbus/"
PROPS += [
    P("P16", "Every resource is returned, also after failures",
      "Whatever mix of successful and failing creations, connects, accepts and releases happened before, releasing links, timers and acceptors closes "
      "exactly the descriptors they opened and makes their slots available again: the full documented number can be created afterwards. "
      "No descriptor is ever closed twice or closed while it belongs to somebody else.",
      ["histories", "fault_sequences", "schedules"],
      "all sequences of creating, using and releasing with any system call failing at any point",
      "The suite never opens a descriptor.",
      [R + "EntityPool.hpp", R + "Link.cpp", R + "Timer.cpp", R + "Acceptor.cpp"],
      [("release through the owning pointer's deleter", R + "EntityPool.hpp")], [], ["open descriptors", "number of objects that can be created"]),
]
PROPS += [
    P("P05", "Every Modbus client request gets exactly one response",
      "Every request handed to a configured Modbus client is answered with exactly one response carrying the client's and the request's own "
      "identification, in bounded time, whatever the device and the network do: a correct answer, an exception answer, silence, garbage, a closed, "
      "reset, refused or vanishing connection, a full or partially accepted write. A request that did not get a valid answer is reported as failed, "
      "never dropped and never answered twice. Initialisation and configuration requests are answered exactly once too, with the outcome of every "
      "configured client.",
      ["schedules", "inputs", "fault_sequences", "histories"],
      "all sequences of requests, all device behaviours and network faults at any point, all segmentations of the response stream",
      "No test of the suite touches the Modbus code.",
      [M + "client/ModbusClient.cpp", M + "Modbus.cpp", M + "ModbusCodec.cpp"],
      [("queue of pending requests and response timer", M + "client/ModbusClient.cpp")], [],
      ["MsgModbusClientAduRsp, MsgModbusInitRsp and MsgModbusConfigRsp received by the requesting component"]),
    P("P06", "Modbus client data belongs to the request it answers",
      "A response reported as successful carries exactly the values the device sent in answer to that very request: never those of another request, "
      "of another device, of a late answer to a request that already timed out, or of a damaged or mismatching message. "
      "The device receives each accepted request at most once, unmodified and correctly encoded, in the order of the requests.",
      ["schedules", "inputs", "fault_sequences", "histories"],
      "all request parameters, all orders, delays, duplicates and corruptions of device answers across reconnects",
      "No test of the suite touches the Modbus code; mismatches need late or segmented answers.",
      [M + "client/ModbusClient.cpp", M + "ModbusCodec.cpp"],
      [("transaction identifier matched against the outstanding request", M + "client/ModbusClient.cpp")], [],
      ["MsgModbusClientAduRsp", "bytes received by the device"]),
    P("P07", "A Modbus client recovers by itself after any failure",
      "Once the device is reachable and answers again, the client reconnects by itself and requests succeed again within a minute, whatever happened "
      "before: refused, timed-out or half-open connections, resets in any state, silence, garbage, failing system calls.",
      ["schedules", "fault_sequences", "histories"],
      "all sequences of failures in all connection states, followed by a failure-free period",
      "No test of the suite touches the Modbus code.",
      [M + "client/ModbusClient.cpp"], [("reconnect timer", M + "client/ModbusClient.cpp")], [],
      ["responses after the failures stopped"]),
    P("P08", "The Modbus server answers each request once, to its own connection",
      "Every complete, well-formed request a remote client sends is delivered exactly once and unmodified to the application, and the application's "
      "answer is sent exactly once, correctly encoded, in request order, on the connection the request came from - however the byte stream is "
      "segmented, merged or interleaved with other connections. Nothing else is ever delivered to the application or sent to a client.",
      ["schedules", "inputs", "fault_sequences", "histories"],
      "all request sequences and segmentations on any number of simultaneous connections, with connections ending at any point",
      "No test of the suite touches the Modbus code.",
      [M + "server/ModbusServer.cpp", M + "server/session/ModbusSession.cpp", M + "ModbusCodec.cpp"],
      [("session receives one request, forwards it and waits for its answer", M + "server/session/ModbusSession.cpp")], [],
      ["MsgModbusAduReq received by the application", "bytes received by the remote client"]),
    P("P09", "The Modbus server keeps serving whatever its clients do",
      "No behaviour of remote clients - abandoned, half-open, silent, garbage-sending, resetting or too many connections, in any state - and no "
      "passing failure of a system call makes the server stop accepting new connections or answering correct requests of others. "
      "The resources of a connection that ended or stays silent are available to new connections within a minute.",
      ["schedules", "inputs", "fault_sequences", "histories"],
      "all histories of arriving, misbehaving and leaving clients, with failures of accept and of timer and descriptor creation",
      "No test of the suite touches the Modbus code.",
      [M + "server/ModbusServer.cpp", M + "server/session/ModbusSession.cpp"],
      [("session identifiers and pools of links and timers", M + "server/ModbusServer.cpp")], [],
      ["answers to well-behaved clients", "descriptors in use"]),
]
U = "src/app/ua/"
PROPS += [
    P("P10", "OPC UA messages are framed by their size, and the hello comes first",
      "The server takes the bytes of a connection as a sequence of messages delimited by the size in their header, however the stream is segmented, "
      "merged or delayed: every message of up to 4032 bytes is processed exactly once and in order. A connection starts with a well-formed hello, "
      "which is acknowledged exactly once; nothing is processed or sent before. A first message that is not a hello, a hello that cannot be decoded, an "
      "impossible size, an unknown message type or a second hello ends the connection, and so does a message that is not completed within the receive "
      "timeout of 30 seconds. Everything the server sends is a complete message of a known type whose size is its length.",
      ["schedules", "inputs", "fault_sequences", "histories"],
      "all segmentations and message sequences of any number of simultaneous connections, well-behaved or not, ending at any point",
      "The suite tests the connection classes of common/ua/protocols with a mock link that hands over whole messages; the server under src/app/ua is "
      "not tested at all.",
      [U + "transport/server/UaTcpConnection.cpp", U + "transport/server/UaTcpConnectionReceiveHello.cpp", U + "transport/server/UaTcpConnectionConnected.cpp"],
      [("receive buffer filled up to the size announced in the header", U + "transport/server/UaTcpConnection.cpp"),
       ("receive timer", U + "transport/server/UaTcpConnectionConnected.cpp")], [],
      ["bytes and disconnects seen by OPC UA clients"]),
    P("P11", "OPC UA secure channels are never mixed up",
      "A request is processed only if it names the secure channel that was opened last on its own connection, carries that channel's token and the next "
      "sequence number; any other request - another client's channel or token, a guessed, old or replayed one, one sent before a channel was opened - is "
      "not carried out, ends the connection it came from, and has no effect on the channel it names. Every response goes to the connection that sent the "
      "request, with that connection's channel and token and sequence numbers that increase by one. No two connections have the same channel at the same "
      "time, and nothing belonging to a connection that has ended reaches the client that uses its identifiers next.",
      ["schedules", "inputs", "fault_sequences", "histories"],
      "all interleavings of opening, using, replacing and closing channels on all connections, including clients that leave with requests outstanding",
      "No test runs the secure channel component; mix-ups need several clients and internal messages in flight while connections end.",
      [U + "securechannel/channel/UaServerSecureChannel.cpp", U + "securechannel/UaSecureChannel.cpp", U + "transport/server/UaTcpConnection.cpp",
       U + "transport/server/UaTcpServer.cpp"],
      [("channel bound to a connection id, token and sequence number", U + "securechannel/channel/UaServerSecureChannel.cpp"),
       ("connection ids that differ for consecutive peers", U + "transport/server/UaTcpConnection.cpp")], [],
      ["responses and disconnects seen by OPC UA clients"]),
    P("P12", "OPC UA services need the client's own activated session",
      "A read is answered only on a channel on which a session is activated: not without a session, not with one that is only created, was closed or was "
      "activated on another channel since. Activating and closing a session need the authentication token handed out for exactly that session; guessed, "
      "small, forged and formerly valid tokens have no effect, whoever uses them. Tokens of simultaneous sessions differ. "
      "A session stays usable by its owner whatever other clients do, and can be moved to another channel by activating it there.",
      ["schedules", "inputs", "fault_sequences", "histories"],
      "all interleavings of creating, activating, moving, using and closing sessions by honest and dishonest clients",
      "No test runs the session service.",
      [U + "service/session/UaSession.cpp", U + "service/session/UaSessionService.cpp", U + "service/session/UaSessionActivated.cpp",
       U + "service/session/UaSessionCreated.cpp", U + "service/attribute/UaRead.cpp"],
      [("session state machine and token", U + "service/session/UaSession.cpp")], [],
      ["responses seen by OPC UA clients"]),
    P("P13", "The OPC UA server answers every valid request once and keeps serving",
      "Every valid request (hello, opening and closing a channel, GetEndpoints, CreateSession, ActivateSession, Read, CloseSession; a Read once the activation was answered) on a working "
      "connection is answered exactly once, by a decodable response of the matching type with the request's own id and handle and the current time, also "
      "when requests are pipelined; GetEndpoints and CreateSession describe the endpoint the server has (opc.tcp://localhost:4369 without security). No behaviour of remote clients - abandoned connections, channels and sessions, floods of requests, more connections "
      "than there is room for, malformed messages - and no passing failure of a system call makes the server stop serving others: the resources of a "
      "connection that ended or is silent are available again within a minute, those of an abandoned session after its timeout.",
      ["schedules", "inputs", "fault_sequences", "histories"],
      "all histories of arriving, misbehaving and leaving clients, all placements of the components on event loops, with failing system calls",
      "No test runs the server.",
      [U + "transport/server/UaTcpServer.cpp", U + "transport/server/UaTcpConnection.cpp", U + "securechannel/UaSecureChannel.cpp", U + "service/UaService.cpp",
       U + "service/session/UaSessionService.cpp", "src/app/common/ua/common/UaEntityPool.hpp"],
      [("pools of connections, channels and sessions", "src/app/common/ua/common/UaEntityPool.hpp")], [],
      ["responses seen by OPC UA clients", "descriptors in use"]),
    P("P14", "No bytes from the network crash the program or corrupt its memory",
      "Whatever bytes remote Modbus devices, Modbus clients and OPC UA clients send, in whatever state, segmentation and order, the program neither "
      "crashes nor hangs nor reads or writes memory it should not, and keeps serving well-behaved peers correctly.",
      ["inputs", "schedules", "histories"],
      "all byte sequences on all connections: mutated, truncated and oversized messages with inconsistent lengths, counts and types, and pure noise",
      "The suite decodes a handful of well-formed messages.",
      ["src/app/common/ua/common/OpcUaBinaryCodec.cpp", "src/app/common/ua/common/OpcUaSduBuffer.cpp", M + "ModbusCodec.cpp",
       U + "transport/server/UaTcpConnection.cpp", U + "service/UaService.cpp"],
      [("bounds of every buffer access", "src/app/common/ua/common/OpcUaSduBuffer.cpp")], [],
      ["memory errors, aborts and endless loops", "answers to well-behaved peers"]),
    P("P15", "The application starts, stops and goes away cleanly",
      "For every sequence and timing of start and stop requests to the controller and every load at that moment: within seconds of a start request the OPC UA server "
      "(and the Modbus server) of the deployed application serves its clients, and goes on doing so (the application's own Modbus self test, left alone, runs again and again); within seconds of a stop request no listening socket, connection or client of either is "
      "left, and a later start works again; a stop request when nothing is started is harmless. ReactorManager::stop() returns as soon as the handlers in progress are done, "
      "no message, timer or link handler runs after it has returned, and destroying the manager, stopped or not, started or not, or after start() has failed half-way "
      "(no more threads, CPUs not there), ends all threads, closes all descriptors and never touches a destroyed object or hangs.",
      ["schedules", "histories", "faults"],
      "every interleaving of requests, handlers, timers, connections and shutdown; start-up failures at any thread; start/stop sequences of any length",
      "No test starts a reactor, a component or main().",
      ["src/app/common/reactor/ReactorManager.cpp", "src/app/common/reactor/Reactor.cpp", "src/app/common/reactor/Thread.cpp", "src/app/Deployer.cpp", "src/app/main.cpp",
       "src/app/controller/ControllerComponent.cpp", "src/app/controller/modbus/ModbusTestController.cpp", "src/app/controller/ua/UaController.cpp"],
      [("stop waits for the threads", "src/app/common/reactor/Reactor.cpp"), ("start/stop states", "src/app/controller/modbus/ModbusTestConfigure.cpp")], [],
      ["services reachable after start, gone after stop", "handlers after stop() returned", "threads and descriptors left", "memory errors at destruction"]),
    P("P17", "OPC UA connection objects report every attempt once and carry messages whole",
      "For ClientConnection and ServerConnection (common/ua/protocols/connection): a connect or accept that does not throw leads to exactly one report, "
      "connected or error, within three seconds for the transport and one second for the handshake, whatever the peer does; connected is reported only "
      "after the peer's matching handshake message (acknowledge, hello) has arrived whole and the own one has been sent. One that throws leaves the object as it was. "
      "On a connection every message of up to 1024 bytes that a peer sends, one at a time and in whatever pieces it arrives, is reported exactly once with exactly "
      "its bytes, and what send() accepted reaches the peer unmodified and in order. A connection ends with exactly one report - error at once when the peer closes, "
      "resets or breaks the protocol, closed ten seconds after it was established - or silently with close(), which works in every state. After the end nothing is "
      "reported, link and timer are released, sending fails, and the object can be used again, also from inside the report.",
      ["schedules", "inputs", "fault_sequences", "histories"],
      "all peer behaviours, segmentations and delays, user calls at every moment and inside every report, failing system calls, several objects on one event loop",
      "The suite drives the objects with mocked links: one message in one piece, no handler that acts, no failure of a call.",
      [UC + "OpcUaConnection.cpp", UC + "ClientConnection.cpp", UC + "ServerConnection.cpp", UC + "ClientConnectionConnected.cpp", UC + "ServerConnectionConnected.cpp",
       UC + "ClientConnectionConnecting.cpp", UC + "ServerConnectionConnecting.cpp", UC + "ClientConnectionReceiveAck.cpp", UC + "ServerConnectionReceiveHello.cpp"],
      [("connection state machines and their timer", UC + "ClientConnection.cpp"), ("reassembly of messages", UC + "OpcUaConnection.cpp")], [],
      ["reports to the connection handler", "bytes seen by the peer", "descriptors in use"]),
    P("P18", "Log lines are whole, complete and in order",
      "Every message logged at a level that is switched on for its task appears in the output exactly once, as one whole line that is not mixed with the lines of other "
      "threads, carrying the wall clock time of the call, its level, task and place in the source and the text (at least its first 1000 characters, whatever it contains); messages below the "
      "level of their task do not appear. A message whose logging finished before another one was logged is printed before it, on whichever threads. Logging a text of any "
      "length never disturbs the program.",
      ["schedules", "inputs"],
      "all interleavings of threads that log, texts of all lengths and contents, all level settings, also while they are changed",
      "No test logs from two threads or looks at the output.",
      ["src/app/common/logger/Logger.cpp", "src/app/common/logger/Logger.hpp"],
      [("one line at a time", "src/app/common/logger/Logger.cpp"), ("text buffer of the log macro", "src/app/common/logger/Logger.hpp")], [],
      ["standard output"]),
]
NOT_APPLICABLE = {}
