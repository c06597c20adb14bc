#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth for titles and statements)."""
import json, os
I, S, H, F, C, P = "inputs", "schedules", "histories", "fault_sequences", "configurations", "crash_points"
props = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    props.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

BIN="pkg/binary/"; PRO="pkg/protocol/"; ND="pkg/node/"; SC="pkg/scanner/"
PG="internal/infrastructure/storage/db/pg/"; IM="internal/infrastructure/storage/db/inmemory/"
APP="internal/core/application/"; WS="internal/interface/web-socket/"; HD=WS+"handler/"

# ---------------------------------------------------------------- wire codec
p("W01","A short or truncated read never yields a decoded value",
 "However the bytes of a stream are split into reads and wherever the stream ends, decoding a wire value either obtains every byte of every field or returns an error. No error met while decoding is turned into success, and no partially read buffer is used as if it were full.",
 [I,F],"every segmentation and every truncation point of every message of every type",
 "Tests decode from complete in-memory buffers, where one read always returns everything; short reads only occur with network segmentation.",
 [BIN+"unmarshaler.go",PRO+"varint.go",PRO+"netaddr.go",PRO+"msg_headers.go",PRO+"msg_cfilter.go",ND+"node.go"],
 [("fixed-size fields are read in full",BIN+"unmarshaler.go decodeArray"),("decoders return the errors of the reads they make",PRO+"*.go UnmarshalBinary")])
p("W02","A successful decode fills every field of the caller's value from the stream",
 "When decoding a message or a part of one reports success, every field of the value handed in by the caller has been set, and set from bytes of that stream. Nothing is written to a copy that the caller never sees.",
 [I],"every input accepted by every decoder, on every path that reports success",
 "Tests compare a few decoded messages; fields they do not compare, and branches they do not take, may be left unset.",
 [PRO+"varint.go",PRO+"netaddr.go",PRO+"blocklocator.go",PRO+"msg_headers.go",PRO+"msg_inv.go",PRO+"msg_cfilter.go",PRO+"msg_block.go",PRO+"msg_tx.go",PRO+"msg.go"],
 [("decoders have pointer receivers and assign through them",PRO+"*.go UnmarshalBinary")])
p("W03","Encoding and decoding of a wire type use the same layout, byte order and codec",
 "For every type that travels on the wire, the bytes written by the encoder are in the same field order, widths, byte order and length-prefix form as the decoder expects, and these are the Bitcoin wire formats. Every value inside a message is of a type the codec supports, and a type with its own encoder or decoder is always encoded or decoded by it.",
 [I],"every type reachable from any message sent or accepted, and every branch of its encoder and decoder",
 "Tests round-trip samples of some types; types only sent or only received, and length-prefix forms of big values, are not exercised.",
 [BIN+"marshaler.go",BIN+"unmarshaler.go",PRO+"varint.go",PRO+"netaddr.go",PRO+"msg_cfilter.go",PRO+"blocklocator.go",PRO+"msg.go"],
 [("dispatch on the dynamic type",BIN+"marshaler.go Marshal, unmarshaler.go Decode"),("varint prefix table",PRO+"varint.go")])
p("W04","Counts and lengths sent by a peer never size an allocation unchecked",
 "Memory allocated up front while reading from a peer is bounded by a constant: a count or length received from the peer sizes an allocation only after it was checked against a fixed maximum. Otherwise memory grows only with bytes actually received.",
 [I],"every value of every count and length field a peer can send",
 "A test would have to send each hostile value in each length field; the existing ones send none.",
 [BIN+"unmarshaler.go",PRO+"msg_headers.go",PRO+"blocklocator.go",PRO+"msg.go",PRO+"msg_inv.go",ND+"node.go"],
 [("limits on counts",PRO+"msg_headers.go, blocklocator.go, msg.go"),("payload limit",ND+"node.go readMessage")])
p("W05","Only whole, intact messages of the node's own network are acted on",
 "A message is handed to its handler only after its header carried the magic of the node's own network, its declared length was within the limit, its payload was read in full and the payload's checksum matched the header. The handler reads from that payload only, and the next header is read exactly behind it, whatever became of the message; after a failed read nothing more is read from that connection.",
 [I,F,H],"every byte stream a peer can send, including streams that mix valid, corrupt, unknown and foreign messages",
 "No test feeds the message loop a stream; handlers are never tested with corrupt, foreign or truncated messages.",
 [ND+"node.go",PRO+"msg.go"],
 [("frame reader",ND+"node.go readMessage"),("header and payload validation",PRO+"msg.go Validate, ValidatePayload"),("dispatch",ND+"node.go handlePeerMessages")])
p("W06","Command, network and checkpoint tables agree with each other",
 "Every command the node sends is in the command table under its own packed name, every received command is decoded as the message type of that name, and each message constructor uses the command of its type. Every supported network has one distinct magic that header validation accepts, a genesis checkpoint equal to that network's genesis hash, and is accepted by both configuration and node.",
 [I,C],"every command and network in the tables, and every constructor and dispatch case",
 "Tests check a few rows; disagreement between tables shows only with the particular command or network.",
 [PRO+"cmd.go",PRO+"network.go",PRO+"checkpoints.go",PRO+"msg.go",ND+"node.go","internal/config/config.go"],
 [("command table",PRO+"cmd.go"),("network and checkpoint tables",PRO+"network.go, checkpoints.go"),("dispatch",ND+"node.go handlePeerMessages")])
# ---------------------------------------------------------------- node
p("N01","Only headers that extend the stored chain by one are stored",
 "A block header received in a block message is stored only if its height is exactly one above the stored tip. Headers received in a headers message are stored only if the whole batch is in consecutive height order, does not start beyond the height after the tip, and only those above the tip are stored, in order.",
 [I,H],"every block and headers message, against every stored tip",
 "Tests check the order of a few batches only; the relation to the stored tip, and gaps and overlaps, are never tested.",
 [ND+"cmd_block.go",ND+"cmd_headers.go",ND+"node.go"],
 [("gates before the hand-off to the header writer",ND+"cmd_block.go handleBlock, cmd_headers.go handleHeaders, checkHeadersInSequence")])
p("N02","Replies and follow-up requests mirror the message that caused them",
 "A pong carries the nonce of the ping, a getdata the whole inventory of the inv, and each cfilter the hash and the stored filter of one and the same requested block; each is sent to the peer that asked, and every stored filter of the requested range is sent. After a header is stored the filter of exactly that block is requested, and headers are requested from the stored tip, or from the network's genesis if nothing is stored.",
 [I,H],"every received message and every stored header",
 "No test drives a handler with a connection and compares what is sent with what was received.",
 [ND+"cmd_ping.go",ND+"cmd_inv.go",ND+"cmd_getcfilters.go",ND+"node.go",ND+"chainsync.go",ND+"cmd_version.go"],
 [("handlers",ND+"cmd_*.go"),("filter request per stored header",ND+"node.go monitorBlockHeaders"),("header request",ND+"chainsync.go syncWithPeer")])
p("N03","Everything runs on the configured network",
 "Every message the node sends is framed with the magic of the network it was configured with, and with the length and checksum of exactly the payload it carries. The genesis block used for synchronising and for scanning is that of the configured network, and an unsupported network is refused.",
 [C,I],"every configurable network and every message sent",
 "Tests and the test environment run on regtest only.",
 [PRO+"msg.go",ND+"node.go",ND+"chainsync.go",WS+"server.go","cmd/neutrinod/main.go"],
 [("message construction",PRO+"msg.go NewMessage"),("genesis of the network",ND+"chainsync.go getGenesisBlockHash, "+WS+"server.go Start")])
p("N04","Peers are used only after a valid handshake and dropped when they fail",
 "A peer enters the set of peers used for syncing only once, after its version message announced compact-filter support and was acknowledged, and is pinged from then on. A peer whose connection fails, or whose ping can't be sent, times out or is answered wrongly, is reported for disconnection; disconnecting removes it and its ping bookkeeping and closes its connection.",
 [H,F],"every handshake, and every failure of a connection or of a ping at any time",
 "Tests have no peers that misbehave or fail.",
 [ND+"cmd_version.go",ND+"handle_ping.go",ND+"node.go"],
 [("handshake",ND+"cmd_version.go handleVersion"),("ping monitor",ND+"handle_ping.go monitorPeer"),("removal",ND+"node.go disconnectPeer, removePeer")])
p("N05","Mempool events are announced after the change, for the right transaction",
 "An unconfirmed-transaction event is announced only after that transaction was added to the mempool, and a confirmed event only after that transaction, found in the block by its id, was removed from it. Every successful addition or removal is announced, to every subscriber, carrying the id of the transaction concerned. A node that has started takes in the transactions its peers send; when it passes on the header of a new block, every transaction of that block which the mempool holds is removed from it. The hash a wire transaction tells is its transaction id, the one these events carry.",
 [S,H],"every sequence of received transactions and blocks, and every number of subscribers",
 "The mempool test adds and removes a handful of transactions in one order.",
 [ND+"mempool.go",ND+"cmd_block.go",ND+"cmd_tx.go"],
 [("additions",ND+"mempool.go listenForNewTxs"),("confirmations",ND+"mempool.go checkTxConfirmed"),("fan-out",ND+"mempool.go notifySubscribers")])
p("N06","The node is ready only when caught up, and asks for headers until then",
 "Start reports success only after the stored tip reached the height announced by the peer it was started with, and all ancestors of that tip are stored. Synchronising begins with the first peer entered; after every batch of headers handed to storage, and after a batch or block that leaves a gap to the stored tip, further headers are requested from that peer. A peer's height is the one its version or a later block announced.",
 [H,I],"every stored chain at start, every announced height and every sequence of headers and block messages",
 "The tests that start a node need a live peer and do not run here; none looks at when Start returns or which messages lead to another request.",
 [ND+"chainsync.go",ND+"node.go",ND+"cmd_version.go",ND+"cmd_headers.go",ND+"cmd_block.go","pkg/peer/peer.go"],
 [("readiness",ND+"chainsync.go synced, checkSyncedInitial; node.go Start"),("further requests",ND+"cmd_headers.go handleHeaders, cmd_block.go handleBlock"),("announced height","pkg/peer/peer.go SetPeersTip; "+ND+"cmd_version.go")])
# ---------------------------------------------------------------- shared state
p("S01","State shared between goroutines is always accessed under its lock",
 "Every access to mutable state that several goroutines can reach is made while holding the lock that guards that state, with writes holding it exclusively. Writes to one web-socket connection are serialised.",
 [S],"every interleaving of the node, mempool, scanner, repositories and subscription services",
 "The tests rarely run the operations concurrently and not under the race detector; a race shows only in particular interleavings.",
 [ND+"node.go",ND+"handle_ping.go",ND+"mempool.go","pkg/peer/peer.go",SC+"requestqueue.go",SC+"scanner.go",IM+"header_inmemory.go",IM+"filter_inmemory.go",APP+"notification_service.go",HD+"notification_handler.go",HD+"ws_handler.go"],
 [("mutexes of each component","fields of type sync.Mutex/RWMutex/Locker")])
p("S02","Locks are released on every path, never retaken, nor held while waiting",
 "Every operation releases every lock it takes, on every path out of it, and never takes a lock it already holds or takes two locks in opposite orders. No lock is held while waiting for a channel, a timer or another goroutine.",
 [S,F],"every path through every operation that takes a lock, including error paths",
 "A leaked lock or an inverted order shows only on the particular error path or interleaving.",
 [ND+"node.go",ND+"handle_ping.go",ND+"mempool.go","pkg/peer/peer.go",SC+"requestqueue.go",SC+"scanner.go",IM+"header_inmemory.go",IM+"filter_inmemory.go",APP+"notification_service.go",HD+"notification_handler.go",HD+"ws_handler.go",PG+"db_service.go"],
 [("lock/unlock pairs","all users of sync mutexes")])
p("S03","Stopping a component ends all its waiting, whatever it is doing",
 "Stopping the node, mempool, scanner, notification service or subscription handler returns without waiting for another party to make progress, and can be repeated. Every goroutine of the component that waits for another goroutine also waits for the stop signal and then leaves, and no endless loop of it can go on without observing the stop signal or the failure of its connection.",
 [S,H],"every moment at which stop is called, and every state in which goroutines are waiting at that moment",
 "Tests stop components only when idle, and never while a hand-off is pending.",
 [ND+"node.go",ND+"handle_ping.go",ND+"chainsync.go",ND+"mempool.go",ND+"cmd_headers.go",ND+"cmd_block.go",ND+"cmd_cfilter.go",ND+"cmd_pong.go",SC+"scanner.go",SC+"requestqueue.go",APP+"notification_service.go",HD+"notification_handler.go"],
 [("stop channel as an alternative of every hand-off","select statements with the stop channel")])
p("S04","No send on a closed channel and no channel closed twice",
 "A channel is closed at most once, whatever sequence of operations is performed, and only when no goroutine can still send on it.",
 [S,H],"every interleaving and repetition of the operations that close or send",
 "A send after close or a second close panics only in particular interleavings or call sequences.",
 [ND+"node.go",ND+"mempool.go",SC+"scanner.go",APP+"notification_service.go",HD+"notification_handler.go",WS+"server.go"],
 [("once guards, stopped flags and joins before close","close calls")])
p("S05","A scan request or a stop always wakes the waiting scanner",
 "The scanner, when waiting for requests, is woken by every request added and by stop: both change what it waits for under its lock and then signal it. After waking it checks again before going on.",
 [S],"every interleaving of adding requests, stopping and waiting",
 "A lost wake-up needs the addition to fall between the check and the wait.",
 [SC+"requestqueue.go",SC+"scanner.go"],
 [("condition variable",SC+"requestqueue.go")])
# ---------------------------------------------------------------- repositories
p("R01","An acknowledged write is complete, and nothing is left open otherwise",
 "A repository write reports success only when every given item was written and the transaction committed without error, or the same content was already stored. On every other path the transaction is rolled back and the error reported.",
 [F,P,I],"every failure of any database statement, at any item of a batch, and every batch with known items",
 "The database tests need a running server and never fail a statement or store a batch with known items.",
 [PG+"header_repository_impl.go",PG+"filter_repository_impl.go",IM+"header_inmemory.go",IM+"filter_inmemory.go"],
 [("transaction commit and deferred rollback",PG+"*_repository_impl.go")])
p("R02","All repositories report the same condition with the same error",
 "Each kind of repository reports an absent block, an absent filter and an empty store with the same distinguished error per operation, unwrapped, and never as success without a value. Callers test for exactly the errors the called operation can report.",
 [I,H],"every absent key and empty store, for every implementation and every caller",
 "Tests run against one implementation at a time, with data present.",
 ["pkg/repository/header_repository.go","pkg/repository/filter_repository.go",PG+"header_repository_impl.go",PG+"filter_repository_impl.go",IM+"header_inmemory.go",IM+"filter_inmemory.go","pkg/blockservice/service.go",ND+"chainsync.go",ND+"cmd_headers.go",ND+"cmd_block.go",SC+"scanner.go"],
 [("sentinel errors","pkg/repository/*.go, pkg/blockservice/service.go")])
p("R03","What is stored under a key belongs to that key, and reads use the same key",
 "Every stored header is filed under its own hash and height, and every stored filter under the key of its own block and filter type, each as its own copy. Reads look up by the same derivation of the key they are asked for, the chain tip is the stored header of the greatest height, all ancestors of a block are reported as stored only when following the parents' hashes came down to the first block, and queries use only tables, columns and parameters that the schema and record types define.",
 [I,H],"every stored item, every batch size, every read",
 "Tests store few items; aliasing or a wrong column shows only with several items or against a real database.",
 [PG+"header_repository_impl.go",PG+"filter_repository_impl.go",PG+"migration",IM+"header_inmemory.go",IM+"filter_inmemory.go","pkg/repository/filter_repository.go",ND+"node.go",SC+"scanner.go"],
 [("key derivation","pkg/repository/filter_repository.go"),("statements",PG+"*_repository_impl.go"),("schema",PG+"migration")])
p("R04","The block locator lists stored blocks from the tip down",
 "The locator every repository reports starts with the hash of the chain tip. Each further entry is the hash of the stored header of the height the walk has reached, and the walk goes on at a lower height. It ends only at height zero or when the locator is as long as a message may carry; otherwise an error is reported.",
 [I,P],"every stored chain, of every length and with any header missing",
 "The locator is tested against a running database with a short chain only; a walk that stalls, stops early or lists another block shows with long chains.",
 [PG+"header_repository_impl.go",IM+"header_inmemory.go"],
 [("locator walk",PG+"header_repository_impl.go blockLocatorFromHash"),("locator walk",IM+"header_inmemory.go blockLocatorFromHash")])
# ---------------------------------------------------------------- scanner
p("X01","Scan requests are never lost",
 "Every request handed to the scanner stays queued or in progress until it is reported as matched: selecting requests by height, scanning blocks, failures at any step, and stopping never drop one. Within a block each pending request is either reported or kept.",
 [H,F,S],"every sequence of requests, blocks and failures of the repositories and the block service",
 "Scanner tests need a running network; none makes a lookup fail or has several requests at different heights.",
 [SC+"scanner.go",SC+"requestqueue.go"],
 [("re-queueing on every exit",SC+"scanner.go requestWorker"),("partition of requests",SC+"requestqueue.go dequeueAtHeight, scanner.go extractBlockMatches")])
p("X02","A persistent request is watched on from the next block, others end",
 "When a persistent request is reported, a request for the same client and item, still persistent, is queued, once, from the height after the reported block however many transactions of that block matched it; a non-persistent request is not queued again. A subscriber's wallet yields one persistent request per script, with the subscriber's id, start height and requested kind of event.",
 [H,I],"every match of every request, and every wallet descriptor and event list",
 "The persistent-watch tests need a running network and see two matches of one item.",
 [SC+"scanner.go",SC+"request.go"],
 [("watching again",SC+"scanner.go requestWorker"),("wallet scripts",SC+"scanner.go WatchDescriptorWallet")])
p("X03","A report names the transaction, block and request that really matched",
 "A match is reported only for a transaction that satisfies the request, with the block that contains it and the request it satisfies; the filter consulted, its key and the block fetched are those of the block being scanned. Every transaction of that block that satisfies a pending request is reported. The event delivered to a subscriber carries the id, kind of event, block and transaction of that report.",
 [I,H],"every block scanned, every request and every report",
 "Tests look at a single request matching a single transaction.",
 [SC+"scanner.go",APP+"notification_service.go",HD+"notification_handler.go"],
 [("report construction",SC+"scanner.go extractBlockMatches"),("event construction",APP+"notification_service.go handleOnChainEvents")])
p("X04","A scan visits every height from the requested one to the tip, in order",
 "A scan looks at the block of every height from the lowest requested start height up to the stored tip, one after the other, and joins in the requests that start at each height before looking at it. It moves to the next height only after the current one was looked at successfully.",
 [H,F],"every start height, chain length and set of requests",
 "Tests scan one or two blocks.",
 [SC+"scanner.go",SC+"requestqueue.go"],
 [("height loop",SC+"scanner.go requestWorker"),("choice of the next request",SC+"requestqueue.go waitForRequest")])
# ---------------------------------------------------------------- application and API
p("A01","Each request gets exactly one answer, and success only when it succeeded",
 "For each request received over web-socket or HTTP the client is sent exactly one response: success only if the requested registration or un-registration succeeded, an error otherwise. The daemon reports a failed start as an error rather than running without the failed part.",
 [I,F],"every request, valid or not, and every outcome of the operation it asks for",
 "No test sends requests to the handlers.",
 [HD+"ws_handler.go",HD+"http_handler.go",WS+"server.go"],
 [("request handling",HD+"ws_handler.go handleRequest, http_handler.go HandleSubscriptionRequestHttp")])
p("A02","Every client registered is unregistered when it leaves or fails to subscribe",
 "A client entered in the registry is taken out again on every way its connection can end, and an HTTP client also when its subscription fails or was not a registration. Un-registering a client removes it from the registry and ends its subscription.",
 [H,F],"every way a connection can end and every failing request",
 "No test connects a client.",
 [HD+"ws_handler.go",HD+"http_handler.go",HD+"notification_handler.go",APP+"notification_service.go"],
 [("registration and deferred un-registration",HD+"ws_handler.go handleRequest"),("registry loop",HD+"notification_handler.go handleSubscribers")])
p("A03","Events go only to the subscriber concerned, and to none that left",
 "An on-chain event or error is delivered only to the subscriber whose id it carries, and only if that subscriber is still subscribed and registered at that time. A subscriber that is gone, or an event that can't be delivered, never stops delivery to the others.",
 [H,S],"every order of subscriptions, un-subscriptions, disconnections and events",
 "No test has more than one subscriber, nor one that leaves.",
 [APP+"notification_service.go",HD+"notification_handler.go"],
 [("subscription check",APP+"notification_service.go handleOnChainEvents"),("registry lookup",HD+"notification_handler.go handleOnChainNotifications")])
p("A04","Slow or hostile remote parties can't stall or exhaust the daemon",
 "Every HTTP call the daemon makes has a time limit and closes the response body, and every write to a web-socket client has a deadline. The size of every request read from a client is limited.",
 [F,I],"every remote endpoint that stalls, and every size of request",
 "Tests use local, fast, well-behaved endpoints.",
 ["pkg/blockservice/service.go",HD+"notification_handler.go",HD+"ws_handler.go",HD+"http_handler.go"],
 [("client timeouts","pkg/blockservice/service.go, "+HD+"notification_handler.go"),("limits",HD+"ws_handler.go, http_handler.go")])
p("A05","Remote input and absent entries never crash a service",
 "No absent registry or table entry and no value of the wrong kind is used unchecked, and values a peer sends are indexed only within their length. A panic while serving one peer or client is contained, so that the process and the other peers and clients go on.",
 [I,H],"every message of a peer or client and every state of the registries",
 "Tests use well-formed input and present entries.",
 [ND+"node.go",ND+"cmd_headers.go",ND+"handle_ping.go",ND+"chainsync.go",SC+"scanner.go",PG+"header_repository_impl.go",PG+"filter_repository_impl.go",IM+"header_inmemory.go",APP+"notification_service.go",HD+"notification_handler.go",HD+"ws_handler.go",WS+"middleware/panic.go"],
 [("presence checks","lookups of peers, subscribers and headers"),("recovery","deferred recover in service goroutines")])
p("A06","Failures of a lower layer are never taken for success",
 "When a storage, network, encoding or service call fails, the operation that made it reports an error, unless the failure is one it handles by design (nothing stored yet, filter or block unknown). The result of a failed call is never used.",
 [F],"every failing call at every place it is made",
 "Tests do not inject failures.",
 [ND,SC,"pkg/blockservice/service.go","pkg/peer/peer.go",PRO,PG,IM,APP,WS,"cmd/neutrino/main.go","cmd/neutrinod/main.go"],
 [("error returns","all functions that return an error")])
p("A07","The CLI configuration survives interruption and corruption",
 "Changing the CLI configuration replaces the stored one in a single step, so that an interruption at any point leaves the old or the new one, merged with the values kept. A stored configuration that can't be read or parsed is reported and not overwritten.",
 [P,F],"every point at which writing can be interrupted, and every content of the stored file",
 "There are no tests of the CLI.",
 ["cmd/neutrino/main.go","cmd/neutrino/config.go"],
 [("write to a temporary file, then rename","cmd/neutrino/main.go setState")])
p("A08","Event kinds translate completely and consistently between API and scanner",
 "Every kind of event of the API translates to one scanner event kind and back to itself, unknown kinds are refused with an error in both directions, and every request's own kind of event is the one its matches are reported as.",
 [I],"every event kind, known or not",
 "No test covers the translation.",
 ["pkg/neutrinod-types/types_ws.go",SC+"scanner.go",SC+"watchitem.go",HD+"ws_handler.go",HD+"notification_handler.go"],
 [("translation tables","pkg/neutrinod-types/types_ws.go"),("kinds of watch items",SC+"watchitem.go")])
p("A09","The daemon's parts are connected, run beside each other, and end on shutdown",
 "Every channel and table a component uses exists from its creation on, and who is handed a channel receives what the component sends. Starting a component returns and leaves its loops running beside it. Every request to an endpoint reaches that endpoint's own handler, once, through every middleware; the connection of a client is closed when serving it ends; a subscription that asks for nothing or for a height that cannot exist is refused. After a shutdown signal the daemon ends.",
 [I],"every component, request and way to end",
 "Unit tests never assemble the daemon, and a missing connection shows only as something that never happens.",
 ["internal/interface/web-socket/server.go","internal/interface/web-socket/middleware/middleware_service.go","internal/core/application/notification_service.go","internal/core/application/types.go",HD+"ws_handler.go",HD+"notification_handler.go",SC+"scanner.go"],
 [("wiring of the daemon","internal/interface/web-socket/server.go"),("middlewares","internal/interface/web-socket/middleware"),("channels handed out","internal/core/application/notification_service.go")])
p("A10","API and CLI are as documented, and the CLI asks and shows in full",
 "A subscription request written as documented is understood by the daemon: its names, kinds of values, actions and event kinds, at the documented addresses, and with the documented flags of the CLI. What the daemon sends tells by its names which kind of message it is. `neutrino subscribe` registers for exactly the wallet, the height and all the events given, waits for answers only after the request was sent, and shows the content of every message it receives.",
 [I,H],"every command line, and every sequence of messages of the daemon",
 "The API, its documentation and the CLI are only brought together by hand; no test runs the CLI.",
 ["README.md","pkg/neutrinod-types/types_ws.go","pkg/neutrinod-types/types_http.go","cmd/neutrino/subscribe.go","cmd/neutrino/config.go","internal/interface/web-socket/server.go"],
 [("message types","pkg/neutrinod-types"),("client loop","cmd/neutrino/subscribe.go subscribeAction")])
p("A11","Each setting reaches its own part, and the daemon starts only if every step did",
 "Every setting is read from its documented environment variable or else has a default of its kind, and reaches the one part of the daemon it is for: the address served, the peer dialled, the explorer asked, the migrations, and each field of the database connection. A network that is not one of those known is refused, and each known one accepted. After any step of the start fails the daemon stops instead of taking the next one.",
 [I,F],"every environment the daemon is started in, and every step that can fail",
 "Tests never start the daemon, and defaults hide settings that reach the wrong place.",
 ["internal/config/config.go","cmd/neutrinod/main.go","internal/infrastructure/storage/db/pg/db_service.go","internal/interface/web-socket/server.go","pkg/blockservice/service.go","docker-compose.yml"],
 [("settings","internal/config/config.go LoadConfig"),("start","cmd/neutrinod/main.go main"),("connection string","internal/infrastructure/storage/db/pg/db_service.go")])
p("A12","What is opened is closed, on every path, unless it is handed on",
 "Every connection to a peer, to the database or to a web-socket client, every file and every ticker that a function opens is closed or stopped before the function ends, on failing paths too, unless it is returned, kept in an object that outlives the function, or handed to a goroutine. A goroutine that is handed the connection of a client closes it however it ends.",
 [F,S],"every step that can fail after something was opened, and every way a client's session ends",
 "Tests don't make the step after an opening fail, and nothing they observe tells that a descriptor was leaked.",
 ["pkg/peer/peer.go","pkg/node/node.go","pkg/node/handle_ping.go","internal/interface/web-socket/handler/ws_handler.go","internal/infrastructure/storage/db/pg/db_service.go","cmd/neutrino/main.go","cmd/neutrino/subscribe.go"],
 [("dialling","pkg/peer/peer.go NewElementsPeer"),("session","internal/interface/web-socket/handler/ws_handler.go handleRequest"),("CLI","cmd/neutrino/main.go getNeutrinodConnection")])
# ---------------------------------------------------------------- not applicable to this technique
p("Z01","A scan finds every transaction that concerns a watched script",
 "For every block in the scanned range, each transaction that pays to or spends from a watched script leads to a report to the watching client, and no other transaction does.",
 [I],"every block, script and compact filter",
 "Depends on the contents of filters and blocks.",
 [SC+"scanner.go",SC+"watchitem.go"],[("filter matching",SC+"scanner.go blockFilterMatches"),("transaction matching",SC+"watchitem.go")])
p("Z02","Synchronisation reaches the peers' tip and survives reorganisations",
 "Given a peer that serves a valid chain, the node eventually stores every header up to that peer's tip, and after a reorganisation its stored chain is the peer's best chain.",
 [H,S],"every chain, every schedule of messages, every reorganisation",
 "Needs histories of a live network.",
 [ND+"chainsync.go",ND+"cmd_headers.go",ND+"cmd_block.go"],[("header sync",ND+"chainsync.go")])
p("Z03","Block locators are well formed",
 "A block locator starts at the stored tip, steps back one block at a time for the first ten entries and then doubles the step down to the start of the chain, within the protocol's limit.",
 [I,H],"every chain length",
 "Tests have at most a few blocks.",
 [PG+"header_repository_impl.go",IM+"header_inmemory.go"],[("locator construction",PG+"header_repository_impl.go blockLocatorFromHash")])
p("Z04","Variable-length integers and messages round-trip exactly",
 "Every value that fits the wire format decodes to itself after encoding, using the shortest form, and the computed transaction and block ids equal those of the network.",
 [I],"every value",
 "Tests sample values.",
 [PRO+"varint.go",PRO+"msg_tx.go"],[("varint codec",PRO+"varint.go")])
p("Z05","Peers are pinged and timed out within the documented intervals",
 "A connected peer is pinged at least every two minutes and disconnected within one minute of an unanswered ping.",
 [S],"every schedule",
 "Needs real time.",
 [ND+"handle_ping.go"],[("ping timers",ND+"handle_ping.go monitorPeer")])
p("Z06","Stored filters are authentic",
 "A compact filter is stored only if it is the filter committed to for its block, so that a malicious peer can't hide transactions.",
 [I],"every cfilter message of every peer",
 "Needs filter headers, which the node does not fetch.",
 [ND+"cmd_cfilter.go",ND+"node.go"],[("filter storage",ND+"node.go monitorCFilters")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for x in props:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(props), "properties")
