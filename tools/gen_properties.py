#!/usr/bin/env python3
'''Writes /verif/properties.jsonl (the properties, one JSON object per line).'''
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["privcount/"+f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

NT = "The unit tests only import counter.py, log.py, random helpers and the noise tool; "

p("C01", "Published tallies equal true counts plus noise",
  "When every participating data collector and share keeper of a round reports its counts, every published counter bin equals the sum, over the data collectors, of what they counted plus the noise they added, as a signed number. The blinding values cancel exactly, for any number of nodes, any blinding values and any order in which shares and counts arrive.",
  ["inputs", "schedules", "configurations"],
  "All numbers of data collectors and share keepers, counter sets and bins, increments and noise within the counter range, blinding values, and arrival orders of shares and counts.",
  NT + "test_counter.py tallies a few fixed share/collector combinations in one process and never through the tally server, data collectors and share keepers.",
  ["counter.py", "data_collector.py", "share_keeper.py", "tally_server.py", "crypto.py"],
  [("blinding, unblinding and tallying of modular counters", "privcount/counter.py:SecureCounters, combine_counters"),
   ("share generation, encryption and delivery", "privcount/data_collector.py:DataCollector.do_start, privcount/share_keeper.py:ShareKeeper.do_start"),
   ("tally of all reported counts", "privcount/tally_server.py:CollectionPhase.write_results")],
  [("counters", "blinded modular counters held by each node", "privcount/counter.py:SecureCounters.counters")],
  ["the tallies file written by the tally server", "START and STOP lines on the wire"])

p("C02", "No tally is published for an incomplete or failed round",
  "A tally is only published for a round that really started, in which every participating data collector and share keeper returned its counts and none of them failed. If the round is aborted, or any participant returns no counts, no tally and no updated traffic model is published for it, and every participant's counts enter a tally exactly once, whatever duplicate, late or foreign reports arrive.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of check-ins, start and stop replies, duplicates, lost or restarted nodes, failures and expiry, over any number of consecutive rounds.",
  NT + "no test runs the tally server at all, so no interleaving, loss or failure is exercised.",
  ["tally_server.py"],
  [("phase life cycle and acceptance of reports", "privcount/tally_server.py:CollectionPhase.store_data, stop, is_error"),
   ("publication", "privcount/tally_server.py:TallyServer.stop_collection_phase, CollectionPhase.write_results")],
  [("need_counts", "participants whose counts are missing", "privcount/tally_server.py:CollectionPhase"),
   ("error_flag", "the round has failed", "privcount/tally_server.py:CollectionPhase")],
  ["result files", "server lines"])

p("C03", "Rounds start in order with fixed participants and correct shares",
  "The participants of a round are fixed when it begins: only they are ever asked to start, and only their replies are used. Share keepers are asked to start only after every participating data collector has delivered its shares, each share keeper is handed exactly the one share that each data collector addressed to it, and the round counts as started only once every share keeper has accepted. A start request is repeated until its acknowledgement arrives, and acknowledgements are used once.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of check-ins, acknowledgements, duplicates, losses and joins or leaves of nodes, for any number of nodes and rounds.",
  NT + "no test runs a collection phase.",
  ["tally_server.py"],
  [("participant lists and start/stop requests", "privcount/tally_server.py:CollectionPhase.get_start_config, get_stop_config, store_data")],
  [("state", "phase of the round", "privcount/tally_server.py:CollectionPhase"), ("encrypted_shares", "shares held for each share keeper", "privcount/tally_server.py:CollectionPhase")],
  ["START and STOP lines from the tally server"])

p("C04", "A node's counts leave it at most once, and only when asked for",
  "A data collector or share keeper sends counts only in reply to a stop request that asks for them, at most once for each round it joined, and only the counts of that round. A stop request that does not ask for counts, or that reaches a node that is not collecting, yields none, and after any stop reply the node holds no counts, reports itself idle and can join the next round.",
  ["schedules", "histories", "fault_sequences"],
  "All sequences of start, stop, duplicate and refused requests, timer expiries and events, over several rounds of a node's life.",
  NT + "no test runs a data collector or share keeper.",
  ["data_collector.py", "share_keeper.py", "node.py"],
  [("stop handling", "privcount/data_collector.py:DataCollector.do_stop, privcount/share_keeper.py:ShareKeeper.do_stop"),
   ("decision to send counts", "privcount/node.py:PrivCountClient.check_stop_config")],
  [("aggregator", "the data collector's running collection", "privcount/data_collector.py:DataCollector"), ("keystore", "the share keeper's shares", "privcount/share_keeper.py:ShareKeeper")],
  ["STOP replies", "STATUS lines"])

p("C05", "Every reported data collector count carries its noise exactly once",
  "Every counter bin a data collector reports contains noise added exactly once per round, drawn with the standard deviation that the round's sigma and the collector's configured noise weight require, and added before the counts leave the node whichever way the round ended. A data collector that has no noise weight reports no counts.",
  ["schedules", "histories", "configurations"],
  "All orders of round start, relay identification, relay reconnection, events and stop; all noise weight tables and sigmas.",
  NT + "noise is only sampled in isolation by test_random.py.",
  ["data_collector.py", "counter.py", "node.py"],
  [("noise generation", "privcount/counter.py:SecureCounters.generate_noise, detach_counts"),
   ("noise weight by relay fingerprint", "privcount/data_collector.py:Aggregator.generate_noise, set_fingerprint")],
  [("noise weight", "weight for the relay the collector is attached to", "privcount/data_collector.py:Aggregator")],
  ["counts in STOP replies, unblinded with the shares", "the random source"])

p("C06", "Blinding shares go only to exactly the configured share keepers",
  "A data collector joins a round only if the share keepers offered are exactly the ones its operator configured, by public key digest; otherwise it refuses, sends no share, and keeps running. When it joins, every share keeper's share is readable by that share keeper alone, and the counters it keeps start out blinded by the sum of independent shares, so that no proper subset of the share keepers can unblind them.",
  ["inputs", "configurations", "histories"],
  "All offered share keeper sets (missing, extra, duplicate, swapped keys) against all configured sets; every subset of colluding share keepers.",
  NT + "the encryption tests need a missing library and never run a data collector.",
  ["data_collector.py", "counter.py", "share_keeper.py", "crypto.py"],
  [("share keeper set check and share encryption", "privcount/data_collector.py:DataCollector.do_start"),
   ("independent blinding shares", "privcount/counter.py:SecureCounters.generate_blinding_shares")],
  [], ["START replies of the data collector"])

p("C07", "Noise cannot be reduced without waiting out the delay period",
  "No node starts a round whose counters differ from those of its last successful round, or whose noise for some counter is lower by more than the tolerance than in the round that opened the current run of compatible rounds, until the delay period has passed since that last round ended. Gradual decreases over many rounds are caught like sudden ones, increases are always permitted, and rounds that returned no counts do not affect the decision.",
  ["histories", "configurations", "schedules"],
  "All histories of rounds with arbitrary counter sets, noise levels, start and end times, successes and failures, and all delay periods and tolerances.",
  "test_counter.py checks a fixed list of hand-written two and three round histories of one object; it never drives the nodes that must enforce it.",
  ["counter.py", "node.py", "tally_server.py", "share_keeper.py", "data_collector.py"],
  [("round delay decision and bookkeeping", "privcount/counter.py:CollectionDelay"),
   ("enforcement by each node", "privcount/node.py:PrivCountClient.check_start_config, privcount/tally_server.py:TallyServer.refresh_loop")],
  [("starting noise allocation", "noise of the first round of the run", "privcount/counter.py:CollectionDelay"), ("last round end", "end of the last successful round", "privcount/counter.py:CollectionDelay")],
  ["start replies", "start decisions of the tally server"])

p("C08", "Nothing is exchanged before mutual proof of the shared secret",
  "A tally server accepts a status, start or stop message only from a peer that has proved, on that connection and for that connection's fresh challenge, that it knows the shared secret; a client acts on requests only from a server that has proved the same to it. No order, repetition, replay or reflection of handshake messages makes either side accept a peer that does not know the secret.",
  ["inputs", "schedules", "histories"],
  "All sequences of handshake and other messages by an attacker without the secret, across parallel connections, with replay and reflection of anything it has seen.",
  "No test touches the handshake: the module cannot be imported without libraries the tests lack.",
  ["protocol.py", "crypto.py"],
  [("four message handshake", "privcount/protocol.py:PrivCountProtocol, PrivCountServerProtocol.handle_handshake_event, PrivCountClientProtocol.handle_handshake_event")],
  [("cookies", "fresh challenges of both sides", "privcount/protocol.py:PrivCountProtocol")],
  ["lines on the connection", "status, start and stop handlers reached"])

p("C09", "Unauthenticated or misbehaving peers only lose their own connection",
  "Whatever a peer sends before it has authenticated - unknown, malformed, out of order, repeated or overlong lines - the node keeps running, its round state is unchanged and other connections are unaffected; the offending connection is closed. Before authentication no line longer than the small handshake limit is accepted.",
  ["inputs", "fault_sequences"],
  "All line sequences and chunkings an unauthenticated peer can send to either role.",
  "No test touches the protocol classes.",
  ["protocol.py"],
  [("protocol failure handling", "privcount/protocol.py:PrivCountProtocol.lineReceived, process_event, protocol_failed"),
   ("line limits", "privcount/protocol.py:PrivCountProtocol.MAX_LENGTH")],
  [], ["lines on the connection", "node exit"])

p("C10", "Tor control client: authenticate, discover, and only then collect events",
  "The data collector's control connection authenticates with the strongest method the relay offers: a cookie challenge when the relay offers it and names a cookie file, otherwise a password when one is offered and a usable one is configured, otherwise none. The relay must prove that it knows the cookie before the collector reveals its own proof, cookies and passwords that are too short or too long are not used, and any failure or error reply ends the connection. Only after authentication and after the relay has told its fingerprint are events asked for, and exactly those of the collection under way. Events reach the counters only between the request for them and the end of collection, and only event types that were requested. The relay's configuration is changed only when permitted, and collection is switched off again when it ends.",
  ["inputs", "schedules", "histories"],
  "All sequences of relay replies, events, start and stop of collection, and reconnections.",
  "test_tor_ctl_event.py needs a patched running Tor and is not run.",
  ["protocol.py", "data_collector.py"],
  [("control protocol state machine", "privcount/protocol.py:TorControlClientProtocol")],
  [("state", "control connection state", "privcount/protocol.py:TorControlClientProtocol")],
  ["lines to and from the control port", "events handed to the collector"])

p("C11", "Tor control server serves events only to authenticated clients",
  "The event injector's control server answers no command and injects no event for a client that has not authenticated; authentication succeeds only with the right proof (the configured password, or the cookie hash for the challenge of that very connection) and is unnecessary only when neither a password nor a cookie is configured. The server proves that it knows the cookie when challenged, with a fresh nonce each time. The events of the log reach, in order and once each, only the authenticated client that asked for events, with all fields other than the times unchanged, and stop when it asks for none or leaves.",
  ["inputs", "schedules", "histories"],
  "All sequences of client lines.",
  "No test runs the control server.",
  ["protocol.py", "inject.py"],
  [("control server state machine", "privcount/protocol.py:TorControlServerProtocol")],
  [], ["lines to the client"])

p("C12", "The tally server starts and ends rounds exactly when configured",
  "A new round is started only when no round is running, enough data collectors and share keepers are idle, the start time and any enforced delay have passed, and the configured number of rounds has not been completed; when all of these hold, it is started at the next pass of the main loop with all idle nodes. A running round is ended when it has lasted the collection period or has failed, every round that has been wound up, successful or not, counts once towards the configured number, and the next round can start only after it has been wound up.",
  ["schedules", "histories", "configurations"],
  "All interleavings of node status reports, losses, main loop passes and time, over several rounds, thresholds and continuation settings.",
  NT + "no test runs the tally server.",
  ["tally_server.py", "node.py"],
  [("main loop", "privcount/tally_server.py:TallyServer.refresh_loop"), ("round limits", "privcount/node.py:continue_collecting, get_remaining_rounds")],
  [("clients", "last known status of every node", "privcount/tally_server.py:TallyServer"), ("num_completed_collection_phases", "rounds completed", "privcount/tally_server.py:TallyServer")],
  ["START lines", "result files", "main loop passes"])

p("C13", "Clients are forgotten only when silent, and cannot change identity",
  "The tally server counts a node as available only on that node's own authenticated status reports, forgets it exactly when it has been silent longer than the allowed number of check-in periods, and takes it back on its next report. A node's relay fingerprint, once known, is not replaced or erased by later reports, versions known to be unusable are ignored, and one node's reports never affect another's record.",
  ["histories", "schedules", "inputs"],
  "All sequences of status reports by any number of nodes with arbitrary content, interleaved with time and main loop passes.",
  NT + "no test runs the tally server.",
  ["tally_server.py", "node.py"],
  [("client table", "privcount/tally_server.py:TallyServer.set_client_status, clear_dead_clients, get_idle_counts")],
  [], ["status lines", "who is asked to start", "the round's recorded context"])

p("C14", "Each value is counted in exactly the bins whose range contains it",
  "Incrementing a counter for a value adds the amount to every bin whose lower bound is at most the value and whose upper bound is above it (an infinite upper bound includes infinity), to no other bin and no other counter; unknown counters are ignored. Counters wrap in modular arithmetic so that any sequence of increments, blinding and unblinding in any order is recovered exactly as a signed number within half the modulus.",
  ["inputs", "histories"],
  "All bin layouts, values (negative, fractional, infinite, boundary), amounts, moduli and orders of operations.",
  "test_counter.py samples a handful of values on two fixed bin layouts.",
  ["counter.py"],
  [("bin selection and modular addition", "privcount/counter.py:SecureCounters.increment, _is_in_bin"), ("signed reading", "privcount/counter.py:adjust_count_signed")],
  [], ["detached counts and tallies"])

p("C15", "Only well formed and privacy preserving configurations are accepted",
  "A counter configuration is accepted exactly when every counter has non-empty, ordered, non-overlapping bins and a non-negative finite noise level, bin and noise counters match, every counter is known (where that is required), and the noise weights are non-negative and in total too small to wrap the counters. Anything else - missing parts, wrong types, not-a-number, negative, overlapping, unknown - is refused by every node that checks it, and refusing leaves the node running and idle.",
  ["inputs", "configurations"],
  "All counter, noise and weight configurations, including malformed values.",
  "test_counter.py checks a short list of hand-written configurations.",
  ["counter.py", "node.py", "tally_server.py"],
  [("configuration checks", "privcount/counter.py:check_bins_config, check_sigmas_config, check_counters_config, check_noise_weight_config, combine_counters"), ("use by the clients", "privcount/node.py:PrivCountClient.check_start_config")],
  [], ["results of the checks", "start replies"])

p("C16", "Malformed events never change a count or stop collection",
  "An event from the relay is counted only if it is of a requested type and every field needed is present and in range; any other event leaves all counts unchanged and collection continues with the next event. A tagged event is read as exactly its key-value pairs, and a duplicate key, missing separator or embedded control character discards the whole event.",
  ["inputs", "histories"],
  "All event lines: every event type with fields missing, duplicated, reordered, out of range or of the wrong type, mixed with valid events.",
  NT + "no test feeds an event to a data collector.",
  ["data_collector.py", "tagged_event.py"],
  [("event dispatch and validation", "privcount/data_collector.py:Aggregator.handle_event"), ("field parsing", "privcount/tagged_event.py")],
  [], ["counts in STOP replies, unblinded"])

p("C17", "Stream events are counted under exactly their categories",
  "Each finished stream adds one stream and its bytes, ratio and lifetime to exactly the counters of its categories - web, interactive, peer-to-peer or other port, initial or subsequent, address family, exit-request and domain list - and to no others. Streams that carried no data, or that are not exit streams, are not counted as exit streams.",
  ["inputs", "histories"],
  "All stream ended and stream bytes events: ports, byte counts, times, address and domain forms, and match list configurations.",
  NT + "no test feeds a stream event to a data collector.",
  ["data_collector.py"],
  [("stream handlers", "privcount/data_collector.py:Aggregator._handle_stream_event, _increment_stream_end_counters")],
  [], ["counts in STOP replies, unblinded"])

p("C18", "Circuit and cell events are counted under exactly their categories",
  "Each circuit close event adds one circuit, its cells, ratio and lifetime to exactly the counters of its position (origin, entry, mid, end, single-hop, exit, directory, onion service roles), activity, version, side and success, and to no others; an exit circuit that ends also counts the streams that were seen on it, by kind, and the times between them. Every circuit counter a deployment can ask for is counted by some circuit, and refined counters add up to the counter they refine. Cell events, which have no counters, change no count.",
  ["inputs", "histories"],
  "All combinations of circuit flags, counts and onion service roles, and cell events.",
  NT + "no test feeds a circuit event to a data collector.",
  ["data_collector.py", "counter.py"],
  [("circuit handlers", "privcount/data_collector.py:Aggregator._handle_circuit_close_event, _increment_circuit_close_counters, _handle_circuit_cell_event")],
  [], ["counts in STOP replies, unblinded"])

p("C19", "Connection events and unique clients are counted exactly",
  "Each connection close event adds one connection, its bytes, circuits and lifetime to exactly the counters of its kind (client or non-client, with or without relays on the address) and country and AS lists. Client addresses are counted once per rotation period in which they were seen, active and inactive separately, and are forgotten at the rotation and when the round ends.",
  ["inputs", "histories", "schedules"],
  "All connection close events and all sequences of client circuits and rotation ticks.",
  NT + "no test feeds a connection event to a data collector.",
  ["data_collector.py"],
  [("connection handlers", "privcount/data_collector.py:Aggregator._handle_connection_close_event"), ("client rotation", "privcount/data_collector.py:Aggregator._do_rotate")],
  [], ["counts in STOP replies, unblinded"])

p("C20", "Onion service directory events are counted under exactly their categories",
  "Each descriptor store or fetch adds to exactly the counters of its version, outcome (added or rejected, cached or not), authorisation, reason list and onion address list, with its sizes, introduction points and delays in the bins that contain them, and to no others.",
  ["inputs", "histories"],
  "All combinations of store and fetch event fields for versions 2 and 3, and match lists.",
  NT + "no test feeds a directory event to a data collector.",
  ["data_collector.py"],
  [("store and fetch handlers", "privcount/data_collector.py:Aggregator._handle_hsdir_store_event, _handle_hsdir_fetch_event")],
  [], ["counts in STOP replies, unblinded"])

p("C21", "Match lists classify every value into its first matching list",
  "A domain, country, AS, onion address or reason is classified into the first configured list that contains it - case-insensitively, and onion addresses also by digest - and into the unmatched class otherwise. Where suffixes count, the shortest listed suffix of whole components decides, and the first list that has it. Lists that overlap are made disjoint or refused, as configured, never double counted; malformed list files are refused; and a changed collection of list files is used as if it had been there from the start.",
  ["inputs", "configurations"],
  "All collections of lists (overlapping, duplicated, nested suffixes, different case) and all search values.",
  NT + "match.py is not imported by any test that runs.",
  ["match.py", "config.py", "tally_server.py", "data_collector.py"],
  [("list preparation and matching", "privcount/match.py:exact_match_prepare_collection, suffix_match_prepare_collection, exact_match, suffix_match"), ("loading", "privcount/match.py:load_match_list, privcount/tally_server.py:TallyServer.load_match_config")],
  [], ["match results", "bins counted"])

p("C22", "Traffic model counts follow the reported path and updates stay valid",
  "Each reported model path adds to exactly the emission, transition, start and delay counters that the path visits. The model updated from any tallies, including noisy, negative or missing ones, is a valid model again: start, transition and emission probabilities are non-negative and sum to one wherever they did before, and a full weight on the old model reproduces it.",
  ["inputs", "configurations"],
  "All paths over a model, all tallies including negative and zero, all mixing weights.",
  "test_traffic_model.py updates one model from one friendly set of tallies.",
  ["traffic_model.py", "data_collector.py", "tally_server.py"],
  [("path counting and model update", "privcount/traffic_model.py:HiddenMarkovModel.increment_counters, update_from_tallies"), ("noise and bins for model counters", "privcount/traffic_model.py:TrafficModel")],
  [], ["counters after a path event", "updated model"])

p("C23", "Published results identify the round and reveal no secrets",
  "Each completed round writes one outcome file whose name, times, participants and tallies are those of that round. No published file contains key material, secret paths, the handshake secret, encrypted shares or the contents of match lists, whatever the nodes' configuration and status reports contain.",
  ["configurations", "histories"],
  "All configurations and status reports of all nodes, over several rounds.",
  NT + "no test writes a result.",
  ["tally_server.py"],
  [("result context", "privcount/tally_server.py:CollectionPhase.write_results, get_result_context, and TallyServer.get_result_context")],
  [], ["result files"])

p("C24", "A bad configuration file never replaces a good one, and rounds keep theirs",
  "When a configuration file is changed, the node uses the new values if and only if the whole file is valid; otherwise it keeps running with the previous configuration. Keys that are new or gone count as changes like others; only what is needed at start-up (the listening address, the length of the event loop) stays. A round under way keeps the counters, noise, periods, lists and relay it was started with, so a change takes effect from the next round on.",
  ["histories", "configurations", "fault_sequences"],
  "All sequences of good and bad configuration files, interleaved with rounds.",
  NT + "no test loads a node's configuration.",
  ["tally_server.py", "data_collector.py", "share_keeper.py", "node.py"],
  [("configuration reload", "privcount/tally_server.py:TallyServer.refresh_config, privcount/data_collector.py:DataCollector.refresh_config, privcount/share_keeper.py:ShareKeeper.refresh_config")],
  [("config", "last good configuration", "each node's config attribute")],
  ["START lines", "behaviour after a reload"])

p("C25", "Noise levels satisfy the privacy parameters and use the whole budget",
  "For every valid set of sensitivities, expected values and privacy parameters, the computed noise levels give each statistic the required differential privacy, the per-statistic budgets sum to at most the total, and relative noise is equal across statistics.",
  ["inputs"],
  "All sensitivities, estimates and privacy parameters.",
  "The noise tool is run once on one parameter file.",
  ["statistics_noise.py"],
  [("search for noise levels", "privcount/statistics_noise.py:get_opt_privacy_allocation")],
  [], ["output of the noise tool"])

p("C26", "Encrypted shares decrypt to what was encrypted, for the right key only",
  "Decrypting an encrypted structure with the matching private key yields the structure, and any other key or any altered ciphertext is refused.",
  ["inputs"],
  "All nested structures of basic types, keys and alterations.",
  "test_encryption.py covers a few structures and needs a library that is missing here.",
  ["crypto.py"],
  [("hybrid encryption", "privcount/crypto.py:encrypt, decrypt")],
  [], ["encrypt and decrypt"])

p("C27", "A data collector counts only while its round is running",
  "A data collector starts to count exactly when the requested delay has passed after a start request that it accepted, and stops at the stop request: before that, after that and between rounds it has no connection to the relay's control port, and no timer, check-in or connection left over from an earlier round makes it count. While it is counting it connects to the relay, asks for events, and connects again when the connection is lost.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of start and stop requests, start delays, relay connections and losses, check-ins and time over several rounds.",
  NT + "no test runs a data collector.",
  ["data_collector.py", "protocol.py"],
  [("delayed start", "privcount/data_collector.py:DataCollector.do_start, _start_aggregator_deferred"), ("control connection life cycle", "privcount/data_collector.py:Aggregator.start, stop")],
  [("is_aggregator_pending", "the round waits for its start", "privcount/data_collector.py:DataCollector")],
  ["control port connections", "SETEVENTS lines", "STATUS lines"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
