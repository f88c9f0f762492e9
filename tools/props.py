"""What each check runs.  Filled per property: harness file, entries with the reachability witnesses
(`covers`) that must be seen for a verdict, bounds, assumptions."""
def E(name, bounds, covers, **kw): return {"name": name, "bounds": bounds, "covers": covers, **kw}

TRANSPORTS = ["memory", "tcp", "tls", "quic"]

PROPS = {
 "C14": {"harness": "c14", "entries": [
    E("round_trip", "every message variant; every list/byte field of every length 0..9 (thorough 0..17) with symbolic content; symbolic permits and timestamps; context strings are ASCII", ["round-trip"]),
    E("total", "every byte string of length 0..20 (thorough 0..34)", ["decoded", "rejected"], opaque=True),
    E("corrupt", "one message per variant, 2 (thorough 3) consecutive symbolic bytes at every position, optionally cut by 0..8 bytes", ["decoded", "rejected"], opaque=True),
 ]},
 "C01": {"harness": "c01", "entries": [
    E("end_to_end", "2 real brokers, 4 users (2 per broker); 2 (thorough 3) messages from any user to any recipient byte, 2 symbolic payload bytes each, sent back to back or one by one", ["all-delivered", "unknown-recipients"]),
    E("one_hop", "1 real broker, 2 peer brokers, 2 local users; one direct message from a peer or a user to any recipient byte", ["from-peer", "from-user", "delivered"]),
    E("exact_key", "1 real broker, 2 users whose keys are prefixes of each other; recipients of length 0..5 with symbolic bytes", ["to-a", "to-b", "to-nobody"]),
    E("in_order", "2 real brokers, a sender and a recipient on the same or the other broker; 2 (thorough 3) messages of 2 or 5000 bytes back to back; every schedule in which at most 2 (thorough 3) times a task about to run or about to take a lock is held back", ["local", "remote"]),
 ]},
 "C02": {"harness": "c02", "entries": [
    E("end_to_end", "2 real brokers, 3 users with every combination of subscription sets over 2 topics; one broadcast from either broker with 1..2 (thorough 1..3) symbolic topic bytes or one of 3 lists of 4, 6 and 71 topics", ["delivered", "end"]),
    E("one_hop", "1 real broker, 2 peer brokers with any announced topics, 2 local users; one broadcast from a peer or a user with 1..2 symbolic topic bytes or one of 3 lists of 4, 6 and 71 topics", ["from-peer", "from-user", "delivered"]),
    E("in_order", "2 real brokers, a sender and a recipient on each; 2 broadcasts of 2 or 5000 bytes back to back; every schedule in which at most 2 (thorough 3) times a task about to run or about to take a lock is held back", ["end"]),
 ]},
 "C03": {"harness": "c03", "entries": [
    E("history", "every history of 2 (thorough 3) requests: subscribe or unsubscribe with 1..2 symbolic topic bytes, or a reconnect with other topics, while another user is subscribed to everything or nothing", ["reconnected", "subscribed", "unsubscribed", "end"]),
    E("refused", "subscribe, unsubscribe or a connection with 0..2 symbolic invalid topics, a peer broker watching and naming the same topics", ["end"]),
 ]},
 "C06": {"harness": "c06", "entries": [
    E("roaming", "2 (thorough 3) real brokers, an observing user on each; every history of 4 joins (at any broker) and silent departures of one user, each followed by 0 or 11 seconds", ["left", "moved", "reached", "end"]),
    E("late_broker", "3 real brokers of which any one starts late (1 or 11 s), 3 users", ["end"]),
    E("brief_visit", "2 real brokers, 2 observers; a user moves to the other broker and leaves it at once (silently or with a message users may not send), then returns to either; every schedule in which at most 1 (thorough 2) times a task is held back", ["reached", "end"]),
    E("broken_link", "2 real brokers, 2 observers, one roaming user; every history of 4 (thorough 5) joins, departures and (at most once) loss of all broker links, each followed by 0 or 11 s", ["cut", "reached", "end"]),
 ]},
 "C07": {"harness": "c07", "entries": [
    E("gone", "2 real brokers, 3 users; a connection ends by drop, soft close, 1 or 3 symbolic undecodable bytes or a message users may not send; then a probe to any recipient byte and a return", ["dropped", "soft-closed", "garbage", "invalid", "end"]),
    E("superseded_user", "1 broker; a second connection of a user while the first stays, drops or errors, with or without traffic; every schedule with at most 1 (thorough 2) departures from FIFO order and 1 (thorough 2) preemptions at lock acquisitions", ["end"]),
    E("dead_on_arrival", "2 brokers; a connection that turns invalid immediately after its handshake; at most 1 (thorough 2) departures from FIFO order, 1 preemption", ["invalid", "refused", "end"]),
    E("superseded_broker", "1 broker, a peer broker connecting twice; schedules as for superseded_user", ["end"]),
    E("stuck", "1 broker; a user or a peer broker that stops reading while 20000 bytes are sent to it, then 6 s, one more message and a new connection without topics", ["user", "broker"]),
 ]},
 "C04": {"harness": "c04", "entries": [
    E("history", "2 real brokers; every history of 3 (thorough 4) events (join with any subset of 2 topics, subscribe, unsubscribe, leave) by 2 users of one broker, each followed by 0 or 11 s; then one broadcast from the other broker on any topic byte", ["joined", "left", "changed", "delivered", "end"]),
    E("announcements", "1 real broker; every history of 4 (thorough 5) steps (user joins, changes, leaves; 11 s pass; the peer broker reconnects)", ["reconnected", "wanted", "end"]),
    E("broken_link", "2 real brokers, 3 users; the broker link breaks in one or both directions before or after a subscription change or departure, 0 or 11 s apart; then one broadcast on any topic and one direct message to any recipient byte", ["end"]),
    E("relinked", "1 real broker, 1 peer broker that links 2 (thorough 3) times announcing any of 2 topics, changing its mind before or after, restarting or not, its old link left, dropped at once or still up", ["restarted", "left", "superseded", "end"]),
 ]},
 "C05": {"harness": "c05", "entries": [
    E("one_writer", "every history of 6 (thorough 7) steps (2 users added, removed; partial or full sync to a reader with the smaller or larger identity)", ["partial", "full", "present", "absent"]),
    E("topics_any_order", "every history of 4 (thorough 5) subscription changes and syncs over 2 topics, delivered in every order, partly duplicated", ["several", "duplicated", "end"]),
    E("merge_step", "2 keys with any versions 0..3 and 0..1, values or tombstones, on both sides; symbolic identities", ["conflict-remote", "conflict-local", "end"]),
    E("replicas", "2 (thorough 3) replicas with symbolic identities; every history of 6 changes, syncs, full states and deliveries of any message so far", ["full", "taken", "older"]),
    E("move_heard_by_third", "3 brokers; 1..3 joins at one, departure, join at another before or after that one heard of the departure; the third hears of both in either order", ["in-order", "reordered"]),
    E("concurrent_homes", "2 brokers with symbolic identities, a common history of 0..2 moves, then simultaneous connections, delivered in either order", ["first", "second"]),
 ]},
 "C08": {"harness": "c08", "entries": [
    E("admission", "1 real broker, 2 permits for it and 1 for another; every u64 permit value at age 0, 28 or 32 s; then reuse of the permit and use of another one, and a probe to any recipient byte", ["foreign", "expired", "admitted", "refused"]),
    E("protocol_order", "every other message type (symbolic content), garbage of 0..3 bytes or silence, as first or second message", ["slow", "first", "second"]),
    E("single_use_race", "2 (thorough 3) connections presenting the same permit at once; every schedule with at most 2 (thorough 3) delays", ["end"]),
 ]},
 "C09": {"harness": "c09", "entries": [
    E("admission", "real marshal, 2 registered brokers; any key (2 symbolic bytes), any u64 timestamp, any signature among all that 2 honest users made for either purpose, 0, 5, 6 or 40 s old", ["admitted", "stale", "forged"]),
    E("freshness", "correctly signed timestamps from 6 s before to 6 s after the marshal's clock, 0 and the largest ones", ["accepted", "refused"]),
    E("whitelist_and_faults", "no whitelist, 2 whitelists, a replaced whitelist; 3 users; the key spelled exactly or with a trailing symbolic byte; a failure of any of the first 9 store operations", ["alias", "admitted", "fault", "not-allowed"]),
    E("other_messages", "garbage of 0..3 bytes, wrong message types, malformed keys of 0..2 symbolic bytes, silence", ["malformed", "silent", "end"]),
 ]},
 "C18": {"harness": "c18", "entries": [
    E("history_sql", "SQLite store: every history of 4 (thorough 5) steps: issue a permit (2 brokers, lifetime 5 or 30 s, keys of 2, 0 and 1 symbolic bytes), 3, 11 or 32 s pass, redeem any issued permit at any broker; then all permits are tried", ["redeemed", "refused", "waited"]),
    E("history_redis", "Redis store: as history_sql", ["redeemed", "refused", "waited"]),
    E("bogus_sql", "SQLite store: any u64 number at 2 brokers with a permit each", ["redeemed", "refused"]),
    E("bogus_redis", "Redis store: 8 numbers related to the issued ones", ["redeemed", "refused"]),
    E("status_sql", "SQLite store: the first two random numbers are any", ["end"]),
    E("status_redis", "Redis store: the first two random numbers are among 6 (0, 1, 2, 2^32-1, 2^32, 2^64-1)", ["end"]),
    E("drawn_again_sql", "SQLite store: the random number of an outstanding permit is drawn again, for either broker", ["redeemed", "end"]),
    E("at_once_sql", "SQLite store: 3 simultaneous redemptions; schedules with at most 2 (thorough 3) delays", ["end"]),
    E("at_once_redis", "Redis store: as at_once_sql", ["end"]),
 ]},
 "C19": {"harness": "c19", "entries": [
    E("history_sql", "SQLite store, 3 brokers: 1 or 2 registered, then every history of 3 (thorough 4) steps: heartbeat of any broker with any 32-bit load, 25 or 61 s pass, a permit is issued for any broker (30 s), a permit is redeemed", ["chosen", "none", "issued", "redeemed"]),
    E("history_redis", "Redis store: as history_sql with 2 (thorough 3) steps and loads 0, 1, 10", ["chosen", "none", "issued", "redeemed"]),
    E("faults_sql", "SQLite store: any of the first 8 statements of a heartbeat, a choice or a listing fails", ["registered", "not registered", "answered", "reported"]),
    E("faults_redis", "Redis store: any of the first 8 round trips fails", ["registered", "not registered", "answered", "reported"]),
 ]},
 "C20": {"harness": "c20", "entries": [
    E("store_sql", "SQLite store: 0..2 (thorough 3) updates of 1..2 symbolic keys by either of 2 clients, any of the first 5 statements of each failing or none; then a check of any key of 0..2 bytes", ["set", "kept", "no list"]),
    E("store_redis", "Redis store: as store_sql, round trips failing", ["set", "kept", "no list"]),
    E("replaced_sql", "SQLite store: one replacement of the list while 2 clients check twice; schedules with at most 3 (thorough 4) delays", ["end"]),
    E("replaced_redis", "Redis store: as replaced_sql", ["end"]),
    E("disconnects", "1 real broker, 3 users; every pair of successive lists over them (or one list)", ["stays", "end"]),
    E("check_fails", "1 real broker, 3 users, 2 of them no longer listed; any of the first 9 statements around the whitelist task fails", ["kept", "end"]),
 ]},
 "C10": {"harness": "c10", "entries": [
    E("inbound_first", "2 linked real brokers with a user each; a peer dials one: any key byte, any u64 timestamp, any signature index among those of the brokers' key and another one for this and the other purpose, 0, 5 or 6 s old", ["accepted", "refused"]),
    E("inbound_other", "as first or second step of a peer that dialled: garbage of 0..2 bytes, other message types, any u64 response code, identities without a form, a signature for the other purpose, silence, end; with or without further messages", ["garbage", "response", "silent", "gone", "first", "second"]),
    E("outbound", "1 real broker, 2 users; a registered peer that is dialled answers: any u64 response code, any key byte, u64 timestamp and signature index, garbage, other messages, silence at either step", ["accepted", "refused", "refuses", "nonsense", "silent"]),
    E("freshness", "1 real broker, 2 users; a peer dialling or dialled; correctly signed timestamps from 6 s before to 6 s after the broker's clock, 0 and the largest ones", ["fresh", "not fresh"]),
    E("impostor", "2 linked real brokers; a third party claims to be one of them, with a wrong key, a wrong signature or no proof", ["end"]),
 ]},
 "C11": {"harness": "c11", "entries": [
    E("at_marshal", "2 keys; any u64 permit and context of 0..3 ASCII characters as answer; or garbage of 0..3 bytes, other messages (before an answer), the end of the connection", ["admitted", "refused", "garbage", "other message", "gone"]),
    E("at_broker", "any u64 permit, 3 topic sets; any u64 response; or garbage, other messages, the end", ["admitted", "refused", "garbage", "other message", "gone"]),
    E("both", "real marshal and broker; 0, 29 or 31 s between the two steps", ["served", "expired"]),
 ]},
 "C16": {"harness": "c16", "entries": [
    E("history", "real client, 3 initial topic lists; every history of 3 (thorough 4) events: subscribe or unsubscribe with 0..2 topics of which one is any byte, loss of the connection, reconnection; a final reconnection", ["changed", "failed", "no change", "lost", "end"]),
    E("concurrent", "3 concurrent subscription calls, a receive and a send, around no loss of the connection, one during them, one not yet noticed, or a reconnection under way; every schedule with at most 2 (thorough 3) delays at task switches and lock acquisitions", ["changed", "failed", "reconnected"]),
 ]},
 "C17": {"harness": "c17", "entries": [
    E("recover", "real client, never connected or just disconnected; marshal and broker each serve, refuse, stay silent or hang up, for 0, 13 or 26 (thorough also 100) s; 2 of 5 (thorough 6) kinds of calls meanwhile", ["lost", "waiting", "at once", "received", "recovered"]),
    E("readiness", "a call waiting for the connection, in every combination of marshal and broker behaviour, for 0 or 13 s", ["ready", "waits"]),
    E("schedules", "the connection is lost while 3 calls of any kind run; every schedule with at most 2 (thorough 3) delays at task switches and lock acquisitions", ["end"]),
    E("closed", "close while never connected, connected, disconnected or reconnecting to any of 5 behaviours of marshal and broker, concurrently with 1..2 calls; every schedule with at most 1 (thorough 2) delays; then every kind of call", ["still receiving", "end"]),
    E("closed_while_connecting", "close while the connection is made (or made again) for a call, everybody serving; every schedule with at most 2 (thorough 3) delays", ["end"]),
 ]},
 "C21": {"harness": "c21", "entries": [
    E("mesh", "3 real brokers with a user each, started in any order, 0, 4 or 13 s apart; 22 s later any user's broadcast (2 symbolic bytes) and direct message to any of them", ["linked", "end"]),
    E("relink", "2 (thorough 3) linked real brokers with a user each; 1 or 2 times all (thorough: any) links are cut, 0, 3, 9 or 11 s apart; then as mesh", ["cut", "linked", "end"]),
    E("dialling", "1 real broker; any of 3 other identities registered (one smaller, two larger), with or without somebody listening, who keeps silent or hangs up; one of them possibly linked already; 2 (thorough 4) heartbeats", ["called", "not called", "dialled us", "linked", "hung up", "end"]),
    E("together", "2 real brokers start at the same time or 10 s apart; schedules with at most 2 (thorough 3) delays while they find each other; then as mesh", ["linked", "end"]),
    E("store_fails", "2 real brokers with 2 users each; any of the next 8 statements fails, or all for 25 s (at most 60 statements may be tried), around the start of the second broker, in operation, or after the links broke", ["outage", "failure", "linked", "counted", "end"]),
 ]},
 "C22": {"harness": "c22", "entries": [
    E("round_trip", "2 endpoints of 0..3 (thorough 0..4) ASCII bytes each, optionally after a two-byte character", ["survives", "has no textual form"]),
    E("parse", "every text of 0..5 (thorough 0..7) ASCII bytes, optionally after a two-byte character", ["parsed", "refused"]),
    E("order", "2 identities with endpoints of 0..2 ASCII bytes", ["equal", "different"]),
    E("transitive", "3 identities with endpoints of 1 ASCII byte", ["ascending"]),
    E("through_discovery", "an identity with endpoints of 1..2 ASCII bytes, registered in an SQLite or Redis store and read by another broker", ["end"]),
 ]},
 "C24": {"harness": "c24", "entries": [
    E("nuisances_tcp", "1 real broker over TCP; 2 (thorough 3) others connect to it as user or broker and keep silent, go away, send 3 symbolic bytes or begin a message", ["silent", "gone", "talks", "begins", "end"]),
    E("nuisances_tls", "1 real broker over TCP (brokers) and TLS (users); as nuisances_tcp, handshake not begun or not finished", ["silent", "gone", "talks", "begins", "end"]),
    E("marshal_nuisances_tcp", "1 real marshal over TCP; as nuisances_tcp", ["silent", "gone", "talks", "begins", "end"]),
    E("marshal_nuisances_tls", "1 real marshal over TLS; as nuisances_tls", ["silent", "gone", "talks", "begins", "end"]),
    E("accept_fails_tls", "1 real broker over TCP and TLS; 1 (thorough 2) times a connection to either listener is aborted before it was accepted, or file descriptors run out for 1 or 3 s", ["aborted", "no files", "end"]),
    E("marshal_accept_fails_tls", "1 real marshal over TLS; once as accept_fails_tls", ["aborted", "no files", "end"]),
    E("slow_reader", "1 real broker, 3 users; one of them (or a peer broker) stops reading, 3 broadcasts of 9000 bytes; unlimited memory pool or one of 20000 bytes", ["a broker", "end"]),
 ]},
 "C25": {"harness": "c25", "entries": [
    E("servers_tls", "TLS client trusting the local or the production authority; 0 or 1 (thorough 0..2) earlier connections, by either, to a server certified by either; servers with certificates of either, of another one, for other names, for several names, without names, or of 0..3 symbolic bytes", ["earlier", "accepted", "refused"]),
    E("servers_quic", "QUIC client: as servers_tls", ["earlier", "accepted", "refused"]),
    E("no_tls_at_all", "TLS client and a TCP server that says 0..3 bytes (one or the last of them symbolic), and stays or leaves", ["refused", "stays"]),
    E("client_tls", "real client over TLS trusting either authority; marshal and broker with certificates of either, of another one, or for other names", ["connected", "not connected"]),
    E("client_quic", "real client over QUIC: as client_tls", ["connected", "not connected"]),
 ]},
 "C23": {"harness": "c23", "entries": [
    E("users", "1 broker (with or without hooks), 2 users, a peer broker; a user sends any message users may not send (2 symbolic bytes, symbolic numbers, well-formed or malformed syncs), with or without valid messages behind it", ["end"]),
    E("users_allowed", "every message users may send, any valid topic byte", ["end"]),
    E("brokers", "a peer broker sends any message brokers may not send (symbolic contents), then valid ones", ["ignored", "end"]),
    E("undecodable", "a user or a peer broker sends 1 or 2 (thorough 4) symbolic bytes, nothing, or a sync with 0..2 (thorough 0..3) symbolic bytes, then a valid message", ["user", "broker"]),
    E("user_hook", "every hook verdict for every message type from a user", ["disconnected", "end"]),
    E("broker_hook", "every hook verdict for every message type from a peer broker", ["disconnected", "end"]),
 ]},
 "C12": {"harness": "c12", "entries": [
    E("pieces", "2 (thorough 3) messages of 0, 1 or 3 (thorough also 6) symbolic bytes over TCP, the stream handed over in pieces split at any 3 positions", ["end"]),
    E("cut", "2 such messages, the stream ending or breaking after any number of bytes, handed over in 1 or 2 pieces", ["end of stream", "broken"]),
    E("stalled", "2 such messages, the stream stalling for 3 or 6 s after any number of bytes, then continuing", ["gave up", "went on"]),
    E("announced_size", "every announced size above the maximum, every size from 2^28 to the maximum (waiting for memory), sizes 0..3 with content, with 16 bytes of message memory left", ["small", "large", "refused"]),
    E("wire", "a message of 0..5 (thorough 0..11) symbolic bytes as seen on the wire", ["end"]),
    E("slow_reader", "messages of 8188, 8189, 8192 or 9000 bytes (pipe of 8192) to a peer that does not read for 3, 6 or 12 s", ["patient", "gave up"]),
 ]},
 "C13": {"harness": "c13", "entries": [
    E("history", "2 TCP connections sharing a pool of 8 bytes; every history of 4 (thorough 5) events: a message of 3, 5 or 8 (thorough also 0) bytes arrives on either, the oldest is cloned, a copy of the oldest or newest is dropped", ["cloned", "returned", "received", "waits"]),
    E("failures", "a message of 3, 5 or 8 bytes of which any part arrived, its reader having or waiting for its share; the peer hangs up, the stream breaks or stalls 6 s, or the connection is dropped", ["hung up", "broken", "stalled", "abandoned", "waited"]),
    E("undelivered", "1..3 messages received but not all taken, with unbounded or 1-message connection queues, then the connection is dropped or ends", ["end"]),
    E("sizes", "a pool of 50000 bytes lacking one byte of what a message of 1, 17, 255, 256, 4097, 20000, 40000 or 50000 bytes needs, then having it", ["held back", "end"]),
    E("too_large", "a message announcing any size above the pool's, and one that fits on another connection", ["end"]),
    E("through_a_broker", "1 real broker with a pool of 300 bytes, 2 users and a peer broker; every history of 4 (thorough 6) sends, bursts, departures and returns with messages over 100 bytes", ["broadcast", "left", "burst", "end"]),
 ]},
 "C15": {"harness": "c15", "entries": [
    *[E(f"fifo_{p}", f"{p}: 3 messages of 0..1 symbolic bytes in each direction, unbounded queues or of 1 or 2 messages; every schedule with at most 1 (thorough 2) delays; then one side is dropped", ["end"]) for p in TRANSPORTS],
    *[E(f"closing_{p}", f"{p}: 0..2 messages and a soft close, then the end, the peer reading at once or late; schedules as above", ["flushed"]) for p in TRANSPORTS],
    *[E(f"endings_{p}", f"{p}: the peer or the network goes away while 3 messages (and a soft close) are sent to a reading or idle peer; schedules as above", ["gone", "cut", "flushing"]) for p in TRANSPORTS],
    *[E(f"unreachable_{p}", f"{p}: nobody listens, or nobody accepts or completes the connection", ["nobody", "no answer"]) for p in TRANSPORTS],
    *[E(f"at_once_{p}", f"{p}: 2 connections made at once; every schedule with at most 2 (thorough 3) delays", ["end"]) for p in TRANSPORTS],
 ]},
}
