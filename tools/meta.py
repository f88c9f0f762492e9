#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and from props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
B, P = "cdn-broker/src", "cdn-proto/src"
def P_(id, title, statement, over, text, tests, files, mech, observe, state=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                        "observe_at": observe, "hook_needed": None}}
TEXTS = [
 P_("C01", "A direct message reaches exactly its recipient, once, unchanged, in order",
    "A direct message sent by a user is delivered exactly once, with unchanged bytes, to the user whose public key equals the recipient, whichever broker that user is connected to, and to nobody else; messages to unknown recipients vanish. Messages of one sender to one recipient arrive in the order sent. A direct message that a broker received from another broker is only ever handed to its own users, never forwarded to a broker again.",
    ["inputs", "histories"], "all recipients, payloads and placements of users on brokers, short message sequences",
    "direct.rs tests route three fixed messages between fixed users and brokers; other keys, placements and sequences are not reached",
    [f"{B}/tasks/broker/handler.rs", f"{B}/tasks/user/handler.rs", f"{B}/connections/mod.rs", f"{B}/tasks/broker/sender.rs", f"{B}/tasks/user/sender.rs"],
    [("handle_direct_message, to_user_only", f"{B}/tasks/broker/handler.rs"), ("direct map lookup", f"{B}/connections/mod.rs get_broker_identifier_of_user")], ["messages received on user and broker connections"],
    [("direct_map", "which broker each user is connected to", f"{B}/connections/direct/mod.rs")]),
 P_("C02", "A broadcast reaches every subscriber of its topics exactly once and nobody else",
    "A broadcast is delivered exactly once, with unchanged bytes, to every connected user subscribed to at least one of its topics, on any broker, also when several of its topics match, and to nobody else. The broker the sender is connected to passes it once to each broker that announced interest in one of the topics, and a broadcast that came from a broker goes to local users only.",
    ["inputs", "configurations"], "all subscription sets, interests announced by peer brokers and topic lists",
    "broadcast.rs tests use two fixed topic layouts with one topic per message; overlapping topics and other layouts are not reached",
    [f"{B}/tasks/broker/handler.rs", f"{B}/connections/mod.rs", f"{B}/connections/broadcast/relational_map.rs"],
    [("handle_broadcast_message", f"{B}/tasks/broker/handler.rs"), ("get_interested_by_topic", f"{B}/connections/mod.rs")], ["messages received on user and broker connections"],
    [("users, brokers", "key-topic relations", f"{B}/connections/broadcast/mod.rs")]),
 P_("C03", "A user's subscriptions are exactly what its own requests made them",
    "At any time a user is subscribed to exactly the valid topics it subscribed to (at connection or later) and has not unsubscribed from since, in the order of its requests; a reconnect starts from the topics given then. One user's requests never change another's. Topics that do not exist are ignored in a connection's initial list and among others, and a subscribe request naming only such topics ends the connection.",
    ["histories", "inputs"], "all histories of subscribe, unsubscribe and reconnect requests within the bound with symbolic topics",
    "subscribe.rs tests one subscribe/unsubscribe sequence and one invalid topic",
    [f"{B}/tasks/user/handler.rs", f"{B}/connections/broadcast/relational_map.rs", f"{P}/def.rs"],
    [("user_receive_loop subscribe/unsubscribe", f"{B}/tasks/user/handler.rs"), ("RelationalMap", f"{B}/connections/broadcast/relational_map.rs"), ("Topic::prune", f"{P}/def.rs")], ["which broadcasts a user receives"]),
 P_("C04", "Brokers learn which topics their peers' users want, and only those",
    "After at most one sync interval without further changes, each broker forwards broadcasts on a topic to exactly those connected peer brokers that have at least one user subscribed to it. This holds for every order of joins, departures, subscribes and unsubscribes, and again after a link between brokers was lost and re-established.",
    ["histories", "fault_sequences"], "all histories of user joins, departures and subscription changes, each followed by sync intervals or not; loss and re-establishment of links",
    "no test runs two real brokers or the sync task; sync.rs feeds fixed messages",
    [f"{B}/tasks/broker/sync.rs", f"{B}/connections/mod.rs", f"{B}/connections/broadcast/mod.rs", f"{B}/tasks/broker/handler.rs"],
    [("get_partial_topic_sync/get_full_topic_sync", f"{B}/connections/mod.rs"), ("apply_topic_sync", f"{B}/connections/mod.rs")], ["sync messages and broadcasts on broker connections"],
    [("topic_sync_map, previous_subscribed_topics", "what peers were last told", f"{B}/connections/broadcast/mod.rs")]),
 P_("C05", "Replicated tables converge and never go back to older information",
    "A replica of the user table that received another replica's full state, or all of its changes in order, knows what that replica knows; changes that arrive late, repeatedly or in another order never undo newer ones. When two brokers changed the same entry concurrently, all replicas settle on the same winner, and an entry is dropped everywhere when its owner removed it. An update reports exactly the entries it replaced, with their new values.",
    ["histories", "schedules"], "all histories of local changes and syncs within the bound, in every delivery order, with symbolic keys, versions and identities",
    "versioned_map.rs tests run a handful of fixed two-replica sequences",
    [f"{B}/connections/versioned_map.rs", f"{B}/connections/mod.rs"], [("VersionedMap::merge", f"{B}/connections/versioned_map.rs"), ("diff, get_full, purge", f"{B}/connections/versioned_map.rs")], ["VersionedMap::get and the result of merge", "which broker a broker routes a user's messages to"],
    [("underlying_map, locally_modified_keys", "versioned entries, and those not yet shared", f"{B}/connections/versioned_map.rs")]),
 P_("C06", "A roaming user stays reachable at its latest broker",
    "When a user is connected to a broker, its connection stays up until it closes it, connects elsewhere, or misbehaves; after at most one sync interval all brokers route its messages there, whatever sequence of brokers it visited before and also after lost links between brokers or a broker starting late. A user connected twice at different brokers is disconnected from the one it connected to first.",
    ["histories", "fault_sequences"], "all histories of joins and departures of a user at several brokers, with or without sync intervals between, broken links and late brokers",
    "double_connect.rs tests one double connection on two brokers with hand-fed syncs",
    [f"{B}/connections/mod.rs", f"{B}/tasks/broker/sync.rs", f"{B}/connections/versioned_map.rs", f"{B}/tasks/broker/handler.rs"],
    [("apply_user_sync", f"{B}/connections/mod.rs"), ("user sync", f"{B}/tasks/broker/sync.rs")], ["delivery of direct messages", "connections being closed"]),
 P_("C07", "Ended connections leave nothing behind; a new connection replaces the old",
    "When a connection of a user or broker ends, for whatever reason, nothing is sent to it any more, its subscriptions are gone, other connections are unaffected and the peer can connect again. A second connection of the same user or broker to a broker closes the first, and the failure of the first at any moment leaves the second working.",
    ["schedules", "fault_sequences"], "all ways for a connection to end (drop, soft close, garbage, forbidden message) at any moment, and schedules of the replaced connection's tasks",
    "double_connect.rs checks that the old connection is closed under one schedule; endings by error and their interleavings are not reached",
    [f"{B}/connections/mod.rs", f"{B}/tasks/user/handler.rs", f"{B}/tasks/broker/handler.rs", f"{B}/tasks/user/sender.rs", f"{B}/tasks/broker/sender.rs"],
    [("remove_user, remove_broker", f"{B}/connections/mod.rs"), ("add_user, add_broker", f"{B}/connections/mod.rs"), ("handle_user_connection", f"{B}/tasks/user/handler.rs")], ["messages on connections, closed connections"]),
 P_("C08", "A broker admits a user only with an unused, unexpired permit issued for it",
    "A broker admits a connection as a certain user exactly when its first message presents a permit that was issued to that user for this broker, has not expired and was not used before, even if it is presented on several connections at once; everything else is refused with an authentication failure or a closed connection and leaves no trace. An admitted user starts with the topics of its first subscribe message.",
    ["inputs", "schedules"], "all permit values and ages, all first and second messages, concurrent uses of one permit under the schedules within the bound",
    "no test runs the broker's authentication of users; the integration test is not among the stable tests",
    [f"{P}/connection/auth/broker.rs", f"{B}/tasks/user/handler.rs", f"{B}/tasks/user/listener.rs", f"{P}/discovery/embedded.rs"],
    [("verify_user", f"{P}/connection/auth/broker.rs"), ("validate_permit", f"{P}/discovery/embedded.rs")], ["responses on the connection, subsequent delivery"]),
 P_("C09", "The marshal issues permits only for freshly proven, whitelisted keys",
    "The marshal answers a connection with a permit exactly when its first message carries a key, a signature under that key made for this purpose over the given timestamp, and a timestamp at most five seconds old and not in the future, and the key is whitelisted (or no whitelist exists); the permit is for exactly that key at the broker the response names. Any other first message, or a failing store, yields a refusal and no permit, and the connection is closed in every case.",
    ["inputs", "fault_sequences"], "all keys, timestamps, and choices of signatures seen on the network (also for other purposes), whitelist states and store failures",
    "no stable test runs the marshal",
    [f"{P}/connection/auth/marshal.rs", "cdn-marshal/src/handlers.rs", "cdn-marshal/src/lib.rs", f"{P}/discovery/embedded.rs"],
    [("verify_user", f"{P}/connection/auth/marshal.rs")], ["responses of the marshal", "permits in the discovery store"]),
 P_("C10", "Brokers link only with peers presenting a fresh signature by the brokers' key",
    "A broker accepts a connection as another broker's only after a fresh (at most five seconds old, not in the future) signature with the brokers' own key made for this purpose, and proves itself the same way when it dials; a peer that fails or stops at any step of the handshake, in either direction, never receives synchronised state or users' messages and leaves other links as they were. The accepted peer is known under the identity it presented.",
    ["inputs", "fault_sequences"], "all keys, timestamps, signatures and misordered or missing handshake messages, inbound and outbound",
    "no stable test runs the brokers' authentication of each other",
    [f"{P}/connection/auth/broker.rs", f"{B}/tasks/broker/handler.rs", f"{B}/tasks/broker/heartbeat.rs"],
    [("authenticate_with_broker, verify_broker", f"{P}/connection/auth/broker.rs"), ("handle_broker_connection", f"{B}/tasks/broker/handler.rs")], ["messages on the connection"]),
 P_("C11", "A client enters a broker only through a valid answer of the marshal",
    "Authentication at the marshal succeeds only on a response with a proper permit, and yields exactly that response's permit and broker endpoint; the request carries the client's key, the current time and a signature by that key for this purpose. Authentication at a broker succeeds only if the broker accepts the permit, and then announces exactly the client's topics. Any other answer is reported as an error.",
    ["inputs", "fault_sequences"], "all responses of marshal and broker, of every message type, and endings at each step",
    "no stable test runs the client's authentication",
    [f"{P}/connection/auth/user.rs"], [("authenticate_with_marshal, authenticate_with_broker", f"{P}/connection/auth/user.rs")], ["result of the authentication functions, bytes on the connection"]),
 P_("C12", "Framing is faithful, incremental and bounded",
    "A sent message arrives as the same bytes, whatever pieces the transport splits the stream into; messages arrive whole, in order, and an announced size above the maximum is refused before memory of that size is set aside. A stream that ends or fails inside a message yields an error, never a partial message. A peer that stops amid the content of a message, or stops reading, makes neither side wait forever.",
    ["inputs", "fault_sequences"], "all small messages, header values, stream splits, and cut positions",
    "protocol tests send one message over a working connection",
    [f"{P}/connection/protocols/mod.rs"], [("read_length_delimited, write_length_delimited", f"{P}/connection/protocols/mod.rs")], ["Connection::recv_message_raw, bytes on the stream"]),
 P_("C13", "The memory pool bounds messages in flight and never leaks",
    "At any time the bytes of received messages not yet dropped stay within the pool's size, clones counted once; a message's share is returned exactly when its last copy is dropped, also when reading or sending it failed, timed out or was abandoned. A waiting reader continues as soon as enough is returned.",
    ["histories", "fault_sequences", "schedules"], "all sequences of receive, clone, drop, failure and abandonment within the bound",
    "limiter tests acquire and release once",
    [f"{P}/connection/limiter/mod.rs", f"{P}/connection/limiter/pool.rs", f"{P}/connection/protocols/mod.rs"], [("MemoryPool::alloc, AllocationPermit::drop", f"{P}/connection/limiter/pool.rs"), ("Limiter::allocate_message_bytes", f"{P}/connection/limiter/mod.rs")], ["when a reader on a full pool continues"]),
 P_("C14", "Every message survives encoding; decoding never panics",
    "Serializing any message and deserializing it gives an equal message. Deserializing arbitrary bytes gives a message or an error, never a panic, an endless loop or an access outside the input.",
    ["inputs"], "all messages and byte strings within the size bounds",
    "message.rs tests round-trip one fixed instance of each variant",
    [f"{P}/message.rs"], [("Message::serialize, Message::deserialize", f"{P}/message.rs")], ["Message::serialize, Message::deserialize"]),
 P_("C15", "A connection delivers what was sent, in order, and reports its end",
    "Over every transport, messages sent on a connection arrive complete, once and in order; messages successfully flushed by a soft close arrive even though the connection closes after. When the peer goes away, is unreachable, or a stream fails, receivers get the messages that arrived before, then an error; senders get an error once it is known; nothing hangs.",
    ["schedules", "fault_sequences", "inputs"], "all short message sequences, endings of either side at any point, and schedules within the bound",
    "protocol tests send one message in each direction",
    [f"{P}/connection/protocols/mod.rs", f"{P}/connection/protocols/memory.rs", f"{P}/connection/protocols/tcp.rs", f"{P}/connection/protocols/tcp_tls.rs", f"{P}/connection/protocols/quic.rs"],
    [("Connection::from_streams, soft_close", f"{P}/connection/protocols/mod.rs")], ["Connection methods"]),
 P_("C16", "A client's subscriptions follow its calls, across reconnects",
    "The topics a client is subscribed to are those it was created with, plus those subscribed to, minus those unsubscribed from by calls that succeeded, and exactly these are announced on every reconnection; a call that changes nothing sends nothing. A failed call leaves them unchanged.",
    ["histories", "fault_sequences"], "all histories of subscribe, unsubscribe and connection failures within the bound",
    "no stable test runs the client",
    ["cdn-client/src/lib.rs"], [("subscribe, unsubscribe", "cdn-client/src/lib.rs")], ["messages the broker receives"]),
 P_("C17", "A client reconnects by itself, and a closed client stays closed",
    "After its connection fails, the next calls make the client reconnect: through the marshal each time, one attempt at a time, retrying until it succeeds, whatever the marshal and the broker did meanwhile. Calls made meanwhile wait for the connection or report an error; none hangs once the services are back, and the client reports to be ready only when it is connected. Once close has returned, every call reports an error and no connection is made again.",
    ["schedules", "fault_sequences", "histories"], "all histories of sends, receives, failures of marshal and broker and close calls, and schedules within the bound",
    "no stable test runs the client",
    ["cdn-client/src/lib.rs"], [("Retry, try_reconnect", "cdn-client/src/lib.rs")], ["Client methods, connections the marshal and broker see"]),
 P_("C18", "Permits are single-use, expiring, broker-bound and unguessable from status codes",
    "A permit issued by the discovery service redeems exactly once, at the broker it was issued for, for exactly the key it was issued to, until it expires; no other number redeems. Issued permits are never one of the values that responses use as status codes, and a later permit never invalidates or takes over an outstanding one.",
    ["histories", "inputs"], "all histories of issue and redeem within the bound with symbolic numbers, keys and random draws, in both stores",
    "no stable test uses the discovery services",
    [f"{P}/discovery/embedded.rs", f"{P}/discovery/redis.rs"], [("issue_permit, validate_permit", f"{P}/discovery/embedded.rs, {P}/discovery/redis.rs")], ["DiscoveryClient methods"]),
 P_("C19", "New users are sent to the live broker with the least load",
    "The broker chosen for a new user is one whose latest heartbeat has not expired and for which the number of connections it last reported plus its outstanding permits is the smallest; with no live broker an error is returned. Each broker sees as others exactly the other live brokers.",
    ["histories", "inputs"], "all histories of heartbeats with symbolic loads, permits issued, redeemed and expired within the bound, in both stores",
    "no stable test uses the discovery services",
    [f"{P}/discovery/embedded.rs", f"{P}/discovery/redis.rs"], [("get_with_least_connections, perform_heartbeat, get_other_brokers", f"{P}/discovery/embedded.rs, {P}/discovery/redis.rs")], ["DiscoveryClient methods"]),
 P_("C20", "The whitelist admits exactly its members, and others are let go",
    "With a whitelist set, exactly its members pass the check; with none set everybody does; setting a new one replaces the old, and a failure while setting it leaves the old or the new one. Brokers disconnect users that are no longer whitelisted within a minute, and nobody else, also when the check itself fails.",
    ["histories", "fault_sequences"], "all histories of whitelist updates and checks with symbolic keys within the bound, store failures at any operation",
    "whitelist.rs tests one update with two users",
    [f"{P}/discovery/embedded.rs", f"{P}/discovery/redis.rs", f"{B}/tasks/broker/whitelist.rs"], [("set_whitelist, check_whitelist", f"{P}/discovery/embedded.rs, {P}/discovery/redis.rs"), ("run_whitelist_task", f"{B}/tasks/broker/whitelist.rs")], ["DiscoveryClient methods", "closed connections"]),
 P_("C21", "Brokers find each other and repair lost links",
    "Any two live brokers that can reach each other get linked within one heartbeat of both being registered, whichever started first, and again after the link broke; a broker is never linked to itself, and has one link to each other one. It calls each missing one with a larger identity once per heartbeat. Failures of the discovery service or of dialling delay this but stop nothing: the heartbeat continues at its pace with the number of users connected.",
    ["histories", "fault_sequences", "configurations"], "all start orders, identities, link losses and store failures within the bound",
    "no stable test runs the heartbeat task",
    [f"{B}/tasks/broker/heartbeat.rs", f"{B}/tasks/broker/listener.rs", f"{B}/tasks/broker/handler.rs"], [("run_heartbeat_task", f"{B}/tasks/broker/heartbeat.rs")], ["dialled connections, discovery store"]),
 P_("C22", "Broker identities survive their textual form and are ordered consistently",
    "Writing a broker identity as text and parsing it back gives the same identity; text that is not the form of any identity is refused. Different identities are never equal, and all brokers order them the same way.",
    ["inputs"], "all endpoint strings within the length bound",
    "no stable test covers this",
    [f"{P}/discovery/mod.rs"], [("Display, TryFrom<String>", f"{P}/discovery/mod.rs")], ["BrokerIdentifier"]),
 P_("C23", "Each side accepts only the messages its peer may send",
    "A connected user that sends anything but the messages of its role (direct, broadcast, subscribe, unsubscribe), or something undecodable, is disconnected, and the message has no other effect. A connected broker that sends something undecodable is disconnected too; any other message that is not of its role (direct, broadcast, user sync, topic sync) is ignored. Each received message is shown once to the message hook of its kind of sender: one that asks to skip it prevents its effect alone, one that fails disconnects the sender, and otherwise processing continues as if there were no hook.",
    ["inputs", "configurations"], "all message types and contents within the bound from users and brokers, all hook verdicts",
    "tests send only proper messages and use no hooks",
    [f"{B}/tasks/user/handler.rs", f"{B}/tasks/broker/handler.rs", f"{P}/def.rs"], [("user_receive_loop, broker_receive_loop", f"{B}/tasks/user/handler.rs, {B}/tasks/broker/handler.rs"), ("MessageHook", f"{P}/def.rs")], ["connections and messages"]),
 P_("C24", "Nobody can keep a broker or marshal from serving the others",
    "Whatever connections are made to a broker or marshal and left silent, unfinished, filled with nonsense, abandoned, or aborted before they were accepted, it goes on accepting others and serves them at once; one that does not complete its handshake is dropped within 16 s. When connections can't be accepted for a while (no file descriptors), existing ones stay and new ones are served afterwards. A peer that stops reading does not hold up the messages to the others for longer than it takes to give it up.",
    ["histories", "fault_sequences"], "all combinations of such connections within the bound, accept failures of either listener",
    "no stable test runs a listener against a peer that misbehaves",
    [f"{B}/tasks/user/listener.rs", f"{B}/tasks/broker/listener.rs", "cdn-marshal/src/lib.rs", f"{P}/connection/protocols/tcp.rs", f"{P}/connection/protocols/tcp_tls.rs"],
    [("run_user_listener_task, run_broker_listener_task", f"{B}/tasks/user/listener.rs, {B}/tasks/broker/listener.rs"), ("Marshal::start", "cdn-marshal/src/lib.rs"), ("accept, finalize", f"{P}/connection/protocols/tcp_tls.rs")], ["connections and messages"]),
 P_("C25", "Users connect only to servers certified by the authority they trust",
    "Over TLS and QUIC, a connection is established exactly with servers whose certificate was issued for the CDN's name by the authority the user chose to trust (the pinned production one, or the local one), and with nobody else, also when they speak no TLS at all. A client applies this to the marshal and to the broker it is sent to: it proves its identity to, and presents its permit to, no other server.",
    ["configurations", "inputs"], "all combinations of trusted authority and presented certificates within the bound",
    "no stable test makes a TLS or QUIC connection with more than one certificate",
    [f"{P}/crypto/tls.rs", f"{P}/connection/protocols/tcp_tls.rs", f"{P}/connection/protocols/quic.rs", "cdn-client/src/lib.rs"],
    [("generate_root_certificate_store, generate_cert_from_ca", f"{P}/crypto/tls.rs"), ("connect", f"{P}/connection/protocols/tcp_tls.rs, {P}/connection/protocols/quic.rs")], ["result of connecting"]),
]
NA = {
}
OTHER = [  # properties that this technique cannot address here
]
NOTE = ("Bounded: holds for every value of the symbolic inputs within the bounds in the evidence file, on the compiled code (LLVM IR of the real crates, regenerated from /repo each run). "
        "Trusted: the executor, z3, the models of the environment (async runtime, sockets, random numbers, time, SQL/Redis, BLS as ideal signatures), and rustc. {extra}")
EXTRA = {
    "C25": "Certificates are modelled as ideal: issuer and names; possession of the private key and expiry are rustls's business and not examined.",
}
def main():
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for p in TEXTS + OTHER: assert len(p["title"]) <= 80, p["title"]; f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in TEXTS + OTHER:
        i = p["id"]
        if i in PROPS:
            checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i} quick", "thorough_cmd": f"python3 tools/check.py {i} thorough",
                "technique": "symbolic execution of the compiled code (LLVM IR) with z3 deciding branches and assertions", "level": "model_checking",
                "level_note": NOTE.format(extra=EXTRA.get(i, "")).strip()})
        else: na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": checks, "not_applicable": na}
    json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
main()
