#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (after the marker line) from props.py, meta.py's texts,
known_findings.json and seeded/."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
MARK = "<!-- generated by tools/design.py from here on -->"
ORACLE = {
 "C01": "payloads arriving at every user, compared with what was sent, per recipient and in order",
 "C02": "a set computation over the subscriptions the harness chose",
 "C03": "a reference set updated by the requests in their order; a broadcast on every topic tells who is subscribed",
 "C04": "broadcasts sent to one broker must arrive where the reference says the interest is, after one sync round; and nothing arrives where it is not",
 "C05": "two or three real maps exchanging real diffs in any order: their contents must agree, and agree with the last write",
 "C06": "a direct message to the user from anywhere, after one sync and heartbeat round, arrives at its newest connection only",
 "C07": "a reference list of who is connected; state is observed by messages to everybody",
 "C08": "permits the harness itself issued through the real store; topic validity from the definition",
 "C09": "ideal signatures: the marshal must admit exactly whoever signed this timestamp, within the 5 s window, for this purpose",
 "C10": "as C09, for brokers and their common key",
 "C11": "what the client does with each answer of the marshal and the broker, and what it puts into its messages",
 "C12": "length of the frame and announced limit; peers stay served",
 "C13": "a count of outstanding buffers kept by the harness against the pool's size; a waiter is served as soon as there is room",
 "C14": "equality with the message that was encoded; for arbitrary bytes: an error or a message that encodes again to one that decodes alike",
 "C15": "sequence numbers and payloads in a queue kept by the harness, per direction",
 "C16": "reference set; announcements seen by the broker the harness plays",
 "C17": "attempts counted by the marshal the harness plays, with virtual time; messages at the broker",
 "C18": "a reference list of permits (broker, key, expiry, used), for both stores",
 "C19": "a reference list of registrations (broker, load, expiry, permits outstanding), for both stores",
 "C20": "reference list; after a minute exactly the non-members' connections are closed",
 "C21": "one copy of a broadcast everywhere; calls counted by registered brokers that the harness plays; statements counted by the store model",
 "C22": "round trip and comparison laws on identities with symbolic endpoints",
 "C23": "per message type: closed or open, effect or none, as the role says; hooks' verdicts are symbolic",
 "C24": "others join, link and receive without time passing (virtual clock); sockets of the misbehaving peers are closed after a while",
 "C25": "the set of certificates (issuer, names) that the chosen authority vouches for",
}
MISSED = {  # planted bugs that a check missed at first, and what was strengthened
 "stale-local-mark": "C05 got three replicas with overtaking (`replicas`)",
 "relinked-broker-unheard": "C04 got the entry `relinked`",
 "clone-without-share": "C13 drops copies front to back too",
 "first-authority-for-all": "C25 makes earlier connections with another authority",
 "large-forwarded-in-background": "C01 got `in_order`, with messages of two sizes",
 "old-topics-forgotten": "C03 reconnects after any step",
 "unsubscribe-stops-early": "C03 has topics nobody else is subscribed to",
 "sixteen-topics-of-a-broadcast": "C02 has topic lists of up to 71 topics",
 "share-after-reading": "C13 got `sizes`",
 "largest-refused": "C12 covers the sizes up to the maximum",
}
MUTATIONS = """
## Mutation probing

Besides the planted bugs, some 65 small mutations (a condition negated or off by one, a step dropped, moved into a task or made
conditional, an entry kept too long) were run against the checks. Those that got through led to: `in_order` (C01, C02), long topic lists
(C02), varied other users and reconnects after any step (C03 `history`), topics that do not exist (C03 `refused`), `brief_visit` (C06),
`stuck` (C07), exact freshness (C09, C10 `freshness`), the largest sizes (C12), `sizes` (C13), preemption at the end of a timeout
and `closed_while_connecting` (C17), `drawn_again_sql` (C18), two delisted users (C20 `check_fails`). The others that got through change
nothing that can be observed: e.g. keeping a removed broker's topics when a send failed (re-adding it clears them), or accepting an
equal version from the broker that already won.
"""
def main():
    f = f"{ROOT}/DESIGN.md"
    s = open(f).read().split(MARK)[0].rstrip() + "\n\n" + MARK + "\n\n## Properties\n\n"
    s += ("Statements, quantifiers and code anchors are in properties.jsonl. Each entry below is one harness function run symbolically; "
          "the text is its bound (`thorough` in parentheses where it differs).\n")
    for l in open(f"{ROOT}/properties.jsonl"):
        p = json.loads(l); i = p["id"]
        s += f"\n### {i} {p['title']}\n\n"
        if i not in PROPS: s += "Not claimed, see MANIFEST.json.\n"; continue
        s += f"Oracle: {ORACLE[i]}. Why tests don't settle it: {p['why_tests_cant']}.\n\n"
        for e in PROPS[i]["entries"]: s += f"- `{e['name']}`{' (thorough only)' if e.get('thorough_only') else ''}: {e['bounds']}" + (f" (thorough: {e['bounds_thorough']})" if e.get("bounds_thorough") else "") + "\n"
    k = json.load(open(f"{ROOT}/known_findings.json"))
    s += "\n## Findings in the code\n\nEach was found by a check, reproduced natively from its counterexample, and repaired with a `fix:` commit unless marked *known*.\n\n"
    for x in k: s += f"- {x['property']} `{x['id']}`: {'**known**: ' if x['status'] == 'known' else ''}{x['what']}\n"
    s += "\n## Planted bugs (seeded/)\n\n| id | caught by | needs | note |\n|---|---|---|---|\n"
    for d in sorted(os.listdir(f"{ROOT}/seeded")):
        m = json.load(open(f"{ROOT}/seeded/{d}/meta.json"))
        s += f"| {d} | {m['property']} | {m['needs']} | {'missed at first: ' + MISSED[d] if d in MISSED else ''} |\n"
    s += MUTATIONS
    open(f, "w").write(s)
main()
