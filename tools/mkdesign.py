#!/usr/bin/env python3
"""writes the per-property part of DESIGN.md (between the markers) from checkdefs.py, properties.jsonl and the texts below"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import checkdefs
cs = checkdefs.CHECKS
cs = {c["id"]: c for c in cs} if not isinstance(cs, dict) else cs
WHY = {
 "C01": ("7 s", "the tests serialise two vouchers; here every subset of attributes, every pair of alphabets and every special character is written by the code and read by a reader that shares nothing with it"),
 "C02": ("16 s", "state space search: a mistake that needs one particular content before one particular operation (e.g. clearing an attribute next to another one) is met because every operation is executed in every state"),
 "C03": ("10 s", "a group of 3 bytes / 4 symbols is the codec's unit; all groups, all paddings, all positions of line breaks and all foreign symbols are executed"),
 "C04": ("15 s", "every truncation, every replacement of every byte and all short token sequences: the reader's state machine (jsmn and the code that walks the tokens) is driven through all its branches with red zones behind the text"),
 "C05": ("90 s", "the universe of certificates contains every kind of near miss (same name and other key, same key and other name, expired, no CA, forged signature, cross-signed, revoked) in every role; each verdict is decided by a search for a chain of real signatures"),
 "C06": ("6 s", "decision table over all attribute combinations, not the one good request of the tests"),
 "C07": ("20 s", "as C06, with both levels of signatures; forged, re-signed, nested and unwrapped inner requests"),
 "C08": ("18 s", "as C06; every bit of the pinned certificate is damaged once"),
 "C09": ("60 s", "attacks over several runs (replay, relay, mix of recorded messages, a genuine second device of the attacker) are sequences no unit test contains; the model's transition function is executed against the code in every state"),
 "C10": ("15 s", "every failure the handler can meet, one by one and with each valid and invalid body"),
 "C11": ("55 s", "what a request leaves behind is only seen by later requests: all histories"),
 "C12": ("165 s", "needs an interleaving: all schedules with one preemption anywhere and two at conflicting accesses are executed on the real handlers"),
 "C13": ("125 s", "as C12, with the clock, the connection to the MASA and the enrolment log"),
 "C14": ("20 s", "all certificate shapes and histories; each answer is checked against the CA's key and the submitted certificate"),
 "C15": ("15 s", "every setting with every value shape and every cut of a file"),
 "C16": ("16 s", "every allocation and every fallible library call of every operation fails once, and from there on"),
 "C17": ("65 s", "the settings' state space is covered completely; thread schedules as in C12"),
 "C18": ("8 s", "operation sequences instead of single calls, every state compared with the model"),
 "C19": ("120 s", "crash points: the disk is full after every number of bytes; every file operation fails; every truncation and damage is read back"),
 "C20": ("12 s", "every day and every second; all single edits of texts"),
 "C21": ("160 s", "the servers are driven over real TLS with all framings, histories and stuck clients; state that leaks from one request to another is seen because sequences share a connection and thus a thread"),
 "C22": ("28 s", "the registrar is a script: every answer at every step with up to two deviations, including another certificate on a later connection"),
 "C23": ("35 s", "the real main() in a process of its own for every command line, file and stream"),
 "C24": ("25 s", "all combinations of serial numbers, validities, names and kinds, read back independently"),
 "C25": ("12 s", "exact-size buffers with red zones for every length, bound and size"),
 "C26": ("150 s", "the real client against a scripted server: every framing, every cut, every trust setting"),
}
out = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l); c = cs.get(p["id"])
    if not c: continue
    cost, why = WHY[p["id"]]
    b = c["bounds"] if isinstance(c["bounds"], dict) else {"quick": c["bounds"], "thorough": "same"}
    out.append("### %s %s (%s)\n" % (p["id"], p["title"], c["level"]))
    out.append("*Decided by* %s.\n" % c.get("technique", "").rstrip("."))
    out.append("*Explored and compared:* %s.\n" % c["rule"].rstrip("."))
    out.append("*Bounds, quick* (about %s on 8 cores): %s. *Thorough:* %s.\n" % (cost, b["quick"].rstrip("."), b.get("thorough", "same").rstrip(".")))
    if c.get("assumptions"): out.append("*Left open / assumed:* %s.\n" % "; ".join(a.rstrip(".") for a in c["assumptions"]))
    out.append("*Beyond tests:* %s.\n" % why)
f = os.path.join(H, "DESIGN.md"); s = open(f).read()
a, z = "<!-- per property: begin -->\n", "<!-- per property: end -->\n"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + s[s.index(z):]
rows = ["| bug | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json"))); rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
a, z = "<!-- seeds: begin -->\n", "<!-- seeds: end -->\n"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n\nEach is caught by its own property's quick check (exit 1).\n" + s[s.index(z):]
open(f, "w").write(s)
