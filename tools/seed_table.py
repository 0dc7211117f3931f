#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md. Notes on what was missed first come from MISSED."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "c11-cancel-until-refused": "missed first: no thread refused to be cancelled",
    "c11-wait-in-whole-milliseconds": "missed first: timed waits that end early were not looked at",
    "c16-late-check-outside": "missed first; surplus waits against the last arrival added",
    "c19-start-before-initialisation": "missed first: initialisation took no time",
    "c20-one-step-per-poll": "missed first: the pipes of the model were small; full-size pipes added",
    "c24-empty-list-unblocks-all": "missed first: no empty lists",
    "c24-group-known-by-its-leader": "missed first: no group without its leader",
    "c03-move-forgets-broken-pipe": "missed first: objects of all slots had equal flags; now they differ",
    "c05-loop-set-after-activation": "missed first: shared_ptr counts were taken for synchronisation; engine changed",
    "c26-room-for-one-datagram": "missed first: no unread datagram before a large one; compound step added",
    "c28-only-refusal-fails": "missed first: only ECONNREFUSED failed late; six errnos now",
}
NOTCAUGHT = {}
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(f)); d = json.load(open(f))
    by = NOTCAUGHT.get(n) or d["property"] + " quick" + (" (" + MISSED[n] + ")" if n in MISSED else "")
    rows.append("| %s | %s | %s |" % (n, d["needs"].replace("|", "/"), by))
p = HERE + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- end -->", lambda m: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end -->", s, flags=re.S)
open(p, "w").write(s)
