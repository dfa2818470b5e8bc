#!/usr/bin/env python3
"""Replays a reported violation against the native build of /repo's current source: replay.py FILE."""
import json, sys
import check

r = json.load(open(sys.argv[1]))
how = check.Replayer(r["module"], r["tier"]).reproduce(r["entry"], r)
print("entry %s, inputs %s" % (r["entry"], r["tape"]))
print("reported: %s: %s" % (r["kind"], r["label"]))
print("native:   %s" % (how or "does not reproduce"))
sys.exit(1 if how else 0)
