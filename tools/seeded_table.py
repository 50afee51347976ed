"""Prints the planted bugs by the property whose check catches them."""
import json
import os

D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
by = {}
for s in sorted(os.listdir(D)):
    by.setdefault(json.load(open(os.path.join(D, s, "meta.json")))["property"], []).append(s)
for p in sorted(by):
    print("* **%s** %s" % (p, ", ".join(by[p])))
