"""Regenerates baseline_fns.json: the functions of the tree the rules were written against.
A function that is not in this list is a helper introduced later, and is looked through by the analyses."""
import json, os, facts, ir
d, h = facts.extract()
p = ir.Program(d)
fs = sorted(x for x in p.fns if "{closure" not in x and "#prom" not in x)
json.dump(fs, open(os.path.join(facts.VERIF, "engine", "baseline_fns.json"), "w"), indent=0)
print(len(fs))
