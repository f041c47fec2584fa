"""record the local names of the functions under heap contracts (run once on
the tree the contracts were written for; see wp.as_recorded)"""
import json

from . import consc, graphc, groupc, leafc, utilc, wp

out = {}
for m in (consc, graphc, groupc, leafc, utilc):
    for t in vars(m).values():
        for c in (t.values() if isinstance(t, dict) else [t]):
            if isinstance(c, wp.Contract):
                try:
                    out[c.name] = wp.localnames(wp.find(c.file, c.qual))
                except Exception as e:
                    print(c.name, e)
with open(wp.NAMES, 'w') as f:
    json.dump(out, f, indent=0, sort_keys=True)
    f.write('\n')
print(len(out))
