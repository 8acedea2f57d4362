"""catchtable.py LOG...: the table of DESIGN.md section 9 from the output of `seed.py catch`
(a later log wins)."""
import re
import sys

rows = {}
for f in sys.argv[1:]:
    cur = None
    for line in open(f):
        m = re.match(r"(C\d\d-[a-z]) +(C\d\d) rc=(\d) (\w+)", line)
        if m:
            cur = m.group(1)
            rows[cur] = ["missed" if m.group(4) != "CAUGHT" else "", []]
            continue
        m = re.match(r" +([a-z][\w:/ .-]*?) \((\d+) of (\d+) runs, first run (\d+)\)", line)
        if m and cur:
            rows[cur][1].append("%s %s/%s" % (m.group(1), m.group(2), m.group(3)))
for k in sorted(rows):
    print("| %s | %s |" % (k, rows[k][0] or "; ".join(rows[k][1][:2])))
