#!/usr/bin/env python3
"""Junction lists of TLA+ whose bullets nearly line up: a bullet one or two columns off
belongs to another list than the eye says."""
import re, sys, glob, os
bad = 0
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "*.tla"))):
    open_ = []
    for n, line in enumerate(open(f), 1):
        code = line.split("\\*")[0].rstrip()
        if not code.strip() or code.startswith("(*"):
            open_ = [] if not code.strip() else open_
            continue
        lead = len(code) - len(code.lstrip())
        cols = [(m.start(), m.group()) for m in re.finditer(r"/\\|\\/", code)]
        if cols and cols[0][0] == lead:
            c, k = cols[0]
            if not any(o == c for o, _ in open_) and any(0 < abs(o - c) <= 2 for o, _ in open_):
                print("%s:%d: %s" % (os.path.basename(f), n, code.strip())); bad += 1
        open_ = [(o, k) for o, k in open_ if o < lead or (o == lead and cols and cols[0][0] == lead)]
        for c, k in cols:
            before = code[:c].rstrip()
            if c == lead or re.search(r"(==|->|IN|THEN|ELSE|=>|<=>|:|\(|/\\|\\/)$", before):
                open_.append((c, k))
sys.exit(1 if bad else 0)
