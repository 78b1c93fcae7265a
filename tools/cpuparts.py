#!/usr/bin/env python3
"""(development) regenerate the part table of a processor harness from its PARTS comment"""
import re, sys
for fn in sys.argv[1:]:
    s = open(fn).read()
    m = re.search(r'/\*PARTS( [^*]*)\*/', s)
    s = s[:m.end()] + "\n"
    names = m.group(1).split()
    tab = ""
    for p in names:
        only = None
        if ":" in p: p, only = p.split(":")
        for c, v in (("2050", "cpu50"), ("2030", "cpu30")):
            if only and c != only: continue
            s += "static void %s_%s(void) { C = &%s; %s(); }\n" % (p, c, v, p)
            tab += '    { "%s-%s", %s_%s },\n' % (p, c, p, c)
    s += "mc_part mc_parts[] = {\n" + tab + "    { NULL }\n};\nvoid mc_setup(void) { log_level = 0; ct_init_mem(); cpu50.setup(); cpu30.setup(); }\n"
    open(fn, "w").write(s)
