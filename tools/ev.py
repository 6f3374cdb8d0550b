#!/usr/bin/env python3
"""ev.py [-c cfg] [-f flavor] [-F flags] [-e enc] [-l file] EXPR... : evaluates on the driver"""
import sys, os, getopt
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from vlib import core
o, a = getopt.getopt(sys.argv[1:], 'c:f:F:e:l:p:')
o = dict(o)
d = core.Driver(cfg=o.get('-c', 'compact'), flavor=o.get('-f', 'rel'), enc=o.get('-e'), files=[o['-l']] if '-l' in o else [])
for x in (a or sys.stdin.read().splitlines()):
    per = o.get('-p', '0:0').split(':')
    r = d.eval([core.case(x, o.get('-F', 'w'), int(per[0]), int(per[1]))])[0]
    print('%-50s => [%d] %s' % (x, r.allocs if r.kind in 'VER' else -1, r.show()))
