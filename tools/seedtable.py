#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
head = '## Planted changes and which checks catch them\n'
s = s[:s.index(head)] + head + '''
Each was written from the text of the property, confirmed (builds, stable tests pass, demonstration 0 without and non-zero with it) and is caught by the check of its own property unless the last column says otherwise.

| change | breaks | needs | caught by |
|---|---|---|---|
'''
for d in sorted(glob.glob(os.path.join(here, 'seeded', '*'))):
    m = json.load(open(d + '/meta.json'))
    s += f"| {os.path.basename(d)} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by') or m['property']} |\n"
s += '''
Besides these, about 250 further changes (hand-written in three rounds and generated by `tools/mutate.py`) were tried against the checks; the ones that were missed and not equivalent led to: larger and smaller aircraft, coarse and dense panel counts (C21: up to 333 strips), long lists of
states (C10), reruns of a project with fewer states or other options (C16), `third` editing of settings (C13), three devices on one segment (C02), quoted and non-ASCII text (C12), damaged inputs (C25), the contents of figures (C26), example projects (C27) and the shipped aircraft as inputs of C01 to C09.
'''
open(p, 'w').write(s)
