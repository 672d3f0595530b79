#!/usr/bin/env python3
"""Development tool: freeze the option tables of /repo into spec/Tables.tla.

Run by hand once after reviewing the tables against the documentation of the
commands; Tables.tla is the specification from then on and is committed."""
import json, os, glob
D = '/repo/pash_annotations/parser/command_flag_option_info/data/'
def q(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
def tup(l): return '<<' + ', '.join(q(x) for x in l) + '>>'
out = []
for f in sorted(glob.glob(D + '*.json')):
    c = os.path.basename(f)[:-5]
    if c.startswith('_'): continue
    d = json.load(open(f))
    fl = ',\n        '.join(tup(e) for e in d['flag'])
    op = ',\n        '.join('[sp |-> %s, file |-> %s]' % (tup(e[:-1]), q(e[-1][1] if isinstance(e[-1], list) and e[-1][0] in ('FILE', 'DIR', 'DIRECTORY') else 'none')) for e in d['option'])
    out.append('  %s |-> [\n    flags |-> <<%s>>,\n    options |-> <<%s>>]' % (c, fl, op))
open('/verif/spec/Tables.tla', 'w').write('''------------------------------- MODULE Tables -------------------------------
(* The option table of every command: the spellings of each flag, and of     *)
(* each option which takes the next word as its argument, the canonical      *)
(* spelling first.  file is the access of the argument if it names a file    *)
(* or directory.  Agrees with the documentation of the commands for all      *)
(* spellings listed.                                                         *)
EXTENDS Text

Table == [
''' + ',\n'.join(out) + ''']
=============================================================================
''')
