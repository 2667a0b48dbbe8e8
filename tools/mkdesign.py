#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re

HOW = {
    'C19-merge-sub': 'missed at first: only gates of one size were merged; GateAlgebra now has the arity of a gate, and gates of different sizes must refuse',
    'C20-tagremover': 'missed at first: no tag of a derived class; Chain has them now',  # what of the check catches it, where that is worth saying
    'C01-fusion-first': 'replay `sim`, C++ with fusion (an existing test fails with it too, so it does not count)',
    'C04-refused': 'missed at first: a refused release ended the behaviour; Lifecycle now goes on after it',
    'C06-order': 'missed at first: ids were always small and the command was copied before its order was looked at; ids now start at random offsets',
    'C08-one-local': 'missed at first: one work qubit per section; `WorkPair` now takes two',
    'C10-cnu4': 'missed at first: never more than three controls; profile `decwide` goes to five',
    'C10-qubitop-phase': 'missed at first: most controls were in basis states; new qubits now mostly start in superposition (`Spread`)',
    'C21-pairwise': 'missed at first: module TermSets enumerates all sums of terms',
    'C24-qft-cutoff': 'missed at first (six qubits at most); WideCircuit validates circuits of up to 28',
    'C15-approx-add': 'missed at first (six qubits at most); WideCircuit validates circuits of up to 28',
}
rows = []
for p in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(p))
    m = json.load(open(p))
    cell = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    rows.append(f"| {i} | {cell(m['what_it_breaks'])} (needs: {cell(m['needs'])}) | {m['property']}{': ' + HOW[i] if i in HOW else ''} |")
table = '<!-- seeded -->\n| planted bug | what it breaks | caught by |\n|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
s = open('/verif/DESIGN.md').read()
s = s.replace('SEEDED_TABLE', '<!-- seeded -->\n<!-- /seeded -->')
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: table, s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
