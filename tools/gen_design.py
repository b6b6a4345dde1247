"""Writes DESIGN.md from the template, the findings and the planted bugs"""
import json
import os
import gen_findings
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# planted bugs that the checks missed at first, and what was added for them
LATER = {
    'readd-sublevels': 'C08 asks for the links of sublevels of levels that were removed and added again',
    'big-g': 'values far off the range of atoms, and negative zero',
    'conf-parts': 'configurations with several subshells before the core',
    'zero-freq': 'not caught: the model keeps levels apart, so no transition is assigned a frequency of zero',
 'faint-ellipse': 'polarisations that are elliptic by little',
 'duck-load': 'files that hold the parts of an atom, or a look-alike',
 'rank-rounded': 'levels a tenth of the unit of energy apart',
 'second-limit': 'rows with three alternative J',
 'lifetime-key': 'nothing compares as close to infinity',
 'df-abort': 'tables with several rows for one transition',
 'slice-back': 'slices with steps, in both directions',
 'same-atom': 'fields given to the constructor in G, kG and mG',
 'pick-term': 'percentages that are no whole numbers',
 'self-first': 'random levels that share a configuration',
 'hf-A-none': 'A coefficients of zero in random worlds',
 'lk-letters': 'LK terms up to the last orbital letter',
 'multiplicity': 'random states with high spins and momenta in C16',
 'shift-cache': 'a world with an octupole shift in C22',
}
if __name__ == '__main__':
    rows = ['| change | breaks | needs | caught by | missed at first; added since |', '|---|---|---|---|---|']
    for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
        rows.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {'-' if d == 'zero-freq' else m['property']} | {LATER.get(d, '')} |")
    s = open(os.path.join(ROOT, 'tools', 'design_template.md')).read()
    s = s.replace('@@TABLE@@', '\n'.join(rows)).replace('@@N@@', str(len(gen_findings.FIXED)))
    assert '@@' not in s
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(s)
