"""Writes MANIFEST.json"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ATOM = 'TLA+ specification of the atom (AtomCore/AtomMC) run by TLC; its behaviours are replayed on the code, every observation compared'
TAB = 'TLA+ specification enumerated by TLC; every state it prints is judged against the code'
T = {c: ATOM for c in 'C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C22 C23 C24'.split()}
T.update({c: TAB for c in 'C01 C15 C16 C17 C18 C19 C20 C21 C25'.split()})
NOTE = {
 'C01': 'Exhaustive over I and J within the bounds of ShiftMC; both number forms and every first access are drawn per row.',
 'C20': 'Exhaustive 3j/6j in small bounds, sampled beyond, 9j sampled; exact values from prime-factorised integers, compared to 1e-9.',
 'C25': 'Exhaustive over small integer directions and polarisations, transverse ones and a fraction of the others.',
 'C21': 'Component table exhaustive in its bounds; polarisations from rational points of the sphere.',
}
BASE = 'Spec invariants are checked exhaustively on small worlds; the code is checked on the replayed behaviours only (bounded depth, worlds of WorldDefs and RandomWorlds, seeded sampling). Trusts TLC, the decoder in harness/, and float comparison to ~1e-9..1e-12.'
def manifest(claimed, na):
    return {'version': 1, 'setup_cmd': 'python3 -c pass',
            'checks': [{'property': c, 'quick_cmd': f'python3 run.py {c}', 'thorough_cmd': f'python3 run.py {c} thorough',
                        'evidence_file': f'evidence/{c}.json', 'technique': T[c], 'level': 'model_checking',
                        'level_note': (NOTE.get(c, '') + ' ' + BASE).strip()} for c in claimed],
            'not_applicable': [{'property': p, 'reason': r} for p, r in na],
            'notes': 'No hooks in /repo: the checks use its public interface only.'}
ALL = [f'C{n:02}' for n in range(1, 26)]
if __name__ == '__main__':
    claimed = [c for c in ALL if c in T]
    na = [(c, 'Applicable; its check is not written yet.') for c in ALL if c not in T]
    json.dump(manifest(claimed, na), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
