#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, '..', 'properties.jsonl'))]
NOTE = {
 'C01': 'every decorated lattice, supercell and basis within the bounds against the exact periodicity of the crystal',
 'C02': 'every Niggli form and basis within the bounds against the exact Niggli conditions',
 'C03': 'every form and basis within the bounds against exact lattice equality and scalar products',
 'C04': 'every transformation matrix within the bounds against the exact infinite crystal',
 'C05': 'state graph of all operation sequences up to the bound, invariants at every state',
 'C06': 'every integer lattice matrix within the bounds against integer geometry',
 'C07': 'every composition within the bounds against counting',
 'C08': 'all 32 groups completely, hash seeds bounded',
 'C09': 'all groups and matrices within the bounds against exact conjugation',
 'C10': 'complete: all 230 entries against an independent reference',
 'C11': 'complete over all valid operation codes; general decoder bounded',
 'C12': 'every Niggli form and basis within the bounds against exact holohedry and centring',
 'C13': 'every Niggli form and basis within the bounds against the tabulated reductions',
 'C14': 'every description of a crystal within the bounds compared with every other',
 'C15': 'all rotations, translations and offsets of the grid as pairs',
 'C16': 'all 230 types, generating lists within the bounds, against exact closure',
 'C17': 'all 230 types and cells within the bounds against exact change of basis',
 'C18': 'crystals of all 230 types and all grid decorations against exact space-group type',
 'C19': 'crystals of all 230 types; completeness against the exact standard setting',
 'C20': 'every reported operation list against the exact group of the crystal',
 'C21': 'hash seeds, site orders and names enumerated within the bounds',
 'C22': 'displacements enumerated within the bounds, compared with the undisplaced crystal',
 'C23': 'Python module driven with every input within the bounds, compared with the Rust calls',
 'C24': 'all values and all strings within the bounds',
 'C25': 'all grid values around every limit',
 'C26': 'all types, mirrored and not, in bases of both hands',
 'C27': 'displacements around and above the tolerance enumerated; termination by watchdog',
 'C28': 'crystals within the bounds in several units of length, compared with each other',
 'C29': 'every site and direction within the bounds against the exact group of the moved crystal',
 'C30': 'noise patterns enumerated, compared with the undisturbed crystal',
 'C33': 'all malformed calls within the bounds through the real Python module, each followed by a good call',
 'C34': 'exact conjugation decides whether each transformation has a result or must be refused',
 'C35': 'all bounded call sequences against single calls in fresh processes; pairs of calls in two threads',
 'C36': 'all bounded chains of returned cells, compared with the analysis of the first crystal',
 'C37': 'all extreme tolerances within the bounds; composition of returned cells, termination by watchdog',
 'C38': 'all bounded combinations of orientation, periodic images, form of coordinates and origin, compared with one another',
 'C39': 'all chains of changes of basis within the bounds against the exact group in the last cell',
 'C40': 'all listed large cells against the answer for the small one',
 'C41': 'all tolerances of the list against one another',
 'C32': 'all ways to share positions within the bounds against the exact crystal and its group',
 'C31': 'all malformed inputs within the bounds; refusal and termination by watchdog',
}
checks = [{
    'property': p['id'],
    'quick_cmd': './check.sh %s quick' % p['id'],
    'thorough_cmd': './check.sh %s thorough' % p['id'],
    'evidence_file': 'evidence/%s.json' % p['id'],
    'technique': 'bounded exhaustive exploration of the real code against an exact integer model',
    'level': 'model_checking',
    'level_note': NOTE[p['id']],
} for p in props]
json.dump({'version': 1, 'setup_cmd': './check.sh build', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo. known_findings.txt lists accepted and repaired findings.'},
          open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
