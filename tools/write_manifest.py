"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    'P01': 'Histogram oracle from the definition on random configurations, tolerant only within 1e-9 of a bin edge.',
    'P02': 'Brute-force pair search as oracle, exact list comparison up to rounding at the cutoff; sequences of searches on one object.',
    'P03': 'Density modes summed directly over the reported wave-vectors.',
    'P04': 'Shell rule re-derived from all integer vectors; cases with a vector within 1e-9 of a shell boundary are skipped.',
    'P05': 'Direct phase average; compiled and Python variants compared.',
    'P06': 'Direct density-mode correlation.',
    'P07': 'True displacements known by construction of the trajectory.',
    'P08': 'Direct evaluation of the four definitions.',
    'P09': 'Direct variance over origins; generic susceptibility compared for some number of origins (how many it uses is not stated anywhere).',
    'P10': 'Origin interval and lag table re-derived from the step sequence.',
    'P11': 'Metamorphic: partials recombined against the total.',
    'P12': 'Metamorphic: filtered against reduced and relabelled trajectories.',
    'P13': 'Metamorphic: transformed inputs; quantities with boundary effects are compared only away from rounding.',
    'P14': 'Stateful histories of compute, write, read, touch, append and update against a file model, in scratch directories.',
    'P15': 'Stateful histories of calculations on shared objects against fresh ones.',
    'P16': 'Angle histogram from the definition; cases within rounding of a cutoff or bin edge are bounded from both sides.',
    'P17': 'Direct weighted density modes.',
    'P18': 'Exact piecewise-linear, parabolic and least-squares oracles. One known finding is listed.',
    'P19': 'Differential: API and command line against the classes, on files in scratch directories.',
    'P20': 'Metamorphic (added drift) and direct (mass-weighted mean subtracted).',
    'P21': 'Form factors evaluated from the formula.',
    'P22': 'Direct evaluation of the definition.',
    'P23': 'Differential between storage forms, slices and subsets.',
    'P24': 'Kernels called directly: bounds-checked build, guard bytes around arrays, and formula oracles; each case of a memory check runs in a child process.',
    'P25': 'Direct enumeration of pairs.',
    'P26': 'Histogram of plain distances around the centres away from the surface, from the definition.',
    'P27': 'Files of sequences of calculations read back and compared with what was calculated; no file is written by two different calculations.',
    'P28': 'Classes derived in the check record the arrays they find; kernels of the recipes evaluated directly.',
}
checks = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(line)['id']
    assert os.path.isfile(os.path.join(ROOT, 'pbt', 'props', pid.lower() + '.py')), pid
    checks.append(dict(
        property=pid, quick_cmd='/opt/venv/bin/python run_check.py ' + pid,
        thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python run_check.py ' + pid,
        technique='property-based testing: Hypothesis-generated cases against an explicit oracle, with shrinking to a replay file',
        level='exploration',
        level_note=NOTES[pid] + ' Held on every generated case; trusts numpy, the atooms package and the oracle in pbt/.'))
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python run_check.py --setup', checks=checks, not_applicable=[],
                   notes='Every check builds what it needs from /repo; see DESIGN.md. Replay a failure with: '
                         '/opt/venv/bin/python run_check.py --replay <file>.'), fh, indent=1)
    fh.write('\n')
