"""Writes MANIFEST.json: one entry per check module present, not_applicable for the pure properties."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

TECHNIQUE = {
    'C01': 'deterministic simulation: seeded interleavings of draws and refills, reference stream',
    'C02': 'deterministic simulation with exceptions injected at every refill line, reference stream',
    'C03': 'deterministic simulation: adversarial generator output behind a seam, independent geometry oracle',
    'C04': 'deterministic simulation: simulator-owned sampler delivering extreme points, exact reference sums',
    'C05': 'deterministic simulation: ledger of every key handed out over seeded histories',
    'C06': 'deterministic simulation: seeded line-level thread scheduler, sequential reference models',
    'C07': 'deterministic simulation: operation histories with exceptions injected at lines, algebra reference model',
    'C08': 'deterministic simulation: read/assign histories with interrupted reads, fresh-graph and numpy oracles',
    'C09': 'deterministic simulation: process starts with seeded hash seeds and creation orders, cross-process equality',
    'C10': 'deterministic simulation: simulator-owned point source with degenerate points, disturbed iteration histories',
    'C11': 'deterministic simulation: training script under simulated clock, disk and hash seed, prefix equality',
    'C12': 'deterministic simulation: simulated disk with crash, torn-write and error enumeration, version history',
    'C13': 'deterministic simulation: simulated clocks with wall-clock jumps, step-count model',
    'C14': 'deterministic simulation: simulated clock deciding where the budget falls, files recomputed',
    'C15': 'deterministic simulation: training runs under simulated clock and disk, ledger of all keys and samples used',
    'C16': 'deterministic simulation: training runs under simulated clock and disk, step history against an optimiser model',
    'C17': 'deterministic simulation: pairs of training runs at simulated start instants, folders and keys compared',
    'C18': 'deterministic simulation: simulator-owned point source and volume ratios, exact reference averages',
    'C19': 'deterministic simulation: call histories inside traced functions with aborted traces, fresh-object reference',
    'C20': 'deterministic simulation: sweeps of several training jobs under a virtual clock with failing file operations, single-run reference',
    'C21': 'deterministic simulation: long histories of draws, training steps and calls with injected failures, count of arrays and compilations',
    'C22': 'deterministic simulation: generator behind a seam delivering extreme numbers and each number replaced in turn, set and influence oracle',
}
NOTE = {
    'C02': 'every executed line of the refill path is a fault position in the enumerated cases; histories are sampled',
    'C12': 'every file operation and every torn prefix class of the simulated runs is enumerated; runs are sampled',
}
PURE = ('is a pure function of its input: no schedule, clock, I/O, fault or other party can change the result, '
        'so a simulated execution has nothing to vary that the property depends on')
NA = {
    'N01': 'coordinate and index conversion ' + PURE,
    'N02': 'the metric formula ' + PURE,
    'N03': 'the pulled-back metric ' + PURE,
    'N04': 'the metric and curvature at a point ' + PURE + ' (history effects are covered by C08)',
    'N05': 'the reduced basis ' + PURE,
    'N06': 'decoding a parameter vector ' + PURE,
    'N07': 'batched evaluation ' + PURE,
    'N08': 'a statistical statement about the distribution over keys; one simulated run decides nothing about it, and '
           'each sample is a pure function of its key',
    'N09': 'the accuracy measure and loss ' + PURE,
    'N10': 'feature construction ' + PURE,
}


def main():
    checks, na = [], []
    for line in open(os.path.join(VERIF, 'properties.jsonl')):
        pid = json.loads(line)['id']
        if pid in NA:
            na.append({'property': pid, 'reason': NA[pid]})
            continue
        if not os.path.exists(os.path.join(VERIF, 'sim', 'checks', pid.lower() + '.py')):
            continue
        mod = importlib.import_module(f'sim.checks.{pid.lower()}')
        checks.append({
            'property': pid, 'quick_cmd': f'./run.sh {pid}', 'thorough_cmd': f'./run.sh {pid} --thorough',
            'evidence_file': f'evidence/{pid}.json', 'technique': TECHNIQUE[pid], 'level': mod.LEVEL,
            'level_note': NOTE.get(pid, 'seeded sample of executions, each exactly repeatable; bounded sizes as in DESIGN.md')})
    manifest = {
        'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
        'notes': 'No hooks in /repo are needed: all seams are patched from the harness. Checks write only to out/ and '
                 'evidence/ (both ignored by git) and to scratch directories they create and remove.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


main()
