"""Writes /verif/MANIFEST.json."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(ROOT, 'sim/orch'))
import importlib
T = {
 'C01': 'deterministic simulation: seeded thread interleavings and exceptions/panics injected at interpreter events; stream identity checked after every call',
 'C02': 'deterministic simulation: noisy module forests under all flag settings, histories and interleavings; recorded stream text and bindings compared across legs',
 'C03': 'deterministic simulation: injected import and attribute failures; bindings compared with a reference run in which the broken parts do not exist',
 'C04': 'deterministic simulation: exceptions, state faults and malformed metadata at every kind of interpreter event; outcome must be a value or an error',
 'C05': 'deterministic simulation: hash seed, entropy, addresses, listing order, threads and process history varied per leg; byte comparison of the bindings',
 'C06': 'deterministic simulation of builder-call histories; item tree compared with the union of single-module reference runs',
 'C07': 'deterministic simulation: libc-level I/O faults, short writes and crash points during build(); file content and result checked',
 'C08': 'deterministic simulation of the real CLI process: libc-level I/O faults, crash points, failing and noisy modules; exit status against delivered bytes',
 'C09': 'deterministic simulation: token scheduler decides every interleaving of 2..4 threads with faults in some; per-thread results compared with solo runs, bounded progress',
 'C10': 'deterministic simulation: effect log and attribute snapshots of the target around calls with and without injected faults',
 'C11': 'deterministic simulation: generated bindings compiled and driven through seeded call histories with faults and interleavings against a Python reference copy',
 'C12': 'deterministic simulation of histories of source texts; bindings compared with a fresh process, embedding function executed',
 'C17': 'deterministic simulation of macro expansion histories in one compiler process with failing, noisy and interfering modules; expansion and diagnostics compared with the text the library generates',
 'C13': 'deterministic simulation: transient and lasting import failures, retry compared with a process in which nothing failed',
}
NA = {
 'C14': 'Acceptance by rustc is a pure function of the inspected module and configuration: no schedule, fault, clock or history is involved, and a compiler run per generated program is input generation, not simulation.',
 'C15': 'Which items appear and under which name is a pure function of the inspected module and configuration; there is nothing for a scheduler or fault injector to decide. (Loss of items under faults, histories and schedules is C03, C05, C06 and C09.)',
 'C16': 'The mapping from an annotation to a Rust type is a pure function of the annotation.',
}
NOTE = {}
checks, na = [], [{'property': k, 'reason': v} for k, v in NA.items()]
for pid, tech in T.items():
    try:
        c = importlib.import_module('checks.' + pid.lower()).CHECK
    except ModuleNotFoundError:
        na.append({'property': pid, 'reason': 'check not finished yet'})
        continue
    checks.append({'property': pid, 'quick_cmd': 'bash check.sh ' + pid, 'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + pid, 'technique': tech, 'level': c.level,
                   'level_note': getattr(c, 'note', None) or ('Seeded search over simulated runs of the real engine: a clean run is evidence, not proof. Assumes: ' + '; '.join(c.assumptions) + '. Stubs: ' + c.stub + '.')})
m = {'version': 1, 'setup_cmd': 'bash sim/build.sh all', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every source of nondeterminism is reached through existing seams (Python import system, sys.monitoring, sys.stdout/err, libc).'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
