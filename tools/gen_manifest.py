#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = [l.split()[0] for l in open(root + '/tools/crates.txt') if l.strip()]
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
T = 'deterministic simulation with fault injection'
THREADS = ('Real engine, queue and standard-library code on real threads under a scheduler that decides every switch, clock reading and '
           'blocking call from one seed; sampled, not enumerated; sequentially consistent memory is assumed.')
REALM = ('Real realm code driven by simulated clients over a simulated message network, compared with a reference model after every step; '
         'sampled, not enumerated.')
NOTES = {
 'C01': THREADS, 'C02': THREADS, 'C03': THREADS, 'C04': THREADS, 'C05': THREADS,
 'C06': 'Real time-warp code under a simulated, jumping clock against exact stepwise arithmetic; sampled, not enumerated.',
 'C07': REALM, 'C08': REALM, 'C09': REALM, 'C10': REALM, 'C11': REALM, 'C12': REALM,
 'C13': 'Real exported C functions and native calls driven side by side; sampled, not enumerated.',
 'C14': 'Real exported C functions called by simulated host and finalizer threads over a tracking allocator that poisons and checks; sampled, not enumerated.',
 'C15': 'Real serializer and loader compiled against stand-ins for the flatbuffers runtime and its generated code, the stored bytes cut short by simulated crashes; sampled, not enumerated.',
 'C16': 'Real loader compiled against stand-ins for the flatbuffers runtime and its generated code, fed damaged and crafted data; sampled, not enumerated.',
 'C17': 'The real generators run inside the simulator with every file function they call replaced by a simulated disk that injects faults and crashes; sampled, not enumerated.',
}
NA = {
 'C18': 'Easing is a pure function of its arguments: no schedule, clock, fault or interleaving for a simulation to decide.',
 'C19': 'Symbol mangling is a pure function evaluated at compile time: no schedule, clock, fault or interleaving for a simulation to decide.',
 'C20': 'The demo applications need a window system and a GPU, which do not exist here, and hold no seam behind which to simulate them.',
}
m = {
 'version': 1,
 'setup_cmd': './setup.sh',
 'hooks': {
  'guard': 'tp_sim (a rustc cfg)',
  'enable': 'RUSTFLAGS="--cfg tp_sim", set by tools/env.sh for the simulator builds',
  'source_commits': os.popen("git -C /repo log --format=%H --grep='Add simulation-only Collaction constructor'").read().split(),
 },
 'checks': [{
  'property': p, 'quick_cmd': './check.sh ' + p, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p,
  'technique': T, 'level': 'exploration', 'level_note': NOTES[p],
 } for p in claimed],
 'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id']) or 'No check for it yet.'} for p in props if p['id'] not in claimed],
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
