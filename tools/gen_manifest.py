#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E, F = 'exploration', 'fault_enumeration'
OPEN = 'Runs the real code on generated executions; a pass says that no monitor saw a violation on those executions, whose number and kinds are in the evidence. Trusts the monitors in /verif/harness (own reader of the file format, reference model) and the Rust toolchain.'
T = {
 'C01': (E, 'offline checker: independent decoder of the file against a recorded history (conservation, exactly-once)', OPEN),
 'C02': (E, 'offline checker: reader that only follows the index, against the recorded history', OPEN),
 'C03': (E, 'offline checker: every statistics block recomputed from the points it covers', OPEN),
 'C04': (E, 'offline checker: strict forward scan and index walk that must tile the file and agree', OPEN),
 'C05': (E, 'overflow-checked build and panic monitor, round-trip oracle with independent decoders', OPEN),
 'C06': (E, 'offline checker: independent Snappy decoder and differential runs under every compression', OPEN),
 'C07': (E, 'online monitor of every call against a reference model', OPEN),
 'C08': (E, 'panic monitor, online monitor of answers, differential run without the illegal calls', OPEN),
 'C09': (E, 'differential trace monitor: batch against single writes', OPEN),
 'C10': (E, 'differential monitor over repeated runs, processes, build profiles and permutations', OPEN),
 'C11': (F, 'fault injection at every output call, monitors of answers and bytes', 'For each sampled history every single output call is failed in turn with several errors; histories are sampled. Faults are injected at the libc interface of this process.'),
 'C12': (F, 'event log of output calls, every crash prefix decoded by a recovering reader', 'For each sampled history every prefix at a call boundary (and every byte for small files) is judged; histories are sampled. Crashes are modelled as prefixes of the recorded output, which is itself checked to be append-only; killed processes confirm it.'),
 'C13': (E, 'online monitor of results and on-disk state over call orders and paths', OPEN),
 'C14': (E, 'allocation and file growth monitors over long streams', OPEN),
 'C15': (E, 'offline checker: independent Bloom filter, overflow-checked build', OPEN),
 'C16': (E, 'monitors of schema reports, answers and stored codes', OPEN),
 'C17': (E, 'AddressSanitizer, LeakSanitizer and Miri over generated C-interface call sequences, byte oracle', OPEN),
 'C18': (E, 'offline checker: independent log decoder', OPEN),
 'C19': (F, 'fake receiver recording the wire, with faults at every byte of the reply', 'Replies are cut and changed at every byte; the other inputs are sampled.'),
 'C20': (F, 'fake receiver recording the session, with faults at every step', 'Every step is failed in every way listed; files and schemas are sampled.'),
 'C21': (E, 'wire monitor with an independent protocol implementation', OPEN),
 'C22': (E, 'Miri on three targets as undefined-behaviour monitor, byte oracle from a native run', OPEN),
 'C24': (E, 'byte oracle over generated uses of the Python classes under a memory-overwriting allocator and valgrind memcheck', OPEN),
 'C23': (E, 'ThreadSanitizer and byte oracle over concurrent and interleaved writers', OPEN),
}
import sys
have = sys.argv[1:] or sorted(T)
full = subprocess.run(['git','-C','/repo','log','--format=%H','--grep','^verif: hooks'],capture_output=True,text=True).stdout.split()
m = {
 'version': 1,
 'setup_cmd': './setup.sh',
 'hooks': {'guard': 'tsfile_verif', 'enable': 'RUSTFLAGS="--cfg tsfile_verif" cargo build (see lib.sh)', 'source_commits': full[::-1]},
 'checks': [{'property': p, 'quick_cmd': f'./check.sh {p} quick', 'thorough_cmd': f'./check.sh {p} thorough',
   'evidence_file': f'evidence/{p}.json', 'technique': T[p][1], 'level': T[p][0], 'level_note': T[p][2]} for p in have],
 'not_applicable': [{'property': p, 'reason': 'check under construction'} for p in sorted(T) if p not in have],
}
json.dump(m, open(os.path.join(V,'MANIFEST.json'),'w'), indent=1)
open(os.path.join(V,'MANIFEST.json'),'a').write('\n')
