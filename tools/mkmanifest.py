#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = 'TLA+ stream specification, complete behaviour graph from TLC replayed on the real FIFO under a deterministic scheduler'
SC = 'Half of the schedules sequentially consistent, half with x86 store buffers; assumes the calling protocol of one writer and one reader; exhaustive over the operation sequences of the small configurations, sampled over the interleavings inside each operation.'
SYS = 'TLA+ specification of graph execution: TLC decides which programs must terminate, and checks every recorded execution of the real library against it (trace validation)'
SYSN = 'Sampled programs and thread schedules (deterministic simulator, half of them with x86 store buffers); every recorded execution is decided by TLC. Only kernels that consume what they are given.'
TOPO = 'TLA+ denotation of graph expressions: all expressions up to a size enumerated by TLC and random larger ones, built by the real operators, compared by TLC with what they denote'
TOPON = 'Exhaustive over the expressions of up to 3 (thorough: 5) operators over a fixed set of kernels, sampled beyond; port names, types and order markers sampled.'
T = {
 'C01': (REPLAY, SC), 'C02': (REPLAY, SC), 'C03': (REPLAY, SC), 'C04': (REPLAY, SC), 'C05': (REPLAY, SC),
 'C06': (REPLAY, SC), 'C07': (REPLAY, SC), 'C09': (REPLAY + '; TLA+ model of the ring and its resize hand-shake on store buffers', SC), 'C10': (REPLAY + '; growth policy by trace validation of graph executions', SC),
 'C08': (SYS, SYSN), 'C11': (SYS, SYSN), 'C12': (SYS, SYSN), 'C13': (SYS, SYSN), 'C14': (SYS, SYSN),
}
T.update({
 'C15': (TOPO, TOPON), 'C16': (TOPO, TOPON), 'C17': ('TLA+ specification of breadth first search checked over all small graphs; the real searches and exports judged by TLC', TOPON),
 'C19': ('TLA+ ownership model, every behaviour up to a depth replayed on the real factory, wrappers and map; recorded object lifetimes of graph programs judged by TLC', TOPON),
})
T.update({
 'C18': ('TLA+ specification of an array divided over workers: all plans of small arrays enumerated by TLC and random larger ones performed by real kernels on simulated threads, what every worker saw and the array afterwards judged by TLC', 'Exhaustive over worker plans of arrays of 3 elements (thorough 5), every length/worker count in a grid, sampled beyond; 7 element types covering every storage class; one simulated schedule per plan'),
 'C20': ('TLA+ specification of streams fed in batches into one sink: all small batches enumerated by TLC and random longer ones carried by real graphs of the ready-made kernels, every output explained by TLC', 'Exhaustive over small batches of up to 3 streams, with sampled combinations of sources, stages and sinks; sampled lengths up to 120 and 6 streams; 7 element types; one simulated schedule per graph'),
 'C21': ('TLA+ specification of chunked reading and searching: all small files, chunk sizes, overlaps and terms model checked and enumerated by TLC, performed with real files by the real kernels and random larger ones, judged by TLC', 'Exhaustive over files of up to 5 (thorough 8) letters, chunks of up to 4 (6) bytes and every overlap; sampled for sizes up to 512 around chunk boundaries and a few files over 16 MB; one simulated schedule each'),
 'C22': ('TLA+ specification of port tables: all declaration sequences up to a depth enumerated by TLC and random larger ones performed on real kernels, every table, look-up and attached stream judged by TLC', 'Exhaustive over the declaration sequences of small name sets (depth 2, thorough 3), sampled for up to 60 names and 40 calls.'),
 'C23': ('TLA+ specification of placement: all programs of placement calls up to a depth enumerated by TLC and random ones executed on simulated threads with a recording stand-in for the affinity call, judged by TLC', 'Exhaustive over the calls of small alphabets, sampled beyond; one simulated schedule per program; the number of cores is simulated.'),
 'C24': ('TLA+ specification of ranges: all small ranges walked and enumerated by TLC, computed by the real function in 22 pairs of types and at the limits of each, judged by TLC', 'Exhaustive over ends from -6 to 6 and steps up to 5 (thorough -20 to 20, 24), each mapped to many places and scales of each type; random larger ones. Fractions are exact ones.'),
})
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {}
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'checks': [{'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                 'evidence_file': 'evidence/%s.json' % p, 'technique': T[p][0], 'level': 'model_checking', 'level_note': T[p][1]}
                for p in props if p in T],
     'not_applicable': [{'property': p, 'reason': NA.get(p, 'check under construction')} for p in props if p not in T],
     'notes': 'TLA+ specifications in spec/, checked with TLC; harnesses in harness/ bind them to the code; see DESIGN.md'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
