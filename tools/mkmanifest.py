#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = 'deterministic simulation: '
C = [
 ('S01', 'exploration', 'seeded search over read delivery (short, interrupted, delayed reads, wrong size hints) of random and recorded replays, against one undisturbed run'),
 ('S02', 'fault_enumeration', 'seeded search over open and read errors at every reading entry point; a delivered error must surface'),
 ('S03', 'exploration', 'seeded search over damage to archive and parts; no panic, hang, over-allocation or change of undamaged parts'),
 ('S04', 'fault_enumeration', 'seeded search over bad files in a batch, against each file scanned and exported alone'),
 ('S05', 'fault_enumeration', 'seeded search over write faults and full disks during exports; tables are read back'),
 ('S06', 'fault_enumeration', 'seeded search over kill points (also inside a write), restart on the surviving disk'),
 ('S07', 'exploration', 'seeded search over worker counts and thread schedules, against the serial run'),
 ('S08', 'exploration', 'seeded search over thread schedules and vanishing files, identity columns of all tables compared'),
 ('S09', 'exploration', 'seeded search over listing orders, schedules and hash seeds, against exact counts'),
 ('S10', 'exploration', 'seeded search over random histories and read faults, against the recorded streams'),
 ('S11', 'exploration', 'seeded search over random histories, refinement against an executable reference model after every event'),
 ('S12', 'exploration', 'seeded search over histories and filters, against the unfiltered timeline'),
 ('S13', 'fault_enumeration', 'seeded search over save points, process restart and disturbed save files, against the uninterrupted timeline'),
 ('S14', 'exploration', 'seeded search over interleavings of independent callers, against each call alone'),
 ('S15', 'exploration', 'seeded search over random histories, rows against the reference model'),
 ('S16', 'fault_enumeration', 'seeded search over directory trees, listing orders and failing listings, against a reference walk'),
 ('S17', 'fault_enumeration', 'seeded search over balance data, disk faults and kills, read back by a new process'),
 ('S18', 'fault_enumeration', 'seeded search over XML trees, listing orders and read faults, against the generated content'),
 ('S19', 'fault_enumeration', 'seeded search over cut points and undecodable records, against the undamaged prefix'),
 ('S20', 'fault_enumeration', 'seeded search over recorded, random and damaged streams, bulk readers against the records'),
 ('S21', 'fault_enumeration', 'seeded search over random and recorded set-ups, read disturbance and cut parts, against the recorded values'),
 ('S22', 'fault_enumeration', 'seeded search over failing operations and descriptor limits, open descriptors counted during and after each call'),
 ('S23', 'exploration', 'seeded search over random histories, change hints against the state before and after every event'),
 ('S24', 'fault_enumeration', 'seeded search over faults and schedules; every batch call ends within a step bound'),
 ('S26', 'fault_enumeration', 'seeded search over protocol descriptions, read and write faults, full disks, kill points and previous outputs, against an independent reading of the description'),
 ('S25', 'fault_enumeration', 'seeded search over map archives, damage, missing and contradictory parts and read disturbances, against the recorded values'),
]
NOTE = ('Real: the whole library with its dependencies, rayon pool included. Simulated: file system, clock, '
        'randomness, thread scheduling (one seed is one execution). Sampled, not exhaustive; see DESIGN.md.')
NA = [
 ('N01', 'A pure function of its argument: no schedule, time, I/O or second party for the property to depend on. Indirectly exercised by S10, S20 and S03.'),
 ('N02', 'Whether generated text compiles and decodes is decided by the compiler and a pure function; no schedule, time, I/O or fault can change it. What the generator writes is S26; the event layouts in use are exercised by S10, S15 and S20.'),
 ('N03', 'Pure arithmetic on one value; nothing the simulator controls (it controls the clock, which these conversions do not read).'),
 ('N04', 'A pure table look-up; no schedule, time, I/O or fault. S11 compares the delivered ability names for the generated histories.'),
 ('N05', 'Pure arithmetic on one value; no schedule, time, I/O or fault can change it.'),
]
m = {
 'version': 1,
 'setup_cmd': './run.sh build',
 'checks': [{
   'property': i, 'quick_cmd': f'./run.sh {i} quick', 'thorough_cmd': f'./run.sh {i} thorough',
   'evidence_file': f'evidence/{i}.json', 'technique': SIM + t, 'level': l, 'level_note': NOTE} for i, l, t in C],
 'not_applicable': [{'property': i, 'reason': r} for i, r in NA],
 'notes': 'No hooks in /repo: the seams are the C library calls the process makes (interposed in the simulator binary) and compiler-inserted coverage edges, so the library is built unmodified. Known findings and repairs: known_findings.txt.',
}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
