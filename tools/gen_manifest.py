#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a checks/<id>.py is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CC = 'property-based testing (choice-sequence generators, shrinking; coverage-guided fuzzing in the thorough tier)'
T = {
 'C01': (CC + ' against a count by definition in an independent field', 'generated curves, fields up to 7*10^5 elements'),
 'C02': ('stateful ' + CC + ', differential between three implementations', 'generated histories of count requests'),
 'C03': (CC + ' against an independent factorisation', 'generated curves and request orders'),
 'C04': (CC + ', metamorphic relations and zeta-function laws', 'generated curves and transformations'),
 'C05': (CC + ' against an independently built field', 'generated primes and exponents; every entry of each table'),
 'C06': (CC + ' against the product set written out', 'generated iterators'),
 'C07': (CC + ', orbit sums against the group order and the total mass', 'generated right hand sides; full enumeration for small fields'),
 'C08': ('stateful ' + CC + ' against a map of big integers', 'generated histories of store operations'),
 'C09': (CC + ', round trips and reordering against a map of big integers', 'generated stores and block sets'),
 'C10': ('stateful ' + CC + ' on scratch folders against a model of the folder', 'generated histories of openings and saves'),
 'C11': ('property-based testing of the complete programs against a brute-force census', 'generated configurations'),
 'C12': ('randomised schedule exploration (random walk and priority-based) of the real program under a deterministic scheduler, with shrinking', 'generated schedules'),
 'C13': ('randomised fault injection (kills and failing or short writes at chosen system calls) with resume, against the census', 'generated fault sequences'),
 'C14': (CC + ', round trips and documented variants', 'generated configurations'),
 'C15': ('property-based testing of the program\'s report against an independent count', 'generated argument lists'),
 'C16': ('property-based testing of the MPI program against a brute-force census', 'generated configurations and process counts'),
 'C17': ('property-based testing of the merger on generated folders against a big-integer model', 'generated folders'),
 'C18': ('property-based testing of refusals in separate processes', 'generated impossible requests'),
 'C19': (CC + ' of the kernels compiled for the host against the definition', 'generated fields and group shapes'),
 'C21': ('property-based testing: generated operations repeated, with all allocations, open files and threads counted (metamorphic: many repetitions leave as much behind as few)', 'generated operations and inputs'),
 'C22': ('model-based testing: generated histories of blocks, waits, configurations and clock jumps on real pools, against a model of when a save is due', 'generated histories'),
 'C23': ('property-based testing of the programs, with threads stopped and released in generated patterns', 'generated configurations and release patterns'),
 'C20': ('stateful ' + CC + ' of the OpenCL code on a simulated driver and device with delayed commands and failing calls, and randomised schedules of runs with devices', 'generated histories, devices and schedules'),
}
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for i in range(1, 1 + sum(1 for l in open(os.path.join(V, 'properties.jsonl')))):
    pid = 'C%02d' % i
    if os.path.exists(os.path.join(V, 'checks', pid.lower() + '.py')):
        tech, note = T[pid]
        m['checks'].append(dict(property=pid, quick_cmd='python3 check.py %s quick' % pid,
                                thorough_cmd='python3 check.py %s thorough' % pid, technique=tech,
                                level='fault_enumeration' if pid == 'C13' else 'exploration',
                                level_note=note + '; says nothing about inputs that were not generated'))
    else:
        m['not_applicable'].append(dict(property=pid, reason='check not built yet'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
