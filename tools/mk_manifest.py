"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'exhaustive small placements + random generation against a complex128 reference model',
 'C02': 'random circuits against a complex128 reference model (differential)',
 'C03': 'random and structured states, round trip and structural invariants',
 'C04': 'random circuits and states, differential against the state-vector model, structural invariants',
 'C05': 'random circuits, states and memory layouts, differential against the state-vector model',
 'C06': 'random batches, differential against element-by-element evolution and the model',
 'C07': 'random circuits, states, observables; differential between back ends and against the model',
 'C08': 'random states and observables against a probability-based oracle',
 'C09': 'random MPS pairs and local observables against state-vector overlaps',
 'C10': 'random circuits; gradient against 4th-order central differences of the complex128 model',
 'C11': 'random circuits; sweep gradient against central differences of the complex128 model',
 'C12': 'random circuits and forms; autograd against central differences of the complex128 model',
 'C13': 'random operations; inverse and adjoint metamorphic relations plus the model',
 'C14': 'model-based update histories; differential against freshly built operations',
 'C15': 'stateful model-based histories of circuits against a list model',
 'C16': 'stateful histories with bit-for-bit snapshots of every input, repetition as metamorphic relation',
 'C17': 'random density matrices, round trip and structural invariants',
 'C18': 'random density matrices and qubit lists against an index-contraction oracle',
 'C19': 'generated matrices satisfying or violating each predicate by a known amount',
 'C20': 'random encodings against the model, differential between the four forms',
 'C21': 'random data against closed-form oracles and state invariants',
 'C22': 'random legacy circuits against the reference model, recorded-gate model, rejections',
 'C23': 'every layer function with random parameters against products of reference gates',
 'C24': 'random images and weights against a patch simulator and its central differences',
 'C25': 'random operations and updates; metadata against the specification and the measured matrix',
 'C26': 'enumerated and random impossible calls, each paired with a possible one',
 'C27': 'random losses through every differentiable function; autograd against central differences of the complex128 model',
 'C28': 'random training histories; loss and gradient of every step against the model at the current parameters',
 'C29': 'random and structured blocks, round trip and structural invariants',
 'C30': 'histories on an original and its copy; differential against the model of each side',
 'C31': 'random matrices and user-defined operations against block definitions and the reference model',
 'C32': 'random circuits on large registers against a simulation of the touched qubits',
 'C33': 'random schedules (threads, interleavings) of independent jobs against the model; snapshots of process-wide settings',
 'C34': 'random sequences of failing calls and injected faults; snapshots before and after, model-based evaluation afterwards',
}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
claimed = [p['id'] for p in props]
checks = [dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'./check {i} --tier thorough', evidence_file=f'evidence/{i}.json',
               technique='property-based testing (Hypothesis): ' + T[i], level='exploration',
               level_note='Generated-input search with shrinking, exhaustive only over the small placements named in the evidence rule; trusts the numpy '
                          f'reference model in pbt/ref.py, torch and Hypothesis; registers of at most {20 if i == "C32" else 10} qubits; agreement up to the float32 tolerances in DESIGN.md.')
          for i in claimed]
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
         notes='Pure Python: a check imports /repo\'s working tree afresh, nothing is built. No hooks in /repo. ./check Cxx --replay FILE re-runs a counterexample.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
