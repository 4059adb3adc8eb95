#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
MC = 'TLC explores the state machine with a symbolic or small-integer data domain within the bounds of its cfg; '
TRUST = 'Trusted: TLC, the BigNum Java override of 10^-24 fixed-point arithmetic (cross-checked against the TLA+ definitions), the recording drivers.'
FLOW = MC + 'every recorded run of the real class is then replayed step by step through Flow.tla, the update equations being evaluated in exact fixed point from the recorded states, noise and inducing points. The bound is the sampled set of configurations (mode flags, backend, dimension, N, M, k, drifts, g, U). ' + TRUST
T = {
 'P01': ('TLA+ model of the import machinery over all library environments (TLC), its histories replayed in fresh interpreters and judged by TraceImports.tla', MC + 'all 56 environments and both import styles are replayed in every quick run. ' + TRUST),
 'P02': ('TLA+ grid specification (TLC) over rational end times, cases replayed on the real constructors, judged by TraceGrid.tla', MC + 'construction of real objects for the enumerated (t1, t2, shape) cases. ' + TRUST),
 'P12': ('TLA+ session model (TLC, with refuted mistakes); simulated histories replayed on real objects and judged by TraceSession.tla', MC + 'histories drawn by TLC in simulation mode are replayed; answers are compared with isolated evaluation under the same draws. ' + TRUST),
 'P14': ('TLA+ definition of the sparse kernel estimate solved in exact arithmetic; recorded estimator calls judged by TraceEstim.tla', 'Each recorded call is compared with the estimate TLC computes in 10^-24 fixed point; the bound is the sampled set of inputs. ' + TRUST),
 'P15': ('TLA+ definition of the sparse kernel estimate; every implementation compared with it and with each other by TraceEstim.tla', 'As P14, for all pairs of implementations and container types. ' + TRUST),
 'P08': ('TLA+ transport problem: exhaustive small plans by TLC, recorded maps judged for feasibility and dual optimality by TraceMap.tla', MC + 'optimality of each recorded map is decided by a dual certificate checked in exact arithmetic. ' + TRUST),
 'P16': ('TLA+ session model of kernel objects (TLC); all sessions replayed on real objects and judged by TraceKernel.tla', MC + 'call sessions enumerated by the model are replayed on real kernel objects. ' + TRUST),
 'P17': ('TLA+ model of the parallel fill (all interleavings, refuted mistakes) and replayed calls judged by TraceCdist.tla', MC + 'the interleavings are explored on the model; the compiled routine is run for the enumerated shapes, prefills and thread counts. ' + TRUST),
}
FLOWS = {
 'P03': 'pinning clauses', 'P04': 'deterministic forward step', 'P05': 'stochastic forward and backward steps', 'P06': 'deterministic backward step',
 'P07': 'reweighting step', 'P09': 'true-drift flow', 'P10': 'interior controls', 'P11': 'edge controls', 'P13': 'coverage', 'P20': 'callback log', 'P21': 'completeness and finiteness', 'P25': 'force queries'}
for p, w in FLOWS.items():
    T[p] = ('TLA+ state machine of flow construction and control queries (TLC); traces of the real classes checked against it by TraceFlow.tla (%s)' % w, FLOW)
for p in ('P18', 'P19', 'P22', 'P23'):
    T[p] = T['P12'][:1] + (MC + 'histories drawn by TLC in simulation mode are replayed; memory sharing, digests and random streams are recorded after every action. ' + TRUST,)

T['P24'] = ('TLA+ model of overlapping constructions (TLC: all schedules of two and three, refuted mistakes); its schedules replayed on real constructions suspended inside of callbacks, judged by TraceSession.tla', MC + 'a sample of the enumerated and simulated schedules is replayed, nested in one thread or with one thread per construction. ' + TRUST)
m = dict(version=1, setup_cmd='python3 run.py setup', checks=[
    dict(property=p, quick_cmd='python3 run.py %s quick' % p, thorough_cmd='python3 run.py %s thorough' % p,
         evidence_file='evidence/%s.json' % p, technique=T[p][0], level='model_checking', level_note=T[p][1]) for p in sorted(T)],
    not_applicable=[],
    notes='TLA+ with TLC; specifications in spec/, drivers and recorders in harness/. No hooks in /repo. known_findings.json lists the repaired defects.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
