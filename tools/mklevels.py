"""writes levels.json: technique, level and note per property (complete: decided by the discharged obligations alone)"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
T = 'contracts on the functions of /repo; obligations generated from the current source by symbolic execution (pyvc) and discharged by z3 and canonical forms'
TB = T + '; parts bounded in the number of objects are labelled; the same contracts evaluated at run time on the real code as stand-in and replay oracle'
ASS = ' Real arithmetic for floating point; torch/numpy/sortedcontainers operations by the assumed contracts listed in the evidence.'
N = {
 'C01': (1, 'Pack/unpack inverse for any number of groups entries, blocks, entries and shapes.'),
 'C02': (1, 'Join/split inverse for every dimension 0-4, any number of blocks and entries; two refusal clauses are bounded to two blocks.'),
 'C03': (1, 'Exact union, refusals and frame condition for any number of blocks.'),
 'C04': (1, 'Flatten/name inverse for any number of blocks, entries, layers.'),
 'C05': (0, 'Each (function, derivative) pair by differentiation of the element function; floating point overflow behaviour only at run time.'),
 'C06': (1, 'All 12 models, with and without weights, all sizes: Lagrangian, stationarity, costate equation; the general base-class functions for any number of states and layers.'),
 'C07': (1, 'Hand-written = automatically derived for the eight models that have both, all sizes, any differentiable nonlinearity, any weight.'),
 'C08': (0, 'Layout, data motion, frame, no history, transposition, recurrent mode for all models and sizes; number of blocks and evaluations bounded.'),
 'C09': (0, 'Settings and refusals for all values; intervals and integration for any number of times and checkpoints, all real times.'),
 'C10': (0, 'Class invariant of the slot lookup for any number of slots, any history; use of the slot in force by every model; registration in the block for 1, 2 and 12 slots.'),
 'C11': (1, 'Any number of blocks and entries, any sizes and strides.'),
 'C12': (0, 'Centre, border parameters, refusals for all sizes; one or two handed-over blocks.'),
 'C13': (1, 'Layers equal the standard layers as functions of input and parameters (convolution and normalisation kernels uninterpreted: same kernel, same arguments).'),
 'C14': (0, 'Any number of time slots; pass structure bounded in the number of evaluations.'),
 'C15': (0, 'Sweep by induction on the number of parameters (base and step discharged), argument lists for any number of settings, merging and runs bounded in the number of settings.'),
 'C16': (0, 'One step from any state with any metric and settings (invariant style: history is arbitrary); any number of parameter groups by induction over the groups (bounded duplicates with one and two groups give concrete counterexamples; saving and loading: one group).'),
 'C17': (1, 'All sizes, magnitudes, constants, models.'),
 'C18': (0, 'Forward for all models, all sizes, any integrator (stand-in that returns an arbitrary trajectory); number of handed-over blocks bounded by two.'),
 'C19': (0, 'Any sequence by an arbitrary starting state; any number of parameters and of names.'),
 'C20': (0, 'Any number of records and of layers, any values (bounded duplicates with up to three layers give concrete counterexamples).'),
 'C21': (1, 'All models and configurations, all sizes.'),
 'C22': (0, 'All models and sizes, any number of registered hooks; removal and recording bounded in the number of hooks and evaluations.'),
}
out = {}
for k, (c, n) in N.items():
    out[k] = dict(technique=T if c else TB, level='proof', complete=bool(c), note=n + ASS)
json.dump(out, open(os.path.join(H, 'levels.json'), 'w'), indent=1)
