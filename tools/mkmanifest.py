"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': 'Every function of number.hh and number_flint.hh that computes, compares, converts or moves numbers is proved against one specification table, for all operands, with and without aliased operands. Assumes the FLINT functions meet their contracts; printing is under C13.',
 'C02': 'Every function of Tableau that reads, writes or walks the matrix is proved against an abstract matrix with a representation invariant (sorted rows, exact column sets), for all sizes and entries. Assumes the standard containers meet their contracts and the numbers those of C01.',
 'C03': 'Proved for all states: a matrix whose entries are those of pivoting has the same solutions with the two variables exchanged (lemmas over unbounded sums), the solver exchanges the variables accordingly, and simplify_ keeps the value of each entry of a row. That Tableau::pivot produces these entries and keeps the sparse representation is decided by a bounded stand-in (random matrices against an exact dense reference).',
 'C04': 'The equations between the assignment and the tableau, and the one-to-one correspondence of variables with rows and columns, are an invariant proved of update_, pivot_, select_, update_bound_, solve and store_sat_assignment for all states. The contract of propagate_ is assumed here and proved under C08; that prepare sets the invariant up is proved under C12; optimize keeps it (C09).',
 'C05': 'It is proved for all states that solve returns true only if every active bound is satisfied exactly, through the contracts of enqueue_, update_, pivot_, select_ and update_bound_. That preparation gives each constraint an equivalent bound, registered under its literal, and a state in which the whole invariant of the propagator holds, is proved of prepare, too. That the propagator passes all this on is proved of check, propagate and init: every constraint whose literal clingo reports is enforced in the solver of its thread, facts of earlier solve calls included, and the invariants hold again after each call. The contract of propagate_ is assumed here and proved under C08.',
 'C06': 'It is proved that every conflict clause added by the solver is refuted: no assignment of the variables that satisfies the equations satisfies all bounds whose literals the clause negates. The final linear-arithmetic step is a lemma over unbounded sums, proved by induction.',
  'C07': 'It is proved for all states that undo restores exactly the bounds from before the level was opened together with values that satisfy them and the equations, through an invariant on what undoing each open level would restore, which solve, update_bound_, update_, pivot_, store_sat_assignment and the functions of Variable preserve. The invariants hold again after Propagator::propagate and Propagator::undo, whether or not a conflict was reported in between. Assumes clingo calls undo once per level.',
 'C08': 'It is proved that every clause added by bound propagation is implied by the equations and the bounds of the negated literals. The clauses prepare adds are proved to hold whenever the constraints do.',
 'C09': 'It is proved for all states that optimize, if it returns, reports a bounded objective exactly if the value is the maximum over all solutions within the bounds, and otherwise leaves a ray that meets no bound and along which the objective grows without limit; the equations, bounds and what undo restores are kept. Solving keeps the objective variable basic and free of bounds; that prepare gives it a row with the sum of the objective, and no bounds, is proved, too, and so is that Propagator::check leaves an optimal assignment whenever clingo\'s assignment is total. Termination is not claimed.',
 'C10': 'The objective exchange (ObjectiveState) and the solver functions that assert and discard bounds on the objective are proved for all states, sequentially, and so is that Propagator::check takes over the best objective, asserts the improved bound and discards bounded objectives after an unbounded one; the mutex is assumed to serialize. A bounded run of random solver histories stands beside it.',
 'C11': 'All functions that turn theory atoms into constraints are proved for all theory atoms: what is accepted, and that the constraints, conditions and objectives produced hold for the same values as the atoms. Trusted: regular expression and decimal conversion, unescaping of strings, clingo accessors.',
 'C12': 'It is proved of prepare, for all constraints, objectives and literals, that each constraint whose literal is not false gets exactly one bound under its literal that holds for the same values (sums of rows, signs and epsilon included), that constraints that cannot hold are forced to be false, that every clause added is valid, and that the solver starts in a state satisfying the invariants of C04-C09; of init, that it establishes what prepare requires and watches each literal. Assumes fewer than 2^32 variables and constraints, and an epsilon smaller than the differences of the numbers that occur.',
 'C13': 'The propagator\'s interface functions (symbol registry, lookup, values, objective) are proved for all states against the contracts of the solver. The facade (look-up, iteration, values, extension of models), the C functions that pass calls on and the output operators of numbers are proved over these contracts; FLINT\'s text of an integer and clingo\'s terms are assumed to be functions of what they are built from.',
 'C14': 'The option parsers, the configuration, registration and validation functions are proved for every option string, over a model of C strings. The command line of the application is covered by bounded end-to-end runs.',
 'C15': 'The heuristic functions are proved for all states and literals, including that the state is unchanged; clingo\'s callbacks and their registration (a decision callback exactly with a heuristic) are proved to pass on what they are given.',
 'C16': 'The summation over threads and solve calls, one increment per exchange of variables, one per clause added for a bound, and the way of the statistics to clingo are proved.',
}
NA = {
 'C17': 'termination of the simplex search (Bland\'s rule) is a whole-history liveness property: the argument needs a potential over all tableau bases that no per-function contract in reach expresses; the contracts here are partial correctness contracts',
 'C18': 'race freedom quantifies over thread schedules; sequential contracts cannot express it and no verifier with permissions for C++ is installed',
 'C19': 'completeness and answer-set correctness of the whole solver depend on clingo\'s search, which is not in /repo; the per-function contracts (C04-C09, C11, C12) cover this repository\'s side',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
extra = {}
p = os.path.join(HERE, 'tools', 'manifest_notes.json')
if os.path.exists(p):
    extra = json.load(open(p))
NOTE.update(extra)
checks, na = [], []
for i in ids:
    if i in NOTE:
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'contracts on the real C++ functions, obligations generated from the extracted syntax trees and discharged by z3/cvc5',
                       'level': 'proof', 'level_note': NOTE[i]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'make -C tools', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the checks extract the functions from /repo\'s sources as they are. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
