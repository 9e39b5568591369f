IND = ('Structural induction: every constructor case is executed symbolically from the current source with the contract of the '
       'component assemblers assumed; widths, values and opcodes unbounded, number of components enumerated (4, thorough 5). '
       'Trusted: contracts of hwtypes vectors in vc/sym.py, z3, the load changes in vc/load.py. ')
NOTE.update({
    'C01': IND,
    'C02': IND + 'The validator generator is decided by exhaustive evaluation for all code sets of widths 1-4 and z3 for chosen sets at larger widths (bounded, labelled).',
    'C03': IND + 'Nested sub-slices for five nesting shapes.',
    'C04': IND + 'Explicit codes symbolic; determinism across processes and hash seeds is a bounded check.',
    'C05': IND,
    'C06': IND + 'Component widths are enumerated here (all pairs of 1-5, triples up to 32) because the code builds one slot per bit.',
})
NOTE.update({
    'C07': 'Every path of encode/size/sumsize executed symbolically with abstract components; integers mathematical (Python ints), number of fields 0-4; concrete nested types add a bounded cross-check.',
    'C08': 'Structural induction over generate_assembler with abstract component (assembler, disassembler, width, layout) contracts; component count enumerated; Tuple, TaggedUnion and Sum with raw Bit payload are outside the legacy generator.',
})
PAR = ('Executed on opaque values (uninterpreted sort), so parametric in the stored type; class invariants inferred by Houdini and '
       'proved inductive, so call sequences are unbounded. ')
NOTE.update({
    'C09': PAR + 'The class executed is the one ast_tools produced on this run. Request independence: up to 3 requests with symbolic equality of type, initial value and family.',
    'C10': PAR + 'Any number of cells by the loop invariant of the constructor plus one access from arbitrary contents; the Houdini invariant for 1-4 (thorough 6) and 9 cells.',
    'C11': PAR + 'Attribute names are enumerated (20 shapes); agreement of ordinary attributes with plain Python objects on arbitrary histories is a bounded differential check.',
})
NOTE.update({'C12': 'Symbolic equality of arguments and options; every pattern of equal and different arguments in histories of up to 4 calls (families: 8 kinds incl. user subclasses). Trusted: CPython dict.'})
NOTE.update({
    'C14': 'Types and values opaque (parametric); number of parameters/results and names enumerated (0-4); membership of results in their types symbolic.',
    'C15': 'Types opaque with symbolic equality, function, inputs and family opaque; number and names of fields enumerated. Trusted: CPython exec.',
    'C16': 'Call protocol: values opaque, every operation from every specified state, histories by induction (state equality); number of inputs/outputs enumerated. Search for black boxes: bounded (all component trees of up to 3 nodes, thorough 4, larger sampled).',
})
NOTE.update({'C13': 'Every program of the corpus (42 handwritten, 40 generated; thorough 250) is validated for all inputs, states and hence histories: the unrewritten class on all paths against the class the current rewriter produced, z3 per output and state component. The corpus is finite (the property over all programs is not proved); PyX and Python runs on concrete inputs are a bounded cross-check.'})
TECH.update({'C13': 'translation validation: forking symbolic execution of the unrewritten program against the rewritten one, z3'})
NOTE.update({
    'C23': 'Types opaque with symbolic equality (every pattern of equal and different types is a path); number of architecture and IR paths enumerated (up to 4 x 3). Larger sizes are bounded cases against an independent enumeration.',
    'C24': 'Index variables for every number of entries 1-33 (thorough 80) over all values of the variable; decode on a symbolic integer. Formula constructors by induction over arguments known only by contract (1-4 arguments).',
    'C25': 'Solver replaced by its contract (trusted: a correct solver), formula uninterpreted, any number of iterations by the loop invariant (the assertions follow from the universal formula), inferred cut at every solver call. Real solver runs are bounded cases.',
})
TECH.update({'C23': SYM + ' (type equality symbolic)', 'C24': SYM, 'C25': 'loop invariant over the real loop with the solver known by its contract, symbolic execution, z3'})
FORM = 'formula of the real mapper for designs that are uninterpreted functions, related to the contract by z3'
_M = ('The solver is replaced by its contract and the designs by uninterpreted functions: each obligation holds for every design of the interface, every model '
      'and every input. Interfaces (types, boxes, constraints) are enumerated: handwritten and generated ones. ')
NOTE.update({
    'C17': _M + 'Trusted: pysmt, hwtypes SMT values, z3. Runs with the real solver on concrete designs are bounded cases.',
    'C18': _M + 'Both formulas, both index encodings. The external loop is covered by C25 and by bounded cases with the real solver.',
    'C19': _M + 'None is returned only when the solver answers unsat (obligation) and unsat is trusted.',
    'C20': _M + 'Rules are drawn from a seed with concrete constants; black boxes included. Refusals are cases over all codes of constants of up to 3 bits.',
})
TECH.update({'C17': FORM, 'C18': FORM, 'C19': FORM, 'C20': 'formula of the real verify() for rules over designs that are uninterpreted functions, related to the contract by z3'})
NOTE.update({
    'C22': 'Every leaf value is free (z3 variable); interfaces, forms and binding shapes (constant, path, unbound per leaf) are enumerated, rules drawn from a seed. Trusted: hwtypes values of both families. Runs in the Python family are bounded cases.',
    'C26': 'Constants have opaque values and every width up to 129 (thorough 256), paths are opaque; the number of entries is enumerated (up to 3 input, 2 output entries). Trusted: hwtypes vectors (made from width and value), json. That RewriteRule() keeps constants is bounded: every constant of leaves of up to 5 bits of the corpus.',
    'C27': 'Every operation, mode and variant on opaque operands; hwtypes floating point vectors known by contract (trusted); formats enumerated. Mode conversions on a free symbolic mode. The Python bodies run; in the symbolic family operations are black boxes, whose operands are checked on cases.',
})
TECH.update({'C22': 'symbolic run of the real build_inputs and SimplifyBinding, related to the contract by z3',
             'C26': 'contracts on the real functions, run on opaque constants (vectors known by contract)',
             'C27': 'contracts on the real operations, run on opaque operands (hwtypes known by contract); z3 for mode conversions'})
NOTE['C28'] = _M + 'Number of instructions up to 3 (one interface with 4). Both output modes, both index encodings. The external loop is covered by C25; runs of the whole mapper with the real solver on concrete designs and on compositions with random tables are bounded cases. Refutations are often found by those runs first.'
TECH['C28'] = FORM
NOTE['C21'] = 'Per type: z3 over all values, in both modes, types enumerated (hand-written and generated). Induction step over types: each constructor (up to 4 components of every kind) with the recursive call replaced by its contract; induction itself is trusted. Tags are those observed (C04). Trusted: hwtypes SMT values, pysmt, z3.'
TECH['C21'] = 'contract of the real SMTForms, recursive calls replaced by their contract, symbolic run, z3'
