"""Writes properties.jsonl (kept as a script so that the file stays consistent)."""
import json, os
A1='peak/assembler/assembler.py'; A2='peak/assembler2/assembler.py'
U1='peak/assembler/assembler_util.py'; U2='peak/assembler2/assembler_util.py'
D1='peak/assembler/assembled_adt.py'; D2='peak/assembler2/assembled_adt.py'
ABC='peak/assembler/assembler_abc.py'
M='peak/mapper/mapper.py'; MU='peak/mapper/utils.py'
P=[]
def p(id,title,statement,over,q,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p('C01','Assembling and disassembling an instruction is a lossless round trip',
 'For every ISA type (any nesting of bits, bit vectors, enums, products, tuples, sums and tagged unions) and every value of it, assembling yields a bit vector of exactly the assembler\'s advertised width, and disassembling that bit vector yields an equal value. This holds for both assembler generations, for any bit vector type the caller asks for, and distinct values never share an opcode.',
 ['inputs','programs'],'all ISA types (unbounded nesting, any field widths) and all their values; both assembler generations',
 'The tests round-trip a handful of fixed ISAs with sampled values; the claim quantifies over every type built from the constructors and every value.',
 [A1,A2,ABC],[('Assembler.assemble / disassemble',A1),('_enum/_tuple/_sum/_field closures',A1),('Assembler.assemble / disassemble',A2)],
 ['Assembler(isa).assemble(v)','Assembler(isa).disassemble(bv)','Assembler(isa).width'])
p('C02','The opcode validity test is exact and independent of history',
 'For every ISA type and every opcode of its width, the validity test is true exactly when the opcode denotes a value: every enum position holds the code of a declared member, and every sum or tagged-union position holds a declared tag whose selected payload is itself valid. The answer is a function of the type and opcode only, never of which other types were handled earlier in the process. First-generation disassembly raises ValueError on exactly the invalid opcodes, and every valid opcode disassembles to a value that re-assembles to it on all bits the chosen variants use.',
 ['inputs','programs','histories'],'all ISA types, all opcodes, all orders in which types are created in one process; both generations',
 'Tests cover few code sets; the validator picks between range, one-hot, multi-range and naive forms depending on the code set, width and a process-wide cache, and no test sweeps them.',
 [U1,U2,A1,A2],[('_gen_is_valid',U1),('_gen_is_valid',U2),('is_valid closures of _enum/_tuple/_sum',A1)],
 ['Assembler(isa).is_valid(bv)','Assembler(isa).disassemble(bv)'],[('_validator_cache','validators shared by all assemblers',U1)])
p('C03','Fields tile the opcode and sub-field addressing selects exactly their bits',
 'In the opcode of a product or tuple the fields occupy consecutive disjoint bit ranges in declaration order covering the whole width; in a sum or tagged union the tag occupies the low bits and every payload starts right after it. The advertised layout, nested sub-field slices, tag slices and field extraction all denote those ranges, so reading the addressed bits of an assembled value yields the assembled field.',
 ['inputs','programs'],'all ISA types, all field paths in them, all values; both generations where the query exists',
 'Tests check offsets on fixed ISAs; offsets depend on all widths before a field at every nesting level.',
 [A1,A2,ABC],[('_tuple, _sum layouts',A1),('Sub',ABC),('extract',A2)],
 ['Assembler(isa).layout','Assembler(isa).tag_layout','Assembler(isa).sub[path].idx','sub[path].tag_idx','assembler2 Assembler.extract'])
p('C04','Enum codes and variant tags are canonical, injective and deterministic',
 'Enum members with an integer value are encoded as that integer; auto-valued members get, in declaration order, the smallest integers not used; distinct members get distinct codes and the width is exactly what the largest code needs. The n variants of a sum or tagged union get the tags 0..n-1, one each, with the fewest bits that hold them, tag assembly and disassembly being inverse and tag validity true for exactly those. Encodings depend only on the type, so they are the same for both generations and in every process and hash seed (variant types having distinct printed names).',
 ['inputs','programs','histories','configurations'],'all enums (any mix of explicit and auto members), all sums and tagged unions, all processes; both generations',
 'Binary encodings are an ABI between processes, and tests look at round trips inside one process only.',
 [A1,A2],[('_enum',A1),('_sum',A1),('Assembler.assemble_tag/disassemble_tag/is_valid_tag',A1),('_enum, _sum, match',A2)],
 ['Assembler(E).assemble(member)','assemble_tag','disassemble_tag','is_valid_tag','tag_width'])
p('C05','Reading an assembled value agrees with reading the value it stands for',
 'For every ISA type and value, wrapping the value as an assembled value and reading a product or tuple field gives the assembled field; reading a sum or tagged-union variant gives a match flag that is true exactly when that variant is selected, and the payload then equals the assembled payload. Assembled values compare equal (to each other, to the opcode, or to a plain value) exactly when the opcodes are equal, and the wrapped value\'s bits are exactly the assembled opcode, in the Python and the symbolic bit vector types alike.',
 ['inputs','programs'],'all ISA types, values, access paths; both generations; concrete and symbolic bit vectors',
 'Tests sample a few types and values; reading goes through generic class-level dispatch on type, key kind and family.',
 [D1,D2],[('AssembledADT._get, __eq__',D1),('AssembledADTMeta.__getitem__/__getattr__',D1),('AssembledADT._get',D2)],
 ['AssembledADT[T, Assembler, BV](v)','a.field','a[i]','a[T].match','a[T].value','a == b'])
p('C06','Building an assembled value from parts equals assembling the whole value',
 'For every ISA type whose components all have at least one bit, constructing an assembled value from field values (positionally, by keyword, or as a tag and payload) yields the same used bits as assembling the plain value with those fields. Bits that no chosen component uses take the requested default (zero when none is given), and incomplete or surplus parts are rejected rather than producing a value.',
 ['inputs','programs'],'all such ISA types and all field values, plain or assembled, concrete or symbolic; both generations',
 'Tests build few values; slot placement depends on layout order, widths and defaults.',
 [D1,D2,A2],[('_create_from_layout, _*_from_fields',D1),('from_fields',D2),('_create_from_layout, from_fields',A2)],
 ['AssembledADT[...].from_fields(...)','AssembledADT[...](*fields)'])
p('C07','Bit-field encoding places every field at its declared position',
 'For every instruction value built from bit vectors, bits, explicitly numbered enums, products and sums, the encoded word is the packing of the field encodings at consecutive offsets (first field lowest, or highest when reversed), sums adding their tag below (or, reversed, above) the payload, all shifted by the declared bit-field offset. The word of an instruction never needs more bits than the size reported for its type (plus the offset), and distinct instructions of one type have distinct words.',
 ['inputs','programs'],'all such types and values, both directions, optional tags and offsets',
 'Tests encode two hand-written ISAs.',
 ['peak/bitfield.py'],[('encode, size, sumsize, tag, bitfield','peak/bitfield.py')],['encode(inst, reverse)','size(T)'])
p('C08','The legacy assembler round-trips every instruction',
 'For every type built from bit vectors, bits, enums with integer or auto members, products and sums of types that carry bit vectors, the legacy assembler\'s encode and decode functions are inverse on all values, the code has the reported width, each field occupies the reported layout range, and constant fields accept only their constant, raising ValueError otherwise.',
 ['inputs','programs'],'all such types and values','Tests round-trip fixed ISAs with random samples.',
 ['peak/auto_assembler.py'],[('generate_assembler and helpers','peak/auto_assembler.py')],['generate_assembler(isa)'])
p('C09','A register returns its previous value and changes only when enabled',
 'In every family that executes (Python, rewritten Python, symbolic), a generated register starts at its declared initial value, each call returns the value held before the call, and afterwards it holds the new input if the enable was set (or the register has no enable) and its old value otherwise; instances never share state. Reading the previous value has no effect, and two requests for the same register give the same class while requests that differ in type, initial value, enable or family never get each other\'s class.',
 ['histories','inputs','configurations'],'all call sequences, values, types, initial values, enables and families',
 'Tests run short sequences with particular values; the claim is an invariant over all histories, and class caching makes it depend on what was requested earlier.',
 ['peak/family.py','peak/register.py'],[('_RegFamily.gen_register','peak/family.py'),('gen_register, gen_register2','peak/register.py')],
 ['family.gen_register(T, init, has_enable)','Register()(value, en)','Register().prev()'],[('_REG_CACHE','register classes by request','peak/family.py')])
p('C10','Memories hold per-address the last value written',
 'A RAM read at any address returns the value of the last earlier enabled write to that address, or the initial content (given data, then the default) when there is none; a write returns the old value and affects no other address; calls with the write enable off change nothing. A ROM always returns its initial content, and separate memories never share cells.',
 ['histories','inputs'],'all sequences of reads and writes, sizes, addresses, initial contents','Tests run a couple of accesses.',
 ['peak/memory.py','peak/register.py'],[('ROM, RAM','peak/memory.py'),('gen_register2','peak/register.py')],['RAM(T,n,mem,init)(addr,data,wen)','ROM(T,n,mem,init)(addr)'])
p('C11','Attribute registers read and write through the stored value only',
 'On any Peak object, reading an attribute that holds an attribute register yields the register\'s current value and assigning to it updates that value (rejecting values of another type with TypeError and leaving it unchanged) while the register stays in place; all other attributes behave like ordinary Python attributes. Registers of different objects and of different attributes are independent.',
 ['histories','inputs'],'all interleavings of reads and assignments over any objects and attributes','Tests exercise one class.',
 ['peak/peak.py','peak/family.py'],[('Peak.__getattribute__/__setattr__','peak/peak.py'),('_RegFamily.gen_attr_register','peak/family.py')],['obj.attr','obj.attr = v'],[('_ATTR_REG_CACHE','attribute register classes','peak/family.py')])
p('C12','A family closure is evaluated once per family and never confuses families',
 'Calling a family closure repeatedly with equal arguments returns the identical object and evaluates the closure body once; arguments that are not equal never share a result; the family shortcuts equal calling with a fresh family of that kind. Two families are equal exactly when they are of the same kind and have the same options, inequality is the negation of equality, and equal families hash alike.',
 ['histories','configurations'],'all sequences of calls, all families and options, user-defined subclasses included','Tests check single calls.',
 ['peak/features.py','peak/family.py'],[('family_closure','peak/features.py'),('__eq__/__hash__ of the families','peak/family.py')],['fc(family)','fc.Py, fc.PyX, fc.SMT','family == family'],[('family_closure.cache','results by argument','peak/features.py')])
p('C13','A Peak program means the same in the Python and symbolic families',
 'For every Peak program within the supported subset (combinational or with registers) and all inputs, executing it in the Python family, the rewritten Python family and the symbolic family (inputs substituted into the symbolic result) gives equal outputs at every step. Conditionals, early returns and enum or sum inspection are preserved by the rewriting, and the declared input and output types survive it.',
 ['programs','inputs','histories'],'all Peak programs of the supported subset, all inputs, any number of steps','Tests compare a few programs on sampled inputs.',
 ['peak/family.py'],[('_RewriterFamily.assemble, _StdMix.assemble','peak/family.py'),('SMTFamily.assemble','peak/family.py')],['fc.Py()(**in)','fc.PyX()(**in)','fc.SMT()(**in)'])
p('C14','Declared interfaces match the annotations and are enforced',
 'The input type of a Peak class lists exactly its call parameters with their annotated types in order, and the output type lists exactly the returned types (named when names are given) in order; missing or surplus annotations raise ValueError instead of producing a wrong interface. With type checking on, a call returns its result unchanged when every output has its declared type and raises TypeError when one does not; arguments are passed through unchanged.',
 ['inputs','programs'],'all signatures, annotations and results','Tests look at a few signatures.',
 ['peak/features.py','peak/peak.py'],[('gen_input_t, gen_output_t, name_outputs, typecheck','peak/features.py'),('PeakMeta','peak/peak.py')],['Cls.input_t','Cls.output_t','obj(...)'])
p('C15','IR instructions implement exactly the given function and interface',
 'An instruction added to an IR from an input interface, an output interface and a function has exactly these inputs and outputs (names, types, order), and calling it in any family returns the function applied to that family and the inputs in interface order. Adding a name twice raises ValueError and changes nothing; instructions never affect each other.',
 ['programs','inputs','histories'],'all interfaces, functions and sequences of additions','Tests add a fixed list of instructions.',
 ['peak/ir.py'],[('IR.add_peak_instruction, add_instruction','peak/ir.py')],['ir.instructions[name](family)','.input_t','.output_t'])
p('C16','Black boxes expose their inputs and outputs faithfully under their path',
 'In the symbolic family a call to a black box returns exactly the outputs set for it and records exactly the inputs of the last call in interface order, whether they were passed by position or by keyword; using it out of order or with wrong inputs raises ValueError. The black boxes found in a design are exactly its black box instances, each under its attribute path, however deeply nested, and looking a path up returns that instance.',
 ['histories','programs','inputs'],'all call protocols and all component hierarchies (attributes fixed before the query)','Tests use one or two shallow designs.',
 ['peak/black_box.py'],[('BlackBox.create_call, _set_outputs, _get_inputs','peak/black_box.py'),('get_black_boxes, get_black_box','peak/black_box.py')],['get_black_boxes(obj)','get_black_box(obj, path)','bb(...)','bb._get_inputs()'])
p('C17','Black boxes are treated as unknown functions, nothing more or less',
 'Mapping and verification assume of black boxes only that two instances of the same class given equal inputs produce equal outputs: a rule is accepted only if it is correct for every function the black boxes could compute, and a rule that is correct for every such function is not rejected. Black boxes of different classes are never related.',
 ['programs','inputs'],'all arch/IR designs with black boxes, all behaviours of the black boxes','Tests have a few designs; correctness quantifies over all interpretations of the black boxes.',
 [M],[('update_with_bb, create_and_set_bb_outputs, get_bb_inputs',M)],['RewriteRule.verify()','ArchMapper(...).process_ir_instruction(ir, simple_formula=True).solve()'])
p('C18','Every rewrite rule the mapper returns is correct',
 'Whenever solving returns a rewrite rule, then for all values of the IR inputs and of the unbound architecture inputs (limited to the given path constraints), running the architecture with the rule\'s inputs gives the IR outputs the rule binds, and the constants it chose are valid values of their fields. This holds for both formula constructions, both index encodings, and with the external loop on or off.',
 ['programs','inputs','configurations'],'all arch/IR pairs supported by the mapper, all inputs, all options','Tests map chosen pairs and often check only that a rule was found.',
 [M],[('IRMapper.__init__ formulas',M),('solve, rr_from_solver, external_loop_solve',M)],['ArchMapper(arch).process_ir_instruction(ir).solve()'])
p('C19','The mapper finds a rule whenever one exists, within the constraints',
 'If some choice of architecture constants, unconstrained by or within the given path constraints, and some type-respecting binding using each IR input once implements the IR instruction for all inputs, solving returns a rule; it returns none only when no such choice exists. Returned rules bind constrained paths only to allowed values and every architecture input exactly once.',
 ['programs','inputs','configurations'],'all arch/IR pairs supported by the mapper and all path constraints','Tests assert presence or absence for chosen pairs.',
 [M,MU],[('IRMapper.__init__',M),('ArchMapper.__init__ path_constraints',M),('create_bindings',MU)],['solve()'])
p('C20','Verification of a rule is exact and its counterexamples are genuine',
 'Verifying a rewrite rule returns nothing exactly when the architecture under the rule\'s inputs produces the bound IR outputs for all inputs; otherwise it returns values for the IR inputs and free architecture inputs on which running the designs really gives different bound outputs. Rules that leave a constant input unbound or give it an invalid value are rejected with ValueError when they are made.',
 ['programs','inputs'],'all rules over all arch/IR pairs, correct or not','Tests verify a few correct rules and few broken ones.',
 [M],[('RewriteRule.__init__, verify',M)],['RewriteRule(...)','rule.verify()'])
p('C21','The symbolic forms of a type partition and reconstruct its values',
 'For every ISA type, the forms correspond one to one to the combinations of variant choices of the sums and tagged unions reachable in it; each form\'s leaf variables are exactly the leaves under its choices, and the form\'s value has those leaves at their positions and its recorded choices selected when its tags say so. When forms are taken of a given value, the leaf entries read back exactly that value\'s parts, and the match conditions are true exactly for the selected variants.',
 ['programs','inputs'],'all ISA types and all (symbolic) values','Tests count forms of a few types.',
 [MU],[('SMTForms',MU)],['SMTForms()(aadt_t)','SMTForms()(aadt_t, value=v)'])
p('C22','Inputs built from a rule carry each bound value to its place',
 'Building inputs from a rewrite rule yields architecture inputs in which every path bound to an IR input holds that IR input\'s value, every constant path holds its constant and every unbound path holds the supplied value, and IR inputs holding exactly the supplied values; wrong sets of supplied paths raise ValueError. Simplifying a binding preserves what it binds: it merges complete groups of constants into the equal assembled constant and changes nothing else.',
 ['programs','inputs'],'all rules and types, any order of the binding entries','Tests build inputs for few rules.',
 [M,MU],[('RewriteRule.build_inputs, get_input_paths',M),('SimplifyBinding, rebind_binding, aadt_product_to_dict',MU)],['rule.build_inputs(...)','SimplifyBinding()(t, binding)'])
p('C23','Binding enumeration is complete, duplicate free and type respecting',
 'The bindings enumerated for given architecture and IR paths are exactly the assignments that give every architecture path either an IR path of the same type or nothing and use every IR path exactly once; none is missing, repeated or ill-typed, and there are none when some IR type has no counterpart.',
 ['inputs'],'all finite maps of paths to types','Tests count bindings of a few examples.',
 [MU],[('create_bindings',MU)],['create_bindings(arch_flat, ir_flat)'])
p('C24','Index variables and formula constructors mean what they say',
 'For every number of entries and every index, an index variable matches an index exactly when it holds that index\'s code, decoding a code gives its index and anything else raises ValueError, codes of different indices differ, and the validity condition is true exactly for codes of entries; out-of-range indices are rejected. The formula constructors And, Or and Implies (nested arbitrarily) denote exactly the conjunction, disjunction and implication of their arguments.',
 ['inputs'],'all entry counts (within the number of bits), indices, variable values and formula trees','Tests use few sizes.',
 ['peak/mapper/index_var.py','peak/mapper/formula_constructor.py'],[('OneHot, Binary','peak/mapper/index_var.py'),('And, Or, Implies','peak/mapper/formula_constructor.py')],['IndexVar.match_index/decode/is_valid','And/Or/Implies.to_hwtypes()'])
p('C25','The external exists-forall loop returns only real answers',
 'For every formula, set of universally quantified variables and iteration limit, the external solving loop returns a result only for a choice of the other variables that satisfies the formula for all values of the quantified ones, reports unsatisfiable (none) only when no such choice exists, and otherwise raises its loop exception. Initial vectors and the limit affect only whether it gives up, never the verdict, provided the underlying solver is correct.',
 ['inputs','schedules'],'all formulas, solver answers (any model the solver may pick), limits and initial vectors','Tests solve few formulas with one solver\'s model choices.',
 [M],[('external_loop_solve, _gen_initial, _int_to_pysmt',M)],['external_loop_solve(...)'])
p('C26','Serialising and reading back a rule preserves it',
 'For every rewrite rule, writing its bindings and reading them back with the same IR and architecture (directly or through JSON, for paths of names and positions) gives a rule with the same input binding (constants of equal width and value, unbound entries unbound) and the same output binding.',
 ['inputs','programs'],'all rules: all constants, widths, unbound entries and paths','Tests serialise one or two rules.',
 [M],[('RewriteRule.serialize_bindings',M),('read_serialized_bindings',M)],['serialize_bindings()','read_serialized_bindings()'])
p('C27','Floating point operations use the selected rounding mode everywhere',
 'For every operation of the float library, executing it with a dynamic rounding mode, or through the variant fixed to that mode, equals the corresponding floating point operation of that format under that mode for all operands, in argument order. Converting a rounding mode to its hardware number or bit vector and back is the identity, and every mode corresponds to its standard counterpart.',
 ['inputs','configurations'],'all operations, rounding modes, formats and operands','Tests run few operations and operands in one mode.',
 ['peak/float.py'],[('float_lib_gen, RoudningMode_utils','peak/float.py')],['float_lib_gen(e,f).X_fc','const_rm(rm).X_fc'])
p('C28','Multi-instruction mappings are correct and found when they exist',
 'For black-box-free architectures with one instruction field, the multi-instruction mapper returns an answer for N only when N instructions chosen as constants, wired as its binding says, compute the IR outputs for all IR inputs and all values of unused inputs; it reports none only if no valid choice of instructions and wiring (each IR input used once, later instructions reading earlier outputs) does.',
 ['programs','inputs','configurations'],'all such arch/IR pairs, N, index encodings and output modes','Tests check few pairs.',
 ['peak/mapper/multi.py'],[('Multi, RR, create_bindings','peak/mapper/multi.py')],['Multi(arch, ir, N)()'])
p('C29','Generated hardware behaves like the Python model',
 'For every Peak program, the circuit generated by the hardware family computes, cycle by cycle, the outputs the Python family computes for the same inputs.',
 ['programs','inputs','histories'],'all Peak programs and input sequences','Tests simulate few circuits.',
 ['peak/family.py'],[('MagmaFamily.assemble','peak/family.py')],['fc.Magma'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for q in P: assert len(q['title'])<=80,(q['id'],len(q['title']))
open(os.path.join(here,'properties.jsonl'),'w').write(''.join(json.dumps(q)+'\n' for q in P))
print(len(P))
