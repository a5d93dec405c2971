"""Which rules decide which property, and what the evidence says about it."""
FLOW = 'Path-partitioned value-flow dataflow over type-checked MIR: '
RULES = {
    'C01': {'rules': ['rules_ds.copies'], 'floor': {'fns': 20, 'obligations': 40},
            'explain': FLOW + 'every member of the copying family must return, on every path, the term of its argument (nested members assumed, each proved on its own).'},
    'C02': {'rules': ['rules_ds.accessors'], 'floor': {'fns': 25, 'obligations': 200},
            'explain': FLOW + 'every accessor is compared with the variant table on every variant; mutable ones must return a place inside the payload and leave the value unchanged.'},
    'C03': {'rules': ['rules_ds.getters'], 'floor': {'fns': 30, 'obligations': 150},
            'explain': FLOW + 'every keyed getter is compared with lookup-then-access on present and absent names.'},
    'C04': {'rules': ['rules_ds.construction'], 'floor': {'fns': 15, 'obligations': 20},
            'explain': FLOW + 'constructors are compared with their identity and payload table; validators must accept exactly the names free of the reserved characters.'},
    'C05': {'rules': ['rules_ds.equality'], 'floor': {'fns': 12, 'obligations': 200},
            'explain': FLOW + 'equality and ordering are compared with the variant-rank specification on all 81 variant pairs.'},
    'C06': {'rules': ['rules_num.order'], 'floor': {'fns': 35, 'obligations': 5000},
            'explain': FLOW + 'all comparison functions of numbers are evaluated in every order situation (position between constants, whole or fractional, relation of integer to float) and must answer the exact order; hashing must agree.'},
    'C07': {'rules': ['rules_num.conversions'], 'floor': {'fns': 30, 'obligations': 80},
            'explain': FLOW + 'integer conversions are evaluated in every order situation and must be exact or fail; widening constructors must keep the value.'},
    'C08': {'rules': ['rules_num.number_text'], 'floor': {'fns': 3, 'obligations': 12},
            'explain': FLOW + 'number reading must try the integer reading exactly on digit text and otherwise the float reading, never panicking; display must print the stored number.'},
}
RULES.update({
    'C09': {'rules': ['rules_enc.encoder'], 'floor': {'fns': 60, 'obligations': 60},
            'explain': FLOW + 'every entry point of the encoder, and every builder step from an arbitrary intermediate collection, must produce the tabulated value or propagate the nested error.'},
    'C10': {'rules': ['rules_dec.decoder'], 'floor': {'fns': 50, 'obligations': 500},
            'explain': FLOW + 'every decoding request is compared, on all nine variants, with the table of what the caller\'s visitor must receive or which mismatch must be an error.'},
    'C11': {'rules': ['rules_tok.to_kserd'], 'floor': {'fns': 70, 'obligations': 120},
            'explain': FLOW + 'every conversion, including all tuple and array sizes, must contain each element\'s own conversion in order or return a failing element\'s error.'},
})
RULES.update({
    'C12': {'rules': ['rules_nav.links'], 'floor': {'fns': 5, 'obligations': 35},
            'explain': FLOW + 'the worklist loop that builds the navigator is closed over one generic step; every node pushed must carry the right value, parent and position, and be entered in its parent\'s child list in order.'},
    'C13': {'rules': ['rules_nav.node_api'], 'floor': {'fns': 30, 'obligations': 45},
            'explain': FLOW + 'every navigation query is compared with the recorded links of its node; iterators are compared step by step and the two descendant walks must be a stack walk over reversed children and a queue walk over children.'},
})
RULES.update({
    'C14': {'rules': ['rules_fmt.grammar'], 'floor': {'fns': 30, 'obligations': 60},
            'explain': FLOW + 'the text each writer appends, as a sequence of constants and nested texts, is compared with the grammar of its kind and representation.'},
    'C15': {'rules': ['rules_fmt.primitives'], 'floor': {'fns': 12, 'obligations': 80},
            'explain': FLOW + 'the text of every primitive is compared with its table; the delimiter put around a string must be one whose absence from the content the path has established.'},
    'C16': {'rules': ['rules_fmt.representation'], 'floor': {'fns': 20, 'obligations': 1000},
            'explain': FLOW + 'the request function is compared with the limit table on every kind, emptiness, key position, current, requested and containing representation; its loop over descendants and the loops building a formatter are closed over one generic step; everything that takes a formatter mutably must be among the analysed functions.'},
    'C17': {'rules': ['rules_fmt.configuration'], 'floor': {'fns': 8, 'obligations': 10},
            'explain': FLOW + 'the loop applying a configuration must set each node\'s flag from its kind and afterwards only make representation requests, the first for the whole value.'},
    'C18': {'rules': ['rules_fmt.layout'], 'floor': {'fns': 25, 'obligations': 100},
            'explain': FLOW + 'no panic exit of the measuring functions is reachable, given the limits of formatter states (decided under C16) and the node links (decided under C12).'},
})
RULES.update({
    'C19': {'rules': ['rules_parse.total', 'rules_num.number_text'], 'floor': {'fns': 60, 'obligations': 800},
            'explain': FLOW + 'every grammar function is analysed on an unconstrained text with the others as uninterpreted rules; no path may panic or end as incomplete, and every rest and every error place must be derived from the input text.'},
    'C20': {'rules': ['rules_parse.whole_text'], 'floor': {'fns': 5, 'obligations': 7},
            'explain': FLOW + 'the entry function must return the value of its rule only where nothing but blanks is left, and an error about this text otherwise.'},
    'C21': {'rules': ['rules_parse.primitives', 'rules_num.number_text'], 'floor': {'fns': 20, 'obligations': 50},
            'explain': FLOW + 'the readers of names, identities and primitives are compared, outcome by outcome, with a reference grammar of literals and character runs.'},
    'C22': {'rules': ['rules_parse.delimited_forms'], 'floor': {'fns': 30, 'obligations': 400},
            'explain': FLOW + 'the readers of bracketed collections and the choice between them are compared with a reference grammar; repetition is described by the table of what one item does at a generic place.'},
    'C23': {'rules': ['rules_parse.line_forms'], 'floor': {'fns': 25, 'obligations': 300},
            'explain': FLOW + 'the readers of indentation, of one line of a container and of nested values are compared with a reference grammar; the loop collecting lines is closed over one generic line and compared case by case.'},
    'C24': {'rules': ['rules_perr.inspection'], 'floor': {'fns': 12, 'obligations': 20},
            'explain': FLOW + 'the recorded offsets and line table, the lookup of one entry, the listing and the display are compared with their specification; the only arithmetic and slicing accepted is on places decided to lie in the text.'},
})
RULES.update({
    'C25': {'rules': ['rules_err.told'], 'floor': {'fns': 40, 'obligations': 300},
            'explain': FLOW + 'the text each error type displays must contain every piece of its content on every variant; errors made from a cause must hold it whole; every mismatch the decoder reports must describe the value it met.'},
    'C26': {'rules': ['rules_wit.witnesses'], 'floor': {'fns': 600, 'obligations': 700},
            'explain': 'The syntax tree is searched for unsafe code, and the type checker judges witness programs against the crate: each program that would let a view outlive or overlap a change of what it views must be refused for exactly that reason while its corrected twin is accepted, and all types must be sendable and shareable.'},
    'C27': {'rules': ['rules_eff.purity'], 'floor': {'fns': 600, 'obligations': 2000},
            'explain': 'Effect analysis over the type-checked program: every function mentioned anywhere in a body, every static, the mutability of every type behind a shared reference, every use of a hash table and every address turned into a number is classified; what could make a result depend on anything but the arguments is reported.'},
    'C28': {'rules': ['rules_cfg.configurations'], 'floor': {'fns': 600, 'obligations': 3000},
            'explain': 'Comparison of type-checked MIR between configurations: the crate is type-checked under all eight feature sets and without debug assertions; every function present in two of them must have the same body, and one that differs in the last must be decided by its own rules on that build.'},
})
RULES.update({
    'C29': {'rules': ['rules_fmt.grammar', 'rules_fmt.primitives', 'rules_fmt.representation', 'rules_parse.whole_text', 'rules_parse.primitives', 'rules_parse.delimited_forms',
                      'rules_parse.line_forms', 'rules_num.number_text'], 'floor': {'fns': 100, 'obligations': 1500},
            'explain': FLOW + 'writer and reader are each compared, on every path, with the two sides of one grammar: the text each writer appends for its kind and layout, the layouts a formatter can reach, and what '
                              'each reader takes and returns on arbitrary text; that every text of the writing side is a text of the reading side for the same value is an argument over the two tables given in DESIGN.md.'},
    'C30': {'rules': ['rules_rt.round_trip'], 'floor': {'fns': 120, 'obligations': 110},
            'explain': FLOW + 'the value each encoder entry point (or builder, from an arbitrary intermediate collection) produces is fed as a term into the decoder function for the same kind of data, and the '
                              'visitor must be given the original argument on every path; keys of one enum are compared with the crate\'s own ordering.'},
    'C31': {'rules': ['rules_wid.fitting'], 'floor': {'fns': 20, 'obligations': 1000},
            'explain': FLOW + 'the path condition under which each representation is requested must bound a measured width of that node by the limit; the measure is compared, per kind and setting, with the '
                              'least length of the one-line text by linear arithmetic, must add up all children, and must never be zero.'},
    'C32': {'rules': ['rules_dbg.shown'], 'floor': {'fns': 18, 'obligations': 300},
            'explain': FLOW + 'what each debug implementation hands to the formatter is decomposed into constant text and shown content; the content must be the whole of the value in stored order, and the constant '
                              'text must tell the kinds apart.'},
    'C33': {'rules': ['rules_wr.reported'], 'floor': {'fns': 18, 'obligations': 60},
            'explain': FLOW + 'every write to the destination is split into accepted and refused; on each path the implementation must answer with a failure exactly when a write on that path was refused.'},
})
RULES['C26']['technique'] = 'static analysis: search of the syntax tree for unsafe code, and compile-fail witness programs with compiling twins judged by the type checker against the current source'
RULES['C26']['note'] = 'The type checker decides each witness for all inputs; that the witnesses cover every public view is by enumeration in witness/. Dependencies\' own unsafe code is trusted.'
RULES['C27']['technique'] = 'static analysis: effect analysis over the type-checked MIR (callees, statics, interior mutability, address use) with hash-order independence decided by value-flow rules'
RULES['C27']['note'] = 'A library function not on the list of effects is trusted to be pure as documented; the effect list is exercised on a positive example on every run.'
RULES['C28']['technique'] = 'static analysis: comparison of the type-checked MIR between configurations, differing functions being decided by the value-flow rules of their module on each build'
RULES['C28']['note'] = 'Decides all eight feature sets and both assertion settings; optimisation levels and overflow checks are outside.'
