I, PR, H, CF = ['inputs'], ['inputs', 'programs'], ['inputs', 'histories'], ['configurations']

prop('C01', 'Copies and views keep the value',
     'Cloning a value, making it owned or making a borrowed view of it yields a value with the same identity, the same variant and the same payload at every depth, elements and entries in the same order. '
     'Wrapping text or bytes into their payload types and reading them back gives exactly the original content, and a mutable view is a view of that same content.',
     I, 'every value, of every shape, size and ownership of its strings and byte arrays',
     'Tests copy a handful of small literals; a slip on one variant, on an identity inside a nested collection or on one ownership state is only visible on values no test builds, and equality of values ignores identities.',
     ['src/ds/kserd.rs', 'src/ds/val.rs', 'src/ds/kstr.rs', 'src/ds/barr.rs'],
     [('into_owned / mk_brw / Clone', 'src/ds/kserd.rs, src/ds/val.rs'), ('Kstr, Barr wrappers', 'src/ds/kstr.rs, src/ds/barr.rs')], 'return values of the copying API')
prop('C02', 'Typed accessors answer exactly for their variants',
     'Each typed accessor of a value succeeds exactly on the variants it is documented for, returns that variant\'s own payload, and returns nothing on every other variant. '
     'Mutable accessors hand out the payload in place and leave the value unchanged by themselves.',
     I, 'every value of every variant and every accessor, shared and mutable',
     'Nine variants times some forty accessors: tests probe a few cells of the table, mostly positive ones.',
     ['src/ds/val.rs', 'src/ds/kserd.rs'], [('accessor methods', 'src/ds/val.rs'), ('delegating accessors', 'src/ds/kserd.rs')], 'return values of the accessor API')
prop('C03', 'Keyed getters find exactly the named field',
     'Looking up a name in a container returns the field stored under exactly that name, converted by the accessor the getter is named after. '
     'It returns nothing when the name is absent, when the field has another type or when the value is not a container, and mutable lookups hand out the stored field in place without changing anything.',
     I, 'every value, every name and every getter',
     'The outcome depends on combination of container content, name and field type; tests use containers with one or two fields and rarely ask for the wrong type.',
     ['src/ds/val.rs', 'src/ds/kserd.rs'], [('cntr / cntr_mut / get and typed getters', 'src/ds/val.rs, src/ds/kserd.rs')], 'return values of the getter API')
prop('C04', 'Construction stores what was given and rejects bad names',
     'Every constructor produces the documented variant and identity around exactly the given payload, with collections in the given order. '
     'The checked constructors accept an identity exactly when it contains none of its reserved characters, and a container exactly when every field name is non-empty, does not begin with a digit and contains none of its reserved characters; otherwise they fail with an error.',
     I, 'every payload, every identity text and every list of fields',
     'Validity quantifies over every character at every position of a name, and over which of several field names is bad; tests try a few characters in one-field containers.',
     ['src/ds/kserd.rs', 'src/ds/val.rs'], [('with_id / new_cntr validation', 'src/ds/kserd.rs, src/ds/val.rs'), ('constructors', 'src/ds/kserd.rs')], 'values and errors returned by constructors')
prop('C05', 'Equality and ordering of values agree and follow the documented rules',
     'Equality of values ignores identities and compares variant and content, an empty container and an empty tuple being equal; ordering ranks variants in a fixed order and then compares content element by element. '
     'Comparing two values is equal in the ordering exactly when they are equal, the order is total and consistent when arguments are swapped, and text and byte payloads compare and hash by content alone, just as plain text and bytes do, however they are owned.',
     I, 'every pair of values, including unequal variants and nested collections',
     'There are 81 variant pairs and unbounded nesting; consistency between equality, partial and total order is a relation between functions that tests check at single points.',
     ['src/ds/val.rs', 'src/ds/kserd.rs', 'src/ds/kstr.rs', 'src/ds/barr.rs'], [('PartialEq/Ord impls', 'src/ds/val.rs, src/ds/kserd.rs'), ('Kstr/Barr comparisons', 'src/ds/kstr.rs, src/ds/barr.rs')], 'results of ==, <, cmp, hash')
prop('C06', 'Numbers compare, order and hash by their exact numeric value',
     'Two numbers are equal, less or greater exactly as their mathematical values are, whatever mix of signed, unsigned and floating representation they use, with not-a-number equal to itself and placed consistently, and with the comparisons against primitive integers and floats giving the same answers. '
     'Numbers that are equal hash equally.',
     I, 'every pair of numbers in every pair of representations, including extremes, fractions, infinities and not-a-number',
     'The interesting cases sit at the edges of 128-bit ranges and of float precision; tests compare a few small numbers.',
     ['src/ds/num.rs'], [('PartialEq/PartialOrd/Ord/Hash for Number', 'src/ds/num.rs')], 'results of ==, <, cmp, hash on numbers')
prop('C07', 'Numeric conversions are exact or fail',
     'Asking a number for an unsigned or signed integer returns the number\'s integer value (a float within 1e-10 of a whole number counts as that number) or an error when the value is out of range or not whole; it never wraps, truncates or panics. '
     'Building a number from any primitive keeps its value, a 32-bit float being kept as its shortest decimal reading.',
     I, 'every number and every primitive value',
     'Range edges at 2^127 and 2^128, negative zero, infinities and fractions are individual points in a huge domain.',
     ['src/ds/num.rs'], [('as_u128 / as_i128 / as_f64', 'src/ds/num.rs'), ('From<primitive>', 'src/ds/num.rs')], 'results of the conversions')
prop('C08', 'Number text is read by one rule and never panics',
     'Displaying a number prints its stored value exactly as the standard formatter prints that primitive. '
     'Reading a number takes text made only of digits, separators and an optional leading minus as an integer when it fits, any other text accepted by the float reader as a float (including whole numbers too large for integers), and rejects everything else with an error; no text makes it panic.',
     I, 'every text and every number',
     'Reading quantifies over all texts, including sign, separator and digit combinations no test spells out.',
     ['src/ds/num.rs'], [('FromStr / Display for Number', 'src/ds/num.rs')], 'result of parsing and displaying numbers')
prop('C09', 'Encoding maps each serialisable shape to its documented value',
     'Encoding a serialisable object yields, for each kind of data it reports, the documented variant with the documented identity and exactly the reported content in the reported order. '
     'Names that are not valid identities are rejected, a failure of any nested object fails the whole encoding with that error, and a map value without a key is an error.',
     PR, 'every serialisable type, however it drives the encoder, and every value of it',
     'Which calls arrive, in which order, and which of them fails is chosen by arbitrary user types; tests use derived types that never fail and compare with an equality that ignores identities.',
     ['src/encode/encoder.rs', 'src/encode/mod.rs'], [('Serializer for Encoder', 'src/encode/encoder.rs'), ('collection builders', 'src/encode/encoder.rs'), ('enc', 'src/encode/mod.rs')], 'value or error returned by encoding')
prop('C10', 'Decoding hands each value to the target type unchanged or fails',
     'Decoding presents the target type with exactly the stored content: each variant arrives as its documented kind, borrowed text and bytes arrive borrowed, integers arrive only if the requested type can hold them, and elements, fields and entries arrive completely and in order. '
     'An enum variant is selected by the identity and its payload is accepted only in the matching shape; any mismatch is an error, never a panic or a silently altered value.',
     PR, 'every value and every deserialisable type, including types that request shapes the value does not have',
     'The cross product of stored variants and requested kinds is large and the requests are made by arbitrary user types; tests decode matching types.',
     ['src/encode/decoder.rs', 'src/encode/mod.rs'], [('Deserializer, EnumAccess, VariantAccess for Decoder', 'src/encode/decoder.rs'), ('decode', 'src/encode/mod.rs')], 'what the visitor receives, or the error')
prop('C11', 'Consuming conversions of standard types keep every element',
     'Converting a standard type into a value yields the documented variant and identity with every element present, in order and converted by its own conversion; optional values convert to their content or to an empty tuple named None, results to a one-item tuple named after their case. '
     'If converting any element fails, the whole conversion fails with that error.',
     PR, 'every value of every supported standard type, with element types whose own conversion may fail',
     'Tests compare small instances with an equality that ignores identities and no test has an element that fails to convert.',
     ['src/to_kserd.rs'], [('ToKserd impls', 'src/to_kserd.rs')], 'value or error returned by the conversion')
prop('C12', 'A navigator lists every nested value once, linked to its parent',
     'Building a navigator over a value gives exactly one node for the value itself, as the root, and one for every value nested in it at any depth, in pre-order with the key of a map entry before its value. '
     'Each node refers to its own value, to the node that contains it and, in stored order, to the nodes it contains; only nodes that are map keys are marked as keys.',
     I, 'every value of any shape, breadth and depth',
     'Numbering depends on the whole tree above and before a node; tests check a few small trees, so a wrong link that needs two levels of mixed collections goes unseen.',
     ['src/nav/navigator.rs'], [('Navigator::new', 'src/nav/navigator.rs')], 'nodes reached through the navigator')
prop('C13', 'Navigation queries answer from the recorded structure',
     'From any node, the parent, the position in the parent, the children as keys, values, fields or entries, and the identity answer exactly as the nested value is structured, and looking up a node by number gives that node or nothing when there is none. '
     'The depth-first and breadth-first walks visit every descendant of the node exactly once in their respective order, and iterators report lengths that agree with what they yield.',
     I, 'every value, every node of it and every query, with iterators at every stage of consumption',
     'Queries relate two nodes of an arbitrary tree; tests ask them at a few nodes, mostly the root, and with fresh iterators.',
     ['src/nav/node.rs', 'src/nav/value.rs', 'src/nav/navigator.rs'], [('Node methods and iterators', 'src/nav/node.rs'), ('Navigator accessors', 'src/nav/navigator.rs')], 'results of the navigation API')

prop('C14', 'Formatted text shows every nested value once, in order, in its bracket',
     'Formatting a value writes every nested value exactly once and in stored order, enclosed in the bracket of its kind, each field behind its name and an equals sign and each map value behind its key and a colon. '
     'Values on one line are comma separated; spread over lines, each item stands on its own line one level further in, and a verbose container or sequence of containers uses its section headings; the identity of a collection is written exactly when its format asks for it, except that sequences and maps shown as sections never show theirs.',
     I, 'every value, every assignment of representations and identity flags to its parts',
     'Text depends on kind, representation, identity flag and position of every part; tests compare a few complete documents, mostly of uniform representation.',
     ['src/fmt/mod.rs', 'src/fmt/tuples.rs', 'src/fmt/seqs.rs', 'src/fmt/maps.rs', 'src/fmt/cntr.rs', 'src/fmt/formatter.rs'],
     [('write_node', 'src/fmt/mod.rs'), ('write of each collection', 'src/fmt/*.rs')], 'the formatted text')
prop('C15', 'Text of primitives is exact and string delimiters never clash',
     'A boolean, number, string or byte array is written as its literal with the identity, when shown, in angle brackets before it; byte arrays are written completely in base91. '
     'A string is enclosed in a delimiter that does not occur in its content whenever any candidate character is unused by the content, one that cannot be taken for a name, an assignment or an opening bracket, and its content is written unaltered.',
     I, 'every primitive value, including strings that contain any combination of quote and delimiter characters',
     'A clash needs content using several candidate delimiters at once; fuzzed strings practically never contain them.',
     ['src/fmt/prims.rs'], [('primitive writer, delimiter choice', 'src/fmt/prims.rs')], 'the formatted text of a primitive')
prop('C16', 'A formatter never leaves its representation limits',
     'In every state a formatter can reach, primitives and empty collections are on one line, tuples and map keys are at most concise, a root sequence or map is at most concise, and nothing is more spread out than what contains it. '
     'A request that would break a limit or names no node returns an error and changes nothing; an accepted one sets that node, lowers its descendants where needed and changes nothing else. A new formatter starts at the most spread-out state allowed, with identities shown.',
     H, 'every value and every sequence of formatting requests, for any node number',
     'The limits relate a node to all its ancestors and to the history of earlier requests; tests make one or two requests on small values.',
     ['src/fmt/formatter.rs'], [('Formatter::new and requests', 'src/fmt/formatter.rs')], 'formats listed by the formatter and results of requests')
prop('C17', 'Identity display follows the configuration for every node',
     'Applying a configuration sets the identity display of every node, the root and map keys included, to the setting for its kind, whatever it was before; setting one node changes only that node and fails for a number that names none. '
     'A configuration without width limit puts the whole value on one line, and the default configuration has the documented settings.',
     H, 'every value, configuration and prior formatter state',
     'Tests apply configurations to fresh formatters over values of few kinds; a wrong flag for one kind in one position needs that combination.',
     ['src/fmt/solver.rs', 'src/fmt/formatter.rs', 'src/fmt/mod.rs'], [('apply_config', 'src/fmt/solver.rs'), ('Formatter::id', 'src/fmt/formatter.rs'), ('default configuration', 'src/fmt/mod.rs')], 'formats listed by the formatter; the text')
prop('C18', 'Fitting a value to a width limit never panics',
     'Applying any configuration to any value, in any formatter state and with any width limit down to zero, completes without panicking.',
     CF, 'every value, formatter state and configuration, including width limits smaller than the indentation',
     'Lookups and subtractions fail only for particular nesting and representation combinations far from the usual widths.',
     ['src/fmt/solver.rs'], [('width measurement and offsets', 'src/fmt/solver.rs')], 'whether formatting completes')
prop('C19', 'Reading any text ends in a value or an error, never a panic',
     'Parsing any text whatsoever returns either a value or an error and never panics, whatever identities, delimiters, numbers, nesting and unfinished constructs it contains. '
     'Every place an error is reported at lies inside the text that was given.',
     I, 'every text, including truncated, malformed and non-ASCII text',
     'Texts are unbounded and the panicking ones need particular truncations or characters; fuzzing feeds mostly well-formed documents.',
     ['src/parse/mod.rs', 'src/parse/cntr.rs', 'src/parse/list.rs', 'src/parse/map.rs', 'src/parse/prims.rs', 'src/parse/names.rs', 'src/parse/heuristics.rs', 'src/parse/wsp.rs'],
     [('parse', 'src/parse/mod.rs'), ('grammar functions', 'src/parse/*.rs')], 'result of parsing')
prop('C20', 'A text is accepted only as a whole',
     'Parsing returns a value only if the entire text is that one value followed by nothing but spaces, tabs and line breaks; text after the value, and empty text, is an error. '
     'The value returned is the one read from the text and an error refers to that same text.',
     I, 'every text', 'Tests try a handful of trailing texts; which remainders slip through depends on where the last construct stops.',
     ['src/parse/mod.rs'], [('parse, kserd_root', 'src/parse/mod.rs')], 'result of parsing')
prop('C21', 'Primitives are read literally, with the identity in front of them',
     'Unit, booleans, numbers, strings and byte arrays are read from their literals: a string is exactly the characters between its delimiters, which are double quotes or the character following the str prefix, and a byte array is the complete base91 content of its quotes. '
     'A name in angle brackets before the literal, with blanks allowed around it, becomes its identity; a literal that is begun but not finished is an error.',
     I, 'every text at which a primitive can begin', 'Delimiter, prefix and blank combinations are unbounded, and equality of values ignores identities, so tests comparing values do not see a lost identity.',
     ['src/parse/prims.rs', 'src/parse/names.rs', 'src/parse/wsp.rs'], [('prim, prim_value and literal readers', 'src/parse/prims.rs'), ('valid_name, ident', 'src/parse/names.rs')], 'value read from the text')
prop('C22', 'Bracketed collections are read completely, in order and by their bracket',
     'Text in round brackets is read as a tuple, or as a container when its items are name = value pairs, text in square brackets as a sequence and text in braces as a map; every item, field and entry is kept, in the order written, with each name or key bound to its own value and the name in front of the bracket as identity. '
     'Items are separated by commas on one line or by line breaks when the opening bracket ends its line; a missing separator or closing bracket is an error.',
     I, 'every text at which a collection can begin, at every nesting, on one line or over several',
     'The kind of collection is guessed by looking ahead in the text, so a wrong guess needs particular items after the bracket; tests use typical documents and an equality that ignores identities.',
     ['src/parse/mod.rs', 'src/parse/heuristics.rs', 'src/parse/list.rs', 'src/parse/map.rs', 'src/parse/cntr.rs'],
     [('kserd_delimited', 'src/parse/mod.rs'), ('pattern matching of brackets', 'src/parse/heuristics.rs'), ('tuple, seq_delimited, map::delimited, cntr::delimited', 'src/parse/*.rs')], 'value read from the text')
prop('C23', 'Containers written over lines keep every line at its indentation',
     'In a container written over lines, each line at its indentation (four blanks or a tab per level) contributes exactly what it says: a field, a nested container under its heading, one item of the sequence or one entry of the map under a repeated heading, or the identity. '
     'Items and entries under the same heading are collected in the order written, a heading may give an identity, blank lines are skipped, and a line that is less indented belongs to the enclosing container.',
     I, 'every text with containers written over lines, at every nesting and indentation',
     'Which lines belong together depends on indentation and headings across the whole document; tests use regular documents and an equality that ignores identities.',
     ['src/parse/cntr.rs', 'src/parse/mod.rs', 'src/parse/heuristics.rs'], [('verbose, verbose_cntr_field, expect_indents', 'src/parse/cntr.rs'), ('kserd_nested', 'src/parse/mod.rs'), ('pattern_match_verbose', 'src/parse/heuristics.rs')], 'value read from the text')
prop('C24', 'Inspecting a parse error never panics and points at the right place',
     'For any parse error, every entry gives the number and text of the line its place is in and the byte column of the place in that line, counted from one, with zeros for empty input. '
     'Asking for an entry beyond the last gives nothing, listing gives all entries in order, and neither asking, listing nor displaying ever panics.',
     I, 'every text that fails to parse and every entry of its error', 'Failing places at line ends, after carriage returns or inside multi-byte lines are rare; tests print a few typical errors.',
     ['src/parse/err.rs', 'src/parse/mod.rs'], [('Error::new, get, iter, backtrace', 'src/parse/err.rs'), ('Trace', 'src/parse/mod.rs')], 'entries and text of the error')
prop('C25', 'Errors carry and show their cause',
     'Displaying any error completes and shows everything the error was made with: the refused identity, the requested representation and the permitted one, the message of the failing type, the text of the error it wraps. '
     'An error made from a message or from another error holds exactly that, and a decoding mismatch reports the kind and the content of the value that was found and the type that was asked for.',
     PR, 'every error of every fallible operation, whatever value, name or user type caused it',
     'Tests check that operations fail, seldom with which text; which variant a wrong report appears on depends on the value found and the type requested, a table of hundreds of cells.',
     ['src/ds/mod.rs', 'src/ds/kserd.rs', 'src/encode/mod.rs', 'src/encode/decoder.rs', 'src/fmt/mod.rs', 'src/parse/err.rs'],
     [('Display for the error types', 'src/ds, src/encode, src/fmt, src/parse'), ('custom / From', 'src/encode/mod.rs'), ('mismatch reports', 'src/encode/decoder.rs')], 'text of errors')
prop('C26', 'Views cannot dangle or alias, and all types can be shared between threads',
     'No program can keep a borrowed value, view or iterator beyond the data it was made from, or change a value while such a view of it is in use; such programs do not compile. '
     'Owned copies outlive their source, every public type can be sent to and shared between threads, and the crate contains no unsafe code that could void these guarantees.',
     ['programs'], 'every program that uses the crate',
     'Tests are programs that compile; that all violating programs are rejected is a fact about lifetimes in signatures that no running test can observe.',
     ['src/ds/kserd.rs', 'src/ds/val.rs', 'src/ds/kstr.rs', 'src/ds/barr.rs', 'src/nav', 'src/fmt/formatter.rs'],
     [('lifetimes of borrowed views', 'src/ds, src/nav, src/fmt'), ('into_owned', 'src/ds')], 'whether a program compiles')
prop('C27', 'Results depend on the arguments alone and nothing else is touched',
     'Every operation gives the same result for the same arguments, whatever was called before, on whichever thread and in whatever environment. '
     'Nothing is read from, written to, printed to or remembered anywhere outside the values passed in, and access through a shared reference never changes a value.',
     ['histories', 'schedules', 'configurations'], 'every call, after every history of calls, under every interleaving of threads and in every environment',
     'A hidden cache, counter, environment lookup or dependence on hash order shows only under particular histories, processes or schedules.',
     ['src/lib.rs', 'src/ds', 'src/nav', 'src/encode', 'src/fmt', 'src/parse'], [('all functions, statics and types of the crate', 'src')], 'results and outside effects of calls')
prop('C28', 'Optional features only add, and build modes do not change results',
     'With any combination of the optional features the crate compiles, and every operation available without a feature is available with it and behaves the same. '
     'Building with or without debug assertions changes no result, no error and no panic.',
     CF, 'every combination of optional features, with and without debug assertions',
     'Tests run in one configuration; a difference between configurations cannot be seen from within any of them.',
     ['Cargo.toml', 'src/lib.rs', 'src/ds', 'src/nav', 'src/encode', 'src/fmt', 'src/parse'], [('cfg attributes and feature gates', 'src'), ('debug assertions', 'src/nav/navigator.rs')], 'behaviour of each build')
prop('C29', 'Written text is read back as an equal value',
     'Text written for a value, in any layout the formatter can reach, is accepted by the reader and read as a value equal to the one written. '
     'Every identity and field name the text shows is the identity or name of the value read.',
     ['inputs', 'configurations'], 'every value whose identities and field names the reader can spell, in every layout; except that unnamed empty tuples and containers are written as the unit, '
     'whole floats beyond 2^53 are read as the integer of their text, and a sequence of one literal word that is itself an unnamed row of a sequence shown in sections is not covered',
     'Agreement of writer and reader quantifies over all values times all layouts; fuzz tests sample small random values, mostly in one layout, with an equality that ignores identities.',
     ['src/fmt', 'src/parse', 'src/ds/num.rs'], [('writers of each kind', 'src/fmt'), ('readers of each form', 'src/parse'), ('number text', 'src/ds/num.rs')], 'the value read from written text')
prop('C30', 'Whatever is encoded decodes to what it was',
     'Decoding the value an object was encoded to, as the same kind of data, hands back exactly what was encoded: each number, text and byte array unchanged, options and variants as the ones they were, items, fields and entries complete and in order. '
     'Different map keys stay different entries.',
     PR, 'every serialisable type that asks for the kind of data it reports, every name it uses, and every value of it',
     'The space of types, names and values is open ended: a name that collides with a reserved identity or an integer at the edge of its range needs that very type or value.',
     ['src/encode/encoder.rs', 'src/encode/decoder.rs', 'src/ds/num.rs'], [('Serializer for Encoder and its builders', 'src/encode/encoder.rs'), ('Deserializer, EnumAccess, VariantAccess for Decoder', 'src/encode/decoder.rs')],
     'what the target type is given when decoding an encoded value')
prop('C31', 'What is put on one line because of a width limit fits the limit',
     'When a value is laid out for a width limit, a collection with something in it is put on one line only if its text on one line has at most that many characters, identities, names, separators and everything nested included. '
     'With a limit of zero everything stays spread out as far as its kind and place allow.',
     ['inputs', 'configurations'], 'every value with non-empty identities, every combination of identity settings and every width limit, on a formatter not changed before',
     'The measured width has to agree with the written text for every kind, nesting and setting; a kind measured two characters short shows only for values near the limit that hold several of them.',
     ['src/fmt/solver.rs', 'src/fmt/formatter.rs', 'src/fmt/mod.rs'], [('inline and concise widths', 'src/fmt/solver.rs'), ('choice of representation', 'src/fmt/solver.rs')], 'text written after applying a configuration')
prop('C32', 'Debug text shows the identity, the kind and all of the content',
     'The debug text of any value shows its identity or that it has none, which kind of value it is, and its whole content: the primitive itself, or every element, every field after its name and every entry after its key, once and in stored order. '
     'Text and bytes show the same whether borrowed or owned, and a number shows its stored value in full. '
     'The debug text of a navigation node shows its identity, its kind, a primitive\'s content, its index, its parent\'s index, whether it is a key and its place in the parent, as the navigation queries answer them.',
     PR, 'every value of any size and nesting, every navigator node',
     'Debug text is what a failing comparison prints; one that leaves out elements beyond some number, or a kind that prints like another, is noticed only on values larger or rarer than any test prints.',
     ['src/ds/kserd.rs', 'src/ds/val.rs', 'src/ds/kstr.rs', 'src/ds/barr.rs', 'src/ds/num.rs', 'src/nav/node.rs'],
     [('Debug for values and nodes', 'src/ds/kserd.rs, src/ds/val.rs, src/nav/node.rs'), ('Debug for text and bytes', 'src/ds/kstr.rs, src/ds/barr.rs')], 'debug formatted text')
prop('C33', 'Text refused by its destination is reported',
     'Writing the text or the debug text of a value, number, node, parse trace or error to a destination fails exactly when the destination refuses a piece of it. '
     'Success therefore means that all of the text was taken, and no failure is made up when everything was taken.',
     ['inputs', 'fault_sequences'], 'every value and every write at which the destination may refuse',
     'Tests write to strings, which never refuse; a failure dropped at one of several writes leaves a truncated text reported as complete.',
     ['src/fmt/mod.rs', 'src/ds/num.rs', 'src/ds/kstr.rs', 'src/parse/err.rs', 'src/nav/node.rs', 'src/encode/encoder.rs', 'src/encode/decoder.rs', 'src/fmt/formatter.rs'],
     [('Display implementations', 'src/fmt/mod.rs, src/ds/num.rs, src/parse/err.rs'), ('Debug implementations', 'src/ds/val.rs, src/nav/node.rs')], 'result of formatting into a destination')
