"""Technique, level and level note per property, for MANIFEST.json."""
TV = ('static translation validation on MIR: value-numbering dataflow over the product of generated code and reference code, run to a fixpoint, '
      'with typestate conformance of observable events')
NOTE = ('Per witness grammar the verdict holds for every input and loop length; over grammars it covers the generated family (every constructor in every '
        'context, sizes around every constant the translator mentions), not all grammars. Trusted: rustc MIR, the reference emitter and library models.')
META = {p: (TV, 'translation_validation', NOTE) for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C11', 'C12', 'C13', 'C29')}
META['C17'] = ('static translation validation on MIR: product of the code generated with and without the trace feature, ignoring only the print machinery; call scan of untraced code',
               'translation_validation', NOTE)
NA = {'C30': 'Step counts and stack depth are runtime quantities over unbounded inputs; no static argument in reach bounds them for user grammars with arbitrary user code.'}

RT = ('static translation validation on MIR: path-sensitive symbolic value numbering of the runtime functions against reference functions, with summaries of '
      'loops and iterator chains')
RTN = ('For all inputs, positions, literals and sets. Trusted: rustc MIR, the reference functions, and the models of the core string, slice, iterator, set and '
       'formatting operations; a construct outside the models is reported as not decided, not as an alarm.')
for _p in ('C19', 'C21', 'C27'):
    META[_p] = (RT, 'translation_validation', RTN)
META['C20'] = ('static panic reachability on MIR: path-sensitive dataflow with linear bounds and character-boundary facts over every indexing, slicing, unwrap and arithmetic check',
               'other', RTN)
META['C10'] = (RT + '; and of generated code against reference code', 'translation_validation', NOTE)

META['C26'] = ('type-checking of every feature combination, crate-dependency inventory from the compiler, and structural plus product comparison of MIR between configurations',
               'other', 'All feature combinations; all runtime functions; generated code for the witness family. Trusted: rustc (nightly) and its crate metadata; targets other than the host are not built.')

META['C22'] = ('static translation validation on MIR: product of the checked-in grammar parser and reference code generated independently from grammar.rustpeg',
               'translation_validation', 'Every rule of the grammar, every token stream. Trusted: rustc MIR, the independent reader of grammar.rustpeg, the reference emitter.')
META['C24'] = ('static translation validation on MIR: product of the functions of the token stream and reference functions over a symbolic token list',
               'translation_validation', 'All operations of the token stream, all token lists, positions and literals. Trusted: rustc MIR, the reference functions, proc_macro2.')

META['C23'] = ('static translation validation on MIR of grammars in every documented spelling against reference code from an independent reader; comparison of compiler items (documentation, visibility)',
               'translation_validation', 'All spellings of the documented syntax up to two levels, all combinations of header parts, all forms of types. Trusted: the independent reader, rustc MIR, the reference emitter.')

META['C18'] = ('static effect analysis on MIR: classification of every call, constant, static, thread-local and cast, and of the consumers of hashed iteration; type-checked thread witnesses', 'other',
               'All functions of the runtime and the macro crate, all code generated for the witness family. Trusted: rustc MIR, the table of standard-library modules that reach outside, code of other crates.')

META['C31'] = ('static translation validation on MIR: product of the code generated with tracing and reference code that prints every attempt and outcome; printed text decoded from the format strings',
               'translation_validation', NOTE)

WIT = 'compile witnesses: generated families of grammars, accepted or rejected by the current translator at compile time, judged against %s'
WN = 'Every kind of expression in every place up to two levels, a sample of deeper ones. Trusted: the reader and the definitions in witness.py, rustc diagnostics.'
META['C14'] = (WIT % 'a fixpoint computation of nullability and of the left-call graph on the syntax tree', 'other', WN)
META['C15'] = (WIT % 'a fixpoint computation of nullability on the syntax tree', 'other', WN)
META['C16'] = ('compile witnesses: malformed grammars with marked places and well-formed relatives, judged by the location of the compiler\'s errors', 'other',
               'Every kind of error in every kind of place; syntax errors by example (the reader itself is decided by C22 and C24). Trusted: rustc diagnostics.')
META['C28'] = ('type-level witnesses: programs asserting exact types and lifetimes that must type-check, and compile-fail programs that must not', 'other',
               'The families of programs in wty.py. Trusted: rustc\'s type and borrow checker.')
META['C25'] = ('static translation validation on MIR of grammars whose names are the identifiers read out of the compiled translator, against reference code with fresh names; compile witnesses',
               'translation_validation', 'Every identifier the translator can write, in every role a user can give it. Trusted: rustc MIR and name resolution, the reference emitter. '
               'Reserved: the standard prelude, primitive types, constants and items named with two leading underscores.')
META['C32'] = ('compile witnesses: grammars broken at every token; location and words of the compiler\'s error judged against an interpretation of the grammar of grammars by the documented meaning of error reports', 'other',
               'Nine grammars that use every part of the syntax, broken in up to twelve ways at each token. Trusted: the reader, the interpretation in pint.py, rustc diagnostics.')
META['C35'] = ('type-checking of the witness grammars in every edition; static translation validation on MIR: product of the code of each edition and that of edition 2021', 'translation_validation', NOTE)
META['C33'] = ('compile witnesses: grammars with every construct for input types that have exactly the traits they need, which must type-check; the same with a trait taken away, which must be rejected at the place', 'other',
               'Every construct in every context for an input with exactly the traits needed, samples of them for unsized, trait-object, borrowed and generic inputs. Trusted: rustc\'s type checker.')
META['C34'] = ('type-level witnesses: programs asserting fields, conditional traits, ownership, lifetimes and signatures of the public types in every feature set; compile-fail programs for what is hidden', 'other',
               'The programs in wapi.py. Trusted: rustc\'s type and borrow checker.')
