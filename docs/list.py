INP = ['inputs']
prop('C01', 'Integer arithmetic is exact over the whole fixnum range',
     'For all integers whose exact result fits in 64 bits, + - * abs 1+ 1- return exactly the mathematical result; quotient truncates, remainder has the sign of the dividend, modulo the sign of the divisor; gcd and lcm are the non-negative divisor and multiple; expt with a non-negative exponent is repeated multiplication. Zero divisors and non-numbers raise an error, never a crash or a value.',
     INP, 'all pairs of 64-bit integers; any number of arguments; results that overflow 64 bits are outside the property',
     'Tests use a few small operands; sign combinations, boundary values and long argument lists are not settled by samples.',
     ['src/c/number.cc', 'src/c/pscm.h'], [('integer arithmetic', 'src/c/number.cc'), ('variadic driver reduce', 'src/c/pscm.h')],
     BASE + 'Results that overflow 64 bits are excluded by assumption. The defining equations of the ghost gcd are trusted mathematics (Euclid).')
prop('C02', 'Rational arithmetic is exact and always in lowest terms',
     'Division of integers gives an integer when exact and otherwise the rational in lowest terms with a positive denominator; + - * / on integers and rationals give the exact mathematical result normalised the same way (an integral result is an integer); an inexact operand makes the result the floating-point operation on the two values. Division by exact zero and non-number operands raise an error.',
     INP, 'all operand pairs of each kind whose cross products fit in 64 bits',
     'Normalisation, sign and cross-multiplication errors show only for particular numerators and denominators.',
     ['src/c/number.cc'], [('rational construction and arithmetic', 'src/c/number.cc')],
     BASE + 'Intermediate overflow of 64 bits is excluded by assumption; doubles are uninterpreted (the result must be the named IEEE operation on the named operands); gcd equations are trusted mathematics.')
prop('C03', 'Numeric comparisons and predicates order all numbers correctly',
     '= < > <= >= decide the exact mathematical relation for all integers and rationals and the floating-point relation when an operand is inexact; with more arguments they hold exactly when every adjacent pair does; max and min return the extreme argument, inexact if any argument is; zero? positive? negative? odd? even? are exact on every number they accept. Non-numbers raise an error.',
     INP, 'all pairs of numbers of all kinds, any number of arguments',
     'Wrong results appear only near 2^53, for large cross products, or at one position of a longer argument list.',
     ['src/c/number.cc'], [('comparisons, predicates, max and min', 'src/c/number.cc')],
     BASE + 'Doubles are compared by uninterpreted, reflexive/commutative-normalised IEEE relations; max/min with mixed kinds are proved for two arguments, any number of integers.')
prop('C05', 'eq?, eqv?, equal? and the searches built on them give the right answer',
     'eq? and eqv? hold for two occurrences of the same object, for symbols and strings with the same characters, equal characters, booleans, the empty list and numbers of equal value, and for nothing else: two pairs, vectors or procedures are eq? exactly when they are one object, however they were reached. equal? also compares lists, dotted lists and vectors of any length and nesting element by element, and strings by their whole contents. memq, memv and member return the tail of the list that begins with the first element the predicate accepts, assq, assv and assoc the first pair whose car it accepts, both the very object and not a copy, else #f; assq compares strings by identity. A list argument that is not a list is an error.',
     ['inputs', 'programs'], 'all values of all types, all lengths and nestings',
     'Tests compare a few short values; which of the 7x7 combinations of types, lengths, shared tails or embedded characters is answered wrongly only shows for that combination.',
     ['src/c/eq.cc', 'src/c/alist.cc', 'src/c/list.cc'], [('eq', 'src/c/eq.cc'), ('alists', 'src/c/alist.cc'), ('member', 'src/c/list.cc')],
     BASE + 'the predicates are proved kind by kind, list and vector comparison by induction over the contract of the comparison itself, the searches for lists of every length against an arbitrary comparison relation. That the recursion of equal? ends is not proved (cyclic data is excluded).')
prop('C06', 'List constructors, accessors and append compute their mathematical results',
     'For every list of any length and every element values, list construction, car/cdr and their compositions, length, reverse, append, list-ref, list-tail, list-head, last-pair, set-car! and set-cdr! give exactly the result the language report defines, including improper lists, and leave every object they are not meant to change untouched. The pairs that append (for all arguments but the last), reverse and list-head return are fresh, so mutating them changes no argument. Wrong types and out-of-range indices raise an error and never crash or return a value.',
     INP, 'all argument objects, all list lengths (no bound), proper, dotted and empty lists, all indices',
     'Tests use a handful of short literal lists; off-by-one, odd/even length, aliasing and improper-tail cases differ only at particular lengths or shapes.',
     ['src/c/list.cc'], [('pair and list procedures', 'src/c/list.cc')],
     BASE + 'append of a proper list and a non-list is proved only for lists up to 3 cells in the quick tier (labelled bounded, unbounded attempt in thorough).')
prop('C08', 'A hash table maps every key to the last value stored under it',
     'After any history of hash-set!, hash-create-handle!, hash-remove! and changes through handles, in their equal?, eq? and eqv? variants, looking up a key gives the last value stored under a key the predicate identifies with it and not removed since, or #f; other keys are untouched. A handle is the entry in the table itself: hash-create-handle! leaves an existing value alone, and setting the cdr of a handle changes the table. Keys of every type work, values of every type (lists, the empty list, #f) come back as the object stored. hash-fold visits every entry once. The initial size has no influence on the contents. Non-tables and bad sizes are errors.',
     ['inputs', 'histories'], 'all keys, values, table sizes, bucket contents; all histories by induction over the operations',
     'Tests store a few symbols and strings; collisions, removal from the middle of a bucket, values that are lists and keys that are equal but not identical need particular histories.',
     ['src/c/hash_table.cc'], [('hash tables', 'src/c/hash_table.cc')],
     BASE + 'every operation is proved on the bucket its key selects, of any length, against arbitrary hash functions and arbitrary symmetric key predicates. That keys which the predicate identifies have one hash code is proved for integers, floats, ratios, characters and booleans, and checked by bounded runs for symbols, strings, lists and vectors; hash-fold is covered by bounded runs only.')
prop('C09', 'Vectors hold exactly what was stored, at every index, with bounds checked',
     'A vector of length n has elements 0..n-1; make-vector, vector, vector-ref, vector-set!, vector-length, vector->list and list->vector read and write exactly the addressed element and no other, for every n and index. Any index outside 0..n-1, any non-integer index and any non-vector argument raises an error without touching memory.',
     INP, 'all vectors of all lengths, all 64-bit indices, all element objects',
     'Tests use small constant vectors and indices; wrong narrowing, off-by-one or aliasing appears only at other indices or sizes.',
     ['src/c/vector.cc'], [('vector procedures', 'src/c/vector.cc')], BASE)
prop('C11', 'Character procedures agree with the ASCII tables on all 256 codes',
     'For all character codes 0..255 the comparisons order characters by code (the case-insensitive ones by the code of their upper-case form), the class predicates and the two case mappings are those of ASCII (codes above 127 are in no class and unmapped), and char->integer and integer->char are inverse. Non-characters and codes outside 0..255 raise an error.',
     INP, 'all 256 codes and all pairs of them; all 64-bit integers for integer->char',
     'Tests sample a few letters; signedness or table errors show only for particular codes or pairs.',
     ['src/c/char.cc'], [('character procedures', 'src/c/char.cc')], BASE)
prop('C12', 'Every name denotes its innermost lexically enclosing binding',
     'A name denotes the variable of the innermost enclosing binding construct of its text, whatever is bound where the code is called from; define makes the binding in the current scope only, set! changes exactly the denoted one, a closure sees later assignments to its variables and keeps them alive, each call makes new locations; a program may rebind any name, builtins and macros included. An unbound name raises an error.',
     ['programs', 'inputs'], 'all names, all environments of any depth and with any number of bindings, all programs',
     'Scoping bugs need particular shadowing patterns, depths, definition places or numbers of variables; tests use a few.',
     ['src/c/environment.cc', 'src/c/eval.cc', 'src/c/define.cc'], [('environment frames', 'src/c/environment.cc'), ('symbol evaluation, set!, lambda', 'src/c/eval.cc')],
     BASE + 'Environment lookup, insertion and assignment are proved for frames of every length and chains of every depth; evaluating a subexpression is an arbitrary state-changing event assumed not to change which module a frame belongs to. Whole programs are covered by bounded random runs against a reference evaluator in addition.')
prop('C15', 'Control forms evaluate the right expressions, in order, once',
     'if evaluates its test once and then exactly the selected branch; and/or stop at the first deciding value and return it; cond and case run exactly the first matching clause (a cond clause without expressions returns its test value, one with => calls its receiver with it; case compares with eqv?); begin and bodies evaluate every expression once, left to right, and return the last value; quote evaluates nothing and returns the datum itself; self-evaluating data evaluate to themselves. Only #f counts as false.',
     ['programs', 'inputs'], 'all expressions (sub-evaluations are arbitrary, including ones that change any data), all numbers of clauses or operands',
     'Tests check values of a few forms; double evaluation, wrong order or a wrong branch for particular truthy values needs effects in every position and every length.',
     ['src/c/eval.cc', 'src/c/cond.cc', 'src/c/case.cc'], [('special form dispatch', 'src/c/eval.cc'), ('cond', 'src/c/cond.cc'), ('case', 'src/c/case.cc')],
     BASE + 'Nested evaluation is an arbitrary state-changing event recorded in a ghost trace (a caller is checked against the evaluator\'s contract). if, quote, and, or, begin, self-evaluation, cond (any number of clauses, each a test alone, with expressions or with a receiver) and case (any number of clauses and data, with the eqv? comparison through its contract) are under contract.')
prop('C19', 'A promise runs its expression at most once and keeps its first value',
     'delay evaluates nothing; the first force runs the delayed expression in its defining scope and caches the value; every later force returns that same object without running anything. When forcing re-enters the same promise, the value stored first wins and is returned by every force; a force that exits by an error leaves the promise unforced.',
     ['programs', 'histories'], 'all promises, all delayed expressions including re-entrant ones, all numbers of forces',
     'Tests force a promise once or twice; re-entrancy and interruption depend on the delayed expression.',
     ['src/c/delay.cc'], [('delay and force', 'src/c/delay.cc')], BASE + 'The delayed expression is an arbitrary state-changing event.')
prop('C22', 'A call binds the arguments, checks their number and runs the body once',
     'A call evaluates the operator, then each operand once, left to right, in the caller\'s scope, binds the parameters in order to those values in a new scope inside the scope where the procedure was made, a rest parameter getting a fresh list of what is left over, and its value is the value of the last body expression. A call with too few or too many operands, or of something that is not a procedure, raises an error. Values handed to a procedure by apply, map or another procedure are never evaluated again. This is so for closures and builtins, however the procedure was obtained.',
     ['programs', 'inputs'], 'all procedures with any number of parameters, all operand lists of any length, all body lengths; operands and bodies are arbitrary code',
     'Tests call procedures with a few arguments and never look at evaluation counts; a second evaluation or a shared rest list needs a particular operand and call path.',
     ['src/c/eval.cc', 'src/c/apply.cc'], [('calls, operand evaluation, closure application', 'src/c/eval.cc'), ('calls from other procedures', 'src/c/apply.cc')],
     BASE + 'Closure application, operand evaluation, bodies, builtin calls, the dispatch on the operator and the C-level call interface are proved for every number of parameters and operands, each against the contracts of the others; name lookup is used through its contract (C12). Calls while another module is current, and map/apply themselves, are covered by bounded runs here.')
prop('C25', 'Variable objects are independent cells',
     'A variable object returns the value last stored in it and only that; storing into one changes no other object; reading an unbound one raises an error; each creation returns a fresh cell.',
     ['inputs', 'histories'], 'all variable objects, all stored values, any sequence of operations',
     'Tests touch one or two cells; interference between cells needs other aliasing patterns.',
     ['src/c/variable.cc'], [('variable objects', 'src/c/variable.cc')], BASE)
prop('C26', 'Type predicates answer true exactly on their own kind',
     'Each type predicate returns #t exactly on the objects of its kind and #f on every other object, without failing, for every object; list? is true exactly for chains of any length ending in the empty list, and terminates on circular structure.',
     INP, 'all objects; lists of every length, dotted lists of every length',
     'Tests try a few objects per predicate; the predicates differ on rarely used kinds and on long, dotted or circular lists.',
     ['src/c/predicate.cc'], [('predicates', 'src/c/predicate.cc')], BASE + 'Circular lists are covered by real runs only.')
prop('C32', 'let, let*, letrec, named let and do bind and loop as their expansions say',
     'let evaluates the expressions in the surrounding scope and its body in one new scope; let* nests one scope per binding; letrec binds all variables before it evaluates the expressions in order; a named let is a procedure of its variables, visible only inside, called with the values computed outside; do evaluates the initial expressions in the surrounding scope, then repeats test, body and the steps in the scope of the finished iteration, whose values go into one new scope, until the test is true (any value but #f), and yields the value of the last result expression. Forms that are not well formed are reported as errors.',
     ['programs', 'inputs'], 'all bindings, bodies and numbers of bindings and iterations',
     'Tests bind a few variables and count to small numbers; which scope an expression is evaluated in, sharing of scopes between iterations and unusual test values show only in particular programs.',
     ['src/c/let.cc', 'src/c/do.cc'], [('let forms', 'src/c/let.cc'), ('do', 'src/c/do.cc')],
     BASE + 'let, let*, letrec are proved to build the expansion that lambda, set! and C22/C12 give meaning to, for every number of bindings; do is proved against the contracts of evaluation. Named let with bindings and do loops in which only some variables have steps are covered by bounded runs.')
prop('C27', 'apply, map and for-each pass every element, in order, exactly once',
     'apply evaluates its operands once and calls the procedure with the values of the leading ones followed by the elements of the last, a list. map calls the procedure with the first elements of all the lists, then the second ones and so on until the shortest list ends, and returns a fresh list of the results in that order. for-each makes the same calls and returns no value; its lists must have one length. Values are passed as they are, never evaluated again. A non-procedure, a non-list or missing operands raise an error.',
     ['programs', 'inputs'], 'all procedures, all elements, all list lengths; one and two lists for map and for-each, any number of leading operands for apply',
     'Tests map numbers, for which a second evaluation is invisible; order, evaluation counts and sharing need particular elements, lengths and call paths.',
     ['src/c/map.cc', 'src/c/for_each.cc', 'src/c/apply.cc'], [('map', 'src/c/map.cc'), ('for-each', 'src/c/for_each.cc'), ('apply', 'src/c/apply.cc')],
     BASE + 'map, for-each and apply are proved against the contracts of evaluation and of procedure application (C22), for lists of every length; three or more lists are covered by bounded runs only.')
prop('C10', 'String procedures compute exact results on every character',
     'string-length, string-ref, string-set!, make-string, string, substring, string-append, string->list, list->string, symbol->string and string->symbol give exactly the characters the language report defines, for every string of any length and any characters including NUL and codes above 127; the comparisons string=? string<? string>? string<=? string>=? (and the case-insensitive ones) order strings by their character codes, shorter prefix first; indices outside the string and operands of another type raise an error; only string-set! changes a string and every other result is a fresh string.',
     INP, 'all strings of all lengths over all 256 characters, all indices',
     'Tests use a few short ASCII literals; embedded NULs, codes above 127, empty strings, boundary indices and sharing between strings differ only for particular inputs.',
     ['src/c/string.cc', 'src/c/symbol.cc'], [('string procedures', 'src/c/string.cc'), ('symbols and strings', 'src/c/symbol.cc')],
     BASE + 'memcpy, memcmp, memset, strlen, tolower are used through their C standard contracts. string-append of three or more strings is covered by a bounded unrolling (stated bound), of up to two by proof.')
prop('C16', 'dynamic-wind runs its guards on every entry and exit, in nesting order',
     'dynamic-wind runs its entry guard, then its body, then its exit guard, each once, and returns the value of the body; the exit guard is not active while the entry guard runs and the wind is active exactly during the body. When a continuation is invoked, the exit guards of the winds being left run innermost first and the entry guards of the winds being entered run outermost first, each exactly once and with the wind chain of its own surroundings current; winds common to both are not touched; then the continuation receives its value.',
     ['programs', 'histories'], 'all wind chains of any length, all common tails; guards and bodies are arbitrary code',
     'Tests leave one or two nested winds; the order and the number of guard runs differ only for particular nestings of source and target.',
     ['src/c/dynwind.cc', 'src/c/continuation.cc'], [('dynamic-wind and the wind chain', 'src/c/dynwind.cc'), ('continuation invocation', 'src/c/continuation.cc')],
     BASE + 'A guard that returns normally is assumed to leave the wind chain as it found it (which dynamic-wind itself is proved to do). The machine-stack copying of call/cc is outside the verifier. The entry guards on re-entry are covered by a bounded unrolling (at most three winds).')
prop('C20', 'values and call-with-values pass every value, in order, once',
     'values returns its arguments, however many, in order as the fresh sequence of values this implementation represents as a list; call-with-values calls its producer once without arguments and its consumer once with exactly the values produced, in order, and returns the consumer\'s value; operands are evaluated once each and values are never evaluated again; an operand that is not a procedure, or a call with too few operands, raises an error.',
     ['programs', 'inputs'], 'all numbers of values, all values, all producers and consumers',
     'Tests pass two or three numbers; symbols, lists and empty value sequences as values, and evaluation counts, need particular programs.',
     ['src/c/values.cc'], [('values and call-with-values', 'src/c/values.cc')],
     BASE + 'Nested evaluation and procedure calls are arbitrary state-changing events (contracts of C15 and C22). A producer that returns a list without values cannot be told from one that returns several values in this implementation.')
prop('C29', 'A throw reaches the innermost matching catch, with its key and arguments',
     'catch runs its thunk once and returns its value when nothing is thrown. A throw goes to the innermost catch being executed whose tag is #t or the key, however many others are in between; the dynamic-winds entered since are left, the handler is called once, outside of its own catch, with the key and every argument thrown in order, and its value is the value of the catch. After either way out exactly the enclosing catches are active. Without a matching catch the error is reported and ends the program; bad tags, thunks, handlers and keys raise an error before anything runs.',
     ['programs', 'histories'], 'all nestings of catches of any depth, all keys, all argument lists, arbitrary thunks and handlers',
     'Tests throw through one or two catches with one argument; the selection differs only for particular nestings, tags and argument counts.',
     ['src/c/throw.cc'], [('catch and throw', 'src/c/throw.cc')],
     BASE + 'setjmp/longjmp are used through their contract (the second return arrives with the key and arguments stored by the throw, in an otherwise arbitrary state); strcmp decides equality of spellings. Lazy catches of the C interface are excluded.')
