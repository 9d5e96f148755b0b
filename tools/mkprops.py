#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that line anchors are easy to maintain)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=('stdout/exit status of ethos on a script',)):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe))))


prop('A01', 'Arithmetic operators compute exact mathematical results',
     'On numeral, decimal and rational literals of any size, eo::add, eo::mul, eo::neg, eo::qdiv, eo::zdiv, eo::zmod, eo::is_neg, eo::gt and the conversions eo::to_z and eo::to_q return exactly the mathematical result in the right literal category (quotient and remainder of eo::zdiv/eo::zmod are the Euclidean ones: the remainder is never negative; eo::qdiv always yields a rational, eo::to_z floors). '
     'Applications to mixed categories, to other kinds of literal, or division by zero stay unevaluated.',
     ['inputs'], 'all argument values (unbounded integers and rationals, every sign and category combination, every arity the operator accepts)',
     'The regression files sample a few dozen small constants; they cannot reach every sign combination, operand size or category mix.',
     ['src/literal.cpp', 'src/util/integer.cpp', 'src/util/rational.cpp', 'src/util/rational.h', 'src/type_checker.cpp'],
     [('evaluation of operators on literals', 'src/literal.cpp: Literal::evaluate'), ('Euclidean division', 'src/util/integer.cpp: euclidianQR'),
      ('dispatch from terms to literals', 'src/type_checker.cpp: evaluateLiteralOpInternal')])
prop('A02', 'Bit-vector operators are exact modulo their width',
     'On binary and hexadecimal literals of any width, eo::and, eo::or, eo::xor, eo::not, eo::add, eo::mul, eo::neg, eo::zdiv, eo::zmod, eo::concat, eo::extract, eo::len, eo::to_z and eo::to_bin return the literal whose value and width the manual defines (arithmetic modulo 2^width, total division, extraction clipped to the width with an empty result for an empty range). '
     'Operands of different widths or categories, and widths that do not fit in 32 bits, leave the application unevaluated.',
     ['inputs'], 'all widths, values and index pairs, including zero-width operands, indices at and beyond the width, and negative indices',
     'Tests use a handful of widths below 16; boundary indices, empty vectors and wide operands are unbounded families.',
     ['src/literal.cpp', 'src/util/bitvector.cpp', 'src/util/bitvector.h', 'src/util/integer.cpp'],
     [('bit-vector arithmetic', 'src/util/bitvector.cpp'), ('operator semantics', 'src/literal.cpp: Literal::evaluate')])
prop('A03', 'String operators are exact over code points',
     'On string literals of any length over all code points 0..196607, eo::concat, eo::len, eo::extract, eo::find, eo::to_z and eo::to_str return exactly the string or position the manual defines (extraction from the first index through the second inclusive, clipped to the end; eo::find yields the first occurrence or -1). '
     'Arguments outside the domain of an operator leave the application unevaluated.',
     ['inputs'], 'all strings, all index pairs, all needle/haystack pairs, including empty strings and overlapping occurrences',
     'The tests contain a few fixed ASCII strings; positions, lengths and code points form infinite families.',
     ['src/literal.cpp', 'src/util/string.cpp', 'src/util/string.h'],
     [('string primitives', 'src/util/string.cpp: find, substr, concat'), ('operator semantics', 'src/literal.cpp: Literal::evaluate')])
prop('A04', 'Core operators decide syntactic identity and never guess',
     'eo::eq, eo::is_eq, eo::is_ok, eo::ite, eo::requires, eo::and/or/not/xor on Booleans and the recognisers eo::is_z, eo::is_q, eo::is_bin, eo::is_str, eo::is_bool, eo::is_var return exactly what the manual defines on every combination of values, non-values (stuck terms) and non-ground terms: eo::eq of two values is their syntactic identity, eo::requires yields its third argument only if the first two are the same value, and eo::ite evaluates only the selected branch. '
     'eo::hash is injective on values and eo::cmp is a strict total order; eo::typeof returns the type and eo::nameof / eo::var convert between a variable and its name.',
     ['inputs'], 'all argument terms: values of every syntactic category, stuck applications, nested conditionals',
     'Tests check listed examples; soundness of rules guarded by eo::requires depends on every other combination being right as well.',
     ['src/type_checker.cpp'],
     [('evaluation of builtin operators', 'src/type_checker.cpp: evaluateLiteralOpInternal'), ('conditional evaluation', 'src/type_checker.cpp: evaluate')])
prop('A05', 'List operators agree with their list semantics',
     'For an operator f declared right- or left-associative with nil, eo::cons, eo::list_len, eo::list_concat, eo::list_nth, eo::list_find, eo::list_rev, eo::list_erase, eo::list_erase_all, eo::list_setof, eo::list_minclude, eo::list_meq, eo::list_diff, eo::list_inter, eo::list_singleton_elim and eo::nil compute on f-lists exactly the finite-sequence function the manual defines, preserving element order and multiplicity (left-associative lists are the mirror images of right-associative ones). '
     'If an argument that must be an f-list is not one, or an index is out of range, the application stays unevaluated.',
     ['inputs'], 'all list lengths, all element patterns (repetitions, nested f-applications, the nil element itself), right- and left-associative operators, all index values',
     'Tests use lists of up to six elements for mostly right-associative operators; correctness is an inductive statement over list length.',
     ['src/type_checker.cpp', 'src/expr.cpp'],
     [('list views', 'src/type_checker.cpp: getNAryChildren, isNAryList, getNAryNthTail, prependNAryChildren'), ('list operators', 'src/type_checker.cpp: evaluateLiteralOpInternal and evaluateList*Internal')])
prop('B01', 'Terms are identical exactly when they are structurally equal',
     'Two terms the checker builds in one run are treated as the same term if and only if they have the same head, the same children in order, and (for literals) the same category and value: however and whenever they were constructed, re-parsed or computed by evaluation, and however many terms were created or dropped in between. '
     'Distinct symbols declared with the same name stay distinct.',
     ['inputs', 'histories'], 'all pairs of terms and all construction/destruction histories',
     'Sharing is a global invariant of the term database; a test exercises one construction order and a handful of shapes.',
     ['src/state.cpp', 'src/expr.cpp', 'src/expr_trie.h', 'src/literal.cpp'],
     [('hash-consing', 'src/state.cpp: mkExprInternal, mkLiteralInternal'), ('trie', 'src/expr.cpp: ExprTrie::get, ExprTrie::remove')])
prop('B02', 'Pattern matching is sound and complete',
     'A pattern with parameters matches a term exactly when some assignment of terms to its parameters makes the pattern syntactically equal to the term; the assignment found is that one, and a repeated parameter must match the same term at every occurrence. '
     'Literals, constants and applications match only themselves.',
     ['inputs'], 'all patterns (including non-linear and nested ones) and all ground terms',
     'Tests contain a few dozen program cases; non-linear and deeply shared patterns form an unbounded family.',
     ['src/type_checker.cpp'], [('matching', 'src/type_checker.cpp: TypeChecker::match')])
prop('B03', 'Programs return the first matching case and otherwise are stuck',
     'Applying a program to ground values yields the instantiated and evaluated result of the first case, in the order written, whose patterns match all arguments; if no case matches, or an argument is not a value, the application remains unevaluated and never equals any value. '
     'Recursive calls and calls to other programs inside a result follow the same rule.',
     ['inputs', 'programs'], 'all programs (case lists, overlapping patterns, recursion) and all argument terms',
     'Tests run particular programs on particular terms; case order and stuckness must hold for every program a signature defines.',
     ['src/type_checker.cpp', 'src/cmd_parser.cpp', 'src/state.cpp'],
     [('program evaluation', 'src/type_checker.cpp: evaluateProgramInternal'), ('definition of programs', 'src/cmd_parser.cpp: PROGRAM')])
prop('B04', 'Evaluation substitutes simultaneously and bottom-up',
     'Instantiating a rule, program case or macro replaces every occurrence of each parameter by its argument simultaneously (arguments are never themselves re-substituted) and evaluates every operator application in the result bottom-up; a term without parameters and operators is returned unchanged. '
     'The result does not depend on the order in which terms were evaluated before (no stale cached results across different instantiations).',
     ['inputs', 'histories'], 'all terms, substitutions and sequences of evaluations',
     'The traversal uses explicit stacks and caches that depend on sharing; tests only meet particular shapes.',
     ['src/type_checker.cpp', 'src/state.cpp'], [('evaluation', 'src/type_checker.cpp: evaluate'), ('caching', 'src/type_checker.cpp: evalTrie')])
prop('T01', 'Applications are accepted exactly when they are well-typed',
     'A function application is accepted only if the number of arguments and the (instantiated, evaluated) argument types agree with the declared type of the function, including dependent (quoted) argument types and eo::requires-guarded result types; its type is the correspondingly instantiated result type. '
     'Every other application is rejected with an error, so no proof can use an ill-typed term.',
     ['inputs', 'programs'], 'all declared function types (polymorphic, dependent, guarded, with implicit arguments) and all argument lists',
     'Tests contain a few ill-typed files; acceptance must be exact for every type and argument combination.',
     ['src/type_checker.cpp', 'src/state.cpp'],
     [('type of an application', 'src/type_checker.cpp: getTypeApp, getTypeAppInternal'), ('literal type rules', 'src/type_checker.cpp: getOrSetLiteralTypeRule')])
prop('T02', 'N-ary attributes desugar to the documented term',
     'For every attribute (:right-assoc, :left-assoc, :right-assoc-nil, :left-assoc-nil and their non-singleton variants, :chainable, :pairwise, :arg-list, :binder, :implicit) an application with any number of arguments denotes exactly the nested binary (or list, or binder) term described in the manual, including the nil terminator and the treatment of :list arguments.',
     ['inputs', 'programs'], 'all attributes, argument counts and positions of :list arguments',
     'Tests use two or three arguments; desugaring is defined for every argument count and mix of list arguments.',
     ['src/state.cpp', 'src/expr_parser.cpp'], [('desugaring', 'src/state.cpp: mkApplyAttr')])
prop('P01', 'A step is accepted only if its rule derives the stated conclusion',
     'A step (or step-pop) is accepted only if the number of premises and arguments together is the one the rule declares, every premise is a proof in scope of the formula the rule requires under one consistent instantiation, every :requires condition holds, and the stated conclusion is the rule\'s instantiated and evaluated conclusion, which must be a Boolean formula. '
     'Conversely a correct step is accepted, and only the established formula becomes available under its name.',
     ['inputs', 'programs'], 'all rule declarations (premises, :premise-list, :args, :requires, :assumption, :conclusion, :conclusion-explicit) and all steps',
     'This is the soundness core of the checker; tests accept a finite set of correct proofs and reject a few wrong ones.',
     ['src/cmd_parser.cpp', 'src/state.cpp', 'src/type_checker.cpp'],
     [('step checking', 'src/state.cpp: notifyStep'), ('step command', 'src/cmd_parser.cpp: STEP')])
prop('P02', 'Local assumptions are discharged exactly at the matching step-pop',
     'An assumption introduced by assume-push, and everything proved while it is open, is available only until the matching step-pop; step-pop hands exactly the most recently opened assumption to the rule, scopes nest properly, and a file that ends with an open scope, or pops with none open, is rejected.',
     ['inputs', 'histories'], 'all sequences of assume, assume-push, step, step-pop and declarations, nested to any depth',
     'Scope bookkeeping depends on the whole command history; tests contain a few one- or two-level proofs.',
     ['src/state.cpp', 'src/cmd_parser.cpp', 'src/main.cpp'],
     [('scopes', 'src/state.cpp: pushAssumptionScope, popAssumptionScope, addAssumption, notifyStep'), ('end of input', 'src/main.cpp')])
prop('P03', 'With a reference, every assumption is an assertion of the reference',
     'When a reference file has been given, an assume command at the outermost assumption level is accepted only if its formula (after the normalisation the reference command names, if any) is one of the formulas asserted in the reference file; every asserted formula is accepted and nothing else is.',
     ['inputs', 'histories'], 'all reference files, proof files and normalisation routines, whatever other commands (includes, scopes) come between',
     'Tests use two or three reference files; the guarantee is about every assumption of every proof.',
     ['src/state.cpp', 'src/cmd_parser.cpp', 'src/main.cpp'],
     [('reference assertions', 'src/state.cpp: addReferenceAssert, addAssumption, includeFile'), ('assume command', 'src/cmd_parser.cpp: ASSUME')])
prop('P04', 'The verdict is honest: correct, incomplete, or an error',
     'The checker reports success only if every command of every file was accepted: it prints correct only if no step used a rule marked :sorry, prints incomplete if at least one accepted step did, and otherwise stops with an error and a non-zero exit status. '
     'No error in any part of the input is followed by a success report.',
     ['inputs', 'histories', 'configurations'], 'all inputs, files included or read from standard input, and command-line options',
     'Tests look at the verdict of fixed files; the guarantee covers every position and kind of error and every route by which a trusted rule can be used.',
     ['src/main.cpp', 'src/cmd_parser.cpp', 'src/state.cpp', 'src/lexer.cpp'],
     [('verdict', 'src/main.cpp'), ('rule statistics', 'src/cmd_parser.cpp: STEP'), ('sorry rules', 'src/state.cpp: isProofRuleSorry, markProofRuleSorry')])
prop('S01', 'Symbols are visible exactly in their scope',
     'A name refers to the innermost visible declaration or definition of that name: parameters, let- and binder-bound variables and declarations made inside a local proof scope shadow outer ones and disappear when that scope ends, restoring the outer meaning unchanged; using a name that is not visible is an error.',
     ['inputs', 'histories'], 'all interleavings of declarations, definitions, lets, binders, rule parameters and proof scopes',
     'The symbol table is a stack of undo records; tests contain few shadowing patterns.',
     ['src/state.cpp', 'src/expr_parser.cpp', 'src/cmd_parser.cpp'],
     [('symbol table', 'src/state.cpp: bind, pushScope, popScope, getVar'), ('let and binders', 'src/expr_parser.cpp')])
prop('S02', 'Overloaded symbols resolve to a declaration that fits',
     'If a name was declared several times, an application of it denotes the most recent visible declaration whose type accepts the given arguments, and eo::as picks a declaration of the requested type; leaving a scope removes exactly the overloads declared in it.',
     ['inputs', 'histories'], 'all sets of overloads, argument types and scopes',
     'Tests overload one or two symbols at the outermost level.',
     ['src/state.cpp'], [('overloads', 'src/state.cpp: getOverloadInternal, mkExpr, bind, popScope')])
prop('S03', 'Reset forgets all declarations, assumptions and definitions',
     'After (reset) the checker accepts exactly the commands that a fresh run would accept as far as declared names, definitions, assumptions and proofs are concerned: earlier names are undeclared, may be declared again with any type, and builtin symbols keep their meaning; the types chosen for literals are forgotten too. The reference formulas and the set of files already included are kept.',
     ['inputs', 'histories'], 'all command histories before a reset',
     'Tests reset once after a trivial history.',
     ['src/state.cpp', 'src/cmd_parser.cpp'], [('reset', 'src/state.cpp: reset')])
prop('L01', 'String literals denote their characters; escapes round-trip',
     'A quoted string literal denotes exactly its sequence of code points: printable characters stand for themselves, "" stands for one quote, \\u{...} with one to five hex digits (value at most 0x2FFFF) and \\ud\u2083d\u2082d\u2081d\u2080 stand for the given code point, and anything else is kept literally. '
     'Printing a string and reading it back yields the same string.',
     ['inputs'], 'all texts between quotes and all code point sequences',
     'Escape recognition is a small automaton; tests contain about ten strings.',
     ['src/util/string.cpp', 'src/lexer.cpp', 'src/expr_parser.cpp'],
     [('escape decoding', 'src/util/string.cpp: String::toInternal'), ('printing', 'src/util/string.cpp: String::toString'), ('reading', 'src/lexer.cpp')])
prop('L02', 'Literals and symbols are read with their exact value',
     'Numerals, decimals, rationals, hexadecimal and binary literals of any length are read as exactly the category and value they are written with, |quoted| symbols equal their unquoted spelling (unless that is a reserved word), and comments and white space never change what is read; text that is not one of these forms, or contains a null character, is rejected.',
     ['inputs'], 'all token spellings, lengths and adjacent delimiters, including tokens that straddle an input buffer',
     'Tests cover short tokens at few positions; buffer boundaries and long tokens are an unbounded family.',
     ['src/lexer.cpp', 'src/input.cpp', 'src/expr_parser.cpp', 'src/state.cpp'],
     [('tokenizer', 'src/lexer.cpp: nextTokenInternal'), ('literal construction', 'src/state.cpp: mkLiteral')])
prop('M01', 'No term is used after it was released',
     'Whatever the order in which terms are created, shared and dropped, a term is released only when no handle and no other term refers to it, at most once, and by then it has left the term database, the table of types and the attributes of symbols; a released term is never read, never returned from the term database, and nothing recorded for it (its type, its attributes) is ever found for a term built later in its place.',
     ['inputs', 'histories'], 'all histories of term creation and release',
     'A memory error shows only for particular sharing patterns; the test run does not use a sanitizer.',
     ['src/expr.cpp', 'src/state.cpp', 'src/expr_trie.h'],
     [('reference counting', 'src/expr.h: ExprValue::inc, ExprValue::dec'), ('deletion', 'src/state.cpp: markDeleted'), ('trie removal', 'src/expr.cpp: ExprTrie::remove'), ('handles', 'src/expr.cpp: Expr::Expr, Expr::~Expr, Expr::operator=')])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
