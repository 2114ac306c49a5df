#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one place for titles, statements, anchors, levels)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, note, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe or [], na=na))


p('C01', 'The cell allocator hands out distinct live cells and reuses released ones',
  'Every cell the allocator returns is disjoint from every cell that is in use, lies inside the memory the allocator owns, and may be written without disturbing any other cell or the allocator itself. A released cell becomes available again, the arena grows when it is full without moving or changing cells in use, and the allocation and release counters equal the number of operations performed.',
  ['histories'], 'For every history of allocations, writes and releases, including those that cross a growth of the arena.',
  'Tests allocate a handful of cells in one order; overlap or a lost free cell needs a particular order of releases or a growth with a particular occupancy.',
  ['lib/core/slab.c', 'include/mnml/slab.h'], [('free list and doubling of the arena', 'lib/core/slab.c slab_allocate, slab_deallocate, slab_expand')],
  'Bounded: all histories of 5 operations over 3 cells from empty, 3 operations around the growths at 2048 and 4096 cells; real slab code, byte-level shadow of every cell.')

p('C02', 'Evaluation is memory safe and returns every cell, whatever the arguments',
  'Calling any primitive with any number of arguments of any kind never reads or writes memory that is not a live cell, never crashes or aborts, and yields a well-formed value. When the value is dropped and the interpreter shut down, every cell ever taken has been returned exactly once.',
  ['inputs', 'programs'], 'For every primitive of the std, logic and math modules and every argument list (wrong kinds, missing and surplus arguments included).',
  'The tests call primitives with well-typed arguments; a missing reference count or an unchecked kind only shows for an argument list nobody wrote.',
  ['lib/core/eval.c', 'lib/core/lisp.c', 'lib/core/utils.c', 'lib/mnml/std', 'lib/mnml/logic', 'lib/mnml/math', 'include/mnml/lisp.h'],
  [('reference counting with UP/DOWN/X', 'include/mnml/lisp.h, include/mnml/slab.h'), ('kind checks in primitives', 'lib/mnml/*/*.c')],
  'Bounded: 43 primitives, 0-3 arguments, depth 1; numbers and characters symbolic; engine checks every access against live cells and requires all cells back.')

p('C03', 'Global definitions behave as one map from names to latest values',
  'After any sequence of global definitions and assignments, looking a name up gives the value most recently given to exactly that name, names that differ in any character never interfere, and names never defined have no value. This holds for code that already used the name before it was redefined, and assignment gives back the previous value.',
  ['histories', 'inputs'], 'For every set of names, insertion order and interleaving of definition, assignment and lookup.',
  'A search tree with cached lookups goes wrong only for particular key orders (rotations) or for a lookup cached before a particular later update; tests use a few fixed orders.',
  ['lib/core/tree.c', 'lib/core/lisp.c', 'lib/mnml/std/setq.c', 'lib/mnml/std/set.c', 'lib/mnml/std/def.c'],
  [('balanced tree insertion, update and lookup', 'lib/core/tree.c'), ('per-symbol lookup cache', 'lib/core/lisp.c lisp_lookup')],
  'Bounded: all tables of 5 free 2-character names (3 free 16-character names), all language histories of 2-3 operations; names symbolic.')

p('C04', 'Equality is structural, total and an equivalence',
  'Two values are equal exactly when they have the same kind and the same content, recursively; inequality is its exact negation. Equality never changes its operands and is reflexive, symmetric and transitive.',
  ['inputs'], 'For every pair (and triple) of values.',
  'Tests compare a dozen pairs; a comparison that looks at too few bytes of a number, character or symbol, or at only part of a list, agrees on all of them.',
  ['lib/core/utils.c', 'lib/mnml/logic/equ.c', 'lib/mnml/logic/neq.c'], [('recursive comparison', 'lib/core/utils.c lisp_equ, lisp_neq')],
  'Bounded: any two values of depth 1 with symbolic 64-bit numbers, characters, symbols; lists up to 4; 16-character symbols.')

p('C05', 'What print writes, the reader reads back as the same value',
  'Printing any value in readable form and reading the text gives an equal value. Text that denotes a value (numbers, characters, strings with escapes, symbols, quotes, lists, dotted pairs in any nesting and spacing) reads as exactly that value.',
  ['inputs'], 'For every value that has a readable form and every well-formed text.',
  'Tests read a fixed set of texts; one character or digit count that is printed or read differently escapes them.',
  ['lib/core/print.c', 'lib/core/read.c', 'lib/grammar/lexer.rl', 'lib/grammar/parser.y', 'lib/core/utils.c'],
  [('printer', 'lib/core/print.c'), ('scanner and grammar', 'lib/grammar'), ('escape processing', 'lib/core/utils.c lisp_process_escapes')],
  'Bounded: values of depth 1 over all numbers, characters, 3-character symbols; literals up to 18 digits / 4 characters; all nestings of 6 tokens. Scanner and parser generated from the tree on every run.')

p('C06', 'The reader survives any input, recovers, and does not depend on buffering',
  'No byte sequence given to the reader makes it crash, read outside its buffers, loop or keep memory. After a malformed line the following well-formed line is read as if it stood alone, and what a line reads as does not depend on where it falls relative to the reader\'s internal buffer. The expressions of the text are handed out one by one, in order, each once.',
  ['inputs'], 'For every byte sequence and every alignment of the text with the input buffer.',
  'Tests feed well-formed text that fits the buffer; the failing bytes, or the alignment of a token with the end of the buffer, have to be found.',
  ['lib/core/read.c', 'lib/grammar/lexer.rl', 'lib/grammar/parser.y'], [('chunked reading with carry-over', 'lib/core/read.c'), ('error recovery and destructors', 'lib/grammar/lexer.rl, parser.y')],
  'Bounded: every 3-byte line in 3 contexts, and across the end of the input buffer at 5 offsets; all bytes symbolic.')

p('C07', 'Arithmetic and comparison on 64-bit numbers are exact, wrap, and never trap',
  'Addition, subtraction and multiplication give the 64-bit two\'s complement result, the comparisons give exactly T or NIL according to the signed order, and division and modulo satisfy the usual quotient and remainder relation truncating towards zero. Division and modulo by zero give NIL and no pair of operands stops the interpreter.',
  ['inputs'], 'For every pair of 64-bit numbers.',
  'A few dozen pairs of 2^128 are tested; extreme operands (the smallest number, -1, 0) are where native arithmetic traps or truncates.',
  ['lib/mnml/math', 'include/mnml/module.h'], [('operator generators', 'include/mnml/module.h'), ('guards of division', 'lib/mnml/math/div.c, mod.c')],
  'Complete over all 2^128 pairs of numbers for each operator (solver over 64-bit vectors).')

p('C08', 'Predicates and logical operators follow the kind of their operands exactly',
  'Each kind predicate answers T for exactly the values of its kind and NIL for every other, and never anything else. The logical operators treat NIL as false and every other value as true, yield exactly T or NIL, and or does not evaluate its second operand when the first is true.',
  ['inputs'], 'For every value and every pair of values.',
  'Tests probe each predicate with one or two values; a wrong answer for one kind (an empty string, a dotted list, T) goes unseen.',
  ['lib/mnml/std/isatm.c', 'lib/mnml/std/isstr.c', 'lib/mnml/logic', 'include/mnml/types.h', 'lib/core/utils.c'], [('kind macros and generators', 'include/mnml/types.h, include/mnml/module.h')],
  'Bounded: every value of depth 2 for 8 predicates; all pairs of depth 1 for the operators, effects observed.')

p('C09', 'Programs evaluate as the language defines: scope, closures, assignment, calls',
  'A program yields the value and leaves the globals that the language rules give: a name means its innermost local binding, else the binding captured where the function was made, else the caller\'s, else the global one; arguments are evaluated once, left to right, in the caller\'s scope; assignment changes the binding in force and is seen by every closure sharing it. Redefining a function takes effect for all its callers.',
  ['programs', 'inputs'], 'For every program built from definitions, lambdas, let, assignment, conditionals, calls and numbers.',
  'The interactions (shadowing, capture, mutation through a shared binding, redefinition after use) are combinatorial; tests exercise a few of them each alone.',
  ['lib/core/eval.c', 'lib/core/lisp.c', 'lib/core/utils.c', 'lib/mnml/std'], [('evaluator', 'lib/core/eval.c'), ('lookup and binding', 'lib/core/lisp.c'), ('merging of scopes', 'lib/core/utils.c lisp_merge, lisp_dup')],
  'Bounded: 12 templates x every 1-operator filling, all 2-operator expressions, numbers symbolic; compared with an independent reference interpreter written from the manual.')

p('C10', 'Parameters bind by position, destructure any pattern, and never misbind',
  'A call binds each parameter to its argument, a nested pattern to the corresponding parts of the argument (missing parts are NIL, parts without a name are ignored), and a catch-all parameter to the remaining arguments unevaluated. A call with more arguments than parameters yields NIL; let bindings destructure the same way and see the bindings before them.',
  ['inputs', 'programs'], 'For every parameter pattern and every argument shape, matching or not.',
  'Patterns and values that do not line up (too short, too deep, dotted) are many more than the tests sample.',
  ['lib/core/eval.c', 'lib/core/lisp.c', 'lib/mnml/std/let.c', 'docs/notes/Deconstruction.md'], [('argument binding', 'lib/core/eval.c lisp_eval_args'), ('pattern binding', 'lib/core/lisp.c lisp_bind')],
  'Bounded: up to 2 patterns of depth 1 or 3 of depth 0, up to 4 values; let patterns of depth 2; against the reference interpreter.')

p('C11', 'Partial application is equivalent to full application and reusable',
  'Handing a function its arguments in any grouping over successive calls yields what one call with all of them yields, for user functions, lambdas and primitives, wherever the calls are made. An intermediate function is a value of its own: completing it does not change it, and its arguments win over captured or surrounding variables of the same names.',
  ['programs', 'inputs', 'histories'], 'For every function, grouping of the arguments, and reuse of the intermediate functions.',
  'Tests curry one or two functions once; corruption shows on the second use or when names coincide.',
  ['lib/core/eval.c', 'docs/manual/Language.md'], [('partial application', 'lib/core/eval.c lisp_eval_func')],
  'Bounded: 1-3 parameters, 3 kinds of user function and 6 primitives, every partition, arguments symbolic, intermediate functions used twice.')

p('C12', 'Tail calls run in constant space and change no result',
  'A function that calls itself as the last thing it does (in any branch of any conditional or sequence) runs in stack and memory that do not grow with the number of iterations. The result and the effects are those of ordinary calls, also when the call is not last, the name was rebound, or the function is local or curried.',
  ['programs', 'inputs'], 'For every position of the self call in the control constructs and every number of iterations.',
  'Whether a position is last depends on the nesting of constructs; tests run two or three loops.',
  ['lib/core/utils.c', 'lib/core/eval.c', 'lib/mnml/std/let.c', 'lib/mnml/std/def.c', 'docs/notes/Continuations.md'], [('marking of tail calls', 'lib/core/utils.c lisp_mark_tail_calls'), ('tail-call loop', 'lib/core/eval.c lisp_eval_func')],
  'Bounded: 20 contexts x every 1-operator filling x 0-3 iterations against a reference without tail calls; 60 loops compared at 6 and 41 iterations for stack depth and live cells.')

p('C13', 'Control forms evaluate exactly the selected branch, once and in order',
  'Conditionals evaluate their condition once and only the branch it selects; cond and match evaluate their subject once and take the first clause that applies; sequences, streams and loops evaluate in order, hand values on unchanged and yield the last one. No other expression is evaluated.',
  ['programs', 'inputs'], 'For every subject, clause list, pattern and number of rounds.',
  'Clause order, double evaluation and values that are lists or symbols in a stream matter only in particular combinations.',
  ['lib/mnml/std/if.c', 'lib/mnml/std/cond.c', 'lib/mnml/std/match.c', 'lib/mnml/std/stream.c', 'lib/mnml/std/while.c', 'lib/mnml/std/prog.c', 'lib/mnml/std/when.c', 'lib/mnml/std/unless.c'],
  [('forms of the std module', 'lib/mnml/std')],
  'Bounded: see evidence; every effect logged and compared with the reference interpreter.')

p('C14', 'List primitives are exact and leave their arguments as they were',
  'Taking the head or tail, pairing, listing, counting and concatenating give exactly the elements they should, in order, for every list, dotted list or other value. None of them changes an argument, except that concatenation extends its first list in place; concatenating to something that is not a list yields NIL.',
  ['inputs'], 'For every value or list of values.',
  'Tests use short proper lists of numbers.',
  ['lib/mnml/std/conc.c', 'lib/mnml/std/list.c', 'lib/mnml/std/len.c', 'lib/core/lisp.c', 'include/mnml/lisp.h'], [('list construction', 'lib/core/lisp.c lisp_conc, include/mnml/lisp.h lisp_car/cdr/cons')],
  'Bounded: values of depth 2, lists up to 2-3 elements; payloads symbolic.')

p('C15', 'Symbols, strings and characters convert into one another without loss',
  'The symbol made from a string has exactly its characters, cut at the documented 16, and converting it back gives those characters; the character made from a code is that character. Symbols that differ in any character are different, and what is not a string has no symbol, what is not a symbol no string and what is neither a number nor a character no character: they yield NIL.',
  ['inputs'], 'For every string of any length, every symbol and every code.',
  'Lengths at and beyond the limit and unusual characters are not sampled.',
  ['lib/mnml/std/sym.c', 'lib/mnml/std/str.c', 'lib/mnml/std/chr.c', 'lib/core/utils.c', 'include/mnml/types.h'], [('bounded copy of strings', 'lib/core/utils.c lisp_make_cstring')],
  'Bounded: strings of 0..20 free characters, pairs of symbols of up to 17 free characters, all 64-bit codes.')

p('C17', 'Printing writes exactly the text of its arguments, whatever their size',
  'The printing functions write exactly the text of their values in order, with the documented separators and newline, and yield the documented value; nothing is lost, repeated or reordered when the text crosses the internal output buffer, and the raw and readable forms differ only as documented.',
  ['inputs'], 'For every value and every position of a value relative to the output buffer.',
  'Tests print short values; the 1024-byte buffer edge is hit by one alignment in a thousand.',
  ['lib/core/print.c', 'lib/mnml/io/prin.c', 'lib/mnml/io/prinl.c', 'lib/mnml/io/print.c', 'lib/mnml/io/printl.c'], [('buffered output', 'lib/core/print.c')],
  'Bounded: 4 functions, 0-2 values of depth 1; a value at each of 19 positions around the buffer edge; output compared byte for byte.')

try:
    import props2
    props2.add(p)
except ImportError:
    pass

if __name__ == '__main__':
    P.sort(key=lambda x: x['id'])
    with open(V + '/properties.jsonl', 'w') as f:
        for x in P:
            f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=dict(over=x['over'], text=x['text']), why_tests_cant=x['why'],
                    anchors=dict(files=x['files'], mechanism=[dict(name=a, where=b) for a, b in x['mech']], observe_at=x['observe'], hook_needed=None))) + '\n')
            assert len(x['title']) <= 80, x['id']
    m = dict(version=1, setup_cmd='python3 vlib/build.py -t',
             checks=[dict(property=x['id'], quick_cmd='python3 vlib/check.py %s quick' % x['id'], thorough_cmd='python3 vlib/check.py %s thorough' % x['id'],
                          technique='symbolic execution of the LLVM bitcode of /repo\'s sources with Z3 (bounded, all paths; counterexamples replayed natively)',
                          level='model_checking', level_note=x['note']) for x in P if not x['na'] and x['id'] in specs.SPECS],
             not_applicable=[dict(property=x['id'], reason=x['na']) for x in P if x['na']],
             notes='Engine in engine/, OS models and harnesses in harness/, job lists and bounds in vlib/specs.py. See DESIGN.md.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    missing = [x['id'] for x in P if not x['na'] and x['id'] not in specs.SPECS]
    assert not missing, missing
