"""What each property's check runs: harnesses, arguments (case splits), bounds."""
ASSUMPTIONS = [
    'LLVM bitcode from clang -O0 (+ sroa, early-cse, simplifycfg, dce) of /repo\'s working tree, x86-64, LISP_ENABLE_SSE; Debug tracing compiled in and off',
    'the C library and operating system calls are the models of harness/models.c and the built-ins of engine/msym.cpp',
    'malloc does not fail; mmap and mprotect do not fail',
    'lists that have the shape of a function but were not made by def, \\ or currying are not called',
]


def J(h, *args, **kw):
    return dict(h=h, args=list(args), **kw)


def R(*a):
    return range(*a)


SPECS = {}


def spec(pid, bounds, outside, jobs, **kw):
    SPECS[pid] = dict(level='model_checking', bounds=bounds, outside=outside, jobs=jobs, **kw)


TH = dict(tier='thorough', tt=1500, w=50)

spec('C01', 'every history of up to 5 allocations/releases over 3 live cells from an empty slab, and of 2 or 3 operations with 2^k-2 cells in use, k = 11..17 (20 in thorough) (across each growth of the slab)',
     'longer histories; exhaustion of the 64 MB reservation',
     [J('h_slab', 0, 5, 3), J('h_slab', 2046, 3, 3), J('h_slab', 4094, 3, 3)] + [J('h_slab', n, 2, 2) for n in (8190, 16382, 32766, 65534, 131070)] +
     [J('h_slab', 0, 7, 3, **TH), J('h_slab', 2046, 5, 3, **TH), J('h_slab', 65534, 3, 3, **TH), J('h_slab', 1048574, 1, 1, **TH)])

spec('C02', 'each of 43 primitives of std, logic and math, and 25 of io, sys and unix, called with 0 to 2 arguments of depth 1 (3 arguments of depth 0; in quick 2 of depth 0 for io, sys and unix) over NIL, T, _, any number, any character, an unbound symbol, a symbol bound to a list, a symbol bound to a function',
     'argument expressions deeper than 2; a list concatenated to itself (a cycle); processes made by fork',
     [J('h_total', f, n, 1, w=3 if n == 2 else 1) for f in R(43) for n in (0, 1, 2)] + [J('h_total', f, 3, 0) for f in R(43)] +
     [J('h_total', f, n, 1, w=2) for f in R(43, 69) for n in (0, 1)] + [J('h_total', f, 2, 0) for f in R(43, 69)] +
     [J('h_total', f, 3, 0, w=3) for f in (50, 56, 57, 58, 59, 60, 61, 62, 63, 64)] +
     [J('h_total', f, 1, 2, **TH) for f in R(43)] + [J('h_total', f, 2, 1, **TH) for f in R(43, 69)])

spec('C03', 'tables of up to 5 arbitrary two-character names (3 arbitrary 16-character names) in every insertion order; 15 and 24 names in ascending, descending and alternating order, then any name; language-level histories of 2 operations (setq, def, <-) over 2 names with lookups from code already evaluated',
     'larger tables, longer histories',
     [J('h_tree', 0, 3, 1), J('h_tree', 0, 5, 0), J('h_tree', 1, 2, 0), J('h_tree', 1, 2, 1), J('h_tree', 1, 3, 0)] + [J('h_tree', 2, 15, 0, k, 1) for k in (1, 2, 3)] + [J('h_tree', 2, 24, 0, 3, 1), J('h_tree', 0, 6, 0, **TH), J('h_tree', 1, 3, 1, **TH)])

spec('C26', 'tables of up to 5 names added in any order and up to 2 removals of any names, present or absent; tables of 8 and 12 names added in ascending, descending or alternating order and 2 or 3 removals; then an addition or update of any name (up to 4 names, and 8 names with 1 removal), and traversals that stop at each name; values free',
     'other shapes of larger tables; longer histories; names that differ in more than one character (the comparison of names is C03)',
     [J('h_tree', 2, 2, 2, 0), J('h_tree', 2, 3, 2, 0), J('h_tree', 2, 4, 1, 0), J('h_tree', 2, 4, 2, 0), J('h_tree', 2, 5, 2, 0, w=6), J('h_tree', 2, 3, 3, 0)] + [J('h_tree', 2, 8, 2, k) for k in (1, 2, 3)] + [J('h_tree', 2, 8, 3, k, w=4) for k in (1, 2, 3)] + [J('h_tree', 2, 12, 2, k, w=2) for k in (1, 2, 3)] +
     [J('h_tree', 2, n, r, 0, 1) for n, r in ((2, 2), (3, 1), (3, 2), (4, 1))] + [J('h_tree', 2, 8, 1, k, 1) for k in (1, 2, 3)] +
     [J('h_tree', 2, 4, 4, 0, **TH), J('h_tree', 2, 5, 3, 0, **TH)] + [J('h_tree', 2, 15, 1, k, 1, **TH) for k in (1, 2, 3)] + [J('h_tree', 2, 6, 1, 0, 0, **TH)] + [J('h_tree', 2, 12, 3, k, **TH) for k in (1, 2, 3)])

spec('C04', 'any two values of depth 1 (all kinds, 64-bit numbers, 8-bit characters, 2-character symbols), lists of up to 3, 16-character symbols',
     'deeper values',
     [J('h_equ', 0, 0), J('h_equ', 0, 1), J('h_equ', 1, 1), J('h_equ', 2, 0), J('h_equ', 3, 3), J('h_equ', 4, 4), J('h_equ', 5, 3), J('h_equ', 1, 2, **TH)])

spec('C05', 'any value of depth 1 over every number, every character, symbols of up to 3 free characters, NIL, T and _; string literals of up to 4 free bytes; number literals of up to 18 free digits; every well-formed nesting of up to 6 structure tokens, on one line or on a line each',
     'deeper values (beyond about 340 levels the parser refuses an expression); symbols made to be named NIL, T or _ (as a quote before those letters does), which print like the constants; symbols longer than 3 free characters; literals longer than the bounds',
     [J('h_print', 0, 0), J('h_print', 0, 1), J('h_print', 0, 1, 1)] + [J('h_reader', 4, n) for n in (1, 2, 3, 4)] +
     [J('h_reader', 5, n) for n in (1, 2, 3, 9, 17, 18)] + [J('h_reader', 6, n) for n in (1, 2, 3, 4, 5, 6)] + [J('h_reader', 6, n, 1) for n in (2, 4, 6)] + [J('h_print', 0, 2, **TH), J('h_reader', 6, 8, **TH)])

spec('C06', 'every line of 3 arbitrary bytes, alone, inside an open list, before a well-formed line, and (printable bytes) at each of 5 positions across the end of the 1023-byte input buffer; strings and numbers of 20 to 2046 characters, four of them free, between others',
     'lines with more than 3 free bytes; positions further from the end of the buffer',
     [J('h_reader', 7, n, k) for n in (20, 1017, 1018, 1019, 1020, 2046) for k in (0, 2)] + [J('h_reader', 0, 3, 0, 255), J('h_reader', 2, 3, 0, 255), J('h_reader', 3, 3, 0, 255)] + [J('h_reader', 1, 3, 0, 255, i, w=5) for i in R(5)] +
     [J('h_reader', m, 4, lo, lo + 31, **TH) for m in (0, 2, 3) for lo in R(0, 256, 32)])

spec('C07', 'all pairs of 64-bit numbers', 'arguments that are not numbers', [J('h_arith', i) for i in R(9)])

spec('C08', 'any value of depth 2 for each predicate; any two values of depth 1 for and, or, not, =',
     'deeper values', [J('h_ctl', 6, f) for f in R(8)] + [J('h_ctl', 5, f, 1) for f in R(4)])

spec('C09', '12 program templates (global, local, captured, nested, redefined, higher-order and mutually recursive functions), every filling of their first hole by an expression of 1 operator (13 operators: +, if, let, lambda, setq, <-, currying, deconstruction, eval, calls) over x, y and free 64-bit numbers, leaves in the other holes; every expression of 2 operators; assignment of any value of depth 1 to a variable that holds any value of depth 1, in 6 kinds of scope; the order of evaluation of the arguments of 19 kinds of call; calls with 36 kinds of heads; code run in scopes that differ',
     'larger programs; names other than the templates\'',
     [J('h_eval', 0, 2, 0, 0, 0, w=9)] + [J('h_eval', t, 1, 0, 0, 0, w=3) for t in (1, 2, 3, 4, 5, 9, 11, 12, 13, 14, 15, 7)] +
     [J('h_eval', t, 0, 1, 0, 0, w=3) for t in (1, 2, 3, 4, 9, 11, 12, 13)] + [J('h_eval', t, 1, 1) for t in R(16, 22)] + [J('h_eval', 22, 0, 0, 0, k) for k in R(19)] + [J('h_eval', t, a, b) for t in (27, 28) for a, b in ((1, 0), (0, 1))] + [J('h_eval', 29)] + [J('h_eval', t, 1, 1, 0, 0, **TH) for t in (1, 2, 3, 4, 5, 9, 11, 12, 13, 14, 15, 7)] +
     [J('h_eval', t, 2, 0, 0, 0, **TH) for t in (1, 2, 3)])

spec('C10', 'up to 2 parameter patterns of depth 1 (3 of depth 0), with or without a catch-all, against up to 2 (4) values of depth 1 (0); let patterns of depth 2 against values of depth 1 and conversely',
     'deeper patterns; parameter names that repeat',
     [J('h_bind', 0, n, r, m, 1) for n, m in ((0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1)) for r in (0, 1)] +
     [J('h_bind', 0, 3, r, m, 0, w=2) for r in (0, 1) for m in (1, 2, 3, 4)] + [J('h_bind', 0, 2, r, m, 0) for r in (0, 1) for m in (2, 3)] +
     [J('h_bind', 1, 1, 2), J('h_bind', 1, 2, 1)] +
     [J('h_bind', 0, 2, r, 2, 1, **TH) for r in (0, 1)] + [J('h_bind', 1, 2, 2, **TH)] + [J('h_bind', 0, 1, r, 1, 2, **TH) for r in (0, 1)])

spec('C11', 'functions of 1 to 3 parameters (def, lambda, lambda with captured variables of the same names) and 6 primitives; every partition of the arguments into successive calls, each argument any number, NIL or a list; every intermediate function used twice',
     'more than 3 parameters (4 in thorough)',
     [J('h_bind', 2, n, k, w=3) for n in (1, 2, 3) for k in (0, 1, 2)] + [J('h_bind', 2, 2, k) for k in R(3, 9)] + [J('h_eval', 5, 1, 0, 0, 0)] +
     [J('h_bind', 2, 4, k, **TH) for k in (0, 1, 2)])

spec('C12', 'self calls in 20 contexts (tail and non-tail positions of if, cond, match, when, unless, prog, let, |>), 0 to 3 iterations, every filling of one hole by an expression of 1 operator; tail calls between functions of one body and different captured values, and through a name bound to another function; stack and memory of 12 loops in 5 kinds of function compared between 6 and 41 iterations',
     'loops that call each other; more iterations',
     [J('h_eval', 8, 1, 0, 0, k, w=2) for k in R(20)] + [J('h_eval', t, 1, 0, 0, 0) for t in (6, 7, 10, 15)] + [J('h_eval', t, 0, 1, 0, 0) for t in (6, 10, 15)] +
     [J('h_eval', t, a, b, 0, 0, w=4) for t in (23, 24, 25, 26) for a, b in ((1, 0), (0, 1))] +
     [J('h_tail', b, k) for b in R(12) for k in R(5)] + [J('h_eval', 8, 1, 1, 0, k, **TH) for k in R(20)])

spec('C13', 'if, when, unless with any condition of depth 1 and 0 to 2 bodies; cond with up to 3 clauses of 6 kinds; match with subjects and patterns of depth 1; prog of up to 2, |> of up to 2 stages of 5 kinds; while of up to 3 rounds; every effect and its order observed',
     'more clauses, bodies and stages',
     [J('h_ctl', 0, f, n) for f in R(3) for n in R(3)] + [J('h_ctl', 1, 1, 1)] + [J('h_ctl', 2, n, d) for n in R(3) for d in (0, 1)] + [J('h_ctl', 2, 3, 0)] +
     [J('h_ctl', 3, n, 0) for n in R(3)] + [J('h_ctl', 3, n, 1) for n in R(3)] + [J('h_ctl', 4, 0), J('h_ctl', 4, 1), J('h_ctl', 1, 2, 1, w=9), J('h_ctl', 1, 1, 2, w=9)] +
     [J('h_ctl', 0, f, 3, **TH) for f in R(3)] + [J('h_ctl', 1, 2, 2, **TH), J('h_ctl', 3, 3, 1, **TH), J('h_ctl', 2, 3, 1, **TH)])

spec('C14', 'car, cdr, cons, len on any value of depth 2; list of up to 2 values of depth 1; conc of lists of up to 2 elements, proper or dotted, with any value',
     'longer lists (3 in thorough)',
     [J('h_list', 0, w=3), J('h_list', 1, 0), J('h_list', 1, 1), J('h_list', 1, 2)] + [J('h_list', 2, n, m) for n in R(3) for m in (-1, 0, 1, 2)] + [J('h_list', 3)] + [J('h_list', 7, n, m) for n, m in ((1, -1), (1, 0), (1, 1), (2, -1), (2, 1))] + [J('h_list', 1, 3, **TH)])

spec('C15', 'strings of 0 to 20 arbitrary characters; any number; pairs of symbols of up to 17 arbitrary characters',
     'characters with code 0 inside a string',
     [J('h_list', 4, n) for n in R(0, 21)] + [J('h_list', 5)] + [J('h_list', 6, n, m) for n, m in ((1, 1), (2, 1), (8, 8), (15, 16), (16, 16), (17, 16))])

spec('C17', 'prin, prinl, print, printl of 0 to 2 values of depth 1; a value starting at every position from 1008 to 1026 of the 1024-byte output buffer',
     'longer outputs',
     [J('h_print', 1, f, n) for f in R(4) for n in R(3)] + [J('h_print', 2, p, 1, w=4) for p in R(1008, 1027)])

spec('C16', 'two nested in/out forms of 23 kinds (the standard channel, a pipe with descriptors 3 to 102, a new or existing file, append to a file, missing files and directories, bad descriptors, values that are no channel), printing or reading in each, before, between and after; all characters free; one failing call of the operating system at any point',
     'more than two nested forms; two faults in one run',
     [J('h_io', 0, k, 0, 1, w=2) for k in R(23)] + [J('h_io', 0, k, 0, 1, b) for k in (2, 15) for b in (12, 100)] + [J('h_io', 0, k, 1, 1, w=3) for k in R(23)] + [J('h_io', 0, k, 2, 1, **TH) for k in R(23)])

spec('C18', 'every text of up to 4 arbitrary bytes from standard input or a file, read line by line to its end, also through a form of its own for each line (in NIL, in a pipe); lines of 120 to 5000 characters, three of them free; every sequence of 5 operations (read, readline, in) on a text of four lines with free letters',
     'other lines longer than 4 bytes',
     [J('h_io', 1, n, f) for n in (1, 2, 3, 4) for f in R(4)] + [J('h_io', 3, n, f) for n in (120, 1023, 1024, 4096, 5000) for f in (0, 1)] + [J('h_io', 2, 5)] + [J('h_io', 1, 6, f, **TH) for f in (0, 1)] + [J('h_io', 2, 7, **TH)])

spec('C20', 'every path of up to 3 characters over a . / ~ @ b (also after @lib) with and without an input channel, HOME and MNML_SCRIPT_PATH; paths of PATH_MAX-10 to PATH_MAX+10 characters; paths of PATH_MAX-3 to PATH_MAX+4 characters whose beginning names another file; a module whose name has 16 characters with functions of 15 and 16 characters; 8 forms of module requests, the library in any place of the search path, loaded once or twice; scripts that load scripts; one failing call of the operating system at any point',
     'symbolic links; other libraries; concurrent changes of the file system; an MNML_MODULE_PATH of more than 8 KB (it is ignored)',
     [J('h_load', 0, n) for n in (1, 2, 3)] + [J('h_load', 1, f) for f in R(4)] + [J('h_load', 2, f, 0, 1) for f in R(7)] + [J('h_load', 2, f, 1, 1) for f in R(7)] +
     [J('h_load', 2, f, 0, 2) for f in (0, 3, 6)] + [J('h_load', 3, k, f) for k in R(5) for f in (0, 1)] + [J('h_load', 4)] + [J('h_load', 5, f) for f in R(4)] + [J('h_load', 0, 4, **TH)] + [J('h_load', 2, f, 1, 2, **TH) for f in (0, 3, 6)])

spec('C19', 'close of up to 3 and dup of 2 arguments, wait, accept, unlink of any value of depth 1; listen and connect with any 64-bit port and any value of depth 1; select over up to 2 descriptors, each any number or other value, every answer of the kernel; exec with up to 3 arguments that are strings of free characters or anything else, and with 130 arguments or 5000 characters; connect with hosts and services of 11 lengths from 15 to 1100 characters; unlink of paths of PATH_MAX-3 to PATH_MAX+4 characters; every call of the operating system succeeds or fails with any result',
     'the kernel itself; other hosts and addresses; longer lists of descriptors',
     [J('h_unix', 0, n, w=3 if n == 3 else 1) for n in R(4)] + [J('h_unix', m) for m in (1, 2, 3, 4, 5, 12)] + [J('h_unix', m, 0, t) for m in (6, 7) for t in (0, 1)] +
     [J('h_unix', 8, n) for n in R(4)] + [J('h_unix', m, n) for m in (9, 11, 13, 14) for n in (0, 1)] + [J('h_load', 5, 4)] + [J('h_unix', 10, n, w=2) for n in R(3)] + [J('h_unix', 10, 3, **TH)])

spec('C21', 'the functions of the modules iterators and manips, and 27 functions of the harness that use every construct the transpiler accepts (arithmetic, comparisons, and, or, not, =, if, when, unless, nil?, lst?, car, cdr, cons, conc, self calls in and out of tail position, calls of other functions and of function arguments, nested branches), compiled by the tree\'s own transpiler; function arguments of 9 kinds; lists of up to 2 elements of 4 kinds, dotted lists and values that are no lists, all numbers free',
     'ill-typed arguments (a value that is no number where the transpiler inferred one, no list where conc needs one); literals other than numbers, and numbers where the transpiler inferred no number; functions that return a truth value; division by zero; function arguments that return functions; free variables named like a parameter of the compiled function; longer lists; depth of the C stack',
     [J('h_trans', f, k, 1, 2) for f in R(3) for k in R(9)] + [J('h_trans', f, k, 1, 1) for f in (3, 4) for k in (R(9) if f == 3 else R(1))] + [J('h_trans', 5, 0, 1, 2)] + [J('h_trans', f, 0, 2, 0, w=3) for f in R(6, 13)] +
     [J('h_trans', f, 0, 1, 3, w=2) for f in (13, 14)] + [J('h_trans', f, 0, 1, 1) for f in (15, 16, 18, 19, 20, 23, 24, 25, 26, 28, 29, 32, 34, 35, 36, 38, 41)] + [J('h_trans', 17, 0, 0, 5), J('h_trans', 30, 0, 1, 2, w=4)] +
     [J('h_trans', f, k, 1, 1) for f in (21, 22, 27, 31, 33, 37, 39, 40) for k in (0, 1, 3, 6)] +
     [J('h_trans', f, k, 1, 2, **TH) for f in (3, 4) for k in (R(9) if f == 3 else R(1))] + [J('h_trans', f, k, 0, 3, **TH) for f in (0, 1, 2) for k in R(9)] + [J('h_trans', f, 0, 1, 2, **TH) for f in (28, 29, 32, 18)] +
     [J('h_trans', f, k, 1, 2, **TH) for f in (22, 27, 31, 33, 21, 37, 39, 40) for k in R(9)] + [J('h_trans', 13, 0, 1, 6, **TH), J('h_trans', 14, 0, 1, 4, **TH)],
     transpiled=True, transpiler=True)
_L = R(25)
_LSOLO = R(32)
spec('C22', 'lists of up to 2 elements (thorough: 3) of numbers, NIL, characters and lists, all values free; associations of up to 2 entries, their keys numbers, NIL, characters, symbols or lists of up to 2; trees of depth 2; every pair of 7 variable names in the arguments of append; each script also loaded alone',
     'longer lists; truncl of more elements than there are; flatten of NIL; merge and dedup over comparators other than the three of the harness',
     [J('h_share', 0, f, 2, 2, w=2) for f in _L if f not in (1, 12, 24)] + [J('h_share', 0, 1, 1, m, w=3) for m in (1, 2, 3)] + [J('h_share', 0, f, 2, 3, w=3) for f in (3, 6, 7, 8)] + [J('h_share', 0, 12, 2, m) for m in (0, 1)] + [J('h_share', 0, 24, 2, m) for m in R(7)] +
     [J('h_share', 2, k, 0, 0) for k in _LSOLO] +
     [J('h_share', 0, f, 3, 2, **TH) for f in _L if f not in (1, 12, 24)] + [J('h_share', 0, 1, 2, m, **TH) for m in (1, 2, 3)] + [J('h_share', 0, 12, 3, m, **TH) for m in (0, 1)] + [J('h_share', 0, 24, 3, m, **TH) for m in R(7)],
     transpiled=True)
spec('C23', 'strings of up to 4 free characters (thorough: 5), numbers of up to 3 decimal digits of either sign (thorough: 5) and the limits of the range, every style; each script also loaded alone',
     'longer strings; strings of digits with anything else in them for aton; widths beyond 4',
     [J('h_share', 1, 0, 2, 2, w=2), J('h_share', 1, 0, 0, 0), J('h_share', 1, 0, 1, 1), J('h_share', 1, 1, 3, 0), J('h_share', 1, 1, 4, 0, w=2), J('h_share', 1, 1, 0, 0)] + [J('h_share', 1, f, n, 0) for f in (2, 3, 4) for n in (0, 1, 3)] +
     [J('h_share', 1, 5, a, b) for a, b in ((0, 0), (0, 1), (1, 0), (2, 2), (3, 2), (2, 3))] + [J('h_share', 1, 6, n, 0, w=n) for n in (1, 2, 3)] + [J('h_share', 1, 7, 0, 0), J('h_share', 1, 8, 4, 0), J('h_share', 1, 8, 1, 0)] +
     [J('h_share', 1, f, n, m) for f in (9, 10) for n, m in ((0, 2), (3, 2), (2, 4), (2, 2))] + [J('h_share', 1, 11, 1, 0)] + [J('h_share', 2, k, 0, 0) for k in R(32, 41)] +
     [J('h_share', 1, 0, 3, 2, **TH), J('h_share', 1, 1, 6, 0, **TH), J('h_share', 1, 6, 4, 0, **TH), J('h_share', 1, 6, 5, 0, **TH), J('h_share', 1, 8, 8, 0, **TH), J('h_share', 1, 5, 4, 4, **TH)] +
     [J('h_share', 1, f, 5, 0, **TH) for f in (2, 3, 4)], transpiled=True)
spec('C25', 'programs of up to 2 expressions (thorough: 3) of 9 kinds after a load, in any layout, with and without -d, through -e, a file and the interactive loop, lines that are no expression included; arguments and variables of up to 2 free characters; 11 option combinations; missing HOME, PWD and current directory',
     'the order of error messages (unbuffered) among other output; the status when the input of the interactive loop ends; quit inside a script; both -e and FILE; strings over several lines; signals other than quit; syntax errors, which are not reported',
     [J('h_cli', 0, 1, 1), J('h_cli', 0, 2, 0), J('h_cli', 1, 1, 0), J('h_cli', 1, 2, 1, w=3), J('h_cli', 2, 2, 1, w=2), J('h_cli', 2, 1, 0), J('h_cli', 3, 1), J('h_cli', 4), J('h_cli', 3, 2, w=4),
      J('h_cli', 0, 3, 0, **TH), J('h_cli', 1, 3, 0, **TH), J('h_cli', 2, 3, 1, **TH), J('h_cli', 3, 3, **TH)])
spec('C24', 'argument lists of up to 3 words (thorough: 4) over three flags, an unknown flag, a free word and an empty one; requests and responses of every valid and 3 invalid forms with up to 1 header (thorough: 2), free visible characters; one failing call in http/get; run as parent and child, programs that cannot be started, up to 2 arguments and 1 variable, empty ones included, up to 1 line of output; test suites of two tests with every selection; every port; servers with up to 2 clients (thorough: 3) that connect and are heard in any order, one of them lost before it is accepted, requests valid, invalid or empty',
     'longer words and more headers; headers with white space inside; run of a program that writes no final newline; callbacks whose variables are named like those of the library',
     [J('h_prog', 0, 3, w=2), J('h_prog', 1, 1, 1, w=2), J('h_prog', 2, 1, 1, w=2), J('h_prog', 3, w=6), J('h_prog', 4, 1), J('h_prog', 5, w=3), J('h_prog', 6), J('h_prog', 7, 0), J('h_prog', 7, 1), J('h_prog', 7, 2, w=2),
      J('h_prog', 0, 4, **TH), J('h_prog', 1, 2, 1, **TH), J('h_prog', 1, 1, 2, **TH), J('h_prog', 2, 1, 2, **TH), J('h_prog', 4, 2, **TH), J('h_prog', 7, 3, **TH)], transpiled=True)

# sizes beyond those above: many elements, arguments, clauses, scopes, names, lines, channels, descriptors
def more(pid, text, *jobs):
    SPECS[pid]['bounds'] += '; ' + text
    SPECS[pid]['jobs'] += list(jobs)


_BIG = dict(i=400000000)
more('C02', 'every function of the modules called with 20 numbers', *[J('h_scale', 6, 20, f) for f in R(4)])
more('C03', '300 names in four orders, three of their values free', *[J('h_scale', 7, 300, o, 0) for o in R(4)])
more('C26', '300 names in four orders, a third or two thirds of them removed in another order', *[J('h_scale', 7, 300, o, r) for o in R(4) for r in (1, 2)])
more('C04', 'lists of 300 elements and lists nested 300 deep that differ in one place, both values free', J('h_scale', 1, 300))
more('C05', 'lists, strings and symbols of 300 elements, and values nested 300 deep by head or tail, three of the characters free', *[J('h_scale', 5, 300, k) for k in (0, 1, 2, 3, 5)])
more('C05', 'strings of 1100 and 2046 characters, four of them free', J('h_reader', 7, 1100, 0), J('h_reader', 7, 2046, 0))
more('C06', 'every sequence of up to 3 values of 10 kinds, NIL and () among them, on one line or several', J('h_reader', 9, 2), J('h_reader', 9, 3))
more('C06', 'lines of up to 6000 parentheses, opening, closing or both, before a well-formed line', *[J('h_reader', 8, n, k) for n in (100, 1500, 6000) for k in R(3)])
more('C09', '260 nested and successive bindings, recursion 260 deep, 260 functions and globals, three values free', J('h_scale', 3, 260))
more('C10', 'functions of 40 parameters and patterns of 40 names', J('h_scale', 2, 40))
more('C11', 'functions of 40 parameters completed in two calls and one by one', J('h_scale', 2, 40))
more('C13', 'sequences, streams, cond and match of 300 bodies, stages and clauses, loops of 300 rounds', J('h_scale', 4, 300))
more('C14', 'lists of 300 elements, three of them free', J('h_scale', 0, 300))
more('C16', '20 forms within one another, writing and reading, one character free', J('h_scale', 8, 20))
more('C17', '300 values in one call, three of them free', J('h_scale', 9, 300))
more('C18', '300 lines, read and readline, three characters free', J('h_scale', 10, 300))
more('C19', 'close and select of 300 descriptors', J('h_scale', 11, 300))
more('C20', 'scripts of 300 expressions, 50 scripts that load one another, a search path of 300 directories', J('h_scale', 10, 300), *[J('h_load', 2, f, 0, 0, 300) for f in (0, 1, 2)])
more('C22', 'lists of 60 elements, one of them free', J('h_share', 3, 0, 60, w=4, **_BIG))
more('C23', 'strings of 150 characters', J('h_share', 3, 1, 150, **_BIG))
more('C15', 'strings of 300 characters', J('h_scale', 12, 300))
more('C24', '40 flags; a request with a path of 300 characters and 30 headers, one character free', J('h_prog', 8, 40, 0, **_BIG), J('h_prog', 8, 30, 1, **_BIG))
more('C25', '40 arguments or variables of up to 1500 characters, programs of 300 expressions', *[J('h_cli', 5, n, k, **_BIG) for n, k in ((40, 0), (40, 1), (300, 2), (300, 3))])
