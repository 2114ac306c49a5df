"""Properties of the io, unix and sys modules, loading, the transpiler, the library and the command line."""


def add(p):
    p('C16', 'in and out redirect exactly the text of their body, and nothing leaks',
      'Within in and out, input comes from and output goes to the named channel (a descriptor number, a file, or the standard channel for NIL), and afterwards the channels in force before are in force again, whatever the body did and wherever the operating system failed. A file is replaced unless its name starts with a plus sign, which appends; text appears in each channel in the order it was written; something that is not a channel yields NIL and the body does not run. No descriptor or stream stays open or is closed that was not opened by the form.',
      ['inputs', 'histories', 'faults'], 'For every nesting of in and out over every kind of channel, every text, and every failing call of the operating system.',
      'Tests write one file and read it back; wrong restoration, ordering between streams or a leak at a failing call needs nested forms, shared descriptors or a fault at one point.',
      ['lib/mnml/io/in.c', 'lib/mnml/io/out.c', 'lib/mnml/io/prinl.c', 'lib/mnml/io/printl.c', 'include/mnml/utils.h', 'lib/core/print.c'],
      [('stack of channels', 'PUSH_IO_CONTEXT, POP_IO_CONTEXT in include/mnml/utils.h'), ('opening, duplicating and closing of descriptors', 'lib/mnml/io/in.c, lib/mnml/io/out.c')],
      'Bounded: two nested forms of 23 kinds, text before, between and after, one fault at any call; characters symbolic; files, pipes and streams modelled.')
    p('C18', 'read and readline deliver the input completely, in order, and exactly once',
      'Successive calls of readline give the lines of the input without their newline, in order, none lost, cut or repeated, whether or not the last line ends with a newline, and then EOF. Calls of read give the expressions of the text in order; read and readline continue where the other stopped reading lines, and reading from another channel in between loses nothing.',
      ['inputs', 'histories'], 'For every text and every sequence of reads.',
      'Tests read short files of one shape; the end of the text and the interleaving of the two ways of reading are not sampled.',
      ['lib/mnml/io/readline.c', 'lib/mnml/io/read.c', 'lib/core/read.c'], [('line input', 'lib/mnml/io/readline.c'), ('expressions read ahead from a line', 'lib/core/read.c')],
      'Bounded: all texts of up to 4 bytes; all sequences of 5 reads on a four-line text with free letters.')
    p('C20', 'load runs the right script or module, or yields NIL and changes nothing',
      'A path given to load, in and out resolves against the library directory, the home directory or the directory of the running script as documented, and paths of any length are handled. A module is the first one of its name in the search path, is opened once, defines exactly the requested symbols and yields them; a request that cannot be satisfied yields NIL, defines nothing and keeps nothing open. Loading a script evaluates all of it in order, restores the input of its caller, and yields its last value.',
      ['inputs', 'faults', 'environments'], 'For every path, request, environment and file system, and every failing call of the operating system.',
      'Tests load the modules of the build tree by short names with HOME and PWD set; buffer limits, missing variables and failing calls are not exercised.',
      ['lib/core/utils.c', 'lib/core/module.c', 'lib/mnml/std/load.c'], [('path expansion', 'lib/core/utils.c lisp_get_fullpath'), ('search path, cache and entry points of modules', 'lib/core/module.c')],
      'Bounded: all 3-character paths over 6 characters in every environment, paths within 10 of PATH_MAX, 8 request forms, one fault at any call.')
    p('C19', 'A call of the unix and sys modules makes exactly the system calls it describes',
      'close, dup, wait, fork, pipe, listen, accept, connect, unlink, exec, select and time make the documented system calls, once each, on exactly the descriptors, addresses, ports, paths and arguments they are given, whole and in order, and on nothing else; they give back the results of the system. Values that are not descriptors, processes, ports or strings are rejected with NIL and no call is made on their behalf. When the system refuses, the result is NIL (dup and fork give the error number, and exec ends the process with it) and every descriptor and address obtained so far is given back. select runs the read callback once for each ready descriptor and follows its answer: keep, replace, add, or close and drop.',
      ['inputs', 'faults', 'environments'], 'For every argument and every result of the operating system.',
      'Tests reach these calls with one valid argument and a kernel that cooperates; wrong descriptors, refused calls and unusual numbers are not sampled.',
      ['lib/mnml/unix/accept.c', 'lib/mnml/unix/close.c', 'lib/mnml/unix/connect.c', 'lib/mnml/unix/dup.c', 'lib/mnml/unix/exec.c', 'lib/mnml/unix/fork.c', 'lib/mnml/unix/listen.c', 'lib/mnml/unix/pipe.c', 'lib/mnml/unix/select.c', 'lib/mnml/unix/unlink.c', 'lib/mnml/unix/wait.c', 'lib/mnml/sys'],
      [('system calls and their errors', 'lib/mnml/unix'), ('ready descriptors and callbacks', 'lib/mnml/unix/select.c')],
      'Bounded: up to 3 descriptors or strings, values of depth 1, every result of each call; the kernel is modelled.')
    p('C21', 'A transpiled function does what its script does',
      'A function that mnmlc compiles, called with arguments of the inferred types, yields the value its script yields, calls its function arguments with the same values in the same order, and keeps no memory: all its intermediate values and closures are released whatever branch it takes. This holds for the compiled modules of the distribution (iterators, manips) against share/mnml/*.l.',
      ['inputs', 'programs'], 'For every accepted function, every argument and every function argument.',
      'Tests call the compiled functions of the distribution once or twice; the code of a continuation that is reached by one shape of data, or its clean-up, is not sampled, and no other function is ever compiled.',
      ['share/mnml/cc.l', 'share/mnml/cps.l', 'share/mnml/iterators.l', 'share/mnml/manips.l', 'lib/core/closure.c', 'include/mnml/closure.h'],
      [('code generation and clean-up of closures', 'share/mnml/cc.l'), ('conversion to continuations, types and reference counts', 'share/mnml/cps.l'), ('cache of closures', 'lib/core/closure.c')],
      'Bounded: 15 functions of the distribution and 27 of the harness, transpiled at check time by the tree itself; lists of up to 2 elements, 9 kinds of function arguments, numbers symbolic.')
    p('C22', 'The list functions of the library do what they document, for every list',
      'rev, append, $+, has, filter, flatten, erase, replc, assoc, insert, isort, merge, dedup, last, rep, truncl, truncr, iter, iter2, map, map2, zip, foldl, foldr, <|> and the c..r accessors yield the documented list for every argument, NIL elements included: nothing is lost, duplicated or reordered, sorting is stable, functions are called once for each element from left to right (foldr: from the right). append evaluates each argument in the scope of its caller. A script that loads one of them needs to load nothing else, and a call leaves no atom behind.',
      ['inputs', 'programs'], 'For every list, value and function argument.',
      'Tests call each function once on a short list of distinct numbers; NIL elements, equal keys, names that clash and missing loads are not sampled.',
      ['share/mnml/*.l', 'lib/core/eval.c', 'lib/core/bind.c', 'lib/mnml/std'], [('the list library', 'share/mnml/rev.l, append.l, has.l, filter.l, flatten.l, erase.l, replc.l, insert.l, isort.l, merge.l, dedup.l, last.l, truncr.l, iter.l, iter2.l, iterators.l, manips.l, orelse.l')],
      'Bounded: lists of up to 2 (thorough 3) elements of 4 kinds, all numbers and characters free; the scripts are run by the interpreter of the tree under the symbolic executor.')
    p('C23', 'The string functions of the library do what they document, for every string',
      'join, split, trim, triml, trimr, strlt, ntoa, aton, term:left, term:right and the term styles yield the documented text for every argument: join puts the separator between all strings, split yields the non-empty tokens, trim removes white space at the ends only, strlt is the lexicographic order, ntoa and aton are the decimal notation of every number (ntoa with its sign), padding and cutting give exactly the width. They terminate, and leave no atom behind.',
      ['inputs'], 'For every string, character and number.',
      'Tests use one word each; trim was never called and did not terminate, ntoa was wrong for every negative number.',
      ['share/mnml/join.l', 'share/mnml/split.l', 'share/mnml/trim.l', 'share/mnml/strlt.l', 'share/mnml/ntoa.l', 'share/mnml/aton.l', 'share/mnml/term.l'], [('the string library', 'share/mnml/join.l, split.l, trim.l, strlt.l, ntoa.l, aton.l, term.l')],
      'Bounded: strings of up to 4 free characters, numbers of up to 3 digits and the limits.')
    p('C25', 'The command line runs exactly the program it is given and reports the outcome',
      'mnml FILE, mnml -e TEXT and the interactive loop evaluate every expression of the program once, in order, whatever the values of the expressions before, and the exit status of FILE and -e is zero exactly when the last value is not NIL; with -d it is also non-zero when an atom was kept. quit ends the loop, and -e, with nothing evaluated after it. The loop prompts for each line it needs, prints each value, reports a line that is no expression and goes on. ARGV, ENV and CONFIG hold the arguments from FILE on, every variable that has a value, and the configuration, unchanged. Options after FILE belong to the program. -b defines nothing, -h and -v run nothing. At exit every file, directory and module is closed.',
      ['inputs', 'programs', 'environments'], 'For every program, argument, environment and combination of options.',
      'The tests run scripts that succeed; the status of a failing program, programs with NIL values given to -e, and unusual arguments and variables are not sampled.',
      ['bin/mnml.c', 'lib/core/read.c', 'lib/core/utils.c', 'lib/core/module.c'], [('options, environment of the program, exit status', 'bin/mnml.c'), ('the interactive loop', 'bin/mnml.c run')],
      'Bounded: programs of up to 2 (thorough 3) expressions, arguments and variables of up to 2 characters; getopt, files and signals modelled.')
    p('C24', 'The programs of the library (args, http, run, test) do what they document',
      'args:parse gives each flag of ARGV exactly its values, in order, gives back the flags, and reports and stops at the first unknown flag or missing value. http/request and http/response yield the method, path, code, message and every header of the message, unchanged and in order, consume nothing after the headers, and reject anything else; http/get sends its request whole, calls its callback once with the response, and closes the connection whatever fails; http/serve listens on its port, hears every client once whatever the order, gives each request to its handler once, answers it (404 for NOT_FOUND), closes the connection, and closes its socket when it ends. run starts the program with exactly its arguments and variables, its output in a pipe, and yields the status and all lines; the child never returns to the caller. A test suite runs exactly the selected tests once and in order, and its value tells whether all passed.',
      ['inputs', 'faults'], 'For every command line, message, output, status and test outcome.',
      'Only args:parse and the assertions have tests, on one input each.',
      ['share/mnml/args.l', 'share/mnml/http.l', 'share/mnml/run.l', 'share/mnml/test.l', 'lib/mnml/io', 'lib/mnml/unix'], [('flags', 'share/mnml/args.l'), ('HTTP', 'share/mnml/http.l'), ('processes', 'share/mnml/run.l'), ('test suites', 'share/mnml/test.l')],
      'Bounded: up to 3 arguments, 1 header, 1 line; characters free; the network, processes and pipes are modelled.')
    p('C26', 'Removing names from a table leaves every other name in place',
      'After any sequence of additions and removals a table holds exactly the names added and not removed, each with its latest value. Removing a name takes out that name only; removing one that is not there is NIL and changes nothing. A traversal visits the remaining names once each, in order; the depth stays within that of a balanced tree; and every atom of a removed entry is released.',
      ['histories', 'inputs'], 'For every set of names, order of insertion and order of removal.',
      'Rebalancing after a removal has eight mirrored cases that particular shapes reach; the tests remove from a few fixed tables, and tables of four names already lost others.',
      ['lib/core/tree.c', 'include/mnml/tree.h'], [('removal and rebalancing', 'lib/core/tree.c lisp_tree_rem, tree_rem_check')],
      'Bounded: all tables of up to 5 names and 2 removals; tables of 8 and 12 names added in three orders, 2 to 3 removals of any names.')
