"""Builds, from /repo's working tree, the LLVM bitcode the executor runs and the native replay binary."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MINIMAL_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
LLVM = "/usr/lib/llvm-18/bin/"
DEFS = ['-DLISP_ENABLE_DEBUG', '-DLISP_ENABLE_SSE', '-DMNML_BUILD_TIMESTAMP="now"', '-DMNML_COMPILER_ID="GNU"',
        '-DMNML_COMPILER_VERSION="13"', '-DMNML_VERSION="2.3.0"', '-DYYNOERRORRECOVERY', '-D_GNU_SOURCE']
BASE = DEFS + ['-I' + REPO + '/include', '-msse4.2', '-std=gnu99', '-w', '-fno-strict-aliasing']
CLANG = ['clang', '-c', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fPIC', '-U_FORTIFY_SOURCE']
PASSES = 'sroa,early-cse,simplifycfg,dce'
ITER = "foldl,foldr,map,map2,zip"
EXTRA = "x_add,x_ite,x_fib,x_cons,x_when,x_unless,x_conc,x_fun,x_and,x_or,x_equ,x_call,x_twice,x_deep,x_swap,x_rev,x_both,x_three,x_nest,x_neq,x_neqa,x_eqn,x_if2,x_when2,x_pass,x_lit,x_name"
MANIP = "assoc,caar,cddr,cadar,caddr,cadr,cdar,last,rep,truncl"


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (' '.join(cmd), p.stdout[-3000:]))
    return p.stdout


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_files():
    r = []
    for d in ('lib', 'include', 'bin', 'share'):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(root, f) for f in fs]
    return r


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + '.lock')

    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def engine():
    src = [os.path.join(VERIF, 'engine', f) for f in ('expr.h', 'msym.cpp')]
    out = os.path.join(BUILD, 'msym-' + digest(src))
    with Lock('engine'):
        if not os.path.exists(out):
            for old in glob.glob(os.path.join(BUILD, 'msym-*')):
                os.unlink(old)
            cpp = subprocess.check_output([LLVM + 'llvm-config', '--cppflags'], text=True).split()
            run(['clang++', '-O2', '-std=c++17', '-fno-rtti'] + cpp + ['-fexceptions', src[1], '-o', out + '.tmp',
                 '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3'])
            os.rename(out + '.tmp', out)
    return out


def modules():
    return sorted(d for d in os.listdir(os.path.join(REPO, 'lib', 'mnml')) if os.path.isdir(os.path.join(REPO, 'lib', 'mnml', d)))


def grammar(d):
    g = os.path.join(d, 'gen')
    os.makedirs(g, exist_ok=True)
    for f in ('parser.y', 'lexer.rl'):
        shutil.copy(os.path.join(REPO, 'lib', 'grammar', f), g)
    tpl = '/usr/share/lemon/lempar.c'
    run(['lemon', 'T=' + tpl, '-q', 'parser.y'], cwd=g)
    run(['ragel', 'lexer.rl', '-o', 'lexer.c'], cwd=g)
    return os.path.join(g, 'lexer.c')


def share(d):
    """The scripts of share/mnml as they are now, for the modelled file system."""
    with open(d + '/gen/share_gen.h', 'w') as o:
        rows = ''
        for i, f in enumerate(sorted(glob.glob(REPO + '/share/mnml/*.l')) + [HARN + '/extra.l']):
            b = open(f, 'rb').read()
            o.write('static const char share_%d[] = {%s};\n' % (i, ','.join(str(x if x < 128 else x - 256) for x in b + b'\0')))
            rows += '  { "%s", share_%d, %d },\n' % (os.path.basename(f), i, len(b))
        o.write('static const struct { const char* name; const char* text; unsigned long len; } share_files[] = {\n%s  { 0, 0, 0 } };\n' % rows)


def sources(d):
    core = sorted(glob.glob(REPO + '/lib/core/*.c')) + sorted(glob.glob(REPO + '/lib/stubs/*.c')) + [grammar(d)]
    mods = {m: sorted(glob.glob(REPO + '/lib/mnml/' + m + '/*.c')) for m in modules()}
    mods['vleak'] = [HARN + '/mod_leak.c']
    mods['asixteenletmodul'] = [HARN + '/mod_long.c']
    return core, mods


def prune(keep):
    ds = sorted((x for x in glob.glob(os.path.join(BUILD, 'tree-*')) if x != keep), key=os.path.getmtime)
    for x in ds[:-3]:
        shutil.rmtree(x, ignore_errors=True)


def tree(transpiled=False, extra=False):
    """Bitcode of the whole repository, keyed by the content of its sources."""
    d = os.path.join(BUILD, 'tree-' + digest(repo_files() + [os.path.abspath(__file__), HARN + '/extra.l', HARN + '/mod_leak.c', HARN + '/mod_long.c']))
    with Lock('tree'):
        if not os.path.exists(d + '/ok'):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            prune(d)
            core, mods = sources(d)
            share(d)
            jobs = []

            def cc(src, out, extra=()):
                run(CLANG + BASE + ['-I' + d + '/gen'] + list(extra) + [src, '-o', out])

            with ThreadPoolExecutor(8) as ex:
                outs = {'core': []}
                for i, s in enumerate(core):
                    o = '%s/core_%d_%s.bc' % (d, i, os.path.basename(s))
                    outs['core'].append(o)
                    jobs.append(ex.submit(cc, s, o))
                o = d + '/main_mnml.bc'
                jobs.append(ex.submit(cc, REPO + '/bin/mnml.c', o, ['-Dmain=mnml_main']))
                outs['cli'] = [o]
                for m, ss in mods.items():
                    outs[m] = []
                    for s in ss:
                        o = '%s/m_%s_%s.bc' % (d, m, os.path.basename(s))
                        outs[m].append(o)
                        jobs.append(ex.submit(cc, s, o))
                for j in jobs:
                    j.result()

                def link(m):
                    run([LLVM + 'llvm-link', '-o', '%s/%s.raw.bc' % (d, m)] + outs[m])
                    run([LLVM + 'opt', '-passes=' + PASSES, '-o', '%s/%s.bc' % (d, m), '%s/%s.raw.bc' % (d, m)])
                    os.unlink('%s/%s.raw.bc' % (d, m))
                    for o in outs[m]:
                        os.unlink(o)
                list(ex.map(link, outs))
            open(d + '/ok', 'w').write(' '.join(sorted(mods)))
        if transpiled and not os.path.exists(d + '/ok-transpiled'):
            _transpile(d)
    if extra and os.path.exists(d + '/extra-failed'):
        raise BuildError('transpile: ' + open(d + '/extra-failed').read())
    return d


def _transpile(d):
    """iterators and manips as the build makes them: the tree's own interpreter runs the tree's own transpiler."""
    nd = d + '/native'
    shutil.rmtree(nd, ignore_errors=True)
    os.makedirs(nd + '/lib/mnml')
    os.makedirs(nd + '/bin')
    os.makedirs(nd + '/home/.mnml')
    core, mods = sources(d)
    fl = BASE + ['-I' + d + '/gen', '-g', '-O0', '-fPIC']
    with ThreadPoolExecutor(8) as ex:
        j = [ex.submit(run, ['gcc'] + fl + ['-shared', '-o', nd + '/lib/libminimal.so'] + core + ['-ldl'])]
        for m, ss in mods.items():
            j.append(ex.submit(run, ['gcc'] + fl + ['-shared', '-o', '%s/lib/mnml/lib%s.so' % (nd, m)] + ss))
        for x in j:
            x.result()
    run(['gcc'] + fl + ['-o', nd + '/bin/mnml', REPO + '/bin/mnml.c', '-L' + nd + '/lib', '-lminimal', '-ldl', '-Wl,-rpath,' + nd + '/lib', '-rdynamic'])
    env = {'PATH': os.environ['PATH'], 'HOME': nd + '/home', 'PWD': nd, 'MNML_SCRIPT_PATH': REPO + '/share/mnml', 'LANG': 'C.UTF-8'}
    err = ''
    for name, syms, src in (('iterators', ITER, REPO + '/share/mnml/iterators.l'), ('manips', MANIP, REPO + '/share/mnml/manips.l'), ('extra', EXTRA, HARN + '/extra.l')):
        c = '%s/%s.c' % (nd, name)
        try:
            p = subprocess.run([nd + '/bin/mnml', REPO + '/bin/mnmlc', '-c', src, '-m', name, '-s', syms, '-o', c],
                               env=env, cwd=nd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240, text=True, errors='replace')
            if not os.path.exists(c):
                raise BuildError('transpiler wrote nothing: ' + p.stdout[-500:])
            run(CLANG + BASE + [c, '-o', '%s/%s.t.bc' % (d, name)])
            run([LLVM + 'opt', '-passes=' + PASSES, '-o', '%s/%s.bc' % (d, name), '%s/%s.t.bc' % (d, name)])
        except (BuildError, subprocess.TimeoutExpired) as e:
            err = str(e)
            break
    if err and name == 'extra':
        with open(d + '/extra-failed', 'w') as f:
            f.write(err)
    elif err:
        raise BuildError('transpile: ' + err)
    open(d + '/ok-transpiled', 'w').write('')


def harness(name, d, cli=False):
    """main.bc = core + models + harness library + harness."""
    srcs = [HARN + '/models.c', HARN + '/lib.c', '%s/%s.c' % (HARN, name)]
    deps = srcs + glob.glob(HARN + '/*.h')
    out = '%s/h_%s_%s.bc' % (d, name, digest(deps))
    with Lock('h_' + name):
        if not os.path.exists(out):
            for old in glob.glob('%s/h_%s_*' % (d, name)):
                os.unlink(old)
            os.makedirs(d + '/hobj_' + name, exist_ok=True)
            outs = []
            for s in srcs:
                o = '%s/hobj_%s/%s.bc' % (d, name, os.path.basename(s))
                run(CLANG + BASE + ['-fno-builtin', '-I' + HARN, '-I' + d + '/gen', s, '-o', o])
                outs.append(o)
            run([LLVM + 'llvm-link', '-o', out + '.raw', d + '/core.bc'] + ([d + '/cli.bc'] if cli else []) + outs)
            run([LLVM + 'opt', '-passes=' + PASSES, '-o', out + '.tmp', out + '.raw'])
            os.unlink(out + '.raw')
            os.rename(out + '.tmp', out)
            shutil.rmtree(d + '/hobj_' + name, ignore_errors=True)
    return out


def wraps():
    txt = open(HARN + '/models.c').read() + open(HARN + '/lib.c').read()
    return sorted(set(re.findall(r'__wrap_(\w+)\(', txt)))


def native(name, d, cli=False, transpiled=False):
    """The same harness, natively: gcc, address and undefined-behaviour sanitizers, ld --wrap."""
    out = '%s/n_%s_%d_%s' % (d, name, transpiled, digest(glob.glob(HARN + '/*.h') + [HARN + '/' + f for f in ('models.c', 'lib.c', 'msym_native.c', name + '.c')]))
    with Lock('n_' + name):
        if os.path.exists(out):
            return out
        core, mods = sources(d)
        if transpiled:
            for m in ('iterators', 'manips') + (() if os.path.exists(d + '/extra-failed') else ('extra',)):
                mods[m] = ['%s/native/%s.c' % (d, m)]
        od = d + '/nobj'
        os.makedirs(od, exist_ok=True)
        fl = BASE + ['-I' + d + '/gen', '-I' + HARN, '-g', '-O0', '-DMSYM_NATIVE', '-fsanitize=address,undefined', '-fno-sanitize=alignment,signed-integer-overflow,shift',
                     '-fno-sanitize-recover=all', '-c']
        objs, jobs = [], []
        tab = '#include <string.h>\n'
        rows = ''
        for m in mods:
            tab += 'extern const char* lisp_module_name__%s(); extern void* lisp_module_entries__%s();\n' % (m, m)
            rows += '  if (!strcmp(m, "%s")) return !strcmp(s, "lisp_module_name") ? (void*)lisp_module_name__%s : !strcmp(s, "lisp_module_entries") ? (void*)lisp_module_entries__%s : 0;\n' % (m, m, m)
        tab += 'void* msym_dlsym(const char* m, const char* s) {\n' + rows + '  return 0;\n}\n'
        open(od + '/table_%s.c' % name, 'w').write(tab)
        with ThreadPoolExecutor(8) as ex:
            def cc(src, o, extra=()):
                if not os.path.exists(o):
                    run(['gcc'] + fl + list(extra) + [src, '-o', o])
            def add(src, o, extra=()):
                objs.append(o)
                jobs.append(ex.submit(cc, src, o, extra))
            for i, s in enumerate(core):
                add(s, '%s/core_%d_%s.o' % (od, i, os.path.basename(s)))
            if cli:
                add(REPO + '/bin/mnml.c', od + '/cli.o', ['-Dmain=mnml_main'])
            for m, ss in mods.items():
                ren = ['-D%s=%s__%s' % (x, x, m) for x in ('lisp_module_name', 'lisp_module_entries', 'ENTRIES')]
                for s in ss:
                    add(s, '%s/m_%s_%s.o' % (od, m, os.path.basename(s)), ren)
            for s in (HARN + '/models.c', HARN + '/lib.c', HARN + '/msym_native.c', '%s/%s.c' % (HARN, name), od + '/table_%s.c' % name):
                o = '%s/h_%s.o' % (od, os.path.basename(s))
                if os.path.exists(o):
                    os.unlink(o)
                add(s, o)
            for j in jobs:
                j.result()
        run(['gcc', '-fsanitize=address,undefined', '-o', out, '-Wl,--allow-multiple-definition'] + objs + ['-Wl,--wrap=' + w for w in wraps()] + ['-ldl', '-lm'])
    return out


if __name__ == '__main__':
    t = time.time()
    print(engine(), time.time() - t)
    t = time.time()
    print(tree('-t' in sys.argv), time.time() - t)
