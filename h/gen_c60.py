#!/usr/bin/env python3
# Descriptions for tools/mkgetopt.py, the parsers it generates from them, and a table of what each description says.
# usage: gen_c60.py REPO OUTDIR CFLAGS...  ->  OUTDIR/*.o and OUTDIR/c60_list.h
import sys, os, subprocess, itertools
from concurrent.futures import ThreadPoolExecutor
REPO, OUT, CFLAGS = sys.argv[1], sys.argv[2], sys.argv[3:]
os.makedirs(OUT, exist_ok=True)
PLAIN = [f for f in CFLAGS if not f.startswith(('-fsan', '-O'))]                 # for the tables
NUM = ['short', 'ushort', 'int', 'uint', 'long', 'ulong', 'size', 'float', 'double']

# option: (long, short, var, type, default, help); placeholder: ('-', '-', var, type[, default])
S = {}
def spec(name, opts, desc=('Test program', 'that has a description', 'of several lines.'), dirs=(), lines=None, cli=(), prefix=None):
    S[name] = dict(opts=opts, desc=desc, dirs=list(dirs), lines=lines, cli=list(cli), prefix=prefix or name)

D = {'short': ('1', '-2', '077'), 'ushort': ('1', '0', '0xff'), 'int': ('1', '-5', '0x10'), 'uint': ('1', '0', '010'), 'long': ('3', '-9', '0x7fffffff'),
     'ulong': ('3', '0', '4294967296'), 'size': ('1M', '0', '3k'), 'float': ('1.5', '0', '-2e3'), 'double': ('0.25', '0', '4.1458132e-3'), 'string': ('syslog', 'x', 'a b')}
for t in NUM + ['string']:
    d = D[t]
    spec('t' + t, [('alpha', 'a', 'va', t, d[0], 'First value'), ('beta', '-', 'vb', t + '?', d[1], 'Second value'), ('-', 'c', 'vc', t, d[2], 'Third value'),
                   ('delta', 'd', 'vd', t + '?', d[1], 'Fourth'), ('-', 'e', 've', t + '?', d[1], 'Fifth'), ('flag', 'f', 'fl', 'bool', 'false', 'A flag'), ('alpine', '-', 'fm', 'flag', 'false', 'Another flag')], prefix='opt' if t == 'int' else None)
spec('bools', [('alpha', 'a', 'va', 'bool', 'true', 'First'), ('beta', 'b', 'vb', 'flag', 'false', 'Second'), ('gamma', 'g', 'vc', 'boolean', 'yes', 'Third'),
               ('delta', '-', 'vd', 'bool', 'no', 'Fourth'), ('-', 'e', 've', 'bool', 'True', 'Fifth')])
spec('cbs', [('little', 'L', 'cba', 'callback', None, 'Use little'), ('big', 'B', 'cbb', 'callback', None, 'Use big'), ('set', 's', 'cbc', 'callback_arg', '-', 'Set a thing'),
             ('may', 'm', 'cbd', 'callback_arg?', '-', 'May have a value'), ('num', 'n', 'num', 'int', '7', 'A number'), ('-', '-', 'own', 'int'), ('-', '-', 'own2', 'string')],
     dirs=['%prefix cbs'])
spec('hold', [('-', '-', 'pa', 'int'), ('-', '-', 'pb', 'bool', 'true'), ('-', '-', 'pc', 'string'), ('-', '-', 'pd', 'float', '4.5e-3'), ('-', '-', 'pe', 'size'),
              ('-', '-', 'pf', 'double'), ('-', '-', 'pg', 'size', '2k'), ('num', 'n', 'num', 'int', '7', 'A number'), ('flag', 'f', 'fl', 'bool', 'false', 'A flag')], dirs=['%prefix hold'])
spec('hold2', [('-', '-', 'pa', 'string', 'deflt'), ('flag', 'f', 'fl', 'bool', 'false', 'A flag')], dirs=['%prefix hold2'])
spec('noperm', [('alpha', 'a', 'va', 'int', '1', 'First'), ('flag', 'f', 'fl', 'bool', 'false', 'A flag'), ('delta', 'd', 'vd', 'int?', '0', 'Fourth')], dirs=['%nopermute', '%prefix noperm'])
spec('nobuilt', [('assist', 'h', 'va', 'int', '1', 'First'), ('release', 'V', 'fl', 'bool', 'false', 'A flag')], dirs=['%noversion', '%nohelp', '%prefix nobuilt'])
spec('nover', [('alpha', 'a', 'va', 'int', '1', 'First'), ('release', 'V', 'fl', 'bool', 'false', 'A flag')], dirs=['%noversion', '%usage_call nover_usage', '%prefix nover'])
spec('nohelp', [('alpha', 'h', 'va', 'int', '1', 'First'), ('flag', 'f', 'fl', 'bool', 'false', 'A flag')], dirs=['%nohelp', '%prefix nohelp'])
spec('nodesc', [('alpha', 'a', 'va', 'int', '1', 'First'), ('flag', 'f', 'fl', 'bool', 'false', 'A flag')], desc=())
spec('cli', [('alpha', 'a', 'va', 'uint', '1', 'First'), ('cb', 'c', 'cb', 'callback', None, 'A callback'), ('flag', 'f', 'fl', 'bool', 'false', 'A flag')], cli=['-P', 'cli', '-H', 'cli_hh.h', '-C', 'cli_cc.c'])
# one option for every way of quoting the six fields
qo, ql = [], []
for i, q in enumerate(q for q in itertools.product('_"\'', repeat=6) if sum('_"\''.index(x) for x in q) % 3 == 0):    # every combination of any five fields
    o = ('opt-%d-x' % i, '-', 'v%d' % i, ('int', 'string', 'bool', 'size')[i % 4], (str(i), 'dflt', 'true', '%dk' % i)[i % 4], 'Help%d' % i)
    if q[5] != '_': o = o[:5] + ('Help%d with words' % i,)
    qo.append(o)
    ql.append(('  ' if i % 3 else '') + (' ', '\t', '   ')[i % 5 % 3].join(f if c == '_' else c + f + c for f, c in zip(o, q)))
    if i % 7 == 0: ql += ['', '# a comment "with quotes', '   # x y z int 0 "help"']
spec('quoted', qo, lines=ql)

CT = {'short': 'short', 'ushort': 'unsigned short', 'int': 'int', 'uint': 'unsigned int', 'long': 'long', 'ulong': 'unsigned long', 'size': 'uint64_t', 'float': 'double', 'double': 'double',
      'string': 'char*', 'bool': 'int', 'flag': 'int', 'boolean': 'int'}
KIND = {'short': 'K_INT', 'int': 'K_INT', 'long': 'K_INT', 'ushort': 'K_UINT', 'uint': 'K_UINT', 'ulong': 'K_UINT', 'size': 'K_SIZE', 'float': 'K_DBL', 'double': 'K_DBL', 'string': 'K_STR',
        'bool': 'K_BOOL', 'flag': 'K_BOOL', 'boolean': 'K_BOOL', 'callback': 'K_CB', 'callback_arg': 'K_CB'}
MUL = {'k': 1 << 10, 'M': 1 << 20, 'G': 1 << 30}
def cdef(t, d):
    if d is None or t.startswith('callback'): return ('0', '0', '0')
    if t == 'string': return ('0', '0', '"%s"' % d)
    if t in ('float', 'double'): return ('0', d, '0')
    if t in ('bool', 'flag', 'boolean'): return ('1' if d.lower() in ('true', 'yes') else '0', '0', '0')
    m = MUL.get(d[-1], 1)
    if m > 1: d = d[:-1]
    v = int(d, 16) if d.startswith('0x') else int(d, 8) if d.startswith('0') else int(d)
    return ('(uint64_t)%dLL' % (v * m), '0', '0')

def c(s): return '0' if s in (None, '-') else '"%s"' % s
def build(name):
    s = S[name]; p = s['prefix']
    lines = ['%description "' + d + '"' for d in s['desc']] + s['dirs'] if s['desc'] else list(s['dirs'])
    if s['lines']: lines += s['lines']
    else:
        for o in s['opts']:
            f = [x for x in o if x is not None]
            lines.append(' '.join('"%s"' % x if ' ' in x else x for x in f))
    inf = os.path.join(OUT, name + '.in')
    open(inf, 'w').write('\n'.join(lines) + '\n')
    dirpref = p == 'opt' or any('%prefix' in d for d in s['dirs']) or '-P' in s['cli']
    cli = s['cli'] if dirpref else s['cli'] + ['-P', p]
    cf, hf = ('cli_cc.c', 'cli_hh.h') if name == 'cli' else (name + '.c', name + '.h')
    for f in (cf, hf):
        if os.path.exists(os.path.join(OUT, f)): os.unlink(os.path.join(OUT, f))
    r = subprocess.run([sys.executable, os.path.join(REPO, 'tools/mkgetopt.py')] + cli + [name + '.in'], cwd=OUT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, stdin=subprocess.DEVNULL)
    why = None
    if r.returncode or not os.path.exists(os.path.join(OUT, cf)) or not os.path.exists(os.path.join(OUT, hf)): why = 'the generator fails: ' + r.stdout.strip()[-300:]
    rows, flags = [], []
    nohelp, nover = '%nohelp' in s['dirs'], '%noversion' in s['dirs']
    opts = list(s['opts'])
    if not nover: opts.insert(0, ('version', 'V', 'version', 'bool', 'false', 'Print'))
    if not nohelp: opts.insert(0, ('help', 'h', 'help', 'bool', 'false', 'Print'))
    T = 'struct %s_option' % p
    for o in opts:
        t = o[3].rstrip('?'); q = o[3].endswith('?')
        hold = o[0] == '-' and o[1] == '-'
        d = o[4] if len(o) > 4 else None
        iv, dv, sv = cdef(t, d)
        argm = 0 if KIND[t] == 'K_BOOL' or t == 'callback' else 2 if q else 1
        rows.append('    { %s, %s, "%s", %s, sizeof(((%s *)0)->%s), %d, offsetof(%s, %s), %s, %s, %s, %s, %d, %s, %s },' % (c(o[0]), "'%s'" % o[1] if o[1] != '-' else '0', o[2], KIND[t], T, o[2], argm,
            T, o[2], '-1' if hold else 'offsetof(%s, %s_present)' % (T, o[2]), iv, dv, sv, (2 if d is not None else 1) if hold else 0, c(o[5].split()[0]) if len(o) > 5 else '0',
            c(d) if d is not None and not t.startswith('callback') else '0'))
        if t.startswith('callback') :
            flags.append('static void set_%s(%s *o, void (*f)(%s *, char *)) { o->%s = f; }' % (o[2], T, T, o[2]))
    ncb = [o[2] for o in opts if o[3].startswith('callback')]
    cbs = ''.join('static void cb_%s(%s *o, char *a) { c60_called(o, "%s", a); }\n' % (v, T, v) for v in ncb)
    w = '#include <stddef.h>\n#include "%s"\n#include "c60.h"\n%s' % (hf, cbs)
    w += 'const char *%s_version(void) { return "7.8.9-%s"; }\n' % (p, name)
    w += 'const char *nover_usage(void) { return "USAGE-TEXT\\n"; }\n' if name == 'nover' else ''
    w += 'static int parse_(void *o, int argc, char *const *argv) { return %s_parse((%s *)o, argc, argv); }\n' % (p, T)
    w += 'static void setup_(void *o_) { %s *o = o_; (void)o; %s }\n' % (T, ' '.join('o->%s = cb_%s;' % (v, v) for v in ncb))
    w += 'static void rest_(void *o_, char *const **v, int *n) { %s *o = o_; *v = o->argv_inputs; *n = o->argv_count; }\n' % T
    w += 'static const struct c60_opt tab_[] = {\n' + '\n'.join(rows) + '\n};\n'
    desc = s['desc'][0] if s['desc'] else ''
    w += 'const struct c60_spec c60_spec_%s = { "%s", tab_, %d, sizeof(%s), parse_, setup_, rest_, %d, %d, %d, "%s", "7.8.9-%s", %s, 0 };\n' % (name, name, len(rows), T, '%nopermute' in s['dirs'],
         nohelp, nover, desc, name, '"USAGE-TEXT"' if name == 'nover' else '0')
    wf = os.path.join(OUT, 'w_' + name + '.c')
    objs = [os.path.join(OUT, name + '_gen.o'), os.path.join(OUT, name + '_tab.o')]
    if not why:
        open(wf, 'w').write(w)
        for src, obj in ((os.path.join(OUT, cf), objs[0]), (wf, objs[1])):
            r = subprocess.run(['gcc'] + (CFLAGS + ['-O0'] * (len(s['opts']) > 100) if obj == objs[0] else PLAIN) + ['-w', '-Werror=incompatible-pointer-types', '-Werror=implicit-function-declaration', '-I', OUT, '-I', os.path.dirname(os.path.abspath(__file__)), '-c', '-o', obj, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                why = 'what it generates does not compile: ' + r.stdout.strip()[:400]; break
    if not why:  # the two files of the program must fit together
        r = subprocess.run(['ld', '-r', '-o', objs[0] + '.t', objs[0], objs[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: why = 'what it generates does not link: ' + r.stdout.strip()[:300]
        else:
            os.unlink(objs[0] + '.t')
            u = subprocess.run(['nm', '-g', objs[0]], stdout=subprocess.PIPE, text=True).stdout
            if ' T %s_parse' % p not in u: why = 'it generates no %s_parse()' % p
    if why:
        for f in objs:
            if os.path.exists(f): os.unlink(f)
        why = ''.join(ch if ch.isalnum() or ch in " .,:;()'-_/<>=" else ' ' for ch in why)
        open(wf, 'w').write('#include "c60.h"\nconst struct c60_spec c60_spec_%s = { .name = "%s", .broken = "%s" };\n' % (name, name, why))
        subprocess.run(['gcc'] + CFLAGS + ['-w', '-I', os.path.dirname(os.path.abspath(__file__)), '-c', '-o', objs[1], wf], check=True)
with ThreadPoolExecutor(8) as ex: list(ex.map(build, S))
open(os.path.join(OUT, 'c60_list.h'), 'w').write(''.join('extern const struct c60_spec c60_spec_%s;\n' % n for n in S) + 'static const struct c60_spec *const c60_specs[] = {' + ', '.join('&c60_spec_' + n for n in S) + '};\n')
