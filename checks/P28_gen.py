# Writes one specification, generates a scanner from it with every option and every two options, and compiles each as a module that the harness loads.
import sys; sys.dont_write_bytecode = True
tool, out, repo, flags, tier = sys.argv[1:6]
import os, subprocess, itertools
from concurrent.futures import ThreadPoolExecutor
thorough = tier == 'thorough'
# name: command line
O = {
 'unicode': '--unicode', 'nocase': '--case-insensitive', 'dotall': '--dotall', 'find': '--find', 'nodefault': '--nodefault', 'exception': '--exception=7',
 'full': '--full', 'fast': '--fast', 'flex': '--flex', 'batch': '--batch', 'interactive': '--interactive', 'noline': '--noline', 'debug': '--debug', 'perf': '--perf-report',
 'nostdinit': '--nostdinit', 'lexer': '--lexer=MyLexer', 'lex': '--lex=mylex', 'namespace': '--namespace=n1.n2', 'prefix': '--prefix=zz', 'class': '--class=Mine', 'yyclass': '--yyclass=Mine',
 'bison': '--bison', 'bridge': '--bison-bridge', 'locations': '--bison-locations', 'cc': '--bison-cc', 'complete': '--bison-complete', 'reentrant': '--reentrant', 'yy': '--yy', 'noyywrap': '--noyywrap',
 'type': '--token-type=long', 'eof': '--token-eof=0', 'params': '--params=const std::map<int,int>& pm, int pc[], int& pa, int pb = 3', 'main': '--main', 'tabs': '--tabs=4', 'header': '--header-file=@.h', 'tables': '--tables-file=@.tables.cpp', 'regexp': '--regexp-file=@.txt', 'graphs': '--graphs-file=@.gv',
 'freespace': '--freespace', 'permissive': '--permissive', 'ctorarg': '--ctorarg=int ca', 'array': '--array', 'boost': '--matcher=boost', 'pcre2': '--matcher=pcre2-perl', 'noindent': '--noindent', 'nowarn': '--nowarn', 'verbose': '--verbose', 'extra': '--extra-type=int',
}
CORE = ['full', 'fast', 'find', 'flex', 'bison', 'bridge', 'locations', 'cc', 'complete', 'reentrant', 'yy', 'namespace', 'prefix', 'lexer', 'lex', 'class', 'yyclass', 'params', 'type', 'perf', 'debug', 'nodefault', 'exception', 'header', 'tables', 'boost', 'array', 'ctorarg']
SEM = ['unicode', 'nocase', 'dotall', 'find', 'nodefault', 'exception', 'flex']
def allowed(c):
    flex = set(c) & {'flex', 'yy', 'yyclass', 'array'}
    if 'class' in c and flex: return False              # yyclass is the option of Flex scanners
    if 'complete' in c and 'type' in c: return False    # the token type is the symbol type
    if 'complete' in c and 'eof' in c: return False
    if 'ctorarg' in c and set(c) & {'reentrant', 'bridge', 'bison', 'locations', 'yy', 'array', 'main'}: return False # these construct a scanner without arguments
    if 'main' in c and set(c) & {'params', 'bridge', 'locations', 'cc', 'complete', 'class', 'yyclass'}: return False
    if 'nodefault' in c and set(c) & {'exception', 'debug'}: return False # documented: what happens to text that is not matched
    return True
def spec(c, sym):
    flex = bool(set(c) & {'flex', 'yy', 'yyclass', 'array'}); pre = 'zz' if 'prefix' in c else 'yy' if flex else ''
    base = 'MyLexer' if 'lexer' in c else pre + ('FlexLexer' if flex else 'Lexer'); lex = 'mylex' if 'lex' in c else pre + 'lex'
    ns = 'n1::n2::' if 'namespace' in c else ''; own = 'class' in c or 'yyclass' in c; cls = ns + ('Mine' if own else base)
    complete = 'complete' in c; cc = 'cc' in c or complete; loc = 'locations' in c; bridge = 'bridge' in c; params = 'params' in c
    typ = 'yy::parser::symbol_type' if complete else 'long' if 'type' in c else 'int'
    val = 'yy::parser::semantic_type' if cc else 'YYSTYPE'; lt = 'yy::location' if cc else 'YYLTYPE'
    decl = ([] if complete else [val + '& yylval', lt + '& yylloc'] if loc else [val + '& yylval'] if cc or bridge else []) + (['const std::map<int,int>& pm', 'int pc[]', 'int& pa', 'int pb'] if params else [])
    args = ([] if complete else ['val', 'loc'] if loc else ['val'] if cc or bridge else [])
    pargs = ['std::map<int,int>()', '(int*)NULL', 'pa', '3'] if params else []
    L = ['%top{', '#include "opt.hpp"', '}', '%class{', ' public: virtual void lexer_error(const char *s) { throw mcopt::Jam(); } virtual void LexerError(const char *s) { throw mcopt::Jam(); }', '}']
    if own:
        o = 'std::ostream*' if flex else 'std::ostream&'
        ct = ('int ca, ' if 'ctorarg' in c else ''); ca = ('ca, ' if 'ctorarg' in c else '')
        L += ['%{'] + (['namespace n1 { namespace n2 {'] if ns else []) + ['class Mine : public %s { public: Mine(%sconst reflex::Input& i = reflex::Input(), %s o = %s) : %s(%si, o) { } using %s::%s; virtual %s %s(%s); };' % (base, ct, o, 'NULL' if flex else 'std::cout', base, ca, base, lex, typ, lex, ', '.join(decl))] + (['} }'] if ns else []) + ['%}']
    L += ['%{', '#define T(k) mcopt::log(k, matcher(), start())', '#define R(k) %s(k)' % typ, '%}', '%x A', '%%']
    L += ['[ab]+(?=c)     { T(1); return R(1); }', '[ab]+          { T(2); return R(2); }', 'c              { T(3); start(A); return R(3); }', '"x y"?x        |', 'y+             { T(5); %sreturn R(5); }' % ('pa += pb; ' if params else ''), '^\\n            { T(6); }',
          '<A>{', '  c             { T(7); }', '  [\\n]          { T(8); start(0); }', '  .             { T(9); return R(9); }', '}']
    if 'freespace' not in c: L = [l.strip() if l.startswith('  ') else l for l in L]
    L += ['%%', 'template<typename L> static void mc_drive(L& l, const std::string& s)', '{', '  reflex::Input i(s); int pa = 0; YYSTYPE v = 0; (void)v; %s val; %s loc; (void)val; (void)loc; (void)pa;' % (val, lt),
          '  try { l.in(i); while (mcopt::more(l.%s(%s))) mcopt::locs(l.matcher(), loc, %d); } catch (const mcopt::Jam&) { mcopt::log(-1); } catch (int k) { mcopt::log(-k); }' % (lex, ', '.join(args + pargs), int(loc and not complete)), '  mcopt::pa(%s);' % ('pa' if params else '-1'), '}']
    L += ['extern "C" int mc_run(const std::string& s, int mode, std::ostream& os, std::string& log)', '{', '  mcopt::current = &log;', '  int pa = 0; %s val; %s loc; (void)val; (void)loc; (void)pa;' % (val, lt)]
    L += ['  if (mode == 0) { %s l(%sreflex::Input(), %sos); mc_drive(l, s); return 1; }' % (cls, '1, ' if 'ctorarg' in c else '', '&' if flex else '')]
    glob = []
    tail = ', '.join(['&' + a for a in args])
    if cc: pass
    elif ('reentrant' in c or bridge) and 'ctorarg' not in c:
        init = 'yylex_init_extra(%s, &sc); if (%sget_extra(sc) != %s) mcopt::add("EXTRA")' % ((('7', pre, '7') if 'extra' in c else ('&pa', pre, '&pa'))) if flex else 'yylex_init(&sc)'
        sin = 'FILE *f = mcopt::file(s); %sset_in(f, sc); if (%sget_in(sc) != f) mcopt::add("IN")' % (pre, pre) if flex else 'static_cast<yyscanner_t*>(sc)->in(in)'
        same = 'mcopt::same(%sget_text(sc), %sget_leng(sc), %sget_lineno(sc), static_cast<yyscanner_t*>(sc)->matcher());' % (pre, pre, pre) if flex else ''
        glob += ['  if (mode == 1)', '  {', '    yyscan_t sc; %s; static_cast<yyscanner_t*>(sc)->out(os); reflex::Input in(s);' % init, '    try { %s; while (mcopt::more(yylex(%s))) { %s } } catch (const mcopt::Jam&) { mcopt::log(-1); } catch (int k) { mcopt::log(-k); }' % (sin, ', '.join((['&val', '&loc'] if loc else ['&val'] if bridge else []) + ['sc'] + pargs), same), '    mcopt::pa(%s); %s; return 1;' % ('pa' if params else '-1', 'yylex_destroy(sc)'), '  }']
    elif set(c) & {'bison', 'locations', 'yy', 'array'} and 'ctorarg' not in c:
        fn = pre + 'lex' if flex else 'yylex'
        yy = bool(set(c) & {'yy', 'array'}) # implied by these
        glob += ['  if (mode == 1)', '  {', '    %sstatic std::string t; t = s; YY_SCANNER.out(os); reflex::Input in(t); YY_SCANNER.start(0);' % '',
                 '    try { YY_SCANNER.in(in); %swhile (mcopt::more(%s(%s))) { %s} } catch (const mcopt::Jam&) { mcopt::log(-1); } catch (int k) { mcopt::log(-k); }' % ('FILE *f = mcopt::file(t); %sin = f; ' % pre if 'yy' in c else '', fn, ', '.join((['&val', '&loc'] if loc else []) + pargs), 'mcopt::same(%stext, %sleng, %slineno, YY_SCANNER.matcher()); ' % (pre, pre, pre) if flex else ''), '    mcopt::pa(%s); return 1;' % ('pa' if params else '-1'), '  }']
    if flex and not cc and not ('reentrant' in c or bridge) and set(c) & {'bison', 'locations', 'yy', 'array'}:
        i = L.index('template<typename L> static void mc_drive(L& l, const std::string& s)'); L[i:i] = ['#undef %stext' % pre, '#undef %sleng' % pre, '#undef %slineno' % pre]
    L += glob + ['  return 0;', '}']
    return '\n'.join(L) + '\n'
combos = [()] + [(a,) for a in O] + [p for p in itertools.combinations(O, 2) if thorough or (p[0] in CORE and p[1] in CORE)]
if thorough:
    T = ['full', 'fast', 'find', 'flex', 'bison', 'bridge', 'locations', 'cc', 'complete', 'reentrant', 'namespace', 'prefix', 'class', 'yyclass', 'params', 'type']
    combos += list(itertools.combinations(T, 3))
combos += [c for c in itertools.combinations(CORE, 3) if 'find' in c and ('full' in c or 'fast' in c) and c not in combos] # code of the tables in another place
combos = [c for c in combos if allowed(c)]
sems = sorted({tuple(x for x in SEM if x in c or (x == 'flex' and set(c) & {'yy', 'yyclass', 'array'})) for c in combos}); combos += [s for s in sems if s not in combos]
inc = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc')
MAT = { 'boost': '-lboost_regex', 'pcre2': '-lpcre2-8' }
def build(i):
    c = combos[i]; b = '%s/o%d' % (out, i); open(b + '.l', 'w').write(spec(c, i))
    opts = [O[o].replace('@', b) for o in c]
    r = subprocess.run([tool] + opts + ['-o', b + '.cpp', b + '.l'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if r.returncode: return 'reflex rejects the options: ' + r.stdout
    src = [b + '.cpp'] + ([b + '.tables.cpp'] if 'tables' in c and os.path.exists(b + '.tables.cpp') else [])
    if os.path.exists(b + '.h'): open(b + '.use.cpp', 'w').write('#include "opt.hpp"\n#include "%s.h"\nvoid mc_unused() { }\n' % b); src.append(b + '.use.cpp')
    if os.path.exists(b + '.h') and set(c) & {'bison', 'reentrant', 'bridge', 'locations', 'yy', 'array'} and not set(c) & {'cc', 'complete', 'params'}: # for a parser in C
        open(b + '.use.c', 'w').write('#include "opt.hpp"\n#include "%s.h"\nvoid mc_unused_c() { }\n' % b); src.append(b + '.use.c')
    o = []
    for s in src:
        r = subprocess.run('%s -O0 -fPIC -I%s/include -I%s -c %s -o %s.o' % ('gcc -w' if s[-2:] == '.c' else 'g++ -fno-gnu-unique ' + flags.replace('-O1', ''), repo, inc, s, s), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if r.returncode:
            for f in o: os.unlink(f)
            e = r.stdout.find('error:'); return 'the scanner does not compile: ' + r.stdout[max(0, e):][:400].split('\n')[0]
        o.append(s + '.o')
    r = subprocess.run('g++ -shared -Wl,-Bsymbolic -Wl,-z,defs %s -L%s -lmcreflex -Wl,-rpath,%s %s -o %s.so' % (' '.join(o), out, out, ' '.join(MAT[m] for m in c if m in MAT), b), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    for f in o + src[:1]: os.unlink(f)
    if r.returncode:
        e = r.stdout.find('undefined'); return 'the scanner does not link: ' + r.stdout[max(0, e):][:300].split('\n')[0]
    return ''
# the library as a shared object, for the modules only to be linked against
ex = [repo + '/lib/' + f for f in sorted(os.listdir(repo + '/lib')) if f.endswith('.cpp')] + [repo + '/unicode/' + f for f in ('block_scripts.cpp', 'language_scripts.cpp', 'letter_scripts.cpp') if os.path.exists(repo + '/unicode/' + f)]
with ThreadPoolExecutor(8) as p:
    def obj(s): return subprocess.run('g++ %s -O1 -fPIC -I%s/include -c %s -o %s/lib_%s.o' % (flags.replace('-O1', ''), repo, s, out, os.path.basename(s)[:-4]), shell=True).returncode
    if any(p.map(obj, ex)): sys.exit(2)
    open(out + '/wrap.cpp', 'w').write('extern "C" int yywrap() { return 1; }\nextern "C" int zzwrap() { return 1; }\n')
    open(out + '/wrap2.cpp', 'w').write('int yywrap();\nint yywrap() { return 1; }\nint zzwrap() { return 1; }\nint yywrap(void*) { return 1; }\n')
    if obj(out + '/wrap.cpp') or obj(out + '/wrap2.cpp') or subprocess.call('g++ -shared %s/lib_*.o -o %s/libmcreflex.so && rm -f %s/lib_*.o' % (out, out, out), shell=True): sys.exit(2)
    res = list(p.map(build, range(len(combos))))
with open(out + '/combos.h', 'w') as f:
    f.write('struct Combo { const char *name, *sem, *error; int base; };\nstatic const Combo COMBOS[] = {\n')
    for i, c in enumerate(combos):
        s = tuple(x for x in SEM if x in c or (x == 'flex' and set(c) & {'yy', 'yyclass', 'array'}))
        f.write('  { "%s", "%s", "%s", %d },\n' % (' '.join(O[o] for o in c).replace('@', 'f').replace('"', '\\"'), ' '.join(s), res[i].replace('\\', '\\\\').replace('"', '\\"').replace('\n', ' ').replace('\x1b', ''), combos.index(s)))
    f.write('};\n')
