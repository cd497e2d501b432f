# Scanners for P23: one specification, with the operations written as RE/flex actions and as Flex actions
import sys, os; sys.dont_write_bytecode = True
tool, out, repo, flags, tier = sys.argv[1:6]
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc'))
from scangen import violation
import subprocess
OPS = {
 'cpp': '''
  void push(const reflex::Input& i) { push_matcher(new_matcher(i)); }
  bool pop() { return pop_matcher(); }
  void *create(const reflex::Input& i) { return new_matcher(i); }
  void *cur() { return has_matcher() ? ptr_matcher() : NULL; }
  void use(void *m) { matcher(static_cast<Matcher*>(m)); }
  void del(void *m) { del_matcher(static_cast<Matcher*>(m)); }
  template<typename I> void again(const I& i) { in(i); }
  void fresh(const char *s) { del_matcher(ptr_matcher()); in(s); }
  void inplace(char *b, size_t n) { buffer(b, n + 1); }
  void go(int c) { start(c); }
  void push_cond(int c) { push_state(c); }
  void pop_cond() { pop_state(); }
  int cond() { return start(); }
  int top_cond() { return top_state(); }
  int get() { int c = matcher().input(); return c == EOF ? 0 : c; }
  void back(char c) { matcher().unput(c); }
  int run() { return lex(); }
''',
 'flex': '''
  void push(const reflex::Input& i) { yypush_buffer_state(yy_create_buffer(i, YY_BUF_SIZE)); }
  bool pop() { yypop_buffer_state(); return YY_CURRENT_BUFFER != NULL; }
  void *create(const reflex::Input& i) { return yy_create_buffer(i, YY_BUF_SIZE); }
  void *cur() { return YY_CURRENT_BUFFER; }
  void use(void *m) { yy_switch_to_buffer(static_cast<YY_BUFFER_STATE>(m)); }
  void del(void *m) { yy_delete_buffer(static_cast<YY_BUFFER_STATE>(m)); }
  template<typename I> void again(const I& i) { yyrestart(i); }
  void fresh(const char *s) { yy_delete_buffer(YY_CURRENT_BUFFER); yy_scan_string(s); }
  void inplace(char *b, size_t n) { yy_scan_buffer(b, n + 2); }
  void go(int c) { BEGIN(c); }
  void push_cond(int c) { yy_push_state(c); }
  void pop_cond() { yy_pop_state(); }
  int cond() { return YY_START; }
  int top_cond() { return yy_top_state(); }
  int get() { return yyinput(); }
  void back(char c) { yyunput(c); }
  int run() { return yylex(); }
''' }
# Flex actions of reentrant scanners take the scanner
r = OPS['flex']
for f in ('yypush_buffer_state', 'yypop_buffer_state', 'yy_create_buffer', 'yy_switch_to_buffer', 'yy_delete_buffer', 'yyrestart', 'yy_scan_string', 'yy_scan_buffer', 'yy_push_state', 'yy_pop_state', 'yy_top_state', 'yyinput', 'yyunput'):
    i = 0
    while True:
        i = r.find(f + '(', i)
        if i < 0: break
        j = i + len(f) + 1; d = 1; k = j
        while d: d += (r[k] == '(') - (r[k] == ')'); k += 1
        r = r[:k-1] + ('' if k - 1 == j else ', ') + 'yyscanner' + r[k-1:]; i = j
OPS['reent'] = r.replace('YY_CURRENT_BUFFER', 'yyget_current_buffer(yyscanner)')
HEAD = '''%%top{
#include "p23.hpp"
%%}
%%class{
 public:
  nest::Watch *w = NULL;
  size_t size_of_matcher() { return sizeof(Matcher); }
  bool rec(int k) { return w->event(k, std::string(matcher().begin(), matcher().size()), matcher().lineno(), matcher().columno(), start()); }
  %s
%s
%%}
%%x OTHER
%%%%
%s
[a-z]+        { rec(3); return 3; }
"+"           { if (!rec(4)) return 4; }
\\n            { rec(5); return 5; }
[ \\t]+        { rec(6); return 6; }
.             { rec(7); return 7; }
<OTHER>[a-z]      { rec(8); return 8; }
<OTHER>\\n         { rec(9); return 9; }
<OTHER>"+"        { if (!rec(10)) return 10; }
<OTHER>.          { rec(11); return 11; }
<*><<EOF>>    { if (!rec(12)) return 12; }
%%%%
'''
MARGIN = '^[ \\t]*\\i     { rec(1); return 1; }\n^[ \\t]*\\j     { rec(2); return 2; }'
forms = [('cpp', 'cpp', '--tabs=2', MARGIN), ('fast', 'cpp', '--fast --tabs=4', MARGIN), ('full', 'cpp', '--full --find', MARGIN), ('flex', 'flex', '--flex', MARGIN), ('flexfast', 'reent', '--flex --reentrant --fast --tabs=1', MARGIN),
         ('pcre2', 'cpp', '--matcher=pcre2-perl', '^[ \\t]+  { rec(1); return 1; }'), ('boost', 'flex', '--flex --matcher=boost-perl', '^[ \\t]+  { rec(1); return 1; }')]
run = []
for name, kind, o, margin in forms:
    wrap = 'virtual int %s() { const char *p = w->wrap(); if (p == NULL) return 1; in() = p; return 0; }' % ('yywrap' if kind != 'cpp' else 'wrap')
    open('%s/%s.l' % (out, name), 'w').write(HEAD % (wrap, OPS[kind], margin))
    lexer = 'yyFlexLexer' if kind != 'cpp' else 'Lexer'
    open('%s/%s_tu.cpp' % (out, name), 'w').write('#include "%s.cpp"\nnamespace nest { static Reg reg_%s("%s", [](const reflex::Input& i, Watch *w) -> Sys* { return new Impl<%s::%s>(i, w); }); }\n' % (name, name, name, '' if kind == 'reent' else 'n_' + name, lexer))
    run.append('cd %s && timeout 60 %s %s %s --noline -o %s.cpp %s.l && g++ %s -O0 -I%s/checks -I%s -c %s_tu.cpp -o %s.o' % (out, tool, o, '' if kind == 'reent' else '--namespace=n_' + name, name, name, flags, os.path.dirname(os.path.dirname(os.path.abspath(__file__))), out, name, name))
ps = [(c, subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in run]
for c, p in ps:
    o, _ = p.communicate()
    if p.returncode != 0: violation('P23', 'FAILED: %s\n%s' % (c, o.decode(errors='replace')[:3000]))
