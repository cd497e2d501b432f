# Writes lexer specifications, runs reflex on them in the forms asked for, compiles the scanners and writes the tables (specs.h) from which the harness makes the reference scanner.
import os, re, subprocess, json
FORMS = {
  'regex': '', 'full': '--full', 'fast': '--fast',
  'find': '--find', 'fullfind': '--full --find', 'fastfind': '--fast --find',
}
class Rule:
    def __init__(self, regex, written=None, starts=None, sw=-1, ret=True, bar=False):
        self.regex, self.written, self.starts, self.sw, self.ret, self.bar = regex, written or regex, starts, sw, ret, bar
class Scope:
    def __init__(self, starts, items):
        self.starts, self.items = starts, items
class Init: pass
class Spec:
    def __init__(self, name, states, items, alphabet='ab\n', length=5, defs=(), opts='', flags='', forms=('regex',), mods='m', tabs=8):
        self.tabs = tabs; opts += ' --tabs=%d' % tabs if tabs != 8 else ''
        self.name, self.states, self.items, self.alphabet, self.length, self.defs, self.opts, self.forms, self.mods = name, states, items, alphabet, length, defs, opts, forms, mods
        self.conds = ['INITIAL'] + [n for n, _ in states]
        self.incl = [0] + [i + 1 for i, (_, k) in enumerate(states) if k == 's']
        self.ids, self.out = 0, []
        self.rules = [[] for _ in self.conds]; self.eof = [0] * len(self.conds); self.inits = [[] for _ in self.conds]
        for n, k in states: self.out.append('%' + k + ' ' + n)
        for n, w in defs: self.out.append('%s %s' % (n, w))
        self.out.append('%%')
        self.emit(items, None)
        self.out.append('%%')
    def resolve(self, starts, scope):
        s = list(scope or [])
        for n in starts.split(','):
            if n == '*': s = list(range(len(self.conds)))
            elif n == '^*': s = []
            elif n[0] == '^': s = [k for k in s if k != self.conds.index(n[1:])] # one that is not there is a warning
            elif self.conds.index(n) not in s: s.append(self.conds.index(n))
        return s
    def switch(self, sw):
        return '' if sw < 0 else 'pop_state(); ' if sw == 200 else 'push_state(%s); ' % self.conds[sw - 100] if sw >= 100 else 'start(%s); ' % self.conds[sw]
    def emit(self, items, scope):
        pend = []
        for it in items:
            if isinstance(it, Scope):
                s = self.resolve(it.starts, scope)
                self.out.append('<%s>{' % it.starts); self.emit(it.items, s); self.out.append('}')
                continue
            self.ids += 1
            if isinstance(it, Init):
                for c in (self.incl if scope is None else scope): self.inits[c].append(self.ids)
                self.out += ['%{', '  rec(%d);' % self.ids, '%}']
                continue
            cs = self.resolve(it.starts, scope) if it.starts is not None else scope if scope is not None else list(range(len(self.conds))) if it.regex == '<<EOF>>' else self.incl
            pre = '<%s>' % it.starts if it.starts is not None else ''
            if it.bar:
                pend.append((it, cs)); self.out.append('%s%s |' % (pre, it.written)); continue
            for r, rc in pend + [(it, cs)]:
                for c in rc:
                    if r.regex == '<<EOF>>':
                        if not self.eof[c]: self.eof[c] = self.ids
                    else: self.rules[c].append((self.ids, r.regex, it.sw, it.ret if it.regex != '<<EOF>>' else True, r.written))
            pend = []
            if it.regex == '<<EOF>>': self.out.append('%s<<EOF>>  { rec(%d); return %d; }' % (pre, self.ids, self.ids))
            else: self.out.append('%s%s  { rec(%d); %s%s}' % (pre, it.written, self.ids, self.switch(it.sw), 'return %d; ' % self.ids if it.ret else ''))
    def text(self):
        return '\n'.join(self.out) + '\n'

HEAD = '%%top{\n#include "scan.hpp"\n%%}\n%%class{\n public:\n  std::vector<scan::Ev> *log;\n  void rec(int k) { log->push_back(scan::Ev{k, std::string(matcher().begin(), matcher().size()), matcher().lineno(), matcher().columno()}); }\n%%}\n%s'

def cstr(s):
    return '"' + ''.join(c if 32 <= ord(c) < 127 and c not in '"\\?' else '\\%03o' % ord(c) for c in s) + '"'

CURRENT = None
def build(prop, tool, out, repo, flags, specs, per_tu=8, extra=''):
    names = set()
    jobs, regs = [], []
    for s in specs:
        assert s.name not in names; names.add(s.name)
        for f in s.forms:
            d = '%s_%s' % (s.name, f)
            o = FORMS[f] + ' ' + s.opts + ' --namespace=%s --noline' % d
            open('%s/%s.l' % (out, d), 'w').write(HEAD % s.text())
            jobs.append(('cd %s && timeout 60 %s %s -o %s.cpp %s.l' % (out, tool, o, d, d), s, f, d))
    run = []
    def wait(k):
        while len(run) > k:
            p, c = run.pop(0)
            o, _ = p.communicate()
            if p.returncode != 0: violation(prop, 'FAILED: %s\n%s' % (c, o.decode(errors='replace')[:3000]))
    for c, s, f, d in jobs:
        wait(15); run.append((subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), c))
    wait(0)
    tus = [jobs[i:i + per_tu] for i in range(0, len(jobs), per_tu)]
    for i, tu in enumerate(tus):
        with open('%s/tu%d.cpp' % (out, i), 'w') as fo:
            for c, s, f, d in tu:
                fo.write('#include "%s.cpp"\nstatic scan::Reg reg_%s("%s", "%s", [](const scan::Pieces& p) -> scan::S* { return new scan::Impl<%s::Lexer>(p); });\n' % (d, d, s.name, f, d))
        c = 'g++ %s -O0 %s -I%s -c %s/tu%d.cpp -o %s/tu%d.o' % (flags, extra, out, out, i, out, i)
        wait(7); run.append((subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), c))
    wait(0)
    with open(out + '/specs.h', 'w') as h:
        h.write('static const std::vector<scan::Spec> SPECS = {\n')
        for s in specs:
            cs = ', '.join('{ {%s}, %d, {%s} }' % (', '.join('{%d, %s, %d, %s, %s}' % (i, cstr(r), sw, 'true' if ret else 'false', cstr(w)) for i, r, sw, ret, w in rs), e, ', '.join(map(str, ini))) for rs, e, ini in zip(s.rules, s.eof, s.inits))
            h.write('{ "%s", {%s}, %s, %d, {%s}, %d, "%s", %s, {%s} },\n' % (s.name, ', '.join('"%s"' % c for c in s.conds), cstr(s.alphabet), s.length, cs, s.tabs, s.mods, cstr(s.text()), ', '.join('"%s"' % f for f in s.forms)))
        h.write('};\n')

def violation(prop, text):
    # reflex rejects a valid specification, or what it generates does not compile
    v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    os.makedirs(v + '/replays', exist_ok=True)
    open('%s/replays/%s-gen.txt' % (v, prop), 'w').write(text)
    print(text[:1500]); print('VIOLATION property=%s replay=replays/%s-gen.txt' % (prop, prop))
    raise SystemExit(1)

def tables(prop, tool, out, regexes, chunks=8, opts=''):
    # regexes: list of lists of rules; each is a start condition of a specification of which only the tables and the direct code are used
    run = []
    def wait(k):
        while len(run) > k:
            p, c = run.pop(0); o, _ = p.communicate()
            if p.returncode != 0: violation(prop, 'FAILED: %s\n%s' % (c, o.decode(errors='replace')[:3000]))
    n = (len(regexes) + chunks - 1) // chunks
    parts = [(i, regexes[i * n:(i + 1) * n]) for i in range(chunks) if regexes[i * n:(i + 1) * n]]
    for i, part in parts:
        with open('%s/t%d.l' % (out, i), 'w') as f:
            f.write('%x ' + ' '.join('X%d' % j for j in range(len(part))) + '\n%%\n')
            for j, rules in enumerate(part):
                for r in rules: f.write('<X%d>%s  return 1;\n' % (j, r))
            f.write('%%\n')
        for form, o in (('full', '--full'), ('fast', '--fast')):
            c = 'cd %s && timeout 120 %s %s %s --find --tables-file=t%d%s.cpp --regexp-file=t%d.txt --namespace=T%d%s -o t%d%s.yy t%d.l' % (out, tool, o, opts, i, form, i, i, form, i, form, i)
            wait(7); run.append((subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), c))
    wait(0)
    return parts
