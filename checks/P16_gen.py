import sys; sys.dont_write_bytecode = True
tool, out, repo, flags, tier = sys.argv[1:6]
import os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc'))
import scangen
from scangen import *
thorough = tier == 'thorough'

# A. one start condition per list of rules: opcode tables and direct code, with prediction data, used with the matcher directly
def exprs(atoms, post, n):
    # all expressions of n operators and atoms
    memo = {}
    def gen(k):
        if k in memo: return memo[k]
        r = []
        if k == 1: r = [(a, 3) for a in atoms]
        else:
            for e, p in gen(k - 1):
                if p != 2: r += [(('(%s)' % e if p < 3 else e) + o, 2) for o in post]
            for i in range(1, k - 1):
                for a, pa in gen(i):
                    for b, pb in gen(k - 1 - i):
                        if pa != 1: r.append((('(%s)' % a if pa < 2 else a) + ('(%s)' % b if pb < 1 else b), 1))
                        if pa != 0: r.append((a + '|' + b, 0))
        memo[k] = r
        return r
    return [e for k in range(1, n + 1) for e, _ in gen(k)]
sets = [[e] for e in exprs(['a', 'b', '.'], ['*', '+', '?'], 4)]
tails = ["c", "[ac]", "(c|a)", "c?", "c*", "(ab|ca)", "(cab|acb)", "[ac][bc]", "[abc]{2}", "[abc]{3}", "(a|b)(a|c)(b|c)", "(abca|cbaa)", "[ac]{4}", "(c{4}|[ab]c)", "c+b", "(?=c)", "(?=[ac])", "$", "\\b", "\\>", "(c|\\z)", "(a|bc|abc)"]
heads = ["[ab]", "(a|c)", "c?", "a*", "(ab|ba)", "(ab|bca)", "[abc]{2}", "[ab]{3}", "[bc]{4}", "(aab|bba|cab)", "^", "\\b", "\\<", "\\B", "(abab|cccc|baba)", "[ab]{5}", "([ac]b){3}", "(a|bb|ccc)"]
for lit in ['a', 'ab', 'abc', 'aaba']:
    sets += [[lit + t] for t in tails] + [[h + lit] for h in heads]
sets += [[l] for l in ['a', 'ab', 'abc', 'abca', 'abcab', 'aaaa', 'abab', 'a|b', 'ab|c', 'ab|ca', 'abc|bca|cab', 'a|bc|cab', 'aa|bb|cc|ab', 'abc|acb|bac|bca|cab|cba', '[abc]', '[ab]+', '[^a]', '[^a\\n]+b', '.*', '.+', '.*a', '.*b.*', '(a|b)*abb', '(ab)+', 'a{2,3}', '(a|bc){2}', '\\w+', '\\s+', '\\n+', '[a-c]+\\n']]
pre = ["", "^", "\\A", "\\b", "\\B", "\\<", "\\>"]; post = ["", "$", "\\z", "\\b", "\\B", "\\<", "\\>", "/c", "/[bc]", "/b*c", "(?=ab|c)"]
for b in ["a", "ab", "a+", "[ab]+", "(a|ab)", "a*b", ".", "a?b?", "[a\\n]+", "\\n"]:
    for p in pre:
        for q in post:
            if (p or q) and (thorough or len(b) < 3 or (pre.index(p) + post.index(q)) % 3 == 0): sets.append([p + b + q])
sets += [['^a', 'b'], ['a$', 'a', 'b'], ['a/b', 'ab', 'b'], ['a+/b', 'a', 'b+'], ['a/b', 'a/c', 'a'], ['ab', 'a', 'abc', 'b'], ['a+', 'ab', 'b*a'], ['[ab]', 'ab', 'aba'], ['^ab', 'ab$', 'ab'], ['a\\b', 'a\\B', '.|\\n']]
for q in ['a*?', 'a+?', 'a??', '(ab)+?', '.*?', '[ab]+?', 'a{1,3}?', '(a|b)*?']:
    for t in ['b', 'c', 'ab', 'bb', '\\n', '$', '(b|c)']: sets.append(['a' + q + t]); sets.append([q + t, 'a', '.'])
sets += [['(?^ab)', 'a', 'b'], ['(?^a+b)', '[ab]'], ['a', '(?^aa)', 'ab'], ['(?^\\n)', 'a.']]
sets += [['^[ ]+', '^[ ]*\\i', '^[ ]*\\j', '[ab\\n]'], ['^[ ]*\\i', '^[ ]*\\j', '^[ ]*\\k', '[ab]+', '\\n'], ['^[ ]*\\i', '\\j', '[ab]', '\\n|[ ]'], ['^[ ]+\\i', '^[ ]*\\j', '\\j', '(?^^[ ]*\\n)', '[ ]*b\\k?', '[a\\n ]'], ['^[ ]+\\i', '^[ ]*\\j', '\\j', '^[ ]*b\\k', '[ ]*b', '[a\\n ]'], ['^[ ]*\\j', '\\j', '^[ ]+\\k', '[ab\\n ]'], ['^[ ]+\\i', '^[ ]*\\j', '\\j', '^[ ]+', '[ab\\n]'], ['^[ ]+\\i', '^[ ]*\\j', '\\j', '^[ ]+a', '[ab\\n]'], ['^[ ]+\\ia', '^[ ]*\\j[ab]', '[ab\\n ]'], ['^[ ]*\\k', '[ab \\n]']]
sets += [['(?i:ab)', 'a', 'B'], ['(?i:a)b', '[aB]'], ['\\x61b|\\x{62}', '\\141'], ['[\\x00-\\x7f]'], ['\\xff', '[\\x80-\\xff]a'], ['(a|\\xe9)+', 'b'], ['"a.b"', 'a.b'], ['\\Qa.b\\E', '.'], ['a(?#comment)b'], ['[[:alpha:]]+', '[[:space:]]'], ['[ab--[b]]+', '[ab&&[bc]]'], ['[a||[b]]c?']]
seen = []; 
for s in sets:
    if s not in seen: seen.append(s)
parts = tables('P16', tool, out, seen)
run = []
for i, part in parts:
    lits = [l for l in open('%s/t%d.txt' % (out, i)).read().split('\n') if l.startswith('"')]
    if len(lits) != len(part) + 1: violation('P16', 'regexp file has %d patterns of %d start conditions' % (len(lits), len(part) + 1))
    with open('%s/tab%d.cpp' % (out, i), 'w') as f:
        f.write('#include "tab.hpp"\n#include "t%dfull.cpp"\n#include "t%dfast.cpp"\n' % (i, i))
        for j in range(len(part)):
            f.write('static tab::Reg reg%d("%d.%d", %s, T%dfull::reflex_code_X%d, T%dfull::reflex_pred_X%d, T%dfast::reflex_code_X%d, T%dfast::reflex_pred_X%d);\n' % (j, i, j, lits[j + 1], i, j, i, j, i, j, i, j))
    c = 'g++ %s -O0 -c %s/tab%d.cpp -o %s/tab%d.o' % (flags, out, i, out, i)
    run.append((subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), c))
for p, c in run:
    o, _ = p.communicate()
    if p.returncode: violation('P16', 'FAILED: %s\n%s' % (c, o.decode(errors='replace')[:3000]))

# B. complete scanners
ALL = ['regex', 'full', 'fast', 'find', 'fullfind', 'fastfind']
specs = []
def add(rules, **kw):
    opts = kw.pop('opts', ''); a = kw.pop('alphabet', 'ab\n'); l = kw.pop('length', 5)
    items = [Rule(*r) if isinstance(r, tuple) else Rule(r) for r in rules]
    for i, it in enumerate(items):
        if i % 3 == 2: it.ret = False
    specs.append(Spec('s%d' % len(specs), [], items + ([Rule('<<EOF>>')] if len(specs) % 2 else []), forms=ALL, opts=opts, alphabet=a, length=l, **kw))
add(['ab', 'a+', 'b'])
add(['a', 'ab', 'abb', 'b+a'])
add(['.', 'ab|ba', '\\n+'])
add(['^a', 'ba$', 'a', 'b', '\\n'])
add([('a(?=b)', 'a/b'), 'a', ('b(?=\\n)', 'b/\\n'), 'b+a'])
add([('(ab|b)a', '{X}a'), ('(ab|b)(ab|b)', '{X}{2}'), ('(a(ab|b))+', '{Y}+'), 'a'], defs=[('X', 'ab|b'), ('Y', 'a{X}')])
add([('a\\.b', '"a.b"'), ('a\\+', '"a+"'), ('\\[a', '"[a"'), 'a', ('b\\"', '"b\\""')], alphabet='ab.+[")', length=4)
add([('[aA][bB]', 'ab'), ('[aA]+', 'a+')], opts='--case-insensitive', alphabet='abAB', length=5)
add([('[aA]b', '(?i:a)b'), ('A+', 'A+'), ('a[bB]*', 'a(?i:b*)')], alphabet='abAB', length=5)
add([('a(.|\\n)b', 'a.b'), '\\n'], opts='--dotall')
add([('ab+', 'a b +'), ('b[ ]a', 'b [ ] a'), ('[ ]a', '[ ]a')], opts='--freespace', alphabet='ab ', length=5)
add([('[ab]+', '[a-b]+'), ('c', '[a-c--[ab]]'), ('[^abc\\n]', '[^a-c\\n]')], alphabet='abcd\n', length=4)
add([('[abc]', '{L}'), ('[ab]c', '{M}c'), 'ab+c'], defs=[('L', '[a-c]'), ('M', '[ab]')], alphabet='abc', length=5)
add([('[abd]+', '[ab||[d]]+'), ('c', '{C}{-}{L}')], defs=[('L', '[ab]'), ('C', '[a-c]')], alphabet='abcd', length=5)
add([('a\\*', '\\Qa*\\E'), 'a', ('\\t', '\\t'), ('\\x62+', '\\x62+')], alphabet='ab*\t', length=5)
add(['a.*b', '.+'])
add(['a+b?$', '^b', '[ab]', '\\n\\n'])
add(['\\<a', 'ba\\>', 'a', '[ ]+b', 'b'], alphabet='ab ', length=6)
add([('ab|ba', 'ab|ba'), ('(a|b){3}', '(a|b){3}'), 'b'], length=6)
add(['abab', 'bab', 'aab'], length=6)
add(['aaab', 'b{2,3}a', 'ab{0,1}a'], length=6)
add(['[^a]', 'aa'])
add([('(ab|d)+', '{W}+'), ('[abd]', '{L}{+}{D}'), ('c', '{C}{-}{L}')], defs=[('W', 'ab|d'), ('L', '[ab]'), ('C', '[a-c]'), ('D', '[d]')], alphabet='abcd', length=5)
add(['a', '\\t+', '[ab]+\\t', '\\n'], tabs=4, alphabet='ab\t\n', length=5)
build('P16', tool, out, repo, flags, specs)
