import sys; sys.dont_write_bytecode = True
tool, out, repo, flags, tier = sys.argv[1:6]
import os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc'))
from scangen import *
thorough = tier == 'thorough'
ALL = ['regex', 'full', 'fast', 'find', 'fullfind', 'fastfind']
CONF = [ [('A', 's'), ('B', 'x')], [('A', 'x'), ('B', 'x')], [('A', 's'), ('B', 's')] ]
OPT = [None, 'INITIAL', 'A', 'B', 'A,B', 'INITIAL,A', 'INITIAL,B', '*', '*,^A', '*,^B', '*,^INITIAL', 'INITIAL,A,B']
RX = ['a', 'ab', 'a+', 'b', 'aa', '[ab]b', 'b+a?', 'ba', '\\n', 'a*b', 'abb|a', '.']
specs = []
def forms(i):
    return ALL if thorough else [ALL[i % 6]]
k = 0
# every pair of condition lists, next to each other in rule order
for conf in CONF:
    for step in ([1, 5] if not thorough else [1, 2, 3, 5, 7, 11]):
        for i in range(12):
            items = [Rule(RX[(i * 3 + j * 5 + step) % 12], starts=OPT[(i + j * step) % 12], sw=[-1, -1, 0, 1, 2, 101, 102, 200][(i + j * 3) % 8], ret=(i + j) % 3 != 0) for j in range(5)]
            e = (i + step) % 4
            if e == 1: items.insert(i % 4, Rule('<<EOF>>'))
            elif e == 2: items.insert(2, Rule('<<EOF>>', starts=OPT[1 + (i + step) % 10])); items.append(Rule('<<EOF>>'))
            elif e == 3: items.append(Rule('<<EOF>>', starts=OPT[1 + i % 10]))
            specs.append(Spec('s%d' % len(specs), conf, items, forms=forms(k))); k += 1
# scopes, nested scopes, rules with a start condition in a scope, initial code blocks, shared actions
def R(i, **kw): return Rule(RX[i % 12], **kw)
SC = [
  [Init(), R(0), Scope('A', [Init(), R(1), Scope('B', [R(2), Rule('<<EOF>>')]), R(3)]), R(4)],
  [R(0), Scope('B', [R(1, ret=False), R(2, starts='A'), Scope('INITIAL', [Init(), R(5), R(6, sw=1)])]), Rule('<<EOF>>')],
  [Scope('A,B', [R(0), Scope('INITIAL,^B', [R(1), R(3)]), R(2)]), R(7, starts='*,^A'), Rule('<<EOF>>', starts='B')],
  [Scope('*', [Init(), R(5), Scope('^*', [R(0), Scope('A', [R(4), R(1, starts='B')])]), R(3, sw=2)]), Rule('<<EOF>>', starts='A'), R(9)],
  [R(0, bar=True), R(3, bar=True), R(4), R(1, starts='B', bar=True), R(6, starts='B', sw=0), Scope('A', [R(1, bar=True), R(2, sw=2)])],
  [R(0, bar=True), Rule('<<EOF>>'), R(3), R(4)],
  [Scope('B', [R(3, bar=True), Rule('<<EOF>>'), R(1), R(2)]), R(0, bar=True), R(1), Rule('<<EOF>>')],
  [Init(), Scope('B', [Init(), R(3), R(0, sw=1)]), Scope('A', [Init(), R(1), R(3, sw=102)]), Scope('A,B', [Init(), R(8, sw=200)]), R(2, sw=101), R(3, sw=2)],
  [R(0, starts='A'), R(0), R(0, starts='B'), R(0, starts='*'), R(3, starts='INITIAL'), R(3, starts='INITIAL,B', sw=0), R(3, sw=2)],
  [R(0, starts='INITIAL', sw=1), R(0, starts='A', sw=2, ret=False), R(0, starts='B', sw=0), R(3, starts='INITIAL', sw=102), R(3, starts='B', sw=101, ret=False), R(3, starts='A', sw=200)],
  # three and four deep, also with code blocks, EOF rules and scopes that end at the same place
  [Scope('A', [Scope('B', [Scope('INITIAL', [R(0), R(3, sw=1)]), R(1, sw=2)]), R(5)]), R(8, starts='A', sw=0), R(11)],
  [Scope('B', [R(3), Scope('A', [Init(), Scope('INITIAL,^B', [Init(), R(0, ret=False), Rule('<<EOF>>'), Scope('^A', [R(5, sw=1), R(1)])])])]), R(8, sw=2), R(11, starts='*')],
  [Scope('*', [Scope('^A', [Scope('^INITIAL', [Scope('A', [R(0), R(3, sw=101)]), R(2, sw=0)]), R(7)]), R(11, sw=2)]), R(8)],
]
# all nestings of three scopes
LISTS = ['A', 'B', 'INITIAL', '^A', '^B', '*', 'A,B'] if thorough else ['A', 'B', '^A', '*']
for n, (a, b, c) in enumerate([(a, b, c) for a in LISTS for b in LISTS for c in LISTS]):
    if not thorough and n % 2: continue
    SC3 = [Scope(a, [R(n), Scope(b, [Scope(c, [R(n + 1, sw=1), R(n + 5)]), R(n + 2, sw=2)]), R(n + 3, sw=0)]), R(n + 4), R(11)]
    specs.append(Spec('s%d' % len(specs), CONF[n // 2 % 3], SC3, forms=[ALL[n % 6]]))
for conf in CONF:
    for i, items in enumerate(SC):
        specs.append(Spec('s%d' % len(specs), conf, items, forms=forms(k) if thorough else [ALL[k % 6], ALL[(k + 1) % 6]])); k += 1
# one start condition only, and none, and a condition without rules
specs.append(Spec('s%d' % len(specs), [], [Init(), R(0), R(1), Rule('<<EOF>>')], forms=ALL))
specs.append(Spec('s%d' % len(specs), [('A', 'x')], [R(0, sw=1), R(3), R(8)], forms=ALL))
specs.append(Spec('s%d' % len(specs), [('A', 'x'), ('B', 'x')], [R(0, sw=1), R(3), Rule('<<EOF>>', starts='B'), R(2, starts='B')], forms=ALL))
build("P17", tool, out, repo, flags, specs)
