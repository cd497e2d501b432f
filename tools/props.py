#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json from the tables below (a property is claimed when checks/<ID>.cpp exists)
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, PH, PC, AM, AL, FL = 'include/reflex/matcher.h', 'include/reflex/pattern.h', 'lib/pattern.cpp', 'include/reflex/absmatcher.h', 'include/reflex/abslexer.h', 'include/reflex/flexlexer.h'
IH, IC, CC, UC = 'include/reflex/input.h', 'lib/input.cpp', 'lib/convert.cpp', 'lib/utf8.cpp'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=False, level='model_checking', tech='', note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, state=state, hook=hook, level=level, tech=tech, note=note))

prop('P01', 'Leftmost-longest matching with the lowest alternative winning ties',
 'For every valid regex without lazy quantifiers and anchors and every input, scanning returns the longest nonempty match at the current position, searching returns the leftmost and then longest nonempty match, and a whole-input match succeeds exactly when the regex matches all of the input. Among the top level alternatives that match this longest text, the one that comes first in the regex is the reported one. Searching with the option that accepts empty matches additionally reports the empty matches of the regex at positions before the end of input.',
 ['inputs', 'programs'], 'All regexes of the grammar and all input texts.',
 'Tests run a few dozen fixed regexes on fixed texts; the guarantee quantifies over every regex/input pair, and errors in DFA construction or in the matching loop show only for particular combinations.',
 [PC, M], [('DFA construction from followpos', 'lib/pattern.cpp Pattern::parse, compile, compile_transition'), ('matching engine', 'include/reflex/matcher.h Matcher::match')],
 ['accept(), first(), last(), size() after scan(), find(), matches()'],
 tech='exhaustive enumeration of regex syntax trees x texts on the real matcher, every reported match compared with a span-relation reference model',
 note='all regexes up to 7 syntax tree nodes over a small alphabet x all texts up to length 7 (quick)')
prop('P02', 'Search acceleration never skips or invents a match',
 'Searching an input for a regex reports exactly the matches that the regex has by definition, no matter which prediction or string search shortcut the pattern shape selects and no matter which SIMD instruction set the library was built for or the CPU offers. This holds for matches at every offset of the input, including near misses just before a match and matches that end at the end of the input.',
 ['inputs', 'programs', 'configurations'], 'All patterns of every prefix/minimum-length shape, all texts, every build and CPU feature combination.',
 'Shortcuts are selected by pattern shape and depend on vector block alignment, near misses and distance to the end of input; tests exercise a handful of such combinations on one build.',
 [M, 'lib/matcher.cpp', PC], [('match predictors', 'lib/pattern.cpp Pattern::predict_match_dfa, gen_predict_match'), ('skip loops', 'lib/matcher.cpp Matcher::advance, boyer_moore_init')],
 ['positions and alternatives of all matches reported by find()'],
 tech='exhaustive enumeration of pattern shapes x all short texts and all offsets in long texts, for 8 SIMD build/dispatch configurations in one program, against a span-relation reference model')
prop('P03', 'Splitting tiles the input',
 'Splitting an input returns the pieces of text between the separators that the regex matches, in order and without loss, such that the pieces and the separators put together again are the input. The text after the last separator is returned as the last piece with its distinctive empty-match code, and then splitting ends.',
 ['inputs', 'programs'], 'All separator regexes, also ones that match the empty string, and all inputs.',
 'The rules for separators at the begin and end of input, adjacent separators and empty separator matches interact with the position in the input; tests sample a few.',
 [M, AM], [('split branch of the engine', 'include/reflex/matcher.h Matcher::match')], ['text, size, accept() and positions after split()'],
 tech='exhaustive enumeration of separator regexes x texts, compared with a reference splitter over the span-relation model')
prop('P04', 'Results do not depend on how the input is delivered',
 'The sequence of matches, with their texts, offsets, line and column numbers, is a function of the input text only. It is the same for input from memory, from files and from streams, for every split of the input into pieces that a source may return, for every buffering block size, and when the input continues after the wrap handler supplies more.',
 ['inputs', 'schedules', 'configurations'], 'All ways an input source may break up the text into reads, all block sizes and buffer shifts, for all texts and patterns.',
 'Reads that end in the middle of a match, a lookahead, a CRLF or a search window, and buffer shifts at these moments, happen only for specific sizes and timings that tests do not control.',
 [AM, M, 'lib/matcher.cpp', IH, IC], [('buffer refill and shift', 'include/reflex/absmatcher.h AbstractMatcher::get, peek, peek_more, grow'), ('skip loop refill', 'lib/matcher.cpp Matcher::advance')],
 ['all matches reported with positions, line and column numbers'], hook=True,
 tech='exhaustive enumeration of the environment answers (every composition of the text into reads, block sizes, tiny buffers that force shifts) on the real matcher, compared with delivery in one piece')
prop('P05', 'Line, column and offset accounting is exact',
 'At every match the reported offset, the line number and the column number of its begin and end, the number of lines and of columns it spans equal the values counted from the start of the input, where tabs advance to the next tab stop and a UTF-8 sequence counts as one column. This holds after any sequence of matching, input, unput, more, less and skip operations and regardless of when and how often the numbers were asked for, and setting a line number shifts later numbers accordingly.',
 ['inputs', 'histories'], 'All texts with newlines, tabs and multibyte characters, all tokenizations, all query patterns.',
 'Counting is incremental and cached between queries; only particular interleavings of queries, buffer shifts and matches expose a stale cache.',
 [AM], [('incremental counting', 'include/reflex/absmatcher.h AbstractMatcher::lineno, columno, columns, lineno_end, grow')],
 ['first(), last(), lineno(), columno(), lines(), columns(), lineno_end(), columno_end(), bol(), eol(), border()'], hook=True,
 tech='exhaustive enumeration of texts x tokenizations x query schedules on the default and the span build with tiny buffers, compared with counting from the start')
prop('P06', 'Operations on a matcher follow the input as one character sequence',
 'Any sequence of scanning, searching, reading and putting back single and wide characters, peeking, skipping, truncating a match, appending to the next match, taking the rest, flushing and querying the text behaves as on one sequence of characters with a cursor: nothing is lost, duplicated or reordered, the text of the current match stays as matched, and the text queries do not disturb later matching.',
 ['histories'], 'All sequences of public operations up to a depth on all small inputs and buffer sizes.',
 'The operations share cursor, match boundary, saved terminator and buffer state; errors need particular sequences of two to four operations that tests do not enumerate.',
 [AM, M], [('cursor and text operations', 'include/reflex/absmatcher.h AbstractMatcher::input, winput, unput, wunput, peek, skip, more, less, rest, text, flush')],
 ['return values of the operations, text(), size(), accept(), at_end()'], state=['cursor', 'current match', 'saved character at end of text', 'buffer bounds'], hook=True,
 tech='breadth-first exploration of all operation histories up to a depth on the real matcher in lockstep with a string-and-cursor model')
prop('P07', 'Anchors, boundaries and lookahead hold exactly where defined',
 'Begin and end of input, begin and end of line, word boundary, word begin and end and non-boundary anchors restrict a match exactly to positions where they hold in the input. A trailing lookahead restricts a match to positions followed by the lookahead text, which is not part of the match and is matched again by the next match. Among alternatives that match the same text, one that is restricted by an anchor may be reported instead of an earlier one.',
 ['inputs', 'programs'], 'All regexes with an anchor or a lookahead at their begin or end and all texts.',
 'Anchors become meta transitions with their own backtracking logic in the engine; their combination with alternation, position in the input and previous match is not covered by fixed tests.',
 [PC, M], [('meta transitions', 'include/reflex/matcher.h Matcher::match'), ('lookahead heads and tails', 'lib/pattern.cpp Pattern::parse4, compile')], ['matches reported by find(), scan(), matches()'],
 tech='exhaustive enumeration of anchored regexes x texts with word, space and newline characters, against the span-relation reference model')
prop('P08', 'Indent, dedent and undent matching follows a stack of indent stops',
 'Matching the indent, dedent and aligned anchors at margins behaves as a stack of column stops: an indent matches exactly when the margin column exceeds the last stop and pushes it, one dedent matches for each stop that exceeds the new margin and removes it, and pending dedents are all delivered, also at the end of an input that ends with a newline, so that there every indent is matched by a dedent. A margin that lies between two stops moves the lower stop. Tabs count up to the next tab stop.',
 ['inputs', 'histories'], 'All layouts of indented lines, with spaces, tabs, empty lines and missing final newline, and all interleavings with stop manipulation.',
 'Stops persist between matches and dedents are delivered one at a time over several calls; nested layouts need exhaustive exploration.',
 [M, PC], [('indent and dedent columns', 'include/reflex/matcher.h Matcher::newline, indent, dedent, nodent, match'), ('stop stack', 'Matcher::insert_stop, delete_stop, push_stops, pop_stops')],
 ['sequence of indent and dedent tokens, last_stop(), stops()'], state=['stop stack', 'pending dedents'],
 tech='exhaustive enumeration of indented layouts run through a tokenizer on the real matcher in lockstep with a stop-stack model')
prop('P09', 'Lazy quantifiers shorten matches and stay within the language',
 'Every match of a regex with lazy quantifiers is a match of the same regex with greedy quantifiers, and unless the regex matches the empty text it matches at the same positions. When all quantifiers are lazy and there is no alternation, the match is the shortest possible nonempty one, so that a lazy repetition of a single-character pattern before a delimiter text ends at the first delimiter.',
 ['inputs', 'programs'], 'All regexes with lazy quantifiers and all texts.',
 'Lazy positions are propagated through DFA construction in several passes; wrong trimming shows only for particular combinations of operators.',
 [PC], [('lazy positions', 'lib/pattern.cpp Pattern::lazy, greedy, trim_lazy, parse3')], ['matches reported by find() and scan()'],
 tech='exhaustive enumeration of lazy regexes x texts, compared with the greedy reference and with the first-delimiter model')
prop('P10', 'Input decoding is exact for every encoding and read size',
 'Reading a file in any supported encoding delivers the UTF-8 form of exactly the characters the file holds, for every read size and every position where a read ends inside a character. Byte order marks select the encoding (over the one that is given) and are not part of the input. An unpaired UTF-16 surrogate (a high surrogate together with the unit after it), a code point above U+10FFFF and the like give the replacement for invalid characters, incomplete units at the end of the file are dropped. size() of a regular file or string equals the number of bytes still to be delivered, before and in the middle of reading, and eof() is not true (good() not false) as long as bytes remain. Wide strings, strings, streams, buffered input and the stream buffers made from an input, with CRLF to LF when asked, deliver exactly their text as well.',
 ['inputs', 'configurations'], 'All file contents up to a length over boundary values for every encoding, all read sizes.',
 'Tests read one sample file per encoding with the default buffer; characters that straddle a read boundary and truncated sequences depend on sizes.',
 [IH, IC], [('decoding', 'lib/input.cpp Input::file_get'), ('size', 'lib/input.cpp Input::file_size'), ('byte order mark', 'lib/input.cpp Input::file_init, file_encoding')], ['bytes delivered by get(), size(), good(), eof()'],
 tech='exhaustive enumeration of encoded files over boundary code units x encodings x read sizes on the real input class, compared with a reference transcoder')
prop('P11', 'Unicode ranges compile to exactly the UTF-8 of their code points',
 'The regex made for a range of code points matches the UTF-8 encoding of every code point in the range and nothing else. In strict mode no invalid UTF-8 is matched, and in permissive mode invalid sequences are only added, never a valid character outside of the range.',
 ['inputs', 'programs'], 'All ranges of code points with bounds at and around UTF-8 length and byte boundaries, all code points.',
 'A wrong continuation byte bound affects few code points of few ranges, which tests do not hit.',
 [UC, 'include/reflex/utf8.h'], [('range to regex', 'lib/utf8.cpp utf8(int,int,int,bool)')], ['regex text returned and its matches'],
 tech='exhaustive enumeration of all ranges over boundary code points, language of the resulting regex computed as byte sequence set and compared with the encoder model over all code points and all short byte sequences')
prop('P12', 'Unicode classes and characters in converted regexes mean what they say',
 'Converting a regex to Unicode matches each valid UTF-8 character as one character: wildcard, negated and listed classes, named Unicode classes and their complements, and escapes accept exactly the code points they denote. A class and its complement partition the code points, inside and outside brackets.',
 ['inputs', 'programs'], 'All code points against all class constructs and their combinations.',
 'Tests check a few characters of a few classes; gaps sit at range ends, planes and surrogates.',
 [CC, 'lib/unicode.cpp', 'unicode/block_scripts.cpp'], [('class conversion', 'lib/convert.cpp convert, insert_escape_class, insert_posix_class, convert_ranges')], ['matches(), find() of converted regexes on encoded code points'],
 tech='exhaustive enumeration of class constructs x all 1.1 million code points on the real matcher, compared with set algebra over code points')
prop('P13', 'Bracket lists denote their set of characters',
 'A bracket list matches exactly the characters given by its members, ranges, escapes, POSIX and shorthand classes, negation, intersection, union and subtraction, with and without case-insensitive mode, alike in the pattern engine and through the regex converter for every target engine.',
 ['inputs', 'programs', 'configurations'], 'All bracket lists up to a length over a token alphabet, all byte values.',
 'Special meaning of ], ^, - and escapes depends on their place in the list; tests list a few.',
 [PC, CC], [('pattern brackets', 'lib/pattern.cpp Pattern::compile_list, posix'), ('converter brackets', 'lib/convert.cpp insert_list, merge_list, intersect_list, subtract_list')], ['set of characters matched'],
 tech='exhaustive enumeration of bracket token sequences x 256 characters on the real engine and converter, compared with a set model')
prop('P14', 'Range sets behave as sets',
 'A range set holds exactly the values inserted, for any sequence of insertions of single values and ranges, unions, intersections and copies. Its ranges stay ordered and disjoint, and membership, containment, overlap, equality and iteration agree with the set of values.',
 ['histories'], 'All sequences of set operations up to a depth over a small domain.',
 'Merging depends on relative order, adjacency and overlap of several ranges; tests run some fixed sequences.',
 ['include/reflex/ranges.h'], [('closed ranges', 'include/reflex/ranges.h Ranges'), ('half open ranges', 'include/reflex/ranges.h ORanges')], ['contents, predicates and iteration'], state=['set of ranges'],
 tech='explicit-state exploration of all operation sequences on the real containers from every reachable state in lockstep with a bit set model')
prop('P15', 'Bit vectors behave as sets of indices',
 'A bit vector holds exactly the indices set by any sequence of insert, erase, flip, assignment and set operations of any width. Counting, searching, comparing, intersecting and iterating agree with that set of indices.',
 ['histories'], 'All sequences of bit vector operations over indices around word boundaries.',
 'Word boundaries and vectors of different lengths combine in ways the fixed tests do not reach.',
 ['include/reflex/bits.h'], [('bit operations', 'include/reflex/bits.h Bits')], ['contents, predicates and iteration'], state=['bit vector words'],
 tech='explicit-state exploration of all operation sequences on the real class from every reachable state in lockstep with a set model')
prop('P16', 'Generated scanners behave as the matcher on the same rules',
 'A scanner generated from a lexer specification returns the same tokens as matching with the combined pattern of its rules, whichever form of the pattern is generated: runtime regex, opcode table or direct code, with or without search prediction data.',
 ['programs', 'inputs', 'configurations'], 'All rule sets of the grammar, all inputs, all generator options.',
 'Code generation has its own paths per transition kind; tests compile few specifications and never compare the forms.',
 ['src/reflex.cpp', PC, M], [('opcode export and direct code', 'lib/pattern.cpp Pattern::export_code, gencode_dfa, write_predictor'), ('direct code runtime', 'include/reflex/matcher.h Matcher::FSM_*')], ['tokens and texts returned by the scanners'],
 tech='exhaustive enumeration of rule sets compiled to all generated forms and all texts, every form compared with the runtime compiled pattern and with the reference model')
prop('P17', 'Start conditions select exactly the active rules',
 'In a generated scanner a rule can match exactly when its start condition is active: exclusive conditions activate only their own rules and inclusive ones also the unconditional rules. Among active rules the longest match wins and then the first rule, a rule that falls through shares the action of the next, and end-of-input rules run for their conditions only.',
 ['programs', 'inputs', 'histories'], 'All assignments of rules to conditions, all condition switches and inputs up to a length.',
 'The generator partitions rules over one pattern per condition; errors show for particular combinations of conditions.',
 ['src/reflex.cpp', AL, FL], [('rule partition', 'src/reflex.cpp Reflex::rules, write_lexer'), ('state stack', 'include/reflex/abslexer.h start, push_state, pop_state')], ['actions executed and their texts'],
 tech='exhaustive enumeration of rule/condition assignments in generated scanners x inputs that switch conditions, in lockstep with a reference model')
prop('P18', 'Copies and re-targeted matchers carry no stale state',
 'A copied or assigned matcher or pattern matches as a newly made one, independent of the life and later use of the original. A matcher given a new pattern or new input, or reset, behaves like a new matcher with that pattern and input, whatever it did before. This holds for every matcher engine, as long as a pattern that is shared outlives the matchers that use it and a copy of a matcher that has begun to read is given new input. What an object owns is released exactly once.',
 ['histories'], 'All sequences of use, copy, assign, pattern switch, input switch and reset up to a depth over patterns of all search shapes.',
 'Cached search tables, flags and buffers survive some of these operations; the effect needs a specific earlier pattern or position.',
 [M, AM, PH], [('copy and assignment', 'include/reflex/pattern.h Pattern, include/reflex/matcher.h Matcher'), ('reset', 'include/reflex/absmatcher.h AbstractMatcher::reset, input, pattern')], ['matches after the operation'], state=['pattern', 'search tables', 'buffer'],
 tech='breadth-first exploration of all operation histories up to a depth on real objects, compared with a fresh matcher on the remaining input')
prop('P19', 'Matcher engines are interchangeable on their common ground',
 'For regexes and inputs on which the matching policies agree, the RE/flex, PCRE2, Boost and standard library matchers report the same matches, split pieces, positions and captures through the common interface, for every way the input is delivered; the groups enumerated are those that took part in the match, with the names they have in a PCRE2 regex. Whatever the policy, the matches of an engine do not depend on the delivery (except as far as the partial matching of Boost.Regex cannot tell that a match could be continued, which is documented).',
 ['inputs', 'programs', 'configurations'], 'All regexes of the common subset, all texts, all engines.',
 'Every engine has its own buffer window and retry logic; tests check fixed cases per engine.',
 ['include/reflex/pcre2matcher.h', 'include/reflex/boostmatcher.h', 'include/reflex/stdmatcher.h', M], [('engine adapters', 'PCRE2Matcher::match, BoostMatcher::match, StdMatcher::match')], ['matches, positions, captures'],
 tech='exhaustive enumeration of common-subset regexes x texts x deliveries, engines compared with each other and with the reference model')
prop('P20', 'Fuzzy matches are within the edit distance and exact ones are found',
 'Every match that the fuzzy matcher reports is within the allowed number and kinds of edits (counted in characters, newlines are never inserted or replaced) of a text the regex matches, and the reported number of edits is at least the true distance and within the limit. A whole input that matches without edits is accepted with zero edits, find() misses no exact match at the place where it would be found, with a maximum of zero the fuzzy matcher is the exact matcher, and a literal regex matches every nonempty whole input within one edit. Results do not depend on how the input is delivered.',
 ['inputs', 'programs', 'configurations'], 'All patterns and texts up to a length, all limits and edit kinds.',
 'The backtracking over edits has a bounded stack of choices; which texts it misses or over-accepts cannot be told from samples.',
 ['fuzzy/fuzzymatcher.h'], [('backtracking', 'fuzzy/fuzzymatcher.h FuzzyMatcher::match')], ['matches(), find(), edits(), accept()'],
 tech='exhaustive enumeration of patterns x texts x limits on the real matcher, compared with an edit distance reference over the language')
prop('P21', 'Malformed regexes are rejected and accepted ones never misbehave',
 'Every string given as a regex is either rejected with a regex error that points at a position in the string, or compiled to a pattern that can be matched against every input without crash, invalid memory access or endless loop. This holds for the pattern compiler and for the regex converter.',
 ['inputs', 'programs'], 'All strings up to a length over the characters that have meaning in a regex.',
 'Crashes come from unusual strings that no test author writes; the space of short strings is enumerated completely instead.',
 [PC, CC, M, 'lib/error.cpp'], [('parser', 'lib/pattern.cpp Pattern::parse1..parse4, compile_list'), ('converter', 'lib/convert.cpp convert')], ['exception or pattern; sanitizer reports'],
 tech='exhaustive enumeration of all strings over the regex metacharacters up to a length, compiled and matched under the address sanitizer, and checked against a reference grammar')
prop('P22', 'Mode modifiers apply exactly to their scope',
 'Case-insensitive, dot-all, multiline and free-space modes given at the start of a regex, for a group, or switched off inside a group change the meaning of exactly the part of the regex they enclose and nothing before or after it. This holds for the pattern engine and for the converter.',
 ['programs', 'inputs', 'configurations'], 'All nestings of modifiers over small regexes, all texts.',
 'Modifier scope is tracked as position ranges; nesting, alternation and merging of alternatives interact.',
 [PC, CC], [('modifier positions', 'lib/pattern.cpp Pattern::parse4, update_modified, is_modified'), ('converter modifiers', 'lib/convert.cpp convert, init_regex')], ['matches'],
 tech='exhaustive enumeration of modifier nestings x texts against the reference model with scoped flags')
prop('P23', 'Lexer state and buffer stacks nest correctly',
 'Pushing and popping start conditions, matchers and input buffers in a lexer restores exactly the condition, the matcher and the remaining input that were current when pushed, for every sequence of such operations mixed with scanning. Reading resumes in the outer input right after the last token consumed there.',
 ['histories'], 'All sequences of push, pop, switch and scan operations up to a depth.',
 'The stacks own and share matchers and inputs; lost or duplicated input shows only for particular nestings.',
 [AL, FL], [('stacks', 'include/reflex/abslexer.h push_state, pop_state, push_matcher, pop_matcher'), ('flex buffers', 'include/reflex/flexlexer.h yypush_buffer_state, yypop_buffer_state, yy_switch_to_buffer')], ['tokens, start condition, remaining input'], state=['condition stack', 'matcher stack'],
 tech='breadth-first exploration of all operation histories up to a depth on the real lexer classes in lockstep with a stack model')
prop('P24', 'UTF-8 encoding and decoding are inverse and safe',
 'Encoding a code point to UTF-8 and decoding it again gives the code point, for every code point, and the encoded length is right. Decoding any byte sequence never reads beyond it and gives the replacement value for each malformed sequence, and wide string conversions, lengths and wide character reads of a match agree with decoding it.',
 ['inputs'], 'All code points and all byte sequences up to length four over boundary bytes.',
 'Errors sit at few boundary values out of 1.1 million code points and billions of byte sequences.',
 ['include/reflex/utf8.h', UC, AM], [('encode and decode', 'include/reflex/utf8.h utf8, wcs'), ('match access', 'include/reflex/absmatcher.h wstr, wchr, wsize')], ['return values'],
 tech='exhaustive enumeration of all code points and all short byte sequences over boundary bytes on the real functions, compared with a reference codec')
prop('P25', 'Matchers that share a pattern do not affect each other',
 'Matchers that use one pattern object, in one thread or in several at the same time, each report exactly the matches they report when used alone, for every interleaving of their operations. Using a matcher never modifies the shared pattern.',
 ['schedules', 'histories'], 'All interleavings of operations of two or three matchers over one pattern.',
 'Hidden shared mutable state shows only under particular interleavings.',
 [M, PH, AM], [('shared pattern', 'include/reflex/matcher.h Matcher::match, lib/matcher.cpp advance'), ('lazily built tables', 'lib/matcher.cpp boyer_moore_init')], ['match sequences per matcher'], state=['pattern', 'matcher state'],
 tech='exhaustive enumeration of all interleavings of matcher operations over one shared pattern, each result compared with the isolated run; a separate free-running pass under the thread sanitizer covers unsynchronized accesses')

prop('P26', 'The scanner generator accepts or rejects every specification cleanly',
 'For every text given to the reflex command as a lexer specification, the command either reports an error at a line of the specification and fails, or generates a scanner. It never crashes, ends with an uncaught exception, accesses memory out of bounds or runs forever. A scanner that is generated from definitions, rules, scopes and actions that are well formed compiles.',
 ['inputs'], 'All specification texts, well formed or not.',
 'The specification parser is hand-written with many line, scope and quoting states; the tests feed it well-formed specifications only.',
 ['src/reflex.cpp'], [('specification parser', 'src/reflex.cpp parse_section_1, parse_section_2, get_pattern, get_code, get_starts, get_string'), ('code generation', 'src/reflex.cpp write_lexer')], ['exit status, messages, generated file'],
 tech='exhaustive enumeration of all sequences of specification lines and of characters of a line up to a length, run through the real generator under the address sanitizer, with the scanners of well-formed sequences compiled')
prop('P27', 'Generated scanners contain exactly the rules and code of the specification',
 'Each rule of a lexer specification appears in the generated scanner with exactly its pattern and exactly its action, in the order of the specification and for exactly the start conditions that its scopes and condition list select. This includes quoted text, bracket lists, comments, escapes, line continuations and free spacing in patterns, and braces, strings and comments in actions. User code blocks arrive complete in their section of the scanner. With line directives enabled, every line of user code is attributed to the line of the specification it comes from.',
 ['inputs'], 'All specifications put together from patterns, actions, scopes and code blocks.',
 'Where a pattern or an action ends depends on combinations of quoting, nesting and line breaks of which tests sample few.',
 ['src/reflex.cpp'], [('pattern and code extraction', 'src/reflex.cpp get_pattern, get_code, parse_section_2'), ('code generation', 'src/reflex.cpp write_lexer, write_code, write_regex')], ['regexes, actions and #line directives in the generated file'],
 tech='exhaustive enumeration of specifications put together from pieces up to a length, run through the real generator; the scanner text is taken apart and compared with the parts the specification was put together from')

prop('P28', 'Generator options do not change tokens and can be combined',
 'Options of the reflex command that concern the form, the names, the interfaces or the diagnostics of the generated scanner do not change the tokens, their positions and the echoed text that the scanner produces for any input. Scanners generated with any two of these options compile. The global functions of the Bison, reentrant and Flex interfaces produce the same tokens as the scanner class.',
 ['configurations', 'inputs'], 'All pairs of options and all inputs.',
 'There are dozens of options and thousands of pairs; the tests build scanners for a few.',
 ['src/reflex.cpp', FL, AL], [('code generation by option', 'src/reflex.cpp write_class, write_lexer, write_prelude')], ['tokens, positions, output and parameters of generated scanners'],
 tech='exhaustive enumeration of option pairs; each generated scanner is compiled, loaded and run on all texts up to a length, in lockstep with the scanner that has only the options that decide what is a token')
prop('P29', 'Generator options mean the same however they are given',
 'An option of the reflex command means the same given on the command line in its long, short and grouped forms, in an %option, %o or abbreviated directive of the specification or of an included file, with hyphens or underscores, with the value quoted or not, and in any order of unrelated options. Of opposite options and of several values for one option the last one counts. The same scanner, header and reports are generated.',
 ['configurations'], 'All options, forms and orders.',
 'Options are parsed by separate hand-written parsers of the command line and of the specification; the tests use one form of a few options.',
 ['src/reflex.cpp'], [('option parsing', 'src/reflex.cpp init, parse_section_1, get_option, get_namespace, get_string, set_library')], ['the generated files and standard output'],
 tech='exhaustive enumeration of options, forms and ordered pairs (and triples), run through the real generator, all output compared with that of the canonical form')
prop('P30', 'Ordered set operations are set operations',
 'The set operations on ordered sets that the regex compiler uses give the sets of elements that set theory defines for all operands: insert, overlap and subset tests, and the lazy union and intersection iterators, which yield each element once in order and never access elements beyond the ends of their operands.',
 ['inputs'], 'All pairs of sets.',
 'Merges of ordered sequences have many orders of ends and equal elements; no test calls these functions directly.',
 ['include/reflex/setop.h'], [('set operations', 'include/reflex/setop.h')], ['results and iterator accesses'],
 tech='exhaustive enumeration of all pairs of subsets of a universe, with the iterators checked by the debug mode of the standard library')
prop('P31', 'Patterns report their alternatives',
 'A pattern reports the number and the text of its top-level alternatives exactly, in the presence of groups, bracket lists, quotation, escapes and comments, and reports an alternative reachable if and only if some input exists for which a match returns that alternative.',
 ['inputs'], 'All patterns with several alternatives.',
 'Where an alternative ends and whether it is subsumed depends on all alternatives before it; the tests never ask.',
 ['include/reflex/pattern.h', 'lib/pattern.cpp'], [('alternatives', 'lib/pattern.cpp parse, compile, operator[]; include/reflex/pattern.h size, reachable')], ['size(), operator[], reachable()'],
 tech='exhaustive enumeration of sequences of alternatives; reachability is compared with exhaustive evaluation of a reference semantics on all texts up to a length')
prop('P32', 'Patterns of any size match alike and their exports describe them',
 'A pattern matches the language of its regex however large its automaton is, in particular when the table is so large that jumps take two opcodes, whether it is compiled from the regex or loaded from an exported table. The exported graphs, opcode tables and prediction data of a pattern describe the automaton that the matcher runs: the graph accepts the same texts with the same alternative, and its labels are the characters of its edges.',
 ['inputs'], 'All pattern sizes around the limits and all texts; all patterns put together from parts.',
 'The forms of opcodes change only beyond 64K opcodes, at positions that depend on the sizes of all states before; no test has such a pattern or reads an exported graph.',
 ['lib/pattern.cpp', 'include/reflex/pattern.h', 'include/reflex/matcher.h'], [('long jumps', 'lib/pattern.cpp encode_dfa, include/reflex/matcher.h Matcher::match'), ('exports', 'lib/pattern.cpp export_dfa, export_code, write_predictor')], ['matches', 'exported files'],
 tech='exhaustive enumeration of the sizes around the limits and of all texts of branching letters; the exported graphs and tables are executed as models on all texts and their traces compared with the implementation')
prop('P33', 'Iterators, comparisons and line context describe the match',
 'Iterating over the matches of an input with the iterators of the scan, find and split operations, also with the algorithms of the standard library, gives exactly the matches of repeated calls. The text, length, pair and wide forms, conversions and comparisons of a match agree with each other whatever bytes the match has. The begin and end of the line of a match and the context before it and after the end of the input are the bytes of the input at the offsets told, and a handler of the buffer is given each byte that leaves the buffer once and in order; none of these queries changes the matches that follow.',
 ['inputs', 'histories'], 'All texts, patterns, operations, deliveries of the input and queries.',
 'Pointers to the line and the context are moved by each shift of the buffer, which small inputs never cause; the tests do not use the handler or the context.',
 ['include/reflex/absmatcher.h'], [('iterators', 'include/reflex/absmatcher.h AbstractMatcher::Iterator, Operation'), ('comparisons and casts', 'include/reflex/absmatcher.h operators'), ('line and context', 'include/reflex/absmatcher.h bol, eol, line, before, after, set_handler, grow')], ['matches by each form of iteration', 'bytes given to the handler', 'results of the queries'], hook=True,
 tech='exhaustive enumeration of texts of blocks, operations, deliveries and queries on the real matcher with a small buffer and address checking, compared with the input')

def main():
    na = json.load(open(V + '/tools/not_applicable.json')) if os.path.exists(V + '/tools/not_applicable.json') else []
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p['observe'], hook_needed='small buffer block size (MC_BLOCK)' if p['hook'] else None)
            if p['state']: a['state'] = [dict(name=s, where=p['files'][0]) for s in p['state']]
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
    checks = []
    for p in P:
        if os.path.exists('%s/checks/%s.cpp' % (V, p['id'])):
            checks.append(dict(property=p['id'], quick_cmd='bin/check %s' % p['id'], thorough_cmd='bin/check %s --thorough' % p['id'], technique='model checking: ' + p['tech'], level=p['level'], level_note=p['note'] or 'exhaustive within the bounds stated in DESIGN.md'))
    claimed = set(c['property'] for c in checks)
    na = na + [dict(property=p['id'], reason='check not built yet') for p in P if p['id'] not in claimed and p['id'] not in [n['property'] for n in na]]
    m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na, notes='bin/check ID builds the library sources of /repo and the harness checks/ID.cpp, explores, writes evidence/ID.json')
    hooks = V + '/tools/hooks.json'
    if os.path.exists(hooks): m['hooks'] = json.load(open(hooks))
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
main()
