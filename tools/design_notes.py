# Fixed text of DESIGN.md; tools/design.py puts it together with the bounds stated in the checks.
HEAD = """# Model checking larryhastings/big

*Generated by `tools/design.py` from `tools/design_notes.py`, `properties.jsonl` and the bounds stated in `mc/c*.py`.*

## What is checked, and how

`properties.jsonl` lists the properties, C01 onwards, over every module of the library.  Each has one check, `mc/cNN.py`, run as

    /opt/venv/bin/python check.py CNN quick|thorough        (--replay FILE to run one reported case again)

Every check decides its property by **exhaustive enumeration of executions of the real code** within stated bounds
(stateless or explicit-state exploration of the implementation itself); there is no abstract model that could drift
away from the code.  What is called a *model* below is always the oracle: a small independent statement of the
required behaviour, which is run in lockstep with the real code on each and every explored execution, so that each
explored model trace *is* a conformance run.  Nothing is sampled: no random numbers are used anywhere, `VERIF_SEED`
has no effect, and a run explores the same executions every time.

Three shapes of state space occur:

1. **Interleavings (C02, the meddling part of C27)**.  `mc/threads.py` is a controlled scheduler: the threads of a scenario
   are real Python threads of which exactly one runs at any time; `sys.settrace` makes every executed line of
   `scheduler.py` and `heap.py` a scheduling point, and the `threading`/`time` modules are replaced, as seen by the module
   under test, by models of Lock, RLock, Condition, Event, Semaphore, sleep and the clocks with CPython's documented semantics.
   Depth-first search over all choices up to a preemption bound (a schedule = one state in the evidence); virtual time advances only when
   every thread waits; a deadlock, lost wake-up, late delivery or self-deadlock is a terminal state that fails the check.  In C27 the
   environment's action (another process creating, replacing or removing the file) is inserted before every executed line of the helper.
2. **Histories (C01, C03 - C11, C31, parts of C27)**.  `mc/search.py` explores all sequences of operations, breadth first.  A history is
   replayed on fresh real objects; two histories are merged only if the *complete* reachable state of the real objects
   (every attribute, recursively, with sharing and order) and the model's state are equal.  For interchangeable nodes a
   symmetry reduction names new nodes canonically.  Where the reachable state space closes, the search runs to the *fixpoint*, so
   that the result holds for histories of every length within the stated counts of operations.  Because the state signature is taken
   generically from the objects' dictionaries and slots and not from known attribute names, refactoring the classes
   does not disturb it; at worst states merge less.
3. **Inputs and configurations (the others)**.  All texts up to a length over an alphabet chosen so that each character
   class the code distinguishes is represented more than once, times all configurations of a grid, times all
   representations (str, bytes, subclasses, iterators, sets...), or all code points.  Each of these is one *state*; the sum is in the evidence.

`mc/core.py` drives a check: it splits each part into units, runs them in 8 forked workers, and collects counts and violations.
A violation prints `VIOLATION property=<id> replay=<path>`; the replay file holds the unit's case in JSON and
`check.py CNN --replay path` runs just that again.  A worker that dies or hangs is reported as a violation too: the code under test
must not loop.  Hangs are measured in *processor* time (30 s in one case, or a long series of idle intervals); an earlier version used wall-clock time and gave
a false alarm when the machine was stalled.

The library is imported from `/repo` (or `$BIG_REPO`) at every run, no byte code is written, and no file of /repo is changed.  No hooks were needed in /repo.

## What 'holds' means: sources of the oracles

In this order: the project's documentation (README.md and docstrings); the assertions of the project's own test suite where the
documentation is silent or differs; the standard a function is named after (PEP 440, RFC 3339, RFC 5424-style names of numbers, exFAT's illegal characters);
Python's own functions (`str.split`, `sorted`, `graphlib`, `re`, `int`, `float`, `os`).  What is left open by all of these is left unchecked, and said so in the notes below.
"""

note("C01", "All histories of schedule (relative/absolute, several times and priorities), cancel (each pending, delivered or foreign event), advance, next, non-blocking next, queue and bool, with a scripted clock that may wake sleepers early; histories merged by complete state.",
 "A sorted list of (time, priority, sequence number).",
 "Every tie pattern, every cancelled position and every early wake-up is covered, also for float, Fraction and datetime times, and for the three supplied regulators over a virtual `time` module; the lock, the clock, wake and sleep also raise at every point of every history.")
note("C02", "Controlled scheduler (shape 1) over 23 scenarios of two or three threads: schedule against a sleeping iterator, cancel of the last event, several iterators, non-blocking iteration, all at once; with an abstract regulator that only promises the documented contract and with the supplied ThreadSafeRegulator.",
 "The final histories must be explainable: each event delivered once, at the first virtual moment somebody could; no thread left waiting; the abstract regulator records lock discipline.",
 "The window between releasing the lock and sleeping is one line wide: real threads practically never hit it (the original code had a lost wake-up there, fix 797fae9).",
 "The scheduler may fetch `regulator.sleep` while holding the lock, as documented; calling it while holding the lock is an error.")
note("C03", "Histories of all mutations on small value sets; every index and slice of every small heap; live iterators kept across mutations.", "`sorted()` list of the contents.", "Indexing has special cases for small numbers of elements and for both ends; all sizes with duplicates are run through every slice.")
note("C04", "All sequences of push/next/next-with-default/bool over wrapped iterators of every kind incl. falsy, raising and nested ones.", "A Python list as stack and a list as the rest.", "Falsy values and falsy iterators combined with tests for truth at every point.")
note("C05", "Shape 2 to the fixpoint on three nodes; every acyclic graph on up to four (five) nodes against `graphlib`, in every order of done().", "The definition: a node is ready iff it exists, is not handed out, and all its predecessors are done; `graphlib.TopologicalSorter` in lockstep.", "Interplay of status and graph changes; the order in which ready nodes are returned is not checked, as it is not promised.")
note("C06", "Tables of all status combinations, histories to the fixpoint with several views, starting points in progress on four nodes.", "The set of conflicting edges computed from the graph and the view's sets.", "The number of ways to become coherent again.")
note("C07", "Every directed graph on up to four nodes in three orders of construction with removals, plus histories with queries at any point (the 'clean' cache).", "Reachability computed from scratch; the reported cycle is validated edge by edge.", "Caching makes the answer depend on the history.", "Where a graph is cyclic and its view incoherent, either of the two errors is accepted.")
note("C08", "Histories over views, copied views, closed views and copied graphs to the fixpoint; starting points on three nodes in progress.", "One model per graph and view without any sharing.", "Sharing bugs only show in operations on the *other* object.")
note("C09", "Every history of assignments where each of the first 12 callbacks may deviate in one of 11 ways (raise, nested assignment, add/remove/replace observers, install or remove hooks on states, ...), with a bounded number of deviations.", "The documented protocol, as an executable log of callbacks.", "Deviations at every callback point, and combinations of them, multiply to many thousands.", "None together with a state class may raise ValueError or TypeError.")
note("C10", "Product of attribute names, affixes, signatures and argument shapes; histories of transitions and calls on two machines.", "Direct calls on the current state.", "Closures sharing a variable across decorated methods only show in combination.")
note("C11", "All inheritance graphs of up to three (four) inner classes over two outer classes with every order of first access; all paths through instance, alias, super() and class; copies (shallow, deep, of the dict) made before and after each access.", "The documented rules: identity of the cached class, the first constructor argument, MRO relations, weak references.", "Caching and base rewriting depend on the order of access.", "Inner classes keep their name and are reachable under it (documented); the documented thread race is excluded.")
note("C12", "All ordered pairs of a product of fields, in four spellings; sorting of all permutations of small sets.", "Ranks from an independent PEP 440 key.", "Consistency of <, == and hash over all pairs.", "A plain development release of a final version sorts between rc and final: the test suite fixes that.")
note("C13", "All token sequences, all code points in nine places, the product of keyword fields and all their illegal values.", "A hand-written PEP 440 recognizer that yields the fields.", "The regular expression of PEP 440 has many optional parts; every combination of spellings is run.")
note("C14", "All options x all sets of up to three short separators (including prefixes and overlaps of each other) x all short strings.", "A left-to-right (or right-to-left) longest-match scanner, `mc/splitmodel.py`.", "Options interact: 560 combinations on each string.")
note("C15", "All short strings through multisplit/multipartition and the corresponding built-in methods.", "`str`/`bytes` `split`, `rsplit`, `splitlines`, `partition`, `rpartition`, and the scanner of C14.", "Equality with the built-ins on all inputs up to a length, including max counts.")
note("C16", "All sets of separators x strings for multistrip and normalize_whitespace, the tables, every character.", "The scanner: strip while a separator is a prefix/suffix under the longest-match rule.", "Separators which overlap each other at the edge of what is kept.", "When nothing is stripped a subclass instance may come back: the test suite asserts it.")
note("C17", "Every regular expression of up to four (five) nodes on every short string, plus 67 patterns with look-around, groups, anchors; both directions, all counts.", "`re` itself for what matches where (`pattern.match(s, start)` and `fullmatch(s, start, end)`), and the definition of the rightmost, longest match for the reversed direction.", "Reversed matching is defined by all positions, not by a sample of patterns.", "For patterns that look at what follows the match (right context) the reversed result is only checked for being a list of real, disjoint, descending matches; where a pattern prefers empty matches, two matches may start at one position.")
note("C18", "All texts over the characters of each set of marks, all sets of short marks, all initial states, all cuts of a text in two.", "A character scanner (`mc/c18.py`).", "Marks that are prefixes of one another, escapes next to marks, text cut at any place.")
note("C19", "All texts over the delimiters' characters for 29 configurations and all generated ones, every initial stack.", "A pushdown scanner.", "Nesting, quoting, escapes and multi-character delimiters overlap.", "An escape outside its quoting pair is a SyntaxError; configurations where close equals escape are excluded; an escaped newline is allowed in single-line quotes.")
note("C20", "All chains of up to three of 13 line modifiers on all short texts; all sequences of clips.", "`mc/linesmodel.py`, which keeps the text, its position and its columns by brute force.", "Column numbers after tabs and several clips depend on the whole chain.", "After converting tabs, the column is that of the accumulated leading text.")
note("C21", "All texts over markers, quotes, escapes and line breaks.", "A character scanner.", "Markers in quotes, quotes in comments, multi-line quotes across lines.", "Markers and quotes that overlap each other in the text are excluded, since no rule says which wins.")
note("C22", "All sequences of up to eight lines of several indents; tabs in all positions.", "A stack of columns.", "Dedents by several levels (the original raised for these).")
note("C23", "All sequences of words and all short texts.", "Greedy line filling; a line classifier for code and text.", "Transitions between code and text at every place, with and without final newlines.")
note("C24", "All pairs (triples) of short columns x widths x separators x overflow strategies x margins.", "A row-by-row layout.", "Overflow and its margins depend on all columns at once.")
note("C25", "Every integer up to 200,000 (3,000,000), all groups of three digits in all 25 places, around every power of ten.", "An independent writer, and reading the words back.", "Each group name and each combination is spelled.")
note("C26", "Moments at all boundaries x time zones x representations.", "`datetime` in UTC with integer arithmetic, C's localtime for the local zone.", "Daylight-saving changes with both folds in eleven local zones.", "Human timestamps are only checked for years over 1000.")
note("C27", "All operation sequences on a small tree in a scratch directory (removed afterwards); another process's action before every executed line; all programs of nested pushd; all small files through grep.", "A dictionary model of the tree; `open().readlines()` and `re`.", "Races and odd kinds of files (links to links, fifos) at every point.")
note("C28", "All short strings over the characters numbers are made of, objects with unusual conversions, all defaults.", "`int()` and `float()` in the documented order.", "Infinities, NaN, huge numbers and objects whose comparison raises.")
note("C29", "All strings x all tuples of ways of splitting them; all title-case strings.", "Set union of cut points; the definition of word starts.", "Any order and number of splits, as lists or iterators.")
note("C30", "All short strings over letters, spaces, quotes, parentheses.", "A definition by positions.", "The rules for apostrophes look at both sides.")
note("C31", "All histories with all small clock steps, every print option.", "A list of events; decimal arithmetic on integers.", "Truncation and nesting at every size.", "Falsy print functions and clocks are excluded.")
note("C32", "173 calls on every short ASCII string, as str and as bytes.", "The encoded result of the str call.", "Defaults for bytes are separate tables.", "VT, FF and 1c-1f, on which str and bytes themselves disagree, are excluded.")
note("C33", "Every code point and byte; every short file name.", "`str.isspace`, `str.splitlines`, the named standards.", "Tables are checked completely.")
note("C34", "All short texts x all filters.", "`in`, `re`, `sorted`, `strip`.", "Every kind of line break with every filter.")
note("C35", "All short texts over the special characters x all configurations, text and bytes.", "Scanners written from the docstrings.", "Quote marks in a row, escapes and ends of text interact; the original raised RuntimeError for a text that ends with an opening quote mark.", "A character that both closes one delimiter and opens another is excluded.")
note("C36", "All histories of two (three) of 135 calls, each in a fresh process; all interleavings of two lazy calls; another call at each executed line of a call, with and without warm caches.", "The same call by itself in a fresh process.", "Caches and shared scratch state show only in particular sequences or schedules.", "The other thread's call runs as a whole: two threads with one preemption.")
note("C37", "Every order of importing modules (each in a forked process without them), every set of missing optional packages, every optimization level; then every module is used.", "The names in the README; what the same uses do when everything is imported.", "Import order, missing packages and `-O` are configurations the tests never run in.", "The uses are one fixed list of calls per module, not all inputs.")
note("C38", "All hierarchies of classes; all shapes of functions.", "A walk along the method resolution order.", "Diamonds and super reach pure virtual methods indirectly.")
note("C39", "Fault injection: all operation sequences with an exception at every point at which the caller's code runs (iterables, iterators, clocks, print functions, sort keys, class creation, unhashable arguments), then more operations.", "The same sequence without the failed call (graphs), a sorted list (heaps), the description of the operations over the same failing source (pushback iterators), the same call with a list that doesn't fail (text functions).", "An exception at one particular point of a sequence, whose effect only shows later on.")
note("C40", "Every subset of the string constants of each call of C36 (and 80 more), and the strings in its containers, is replaced by instances of a subclass of str or bytes: a bare one, one that prints as something else, and a member of an enumeration.", "The same call with plain strings.", "One particular argument being of a subclass, and the exact type of what comes back.")
note("C41", "Parameterized checking by exhausting the parameter: 31 families of inputs (in mc/sizes.py; the other properties run those that concern them, as their parts called sizes) - orders of numbers, chains and stars and ladders of nodes, nested logs and states, texts of n words, separators, quote marks, delimiters, lines, indents, columns, directories - each at every size up to the bound.", "Results known in advance from the construction of the family.", "Limits of recursion, block sizes and counters show only at particular sizes.", "Bound inner classes go up to 40 levels, states that enter one another up to 150: each level takes several Python frames.")

TAIL = """
## Defects found

`known_findings.txt` lists every genuine defect the checks found: those repaired by a `fix:` commit in /repo (`fixed:` lines) and those recorded
(`finding:` lines; each is identified by a key that the check computes from the failing case itself, so any other violation of the property is still reported).
Those recorded and not repaired are asserted by the existing test suite (C25, C26, C33, C35, C40) or need a redesign (C11: constructors in diamonds).

## False alarms that were corrected

- C02: reading `regulator.sleep` under the lock is documented; only the call counts.
- C05: the order of ready nodes is not promised; C07: which of two errors is raised for a graph both cyclic and incoherent is not either.
- C09: None with a state class may raise either documented exception.
- C12: development releases, see there.  C16: identity of unchanged subclass instances, see there.
- C20, C24, C23: readings of columns, margins and odd white space that the test suite contradicts were given up.
- C28: `get_int_or_float` tries int() first, as documented, so `True` and '1_0' follow int().
- All: a wall-clock limit for hangs failed on a stalled machine; processor time is measured instead.

## Cost

Quick checks take from 3 to about 130 s on 8 idle cores (C02 is the longest); thorough ones up to about ten minutes.

@SEEDS@
"""
