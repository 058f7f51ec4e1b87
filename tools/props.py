#!/opt/venv/bin/python
"""Writes /verif/properties.jsonl from the table below."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "A scheduler delivers exactly the due events, in time/priority/arrival order",
 "For every sequence of scheduling (relative or absolute, any priority), cancelling, waiting and blocking or non-blocking iteration, a scheduler hands out each event exactly once, never before its time, never after it was cancelled, and always the pending event that is least by time, then priority (lower first), then order of scheduling. Iteration stops exactly when nothing is pending (or, when non-blocking, when nothing is due yet), an idle scheduler sleeps exactly until the next pending event is due, its truth value and listing show exactly the pending events in delivery order, and cancelling an event that is not pending raises ValueError and changes nothing. An exception that the regulator raises reaches the caller with the lock released, and no event is lost or handed out twice because of it.",
 ["histories", "inputs", "fault_sequences"], "every history of schedule/cancel/advance/iterate/non_blocking/queue/bool operations over a small set of times and priorities, with a virtual clock (including sleeps that wake up early), and every operation at which one of the regulator's methods raises",
 "The tests run a few fixed schedules against one clock; order among ties, cancellation of any queue position and early wake-ups are only sampled.",
 ["big/scheduler.py", "big/heap.py"], [("Event ordering", "big/scheduler.py:Event.__lt__"), ("queue operations", "big/scheduler.py:Scheduler.schedule/cancel/_next/queue"), ("priority queue", "big/heap.py:Heap")], ["values yielded by iteration", "intervals passed to the regulator's sleep"])

prop("C02", "Threads sharing a scheduler never lose, repeat, delay or deadlock on events",
 "With a thread-safe regulator, under every interleaving of threads that schedule, cancel and iterate, every event is delivered at most once, cancelled events are not delivered, every event that is not cancelled is delivered, and no thread raises anything unexpected or waits forever. A thread already waiting for a later event returns an event as soon as an earlier one becomes due that another thread has scheduled meanwhile, and stops as soon as another thread has cancelled the last event. The scheduler reads the clock and wakes sleepers only while holding the regulator's lock, never takes the lock twice, and never sleeps while holding it.",
 ["schedules"], "every thread schedule (bounded number of threads and operations) of scheduling, cancelling and iterating threads at the granularity of lock, clock, wait and queue operations, for the abstract regulator contract and for the supplied thread-safe regulator",
 "The tests start real threads and sleep; the OS chooses one schedule, so windows between releasing the lock and going to sleep are never hit.",
 ["big/scheduler.py"], [("lock discipline", "big/scheduler.py:Scheduler.schedule/cancel/_next"), ("sleep/wake", "big/scheduler.py:ThreadSafeRegulator.sleep/wake")], ["regulator calls", "values and StopIteration seen by iterating threads"])

prop("C03", "A heap always behaves like the sorted list of its contents",
 "After every sequence of operations on mutually comparable values, a heap's length, truth, membership, first element, sorted listing, equality, iteration and every index or slice (any start, stop and step, negative or out of range) agree with the sorted list of exactly the values added and not yet removed. Removing operations return the smallest value; operations that fail raise as a list would and leave the heap's contents unchanged; a copy is independent of its original. An iteration started before a change to the heap raises RuntimeError at its next step instead of yielding stale values.",
 ["histories", "inputs"], "every sequence of append/extend/remove/popleft/append_and_popleft/popleft_and_append/clear/copy and every index, slice and iteration, over multisets of small values",
 "Tests index one eight-element heap at a few positions; the property is over all sizes, duplicates, positions and operation orders.",
 ["big/heap.py"], [("heap operations", "big/heap.py:Heap"), ("indexing shortcuts", "big/heap.py:Heap.__getitem__"), ("iteration version check", "big/heap.py:Heap.HeapIterator")])

prop("C04", "A pushback iterator is its pushed-value stack, then the wrapped iterator",
 "For every interleaving of pushing values, advancing (with or without a default) and testing for truth, a pushback iterator yields pushed values last-in-first-out and otherwise the wrapped iterator's values in order, none lost, duplicated or reordered, whatever the values (including None and false values) and whatever iterator is wrapped. It is true exactly when another value is available, testing it never changes what is yielded, and an exhausted one can be pushed to and used again. An exception raised by the wrapped iterator reaches the caller.",
 ["histories"], "every operation sequence over iterators of small length, with falsy values, falsy iterators, nested pushback iterators and iterators that raise",
 "Tests walk a handful of fixed sequences.",
 ["big/itertools.py"], [("stack then iterator", "big/itertools.py:PushbackIterator")])

prop("C05", "A topological sorter offers each node exactly when its predecessors are done",
 "For every interleaving of adding nodes and dependencies, removing nodes, asking for ready nodes and marking nodes done, a view that is coherent with its acyclic graph offers each node exactly once, at the first request after it exists and all its current predecessors have been marked done, and never earlier. It is true exactly while some node of the graph is not done, static order lists every node once after all its predecessors, and on a graph no longer modified after iteration starts it is a drop-in replacement for the standard library's sorter. Marking done a node that is unknown or was not handed out raises ValueError; run as a program, the module prints such an order of the pairs it reads, or fails.",
 ["histories", "inputs"], "every history of add/remove/ready/done on small node sets, single and multiple views, and every small graph for static order",
 "Tests replay a few scripted histories; the interplay of adding edges and removing nodes with every per-node status is combinatorial.",
 ["big/graph.py"], [("predecessor counting", "big/graph.py:TopologicalSorter.View._add_nodes/_add_successor/_remove_node/_mark_node_done"), ("graph edges", "big/graph.py:TopologicalSorter.add/remove")], state=[("per-view node status", "waiting, ready, yielded, done", "big/graph.py:TopologicalSorter.View")])

prop("C06", "A view is incoherent iff a handed-out node gained an unfinished predecessor",
 "After every history of graph changes and view operations, a view is incoherent if and only if the graph contains an edge from a predecessor that is not done in that view to a successor that is already handed out or done in that view. While incoherent, testing the view for truth, asking it for ready nodes and marking nodes done all raise RuntimeError and change nothing; removing the offending nodes or resetting the view makes it usable again as though never incoherent. Other views are not affected.",
 ["histories"], "every history of add/remove/ready/done/reset over small graphs and several views",
 "Tests exercise a couple of conflicts; the rule quantifies over every pair of node statuses and every way of restoring coherence.",
 ["big/graph.py"], [("conflict bookkeeping", "big/graph.py:TopologicalSorter.View._add_successor/_remove_node/reset")])

prop("C07", "Cycles are reported exactly when they exist, and what is reported is a cycle",
 "After every history of additions and removals, the cycle query returns nothing if and only if the graph is acyclic, and otherwise a sequence of distinct nodes each of which is a predecessor of the next and the last of the first. Asking for ready nodes or preparing a cyclic graph raises CycleError carrying such a cycle and hands nothing out, in the graph, its views and its copies alike, and once the cycle is removed work continues as usual.",
 ["histories", "inputs"], "every directed graph on up to four nodes (self-loops included) built in every order within the bound, followed by removals, copies and repeated queries",
 "Tests try a few cyclic graphs; caching of the 'no cycles' result makes the answer depend on the history.",
 ["big/graph.py"], [("cycle search and dirty flag", "big/graph.py:TopologicalSorter.cycle/check_for_cycles/add/copy")])

prop("C08", "Views and copies of a graph are independent of one another",
 "Every view of a graph, including the default one, has its own progress: operations on one never change what another hands out, a new view and a reset view start from the beginning, and a copied view continues from the same point independently. A copy of a graph duplicates its nodes, edges and default progress, and from then on no operation on either one or their views affects the other. A closed view refuses every operation with ValueError.",
 ["histories"], "every history of view/copy/reset/close/graph-copy interleaved with add/remove/ready/done over small graphs",
 "Tests copy one or two views at one point in time.",
 ["big/graph.py"], [("view registration", "big/graph.py:TopologicalSorter.View.__init__/copy/reset/close"), ("graph copy", "big/graph.py:TopologicalSorter.copy")])

prop("C09", "State transitions run exit, observers, enter in the documented order, once",
 "Each assignment of a state runs, exactly once and in this order: the old state's exit hook, every observer present when observers start running, and (after the change is complete) the new state's enter hook; during exit hook and observers the manager still shows the old state and the pending next state, and during the enter hook the new state and no next state. Starting a transition during exit or observers, or to the very object that is current, raises TransitionError, None raises ValueError and a wrong class TypeError, each leaving the manager unchanged; starting one from an enter hook is allowed. If an exit hook or observer raises, the exception propagates, the state is unchanged and the manager is not left in transition.",
 ["histories", "fault_sequences"], "every history of assignments, nested assignments from hooks and observers, observer list changes and exceptions at every callback, for every configuration of hook names and state class",
 "Tests script a few machines; nested transitions, exceptions at each callback point and observer changes mid-transition multiply.",
 ["big/state.py"], [("transition protocol", "big/state.py:StateManager.state (setter)"), ("observer snapshot", "big/state.py:StateManager.state (setter)")])

prop("C10", "Accessors and dispatched methods always act on the current state",
 "A class given a state accessor reads and assigns its manager's state exactly as the manager itself would, under any configured attribute names. A dispatched method calls, on whatever the current state is at the moment of each call, the method of the configured prefix, name and suffix with exactly the given positional and keyword arguments, and returns its result or propagates its exception. Decorating keeps each decorated method's own name, documentation and signature, also when one decorator is reused.",
 ["histories", "configurations"], "every history of transitions and calls over several machines and states, every combination of attribute names, prefix, suffix and argument shapes",
 "Tests call one or two dispatched methods per configuration.",
 ["big/state.py"], [("accessor property", "big/state.py:accessor"), ("dispatch wrapper", "big/state.py:dispatch")])

prop("C11", "Bound inner classes bind to their outer instance, whatever the inheritance",
 "Accessed through an instance, an inner class marked as bound yields one and the same class every time for that instance and different classes for different instances; calling it passes that instance as the first constructor argument after self, at every level of inner class inheritance, for every arrangement of parent and child inner and outer classes, and in every order of first access. A copy of an outer instance is another instance, with bound classes of its own. Accessed through the outer class it is the plain class (whose name, documentation and annotations the bound one has), isinstance and issubclass relations of the plain classes carry over (for bound classes of the same instance), a child bound class that derives from a bound parent sees the parent bound to the same instance, and unbound inner classes do not receive the instance while still inheriting from the bound one. Binding keeps no outer instance alive.",
 ["configurations", "histories"], "every small hierarchy of outer classes and inner classes (bound, unbound or undecorated, single and multiple inheritance) and every order of accessing and instantiating them from several instances",
 "Tests build a few fixed hierarchies and access them in one order; caching and base rewriting depend on the order and arrangement.",
 ["big/boundinnerclass.py"], [("descriptor and cache", "big/boundinnerclass.py:BoundInnerClass/_BoundInnerClassBase.__get__"), ("base rewriting", "big/boundinnerclass.py:_BoundInnerClassBase")])

prop("C12", "Versions are totally ordered as in PEP 440; equality agrees with order and hash",
 "Over all versions, exactly one of less-than, equal and greater-than holds, less-than is transitive, equal versions have equal hashes, and equality coincides with denoting the same version (unspecified epoch or serial counts as zero, trailing zero release numbers and the spelling of markers do not matter). The order is that of PEP 440: by epoch, release numbers, then alpha, beta, release candidate, final, post, with development releases before and local versions after, where the project documents no deviation. Sorting therefore gives the same result from any starting permutation, and comparison with any other type is refused or unequal.",
 ["inputs"], "all versions over a grid of epochs, releases, pre-release levels and serials, post, dev and local parts, built from strings and from keyword arguments; all pairs and triples",
 "Tests sort one list; consistency laws quantify over all pairs and triples.",
 ["big/version.py"], [("comparison tuple", "big/version.py:Version.__init__/_tuple/__eq__/__lt__/__hash__")])

prop("C13", "Parsing and printing versions agree with each other and with PEP 440",
 "Every string in the PEP 440 grammar, in any letter case and with any permitted separators, spellings and omitted numbers, is accepted and yields the fields it denotes, and everything else is refused with ValueError. The printed form is the normalized PEP 440 form: parsing it gives an equal version with the same fields that prints identically, and evaluating the debugging form likewise reproduces the version. Building the same fields by keyword gives an equal version, and illegal or contradictory arguments are refused.",
 ["inputs"], "every string assembled from the grammar's tokens up to the bound (all spellings, cases, separators), every single-character corruption of them, and every keyword grid",
 "Tests list a few dozen strings; the grammar's optional parts multiply to tens of thousands of forms.",
 ["big/version.py"], [("pattern and normalization", "big/version.py:Version.__init__"), ("printing", "big/version.py:Version.__str__/__repr__")])

prop("C14", "Splitting by multiple separators cuts exactly at separators and loses nothing",
 "For every string, set of separators and combination of options, splitting yields the pieces between separators found by scanning from the chosen end and always taking the longest separator that matches, with consecutive separators merged or not, ends stripped, and at most the requested number of splits, exactly as documented. With separators kept (attached, alternating, or in pairs), concatenating the pieces of an unstripped split reproduces the string exactly. The result is the same for every order and container of separators, for text and bytes alike.",
 ["inputs", "configurations"], "every string up to length n over a small alphabet, every set of up to three separators of length up to three (overlapping and prefix-related), every keep/separate/strip/maxsplit/reverse setting",
 "Tests pin a few hundred examples out of an option space in which each option changes the meaning of the others.",
 ["big/text.py"], [("scanner and regrouping", "big/text.py:multisplit"), ("separator regex, longest first", "big/text.py:_separators_to_re")])

prop("C15", "Splitting and partitioning generalize Python's own string methods",
 "With the documented settings, splitting reproduces str.split, str.rsplit and str.splitlines (and the bytes versions) on every input; partitioning by several separators returns the text before, the first (or last) separator found and the text after, reproduces str.partition and str.rpartition for one separator, for any repeat count returns exactly 2*count+1 pieces, and concatenating those pieces always reproduces the input.",
 ["inputs"], "every string up to length n over an alphabet of letters, whitespace and line breaks, every separator set and count within the bound",
 "Tests compare a few fixed strings with the standard methods.",
 ["big/text.py"], [("partition", "big/text.py:multipartition/multirpartition"), ("split equivalences", "big/text.py:multisplit")])

prop("C16", "Stripping and whitespace normalization touch separators only, and all of them",
 "Stripping by several separators removes from the chosen ends nothing but whole separators and leaves no separator at those ends, equals str.strip, lstrip or rstrip for single-character separators, and changes nothing else. Normalizing whitespace replaces every maximal run of separators, including at the ends, by exactly one replacement and leaves all other text unchanged.",
 ["inputs"], "every string up to length n over a small alphabet including newlines, every separator set within the bound, text and bytes",
 "Tests try a handful of strings; ends, newlines and overlapping separators are where the cases hide.",
 ["big/text.py"], [("strip", "big/text.py:multistrip"), ("normalize", "big/text.py:normalize_whitespace")])

prop("C17", "Regex partitioning splits at the actual match; reversed search mirrors",
 "Partitioning by a regular expression returns the text before the first match (for the reversed form, the rightmost match), the match object of that very match, and the text after it, for any pattern including anchors, look-around and empty matches and any repeat count; pieces and matched texts concatenate to the input, and without a match the piece placement is str.partition's or str.rpartition's. Searching for matches in reverse yields non-overlapping matches strictly from right to left, each the match ending rightmost before the previous one and of the longest extent the pattern allows there, with correct spans.",
 ["inputs"], "every string up to length n over a small alphabet against every pattern of a family covering alternation, repetition, anchors, look-around, boundaries and empty matches, and every count within the bound",
 "Tests use a few simple patterns whose matched text occurs only once.",
 ["big/text.py"], [("partition", "big/text.py:re_partition/re_rpartition"), ("reverse search", "big/text.py:reversed_re_finditer")])

prop("C18", "Splitting quoted strings respects quotes and escapes and loses nothing",
 "For every text, splitting it into quoted and unquoted segments yields segments whose leading quote, text and trailing quote concatenate to the original, in which quotes open and close exactly as a left-to-right scan with the given quote marks, multi-line quote marks and escape says (an escape protects the following character or quote mark only inside quotes). An ordinary quote still open at a line break or at the end is reported or left open as documented. Splitting a text piecewise, passing on the state left by each piece, gives the same segmentation as splitting it whole.",
 ["inputs", "histories"], "every text up to length n over quote marks (one and three characters), escape, newline and letters, every configuration of quotes, multiline quotes and escape, and every way of cutting a text in two",
 "Tests check a dozen sentences.",
 ["big/text.py"], [("quote scanner", "big/text.py:split_quoted_strings")])

prop("C19", "Splitting at delimiters tracks nesting, quoting and escapes exactly",
 "For every text and set of delimiter pairs, splitting yields pieces whose text, opening and closing delimiters concatenate to the original, where exactly the delimiters not inside a quoting pair and not escaped open and close, matched as by a stack. A closing delimiter that does not match the innermost open one is an error, as is a text that ends inside a quoting delimiter that may not span lines where the documentation says so; starting with a given stack of open delimiters behaves as if their openings came first; an escape string outside the quoting pair that defines it is an error too, and invalid delimiter configurations are refused.",
 ["inputs", "configurations"], "every text up to length n over brackets, quotes, escapes, newline and letters, every delimiter configuration of a family including multi-character delimiters, and every initial stack",
 "Tests parse a few snippets.",
 ["big/text.py"], [("pushdown scanner", "big/text.py:split_delimiters"), ("configuration checks", "big/text.py:Delimiter, delimiter tables")])

prop("C20", "Through any chain of line modifiers each line can be reconstructed and located",
 "For every text and every chain of line modifiers, each line's record keeps the original line and its line number, and its leading, current text, trailing and end-of-line parts concatenate to that original line as long as only stripping modifiers were applied. Its column number is the column, tabs expanded, at which the current text starts in the original line. No modifier alters, duplicates or reorders lines beyond what it documents, and the original line breaks and text can be recovered completely from an unfiltered chain.",
 ["inputs", "configurations"], "every text up to length n over letters, spaces, tabs, comment and quote marks and line breaks, through every chain of modifiers up to the bound, for several starting line and column numbers and tab widths",
 "Tests run a few chains on a few texts; chains compose freely.",
 ["big/text.py"], [("line records", "big/text.py:LineInfo, lines"), ("modifiers", "big/text.py:lines_strip, lines_rstrip, lines_strip_indent, lines_strip_line_comments, ...")])

prop("C21", "Line comments are removed where they begin and only there",
 "Stripping line comments cuts each line at the first comment marker that is not inside a quoted string and nowhere else, leaving the text before it, and lines without comments, untouched; quotes and escapes are honoured as documented, multi-line quotes carry over to following lines, and an unterminated ordinary quote is reported as SyntaxError. Filtering comment lines drops exactly the lines whose first non-whitespace text is a comment marker.",
 ["inputs", "configurations"], "every text up to length n over letters, spaces, markers (one and two characters, prefixes of one another), quotes, escapes and newlines, for every configuration of markers and quotes, text and bytes",
 "Tests use a few lines of sample source.",
 ["big/text.py"], [("comment stripping", "big/text.py:lines_strip_line_comments"), ("comment filtering", "big/text.py:lines_filter_line_comment_lines")])

prop("C22", "Indentation levels follow the indent/dedent discipline of nested blocks",
 "Stripping indents assigns each line the nesting level that a stack of indentation columns (tabs expanded) gives, level zero for unindented lines, one more per deeper indent and back to an enclosing level on dedent; a dedent to a column that was never an indent raises IndentationError. Blank lines get a level consistent with the lines around them as documented, and the text after the indent is unchanged.",
 ["inputs"], "every sequence of up to n lines, each with every combination of spaces and tabs up to the bound, blank or not, for several tab widths and starting columns",
 "Tests use one sample program.",
 ["big/text.py"], [("indent stack", "big/text.py:lines_strip_indent")])

prop("C23", "Word wrapping keeps every word in order and within the margin",
 "Splitting text into words and wrapping them keeps every word and every code line exactly, in order, with paragraph and line breaks where the words ask for them; no wrapped line exceeds the margin unless it is a single word that cannot fit, no line is broken while the next word would still have fit, words are separated by one space, or two after sentence-ending punctuation exactly when asked. Code lines (indented ones) are preserved verbatim and never re-flowed.",
 ["inputs"], "every word sequence up to the bound over word lengths, punctuation and break tokens for every small margin, and every text up to length n over letters, spaces, tabs and newlines",
 "Tests wrap a few paragraphs.",
 ["big/text.py"], [("wrapping", "big/text.py:wrap_words"), ("splitting", "big/text.py:split_text_with_code, _column_wrapper_splitter")])

prop("C24", "Merging columns keeps each column's text in its place",
 "Merging columns of text puts the lines of every column, in order and complete, side by side: each column starts at the same offset on every line, is at least its minimum and at most its maximum width unless overflowing, and nothing of any column is lost, reordered or overwritten. Overflowing lines are handled by the selected strategy (error, or delaying or pausing the columns to the right until the overflow is past) as documented.",
 ["inputs", "configurations"], "every combination of up to three columns of short lines around the width limits with every strategy and overflow margins",
 "Tests merge a few fixed columns.",
 ["big/text.py"], [("merging", "big/text.py:merge_columns")])

prop("C25", "Numbers are spelled out correctly and unambiguously",
 "Every integer is converted to its English name, cardinal or ordinal, with or without flowery punctuation: reading the name back by the rules of English gives the same number, different numbers never share a name, the ordinal differs from the cardinal only in its last word, and negative numbers are the positive name with 'negative' in front. Numbers of 10**75 and more are given in digits, and zero is zero.",
 ["inputs"], "every integer up to a bound and every combination of three-digit groups at group boundaries up to beyond the largest named power, both signs, all options",
 "Tests check some dozens of numbers.",
 ["big/text.py"], [("conversion", "big/text.py:int_to_words")])

prop("C26", "Timestamps denote the same instant whatever form the time was given in",
 "The computer-readable timestamp of a moment is valid RFC 3339 in UTC and denotes that moment to the second or microsecond requested, whichever representation (integer or floating seconds, aware or naive date-time, time tuple) and local time zone it was given in; parsing it returns an aware date-time equal to the moment. The human-readable timestamp shows the same moment in the local zone. Setting or ensuring a time zone changes nothing but the time zone, and ensuring it never changes an aware date-time.",
 ["inputs", "configurations"], "a grid of instants around epochs, day, year, century and daylight-saving changes, every representation, every microseconds option, several local time zones",
 "Tests use one moment in one time zone.",
 ["big/time.py"], [("conversion", "big/time.py:timestamp_3339Z/timestamp_human"), ("parsing", "big/time.py:parse_timestamp_3339Z"), ("zones", "big/time.py:datetime_set_timezone/datetime_ensure_timezone")])

prop("C27", "File helpers leave the file system as documented from every starting state",
 "From every starting state of the path (missing, file, directory, link, missing parent) ensuring a directory, safely unlinking and touching leave exactly the documented result, are idempotent and affect nothing else. Temporarily changed directories nest arbitrarily and are restored on every exit, by exception included, even if the directory was changed meanwhile. Searching a file returns exactly the matching lines, complete and numbered from one, the same for text, bytes and every kind of path.",
 ["histories", "inputs"], "every sequence of operations over a small tree in a scratch directory, every nesting of directory changes with exceptions at each point, every small file content and pattern",
 "Tests try each helper once or twice.",
 ["big/file.py"], [("helpers", "big/file.py:safe_mkdir/safe_unlink/touch/pushd"), ("search", "big/file.py:grep/fgrep")])

prop("C28", "Number conversions never fail: they convert, or give the default",
 "Asking whether a value converts to an integer or float never raises and is true exactly when the conversion itself would succeed. Converting with a default returns the converted value when conversion succeeds and otherwise the default, or the value itself if no default was given, whatever the value or default. The combined conversion returns integers unchanged, converts any other value but a float with int() if that succeeds, otherwise takes it as a float, which it returns as an integer if it is whole and unchanged if not (infinities and not-a-number included), and otherwise gives the default.",
 ["inputs"], "every string up to length n over digits, sign, point, exponent, underscore, space and letters, and a family of numbers (infinities, not-a-number, huge integers), containers and objects with unusual conversions and comparisons, with every default",
 "Tests check a few values.",
 ["big/builtin.py"], [("conversions", "big/builtin.py:try_int/try_float/get_int/get_float/get_int_or_float")])

prop("C29", "Combined and title-case splits cut where they should and lose nothing",
 "Combining several ways of splitting the same string yields its finest common refinement: the string is cut at exactly the union of their cut points, nothing lost or empty, in whatever order the splits are given. Splitting a title-case or camel-case string yields pieces that concatenate to the string, cut before every upper-case letter that starts a new word, with runs of capitals kept together or split according to the option.",
 ["inputs"], "every string up to length n and every set of up to three (four) splits of it; every string over upper-case, lower-case and caseless characters up to length n, text and bytes",
 "Tests check a few examples.",
 ["big/text.py"], [("combining", "big/text.py:combine_splits"), ("title case", "big/text.py:split_title_case")])

prop("C30", "Gentle title-casing capitalizes word starts and changes nothing else",
 "Gentle title-casing changes only the case of letters that start a word, where a word starts at the beginning, after white space or an opening parenthesis, or after an opening quotation mark, never after an apostrophe inside a word; every other character, including existing capitals, is unchanged. It is idempotent, and the same for text and bytes and for every configured set of quote characters.",
 ["inputs", "configurations"], "every string up to length n over letters, spaces, parentheses, quotes and apostrophes, for each quote configuration",
 "Tests check some sentences.",
 ["big/text.py"], [("capitalization", "big/text.py:gently_title")])

prop("C31", "A log reports every event in order with exact times and nesting",
 "For every sequence of logging, entering, exiting and resetting under any non-decreasing clock, iterating a log yields exactly the events since the last reset, in order, with start times relative to the reset, the elapsed time until the next event (zero for the last) and the nesting depth at that moment. The printed log shows the same events with times that read as exactly those values at the requested precision and with matching indentation.",
 ["histories", "inputs"], "every operation sequence up to the bound with clock steps from zero to many seconds, every print option of a grid",
 "Tests log a few milliseconds' worth of events.",
 ["big/log.py"], [("recording", "big/log.py:Log.__call__/enter/exit/reset"), ("printing", "big/log.py:Log.print")])

prop("C32", "Text functions treat bytes exactly as the corresponding ASCII text",
 "Every text-processing function that accepts bytes gives, for ASCII bytes, exactly the bytes image of what it gives for the same text, with the default arguments as well as with explicit ones. Mixing text and bytes in one call is refused with TypeError (ValueError for a Delimiter or a state).",
 ["inputs"], "every ASCII string up to length n over a mixed alphabet, through every text function with default and explicit arguments",
 "Tests run bytes variants of selected examples.",
 ["big/text.py"], [("bytes handling", "big/text.py: multisplit, lines, split_quoted_strings, gently_title, ...")])

prop("C33", "Character tables and file-name translations are right for every character",
 "The tables of whitespace and line-break sequences for text, bytes, ASCII and Unicode contain exactly what Python (or the standard they are named after) treats as such, for every code point, with the DOS pair included or not as named. Translated file names contain no character illegal in the target file system, keep every legal character, and translating twice changes nothing more.",
 ["inputs"], "all 1,114,112 code points, all 256 bytes, and all pairs over the special characters",
 "Tests compare the tables on selected ranges and translate two sample names.",
 ["big/text.py", "big/file.py"], [("tables", "big/text.py: whitespace, linebreaks, ..."), ("translation", "big/file.py:translate_filename_to_exfat/translate_filename_to_unix")])

prop("C34", "Line filters keep exactly the lines they describe, in order",
 "Filtering or selecting lines by substring or pattern, dropping blank lines, sorting, stripping and re-encoding keep or reorder exactly the lines the corresponding built-in test, sort or strip says, unchanged otherwise and with their original line numbers. Lines are numbered consecutively from the requested start, are cut at exactly the line breaks of the chosen separators, and multi-line processing sees each exactly once.",
 ["inputs", "configurations"], "every text up to length n over letters, whitespace and several kinds of line breaks, every filter, inversion and separator choice",
 "Tests filter one sample text.",
 ["big/text.py"], [("filters", "big/text.py: lines_containing, lines_grep, lines_sort, lines_filter_empty_lines, lines_strip, lines_rstrip, lines_convert_tabs_to_spaces")])

prop("C35", "The deprecated interfaces still do exactly what they document",
 "The old split_quoted_strings yields segments that join to the text, quoted exactly where a quote mark opened one (with triple quotes and escapes as requested); the old parse_delimiters yields the text around every delimiter and raises ValueError exactly for mismatched and unclosed ones; the old lines_strip_comments truncates each line at its first comment marker outside quotes. All for text and bytes alike and for every kind of iterable of quotes, delimiters and markers. The old names of the whitespace and line-break tables name the same characters as the new ones.",
 ["inputs", "configurations"], "every string up to length n over the special characters and a letter for each configuration, text and bytes",
 "Tests check a few examples of each.",
 ["big/deprecated.py"], [("quotes", "big/deprecated.py:split_quoted_strings"), ("delimiters", "big/deprecated.py:parse_delimiters"), ("comments", "big/deprecated.py:lines_strip_comments"), ("names", "big/deprecated.py: newlines, utf8_whitespace, ...")])

prop("C36", "Results depend on the arguments alone, not on earlier or concurrent calls",
 "Every text, version, number and time function gives the same result whatever was called before it, however its lazy result is interleaved with others that are consumed at the same time, and whatever call another thread makes while it runs. No function changes the lists, sets, dictionaries or objects passed to it, and one that is called again after its caller changed such an argument uses the changed argument.",
 ["histories", "schedules"], "every history of two or three calls of a list of calls with shared arguments, every interleaving of two lazy calls, every place in a call at which another thread may run a whole call",
 "Tests run in one order in one thread; caches and shared state show only in particular sequences of calls.",
 ["big/text.py", "big/deprecated.py", "big/version.py", "big/time.py", "big/builtin.py"], [("cached patterns", "big/text.py:_separators_to_re"), ("cached delimiters", "big/text.py:_delimiters_to_state_and_tokens"), ("lazy results", "big/text.py: multisplit, lines, split_quoted_strings, split_delimiters, ...")])

prop("C37", "The modules are the same library however they are imported",
 "Every module can be imported first, alone or after any others, whichever of the optional packages (regex, dateutil, graphlib) are missing and whatever the optimization level, and then offers every name documented for it (parse_timestamp_3339Z only with dateutil), which do the same for valid arguments in all these configurations. Importing everything from big.all gives every name exported by every module except the deprecated ones, and the very same objects. No import changes a module imported earlier, a standard module or the builtins, and no exported name hides a builtin.",
 ["histories", "configurations"], "every order of importing up to three of the modules, every set of missing optional packages, every optimization level",
 "Tests import everything in one order in one configuration with all packages present.",
 ["big/all.py", "big/__init__.py", "big/metadata.py", "big/text.py", "big/time.py", "big/graph.py"], [("re-exports", "big/all.py"), ("optional packages", "big/text.py, big/time.py, big/graph.py: try/except ImportError"), ("version", "big/metadata.py:version")])

prop("C38", "Calling a pure virtual method raises until it is overridden",
 "In every class hierarchy, calling a method raises NotImplementedError if and only if method resolution (including calls of super) reaches a pure virtual definition before a real one, whatever the arguments, through instance or class. The body of a pure virtual method never runs, classes that have one can be instantiated, and the decorated function keeps its name, documentation, annotations and signature.",
 ["histories", "inputs"], "every hierarchy of up to four classes with the method absent, pure virtual, defined or calling super in each, every kind of parameter list",
 "Tests have one base class and one method.",
 ["big/builtin.py"], [("decorator", "big/builtin.py:pure_virtual")])

prop("C39", "The caller's exceptions get through, and nothing is lost or half done",
 "When an iterable, iterator, clock, print function, sort key or class that the caller supplies raises an exception of any type, that very exception reaches the caller, and what was yielded before is the beginning of what would have been yielded. The object called is then as if the call had not been made (a heap extended by an iterable that raises may have gained the values yielded before): a heap is in order, a topological sorter and its views go on without the refused call, a pushback iterator loses no value, a log no event, and an instance no bound inner class. The next use of it works as if nothing had happened.",
 ["fault_sequences", "histories", "inputs"], "every operation sequence up to a depth with an exception injected at every point at which the caller's code runs, for 13 types of exceptions",
 "Tests never let the caller's code raise.",
 ["big/heap.py", "big/itertools.py", "big/graph.py", "big/log.py", "big/text.py", "big/boundinnerclass.py", "big/deprecated.py"], [("extending a heap", "big/heap.py:Heap.extend"), ("adding to a graph", "big/graph.py:TopologicalSorter.add"), ("wrapped iterator", "big/itertools.py:PushbackIterator"), ("bound class", "big/boundinnerclass.py:_Worker.__get__")])

prop("C40", "Instances of subclasses of str and bytes count as the strings they are",
 "Wherever a function takes a string, it takes an instance of any subclass of str or bytes (members of an enumeration of strings included, and also as keys and values in containers) and gives the same result as for the plain string. Splitting, partitioning, stripping, normalizing white space and dividing into lines return only plain str and bytes objects even then.",
 ["inputs"], "every call of a list with every subset of its strings, and those in its containers, replaced by instances of three kinds of subclasses",
 "Tests pass subclasses to a few functions, for all arguments at once, and mostly compare only for equality.",
 ["big/text.py", "big/file.py", "big/version.py", "big/deprecated.py"], [("conversion", "big/text.py:multisplit"), ("separators", "big/text.py:multistrip"), ("lines", "big/text.py:lines.__next__")])

prop("C41", "No size at which containers, graphs, logs or text functions stop working",
 "What Heap, PushbackIterator, Scheduler, Log, TopologicalSorter, StateManager, bound inner classes and the text and file functions do doesn't depend on the size of what they're given: with many items, nodes, nested logs, states, separators, delimiters, lines, words, columns, splits or directories, or long ones, each still gives the result its documentation describes. No function fails or slows down to no answer at some length, count or depth.",
 ["inputs", "histories"], "31 families of inputs with results known in advance, each at every size from 0 to 300 [1300] and around powers of two and ten up to 10001 or 65537 (a few families less)",
 "Tests use a few small inputs; limits of recursion, block sizes, caches and counters show only at particular sizes.",
 ["big/heap.py", "big/itertools.py", "big/scheduler.py", "big/log.py", "big/graph.py", "big/state.py", "big/text.py", "big/file.py"], [("containers", "big/heap.py:Heap.__getitem__"), ("graphs", "big/graph.py:TopologicalSorter.cycle"), ("splitting", "big/text.py:multisplit"), ("delimiters", "big/text.py:split_delimiters")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
if __name__ == "__main__":
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P))
