r"""More calls for C36, one expression per line; the names are those of environment() in c36.py."""

EXTRA = [c.strip() for c in r"""
T.multisplit(b"aabab b", LB, keep=True)
T.multisplit(b"aabab b", LB, keep=T.ALTERNATING, reverse=True)
T.multisplit(b"aabab b", LB, separate=True, strip=T.LEFT)
T.multisplit(b"aabab b", b"ab")
T.multisplit(b" a\tb\r\nc", reverse=True, keep=T.AS_PAIRS)
T.multisplit(" a\tb\r\nc\r\n", reverse=True, keep=True)
T.multisplit(" a\tb\r\nc", T.linebreaks, reverse=True)
T.multisplit(" a\tb\r\nc", T.unicode_whitespace, separate=True)
T.multisplit("xaaab", ("aa", "ab"), reverse=True, keep=True)
T.multisplit("xbaaa", ("aa", "ba"), reverse=True, keep=True)
T.multistrip(b"babcab", b"ab")
T.multistrip("babcab", "ab", left=False)
T.multistrip("babcab", ("ba",))
T.multipartition(b"cabcbc", LB, 2, reverse=True)
T.multirpartition("cabcbc", L, 3, separate=False)
T.re_partition("caabAc", "a+", 3)
T.re_partition("caabAc", "A", flags=re.I)
T.re_partition("caabAc", "A")
T.re_rpartition(b"caabac", RB, 2)
T.re_rpartition("caabAc", "A", flags=re.I)
T.reversed_re_finditer("A", "caabAc", re.I)
T.reversed_re_finditer("A", "caabAc")
T.reversed_re_finditer("a*", "caabac")
T.normalize_whitespace(b" a  b ", LB, b"-")
T.normalize_whitespace(" a  b ", None, "")
T.normalize_whitespace(" a\r\nb\x1cc", T.unicode_whitespace)
T.split_quoted_strings("a'b\\'c' d", ("'",), escape="")
T.split_quoted_strings("a'b\\'c' d", "'")
T.split_quoted_strings("a'b''c' d", "'", escape="'")
T.split_quoted_strings(b"a'b\nc' d", (), multiline_quotes=b"'")
T.split_quoted_strings(b"a'bxc'' d", b"x", multiline_quotes=(b"'",), state=b"'")
T.split_quoted_strings("a'bxc'' d", "x", multiline_quotes=("'",), state="x")
T.split_delimiters("a(b'd)\\'e')", {"(": T.Delimiter(")"), "'": T.Delimiter("'", quoting=True)})
T.split_delimiters("a(b'd)\\'e')", {"(": T.Delimiter(")", escape="\\"), "'": T.Delimiter("'")})
T.split_delimiters("a<<b>>>c>", {"<<": T.Delimiter(">>"), "<": T.Delimiter(">")})
T.split_delimiters("a<<b>>>c>", {"<": T.Delimiter(">")})
T.split_delimiters("a{b]c", state="[")
T.split_delimiters(b"a{b]c}", state=b"[")
T.lines("aabab", LB)
T.lines(b"aabab", LB, tab_width=3)
T.lines("a\nb", extra=3)
T.lines("a\vb\x85c", T.ascii_linebreaks)
T.lines_strip(T.lines(b" a \n\tb"), LB)
T.lines_rstrip(T.lines("bab c\nab"), L)
T.lines_rstrip(T.lines(b"bab c\nab"), b"b")
T.lines_containing(T.lines(b"ab\nc\nbc"), b"b", invert=True)
T.lines_grep(T.lines(b"ab\nc\nbc"), RB, match="m")
T.lines_grep(T.lines("ab\nc\nbc"), R, invert=True)
T.lines_sort(T.lines("c\na\nb"), key=lambda t: -t[0].line_number)
T.lines_filter_line_comment_lines(T.lines(b"a\n # b\n//\nc"), b"#")
T.lines_filter_line_comment_lines(T.lines("a\n # b\n//\nc"), "/")
T.lines_strip_line_comments(T.lines(b"a 'b#' # c\nd // e"), (b"#", b"//"), quotes=b"'")
T.lines_strip_line_comments(T.lines("a 'b\\'#' # c\nd"), M, quotes=Q, escape="b")
T.lines_strip_line_comments(T.lines("a 'b\n#' # c\nd"), M, multiline_quotes=Q)
T.lines_filter_empty_lines(T.lines(b"a\n\n b"))
T.lines_convert_tabs_to_spaces(T.lines("a\tb\n\tc", tab_width=3))
T.lines_strip_indent(T.lines(b"a\n\tb\n  c\nd", tab_width=4))
T.wrap_words((b"a", b"bb.", b"c", b"\n", b"dd"), 7)
T.wrap_words(["aaa"] * 40)
T.split_text_with_code("a\n  b\n\n    c d", code_indent=2)
T.split_text_with_code(b"a\n\tb\n\n    c d", tab_width=3, convert_tabs_to_spaces=False)
T.merge_columns((b"a b\nc", 2, 4), (b"ddd\ne", 1, 3), column_separator=b"::")
T.merge_columns(("aaa bbb\nc\nd", 2, 3), C2, C, overflow_strategy=T.OverflowStrategy.DELAY_ALL, overflow_after=1)
T.int_to_words(0)
T.int_to_words(True)
T.int_to_words(1)
T.int_to_words(1, ordinal=True)
T.int_to_words(-1234567890123456, flowery=False, ordinal=True)
T.int_to_words(10 ** 80)
T.gently_title(b"a xb' don't \"c\"", apostrophes=b"x")
T.gently_title(b"a 'b' don't xc\"", double_quotes=b"x")
T.gently_title("a xb' don't \"c\"", apostrophes=("x",), double_quotes=("'",))
T.gently_title(b"a 'b' don't \"c\"", apostrophes=[b"'", b"d"])
T.gently_title("a 'b' d'or", apostrophes=())
T.split_title_case(b"aBcDEf", split_allcaps=False)
T.split_title_case("")
T.combine_splits(b"abc", [b"ab", b"c"], [b"a", b"bc"])
T.combine_splits("abcd", ["abc"], ["", "a", "b"], ["ab"])
T.encode_strings({"a": ["\u00e9", {"b"}]}, "utf-8")
T.encode_strings("\u00e9", "latin-1")
T.encode_strings("\u00e9")
T.encode_strings([{"a": ("b", b"c")}, {"d"}])
D.split_quoted_strings("a'b\\'c' \"d\"", Q, backslash=None)
D.split_quoted_strings(b"a'''b'c'''", triple_quotes=False)
D.parse_delimiters("a(b'c\\')')", ["()", D.Delimiter("'", "'", backslash=True, nested=False)])
D.lines_strip_comments(T.lines(b"a '#' # b"), (b"#",), rstrip=False)
V.Version("1.0RC1") < V.Version("1.0")
V.Version("1.0-1+UBUNTU.01")
V.Version(release=(1, 0), epoch=2, local=("A", "02"))
V.Version(release=(1, 0), local=())
V.Version(sys.version_info)
TM.timestamp_3339Z(realtime.gmtime(86400))
TM.timestamp_3339Z(realtime.localtime(86400), want_microseconds=True)
TM.timestamp_3339Z(1.5, want_microseconds=False)
TM.timestamp_human(realtime.gmtime(86400))
TM.timestamp_human(1.5)
TM.timestamp_human(datetime.datetime(2020, 1, 2, 3, 4, 5, 6))
TM.parse_timestamp_3339Z("2020-01-02T03:04:05", timezone=datetime.timezone.utc)
TM.datetime_ensure_timezone(datetime.datetime(2020, 1, 2), datetime.timezone.utc)
TM.datetime_set_timezone(datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone.utc), None)
B.get_int_or_float("1e3")
B.get_int_or_float(1.0)
B.get_int_or_float(True)
B.try_int("x")
B.try_float("1.5")
list(H.Heap())
(lambda h: (h.append(3), h.append(1), h.remove(3), list(h)))(H.Heap())
(lambda h: (h.extend("ba"), h.copy().append("c"), h.queue))(H.Heap("d"))
(lambda h: (h.clear(), h.extend([1, 0]), h.popleft(), list(h)))(H.Heap([5]))
list(I.PushbackIterator())
(lambda p: (p.push(1), next(p), p.push(2), bool(p), list(p)))(I.PushbackIterator())
(lambda p: (p.push(1), next(p), p.push(0), p.push(3), next(p)))(I.PushbackIterator("ab"))
G.TopologicalSorter().ready()
(lambda g: (g.add("a", "b"), list(g.static_order()))[1])(G.TopologicalSorter())
(lambda g: (sorted(g.ready()), g.done(2), g.ready(), bool(g)))(G.TopologicalSorter({1: [2]}))
(lambda g: (g.add(1, 3), g.remove(2), g.view().ready(), g.cycle()))(G.TopologicalSorter({2: [1]}))
(lambda g: (g.view().ready(), g.copy().remove(2), g.ready()))(G.TopologicalSorter({1: [2]}))
(lambda s: (s.observers, s.observers.append(len), s.state)[2])(SM.StateManager("a"))
(lambda s: (s.observers, setattr(s, "state", 2), s.state, s.next))(SM.StateManager(1, on_enter=None, state_class=int))
(lambda l: (l.enter("a"), l("b"), l.exit(), list(l)))(LOG.Log(clock=lambda: 0))
(lambda l: (l.enter("a"), l.reset(), l("b"), list(l)))(LOG.Log(clock=lambda: 7))
(lambda o: (LOG.Log(clock=lambda: 0).print(print=o.append), o))([])
(lambda s: (s.schedule("a", 0), s.schedule("b", 0, priority=1), bool(s), list(s))[2:])(SC.Scheduler())
(lambda s: (s.schedule("a", 1e9).cancel(), bool(s), s.schedule("b", 5) and None, list(s.non_blocking())))(SC.Scheduler())
""".strip().split("\n")]
