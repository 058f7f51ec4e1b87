"""
Reference model of big.text.lines and its modifiers.

A record remembers where the current text sits in the original line (a, b), so
leading, trailing and the column follow from that alone.  Modifiers are
generators over records, as in the real thing, so that a chain of them meets
errors in the same order.  Operations are literals: ("strip", None), ...
"""
import re
import big.text as T
from .core import fail
from .splitmodel import scan, strip_left, strip_right
from . import c18


class Refused(Exception):
    def __init__(self, kind, line, column):
        self.kind, self.line, self.column = kind, line, column


class Rec:
    __slots__ = "orig end number a b text start tw indent match converted lead".split()

    def __init__(self, orig, end, number, start, tw):
        self.orig, self.end, self.number, self.start, self.tw = orig, end, number, start, tw
        self.a, self.b, self.text = 0, len(orig), orig
        self.indent, self.match, self.converted, self.lead = 0, None, False, orig[:0]

    def column(self, i=0):
        return self.start + len((self.lead + self.text[:i]).expandtabs(self.tw))

    def cut(self, i, j):
        "keep text[i:j] only"
        if (i, j) == (0, len(self.text)):
            return
        self.lead += self.text[:i]
        self.text = self.text[i:j]
        if not self.text:
            self.a, self.b = 0, 0          # everything counts as trailing
            self.lead = self.text
        elif not self.converted:
            self.b = self.a + j
            self.a += i


def ws(text):
    return [c for c in (T.bytes_whitespace if isinstance(text, bytes) else T.whitespace)]


def by_length(seps):
    if isinstance(seps, bytes):
        seps = [seps[i:i + 1] for i in range(len(seps))]
    return sorted(seps, key=len, reverse=True)


def op_strip(li, seps, left=True):
    for r in li:
        t = r.text
        if seps is None:
            r.cut(len(t) - len(t.lstrip()) if left and t.strip() else 0, len(t.rstrip()))
        else:
            s = by_length(seps)
            i = strip_left(t, s) if left else 0
            j = strip_right(t, s, i)
            r.cut(i, j)
        yield r


def op_rstrip(li, seps):
    return op_strip(li, seps, False)


def op_tabs(li):
    for r in li:
        new = r.text.expandtabs(r.tw)
        if new != r.text:
            r.text = new
            r.converted = True
        yield r


def op_noempty(li):
    return (r for r in li if r.text)


def op_contains(li, s, invert=False):
    return (r for r in li if (s in r.text) != invert)


def op_grep(li, pattern, invert=False):
    for r in li:
        m = re.search(pattern, r.text)
        if bool(m) != invert:
            r.match = m and m.span()
            yield r


def op_sort(li, reverse=False):
    l = list(li)
    # stable, also in reverse, like list.sort
    out = []
    for r in l:
        i = len(out)
        while i and (out[i - 1].text < r.text if reverse else out[i - 1].text > r.text):
            i -= 1
        out.insert(i, r)
    yield from out


def op_nocomments(li, markers):
    if isinstance(markers, bytes):
        markers = by_length(markers)
    return (r for r in li if not any(r.text.lstrip().startswith(m) for m in markers))


def op_indent(li):
    stack = []
    blank = []
    for r in li:
        t = r.text
        if not t.strip():
            r.cut(0, 0)
            blank.append(r)
            continue
        r.cut(len(t) - len(t.lstrip()), len(t))
        column = r.column()
        if column == r.start:
            stack = []
        elif not stack or column > stack[-1]:
            stack.append(column)
        elif column not in stack:
            raise Refused("IndentationError", r.number, column)
        else:
            while stack[-1] != column:
                stack.pop()
        r.indent = len(stack)
        for x in blank:
            x.indent = len(stack)
        yield from blank
        blank = []
        yield r
    for x in blank:
        x.indent = 0
    yield from blank


def find_comment(t, markers, quotes, multi, escape, state):
    "(place of the comment or None, quote left open, place where it was opened)"
    segments = c18.model(t, quotes, multi, escape, state)[0] if quotes or multi else [(t[:0], t, t[:0])]
    i = 0
    opened = None
    for k, (lead, text, close) in enumerate(segments):
        if lead:
            opened = None if close else i
            quote = lead
        elif k == 0 and state:
            if not close:
                return None, state, None
        else:
            places = [text.find(m) for m in markers if m in text]
            if places:
                return i + min(places), None, None
        i += len(lead) + len(text) + len(close)
    if not segments and state:
        return None, state, None
    if opened is not None:
        return None, quote, opened
    return None, None, None


def op_comments(li, markers, quotes=(), multi=(), escape="\\"):
    state = None
    for r in li:
        t = r.text
        e = t[:0]
        m, q, mq = ((by_length(x) if x else ()) for x in (markers, quotes, multi))
        esc = escape
        if isinstance(t, bytes) and isinstance(esc, str):
            esc = esc.encode()
        place, left, opened = find_comment(t, m, q, mq, esc, state or e)
        if opened is not None:
            where = r.number, r.column(opened) if not r.converted else None
            if left not in mq:
                raise Refused("SyntaxError", *where)
        state = left
        if place is not None:
            r.cut(0, place)
        yield r
    if state:
        raise Refused("SyntaxError", *where)


MODEL = {"strip": op_strip, "rstrip": op_rstrip, "tabs": op_tabs, "noempty": op_noempty, "contains": op_contains, "grep": op_grep, "sort": op_sort, "nocomments": op_nocomments, "indent": op_indent, "comments": op_comments}

REAL = {
    "strip": T.lines_strip,
    "rstrip": T.lines_rstrip,
    "tabs": T.lines_convert_tabs_to_spaces,
    "noempty": T.lines_filter_empty_lines,
    "contains": lambda li, s, invert=False: T.lines_containing(li, s, invert=invert),
    "grep": lambda li, p, invert=False: T.lines_grep(li, p, invert=invert),
    "sort": lambda li, reverse=False: T.lines_sort(li, reverse=reverse),
    "nocomments": T.lines_filter_line_comment_lines,
    "indent": T.lines_strip_indent,
    "comments": lambda li, m, q=(), mq=(), esc="\\": T.lines_strip_line_comments(li, m, quotes=q, multiline_quotes=mq, escape=esc),
}

BREAKS = sorted(T.linebreaks, key=len, reverse=True)
BYTES_BREAKS = sorted(T.bytes_linebreaks, key=len, reverse=True)


def cut_lines(s, seps=None):
    if seps is None:
        seps = BYTES_BREAKS if isinstance(s, bytes) else BREAKS
    out = []
    i = 0
    for a, b in scan(s, by_length(seps), False):
        out.append((s[i:a], s[a:b]))
        i = b
    out.append((s[i:], s[:0]))
    return out


def model_lines(pairs, number=1, column=1, tw=8):
    for k, (line, end) in enumerate(pairs):
        yield Rec(line, end, number + k, column, tw)


def drain(it):
    out = []
    try:
        for x in it:
            out.append(x)
    except Refused as e:
        return out, (e.kind, e.line, e.column)
    except (SyntaxError, IndentationError) as e:
        m = re.search(r"\bline (-?\d+),? column (-?\d+)", str(e), re.I)
        return out, (type(e).__name__, int(m.group(1)) if m else None, int(m.group(2)) if m else None)
    return out, None


def compare(real, model, what, source=None):
    """real: a chain of modifiers; model: the same chain of the model. Returns the number of lines."""
    want, wanterror = drain(model)
    got, goterror = drain(real)
    if (goterror and goterror[:2]) != (wanterror and wanterror[:2]):
        fail(f"{what}: error {goterror}, expected {wanterror}")
    if wanterror and wanterror[2] is not None and goterror[2] != wanterror[2]:
        fail(f"{what}: error says column {goterror[2]}, expected {wanterror[2]}")
    if [t for i, t in got] != [r.text for r in want]:
        fail(f"{what}: lines {[t for i, t in got]!r}, expected {[r.text for r in want]!r}")
    for (info, text), r in zip(got, want):
        w = f"{what}: line {r.orig!r}"
        if type(text) is not type(r.text):
            fail(f"{w}: {text!r} is a {type(text).__name__}")
        if info.line_number != r.number:
            fail(f"{w}: line_number {info.line_number}, expected {r.number}")
        if info.line != r.orig + r.end or info.end != r.end:
            fail(f"{w}: info.line {info.line!r}, end {info.end!r}, expected {r.orig + r.end!r}, {r.end!r}")
        if info.indent != r.indent:
            fail(f"{w}: indent {info.indent}, expected {r.indent}")
        if (info.match and info.match.span()) != r.match:
            fail(f"{w}: match {info.match}, expected {r.match}")
        if source is not None and info.lines is not source:
            fail(f"{w}: info.lines is not the lines object")
        if not r.converted:
            if info.leading + text + info.trailing + info.end != info.line:
                fail(f"{w}: leading {info.leading!r} + {text!r} + trailing {info.trailing!r} + end {info.end!r} is not {info.line!r}")
            if (info.leading, info.trailing) != (r.orig[:r.a], r.orig[r.a + len(text):]):
                fail(f"{w}: leading {info.leading!r}, trailing {info.trailing!r}, expected {r.orig[:r.a]!r}, {r.orig[r.a + len(text):]!r}")
        if info.column_number != r.column():
            fail(f"{w}: column_number {info.column_number} for text {text!r}, expected {r.column()}")
    return len(got)
