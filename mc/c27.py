"""C27: file helpers: all short operation sequences on a small tree against a model of the file system, all nestings of pushd, all small files for grep."""
import itertools
import zlib
import os
import pathlib
import re
import shutil
import stat
import sys
import tempfile
import time
from .core import Part, fail, expect, outcome
import big.file
from big.file import fgrep, grep, pushd, safe_mkdir, safe_unlink, touch, file_size, file_mtime, file_mtime_ns

ASSUMPTIONS = ["the file system is the sandbox's (POSIX, case sensitive); errors like a read-only file system are not injected",
               "what a path is that is neither file nor directory (fifo, dangling link) safe_mkdir may refuse, then changing nothing",
               "binary search splits at line feeds only, text search by universal newlines, as open() does"]

OLD = 10 ** 18          # 2001
SCRATCH = None


def setup(k):
    global SCRATCH
    import atexit
    SCRATCH = os.path.realpath(tempfile.mkdtemp(prefix=f"verif-c27-{k}-"))
    os.chdir(SCRATCH)


def scratch():
    "an empty scratch directory of this worker, which is also the current directory"
    global SCRATCH
    if SCRATCH is None:
        setup("x")
    os.chdir(SCRATCH)
    for e in list(os.scandir(SCRATCH)):
        if e.is_dir(follow_symlinks=False):
            shutil.rmtree(e.path)
        else:
            os.unlink(e.path)
    return SCRATCH


def cleanup():
    global SCRATCH
    if SCRATCH:
        os.chdir("/")
        shutil.rmtree(SCRATCH, ignore_errors=True)
        SCRATCH = None


# ---------------------------------------------------------------- the model of a file system

# nodes: dict = directory, ['f', content, touched] = file, ('l', target) = link, ['p', touched] = fifo
# a directory's own time stamp isn't modelled except by touch: key '' -> touched

INITIAL = {
    "missing": None,
    "file": ['f', b"content", False],
    "empty": {},
    "dir": {"x": ['f', b"x", False]},
    "deep": {"x": {"y": ['f', b"y", False]}},
    "other": ('l', None),
    "dangling": ('l', "nowhere"),
    "inside": ('l', "c/x"),
    "fifo": ['p', False],
    "self": ('l', "SELF"),
}


def fresh(kind, name):
    n = INITIAL[kind]
    if n is None:
        return None
    if kind == "other":
        return ('l', {"a": "b", "b": "c", "c": "a"}[name])
    if kind == "self":
        return ('l', name)

    def copy(n):
        if isinstance(n, dict):
            return {k: copy(v) for k, v in n.items()}
        if isinstance(n, list):
            return list(n)
        return n
    return copy(n)


class ModelError(Exception):
    pass


def resolve(root, parts, depth=0):
    """
    The (directory, name) where following `parts` from the root, without following the last, ends; ModelError if an
    intermediate component doesn't lead to a directory.
    """
    d = root
    for p in parts[:-1]:
        n = follow(root, d, p, depth)
        if not isinstance(n, dict):
            raise ModelError()
        d = n
    return d, parts[-1]


def final(root, parts, depth=0):
    "like resolve, but following links at the end too"
    d, name = resolve(root, parts, depth)
    n = d.get(name)
    if isinstance(n, tuple):
        if depth > 20:
            raise ModelError()
        return final(root, n[1].split("/"), depth + 1)
    return d, name


def follow(root, d, name, depth=0):
    n = d.get(name)
    if isinstance(n, tuple):
        if depth > 20:
            raise ModelError()
        d, name = final(root, n[1].split("/"), depth + 1)
        n = d.get(name)
    return n


def lookup(root, parts):
    try:
        d, name = final(root, parts)
    except ModelError:
        return None
    return d.get(name)


MUST, MAY_REFUSE, MUST_RAISE = "must", "may refuse", "must raise"


def model(op, root, parts):
    "apply op to the model; returns whether it must succeed, may refuse, or must raise OSError"
    n = lookup(root, parts)
    is_file = isinstance(n, list) and n[0] == 'f'
    if op == "safe_unlink":
        if is_file:
            d, name = resolve(root, parts)
            del d[name]
        return MUST
    if op == "touch":
        try:
            d, name = final(root, parts)
        except ModelError:
            return MUST_RAISE
        if n is None:
            d[name] = ['f', b"", True]
        elif isinstance(n, dict):
            n[''] = True
        else:
            n[-1] = True
        return MUST
    # safe_mkdir
    if isinstance(n, dict):
        return MUST
    if is_file:
        d, name = resolve(root, parts)
        d[name] = {}
        return MUST
    try:
        d, name = resolve(root, parts)
        if d.get(name) is not None:
            # a fifo, or a link that leads nowhere
            return MAY_REFUSE
    except ModelError:
        pass
    # make the missing ancestors
    d = root
    todo = []
    for i, p in enumerate(parts):
        try:
            dd, name = resolve(root, parts[:i + 1])
        except ModelError:
            return MUST_RAISE if i == 0 else _mkdirs(root, parts, i - 1)
        n = follow_or_none(root, dd, name)
        if n is None:
            if dd.get(name) is not None:
                return MUST_RAISE       # a link that leads nowhere
            return _mkdirs(root, parts, i)
        if not isinstance(n, dict):
            return MUST_RAISE
    raise AssertionError


def follow_or_none(root, d, name):
    try:
        return follow(root, d, name)
    except ModelError:
        return None


def _mkdirs(root, parts, i):
    d, name = resolve(root, parts[:i + 1])
    for p in parts[i:]:
        d[p] = {}
        d = d[p]
    return MUST


def build(path, node):
    if isinstance(node, dict):
        if path != SCRATCH:
            os.mkdir(path)
        for k, v in node.items():
            if k:
                build(os.path.join(path, k), v)
        os.utime(path, ns=(OLD, OLD))
    elif isinstance(node, tuple):
        os.symlink(node[1] if not isinstance(node[1], str) else os.path.join(SCRATCH, node[1]), path)
    elif node[0] == 'f':
        with open(path, "wb") as f:
            f.write(node[1])
        os.utime(path, ns=(OLD, OLD))
    else:
        os.mkfifo(path)
        os.utime(path, ns=(OLD, OLD))


def look(path):
    "what is really there, in the model's terms"
    st = os.lstat(path)
    if stat.S_ISLNK(st.st_mode):
        return ('l', os.readlink(path)[len(SCRATCH) + 1:])
    if stat.S_ISREG(st.st_mode):
        with open(path, "rb") as f:
            return ['f', f.read(), st.st_mtime_ns != OLD]
    if stat.S_ISFIFO(st.st_mode):
        return ['p', st.st_mtime_ns != OLD]
    return {e.name: look(e.path) for e in os.scandir(path)}


def plain(n):
    if isinstance(n, dict):
        return {k: plain(v) for k, v in n.items() if k}
    return n


OPS = {"safe_mkdir": safe_mkdir, "safe_unlink": safe_unlink, "touch": touch}
PATHS = ["a", "b", "a/x", "b/x", "a/x/y", "n", "n/m/o", "nowhere", "c"]
FORMS = {
    "abs str": lambda p: os.path.join(SCRATCH, p),
    "rel str": lambda p: p,
    "abs bytes": lambda p: os.path.join(SCRATCH, p).encode(),
    "rel bytes": lambda p: p.encode(),
    "abs Path": lambda p: pathlib.Path(SCRATCH) / p,
    "rel Path": lambda p: pathlib.Path(p),
}
FORM_NAMES = sorted(FORMS)
SYMBOLS = [(op, p) for op in sorted(OPS) for p in PATHS]


def tree_cases(tier):
    kinds = sorted(INITIAL)
    trees = [(a, b, c) for a in kinds for b in kinds for c in ("missing", "dir", "file")]
    for t in trees:
        for s in SYMBOLS:
            for f in range(6):
                yield (t, [s], [f])
    if tier == "quick":
        trees2 = [t for t in trees if t[2] == "dir" and "deep" not in t]
        for i, t in enumerate(trees2):
            for s1 in SYMBOLS:
                for s2 in SYMBOLS:
                    yield (t, [s1, s2], [i % 6, (i + 1) % 6])
    else:
        for i, t in enumerate(trees):
            for s1 in SYMBOLS:
                for s2 in SYMBOLS:
                    yield (t, [s1, s2], [i % 6, (i + 1) % 6])
        syms = [s for s in SYMBOLS if s[1] in ("a", "b", "a/x", "nowhere")]
        trees3 = [t for t in trees if t[2] == "dir" and "deep" not in t]
        for i, t in enumerate(trees3):
            for w in itertools.product(syms, repeat=3):
                yield (t, list(w), [i % 6, (i + 1) % 6, (i + 2) % 6])



def tree_check(case, st):
    kinds, ops, forms = case
    scratch()
    root = {}
    for name, kind in zip("abc", kinds):
        n = fresh(kind, name)
        if n is not None:
            root[name] = n
    build(SCRATCH, root)
    for (op, p), form in zip(ops, forms):
        arg = FORMS[FORM_NAMES[form]](p)
        before = plain_copy(root)
        ok = model(op, root, p.split("/"))
        t0 = time.time_ns()
        got = outcome(OPS[op], arg)
        t1 = time.time_ns()
        st.transitions += 1
        if ok == MUST:
            if got != ('ret', None):
                fail(f"{op}({arg!r}) on {kinds}, ops {ops}: got {got}, expected it to succeed")
        else:
            if got[0] == 'ret':
                if ok == MUST_RAISE:
                    fail(f"{op}({arg!r}) on {kinds}, ops {ops}: returned {got[1]!r}, but it can't be done")
                if not os.path.isdir(arg):
                    fail(f"safe_mkdir({arg!r}) on {kinds} returned, but there is no directory")
                return
            if not issubclass(getattr(__import__("builtins"), got[1], object), OSError):
                fail(f"{op}({arg!r}) on {kinds}, ops {ops}: got {got}, expected OSError")
            root = before
        real = look(SCRATCH)
        if real != plain(root):
            fail(f"{op}({arg!r}) on {kinds}, ops {ops}: the tree is now {real}, expected {plain(root)}")
        if ok == MUST and op == "touch":
            m = os.stat(arg).st_mtime_ns
            if not t0 - 50_000_000 <= m <= t1 + 50_000_000:
                fail(f"touch({arg!r}) on {kinds}, ops {ops}: modification time is {m}, not between {t0} and {t1}")
            expect(file_mtime_ns(arg), m, f"file_mtime_ns({arg!r})")
            expect(file_mtime(arg), os.stat(arg).st_mtime, f"file_mtime({arg!r})")
            # and as old as all the others again
            os.utime(arg, ns=(OLD, OLD))
            untouch(root)
    if os.getcwd() != SCRATCH:
        fail("the current directory changed")


def untouch(n):
    if isinstance(n, dict):
        n.pop('', None)
        for v in n.values():
            untouch(v)
    elif isinstance(n, list):
        n[-1] = False


def plain_copy(n):
    if isinstance(n, dict):
        return {k: plain_copy(v) for k, v in n.items()}
    return list(n) if isinstance(n, list) else n


# ---------------------------------------------------------------- somebody else acts in the middle

# Another process does `action` just before the k-th line of big/file.py's function is executed, for every k.

ACTIONS = {
    "create": lambda p: write(p, b"precious"),
    "mkdir": lambda p: os.mkdir(p),
    "unlink": lambda p: os.unlink(p),
    "rmdir": lambda p: os.rmdir(p),
    "replace": lambda p: (write(p + ".new", b"precious"), os.replace(p + ".new", p)),
}


def write(p, b):
    with open(p, "wb") as f:
        f.write(b)


def meddle_cases(tier):
    for op in sorted(OPS):
        for start in ("missing", "file", "empty", "noparent"):
            for action in sorted(ACTIONS):
                for k in range(12):
                    for form in range(6):
                        yield (op, start, action, k, form)


def meddle_check(case, st):
    op, start, action, k, form = case
    scratch()
    name = "a/b" if start == "noparent" else "a"
    path = os.path.join(SCRATCH, name)
    if start == "file":
        write(path, b"old")
        os.utime(path, ns=(OLD, OLD))
    elif start == "empty":
        os.mkdir(path)
    count = [0]
    acted = [None]

    def act():
        try:
            if "/" in name and action in ("create", "mkdir", "replace"):
                os.mkdir(os.path.dirname(path))
            ACTIONS[action](path)
            acted[0] = True
        except OSError:
            acted[0] = False

    def local(frame, event, arg):
        if event == "line":
            if count[0] == k:
                sys.settrace(None)
                count[0] += 1
                act()
                sys.settrace(tracer)
                return local
            count[0] += 1
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename == big.file.__file__:
            return local
        return None

    arg = FORMS[FORM_NAMES[form]](name)
    f = OPS[op]
    sys.settrace(tracer)
    try:
        got = outcome(f, arg)
    finally:
        sys.settrace(None)
    if acted[0] is None:
        act()
        if not acted[0]:
            return
        # it acted afterwards: nothing to see
        return
    if not acted[0]:
        # it couldn't: as if it hadn't been there
        return
    st.transitions += 1
    what = f"{op}({arg!r}) while another process does {action} at step {k}, starting with {start}"
    if got[0] != 'ret' and not issubclass(getattr(__import__("builtins"), got[1], object), OSError):
        fail(f"{what}: got {got}")
    there = look(path) if os.path.lexists(path) else None
    if op == "touch":
        # whatever the order, touch destroys nothing
        if action in ("create", "replace"):
            if not (isinstance(there, list) and there[1] == b"precious"):
                fail(f"{what}: the file's content is lost: {there}")
        if action == "mkdir" and not isinstance(there, dict):
            fail(f"{what}: the directory is lost: {there}")
        if got[0] == 'ret' and action in ("create", "replace") and there is None:
            fail(f"{what}: returned, but nothing is there")
    if op == "safe_unlink":
        if action == "mkdir" and not isinstance(there, dict):
            fail(f"{what}: the directory is lost: {there}")
    if op == "safe_mkdir":
        if action == "mkdir" and not isinstance(there, dict):
            fail(f"{what}: the directory is lost: {there}")
        if action == "mkdir" and start in ("missing", "noparent") and got != ('ret', None):
            fail(f"{what}: got {got}, although there is a directory at every moment since")


# ---------------------------------------------------------------- pushd

TARGETS = ["d1", "d1/d2", "..", ".", "ABS", "ln", "missing", "fl"]
MAX_ITEMS = {"quick": 4, "thorough": 5}


def programs(n, targets):
    """
    all programs of n actions: a program is a list of items: ("cd", t), ("raise",), ("push", t, program)
    """
    if n == 0:
        yield []
        return
    # the first item takes k actions in all
    for t in targets:
        if t in ("missing", "fl"):
            continue
        for rest in programs(n - 1, targets):
            yield [("cd", t)] + rest
    if n == 1:
        yield [("raise",)]
    for k in range(1, n + 1):
        for t in targets:
            for inner in programs(k - 1, targets):
                for rest in programs(n - k, targets):
                    yield [("push", t, inner)] + rest


def pushd_cases(tier):
    for n in range(1, 4 if tier == "quick" else 4):
        for p in programs(n, TARGETS):
            for form in (0, 1, 2):
                if n <= 2 and "'raise'" in repr(p):
                    for k in range(len(RAISED)):
                        yield (p, form, k)
                else:
                    yield (p, form, zlib.crc32(repr(p).encode()) % len(RAISED))
    small = ["d1", "..", "missing"]
    for n in ((4,) if tier == "quick" else (4, 5)):
        for p in programs(n, small):
            yield (p, n % 3, zlib.crc32(repr(p).encode()) % len(RAISED))


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


RAISED = [Boom, BaseBoom, GeneratorExit, KeyboardInterrupt, SystemExit, StopIteration, FileNotFoundError]


def pushd_target(t, form):
    s = os.path.join(SCRATCH, "d1", "d2") if t == "ABS" else t
    return (s, s.encode(), pathlib.Path(s))[form]


def where(cwd, t):
    "where chdir(t) from cwd leads, or None"
    tree = {"": ("d1", "fl", "ln"), "/d1": ("d2",), "/d1/d2": ()}
    if t == "ABS":
        return "/d1/d2"
    if t == ".":
        return cwd
    if t == "..":
        return {"/d1/d2": "/d1", "/d1": "", "": "UP"}.get(cwd, "OUT")
    if cwd in ("UP", "OUT"):
        return None
    if t == "ln":
        return "/d1/d2" if cwd == "" else None
    for p in t.split("/"):
        if p not in tree[cwd] or p == "fl":
            return None
        cwd = cwd + "/" + p
    return cwd


def pushd_check(case, st):
    prog, form, kind = case
    base = scratch()
    # one level down, so that .. stays inside
    top = os.path.join(base, "top")
    root = os.path.join(top, "root")
    os.makedirs(os.path.join(root, "d1", "d2"))
    os.symlink(os.path.join("d1", "d2"), os.path.join(root, "ln"))
    write(os.path.join(root, "fl"), b"")
    os.chdir(root)
    where_names = {}
    boom = []

    def real(cwd):
        return {"UP": top}.get(cwd) or root + cwd

    def target(t):
        s = os.path.join(root, "d1", "d2") if t == "ABS" else t
        return (s, s.encode(), pathlib.Path(s))[form]

    def here(cwd, what):
        got = os.getcwd()
        if cwd == "OUT":
            return
        if got != real(cwd):
            fail(f"{what}: the current directory is {got}, expected {real(cwd)} in {prog}")

    def run(prog, cwd):
        "run prog for real in cwd (a model path); returns ('raise', exception)"
        for item in prog:
            st.transitions += 1
            if item[0] == "raise":
                e = RAISED[(kind + len(boom)) % len(RAISED)]()
                boom.append(e)
                raise e
            new = where(cwd, item[1])
            if new == "OUT":
                return      # out of the model's tree
            if item[0] == "cd":
                if new is None:
                    continue
                os.chdir(target(item[1]))
                cwd = new
                here(cwd, "harness")
                continue
            made = pushd(target(item[1]))
            here(cwd, f"making pushd({item[1]})")
            if new is None:
                try:
                    with made:
                        fail(f"pushd({item[1]!r}) from {cwd!r} entered a missing directory in {prog}")
                except OSError:
                    pass
                here(cwd, f"after pushd({item[1]!r}) failed")
                continue
            caught = None
            try:
                with made:
                    here(new, f"inside pushd({item[1]!r})")
                    run(item[2], new)
            except BaseException as e:
                if not any(e is b for b in boom):
                    raise
                caught = e
            here(cwd, f"after pushd({item[1]!r})")
            if caught is not None:
                if caught is not boom[-1]:
                    fail(f"pushd({item[1]!r}) replaced the exception in {prog}")
                raise caught
        return

    try:
        run(prog, "")
        finished = True
    except BaseException as e:
        if not any(e is b for b in boom):
            raise
        finished = False
        if e is not boom[-1]:
            fail("replaced the exception")
    if boom and finished:
        fail(f"an exception was lost in {prog}")
    os.chdir(base)


# objects made early, entered later, entered again

def reuse_words(tier):
    alphabet = [("make", "d1"), ("make", ".."), ("cd", "d1"), ("cd", ".."), ("enter", 0), ("enter", 1), ("exit",)]
    for n in range(2, 7 if tier == "quick" else 8):
        for w in itertools.product(range(len(alphabet)), repeat=n):
            made = entered = 0
            ok = True
            for i in w:
                s = alphabet[i]
                if s[0] == "make":
                    made += 1
                elif s[0] == "enter":
                    if s[1] >= made:
                        ok = False
                        break
                    entered += 1
                elif s[0] == "exit":
                    if not entered:
                        ok = False
                        break
                    entered -= 1
            if ok and made <= 2 and ("exit",) == alphabet[w[-1]]:
                yield [alphabet[i] for i in w]


def reuse_check(case, st):
    base = scratch()
    d = base
    for i in range(4):
        d = os.path.join(d, "d1")
    os.makedirs(d + "/d1" * 2)
    os.chdir(d)
    cwd = d
    made = []
    stack = []
    for s in case:
        st.transitions += 1
        if s[0] == "make":
            made.append((pushd(s[1]), s[1]))
        elif s[0] == "cd":
            if not os.path.isdir(os.path.join(cwd, s[1])):
                return
            os.chdir(s[1])
            cwd = os.path.normpath(os.path.join(cwd, s[1]))
        elif s[0] == "enter":
            p, t = made[s[1]]
            new = os.path.normpath(os.path.join(cwd, t))
            if len(new) <= len(base):
                return
            if not os.path.isdir(new):
                # entering fails, and must leave everything as it was
                expect(outcome(p.__enter__), ('exc', 'FileNotFoundError'), "entering a missing directory")
                if os.getcwd() != cwd:
                    fail(f"after {s} of {case} failed: the current directory is {os.getcwd()[len(base):]}")
                stack.append(None)
                continue
            p.__enter__()
            stack.append((p, cwd))
            cwd = new
        else:
            if stack[-1] is None:
                # a context that was never entered isn't left
                stack.pop()
                continue
            p, cwd = stack.pop()
            r = p.__exit__(None, None, None)
            if r:
                fail("pushd swallows exceptions")
        if not os.path.isdir(cwd) or len(cwd) <= len(base):
            return
        if os.getcwd() != cwd:
            fail(f"after {s} of {case}: the current directory is {os.getcwd()[len(base):]}, expected {cwd[len(base):]}")


# ---------------------------------------------------------------- searching

def lines_of(text):
    "the lines of a text whose only line breaks are newlines"
    out = []
    cur = []
    for c in text:
        if c == "\n":
            out.append("".join(cur))
            cur = []
        else:
            cur.append(c)
    if cur:
        out.append("".join(cur))
    return out


TEXTS = ["", "a", "A", "b", "ab", "aB", "ba", " ", "b ", "bb"]
PATTERNS = ["", "a", "^$", "^a", "b$", ".", "[ab]", "a|^$", r"\s", r"^\s*$", "a.b", "(?i)A", r"\ba\b", "b*", r"\Aa\Z", "[^a]", r"^(?!a)"]
GREP_LETTERS = {"quick": (6, "aAb \n"), "thorough": (7, "aAb \n")}


def grep_cases(tier):
    n, letters = GREP_LETTERS[tier]
    for k in range(n + 1):
        for w in itertools.product(letters, repeat=k):
            yield "".join(w)


KINDS = [lambda p: p, lambda p: p.encode(), lambda p: pathlib.Path(p)]
COMPILED = {}


def compiled(p, flags, b):
    k = (p, flags, b)
    if k not in COMPILED:
        COMPILED[k] = re.compile(p.encode() if b else p, flags)
    return COMPILED[k]


def encode(lines, b):
    return [l.encode() for l in lines] if b else lines


def show(content, what, got, want):
    if got != want:
        fail(f"{what} in a file containing {content!r}: got {got!r}, expected {want!r}")


def grep_file():
    global SCRATCH
    if SCRATCH is None:
        setup("x")
    return os.path.join(SCRATCH, "grepped")


def grep_check(content, st):
    p = grep_file()
    write(p, content.encode())
    lines = lines_of(content)
    j = len(content)
    for b in (False, True):
        for i, text in enumerate(TEXTS):
            path = KINDS[(i + j) % 3](p)
            t = text.encode() if b else text
            for ci in (False, True):
                hits = [(n, l) for n, l in enumerate(lines, 1) if (text.lower() in l.lower() if ci else text in l)]
                want = [(n, l.encode() if b else l) for n, l in hits]
                got = fgrep(path, t, case_insensitive=ci, enumerate=True)
                if got != want:
                    fail(f"fgrep({type(path).__name__}, {t!r}, case_insensitive={ci}, enumerate=True) in a file containing {content!r}: got {got!r}, expected {want!r}")
                got = fgrep(path, t, case_insensitive=ci)
                if got != [l for n, l in want]:
                    fail(f"fgrep({type(path).__name__}, {t!r}, case_insensitive={ci}) in a file containing {content!r}: got {got!r}, expected {[l for n, l in want]!r}")
        for i, pattern in enumerate(PATTERNS):
            path = KINDS[(i + j) % 3](p)
            for flags in (0, re.I):
                c = compiled(pattern, flags, False)
                want = [(n, l.encode() if b else l) for n, l in enumerate(lines, 1) if c.search(l)]
                arg = pattern.encode() if b else pattern
                got = grep(path, arg, flags=flags, enumerate=True)
                if got != want:
                    fail(f"grep({type(path).__name__}, {arg!r}, flags={flags}, enumerate=True) in a file containing {content!r}: got {got!r}, expected {want!r}")
                got = grep(path, compiled(pattern, flags, b))
                if got != [l for n, l in want]:
                    fail(f"grep({type(path).__name__}, compiled {arg!r}, flags={flags}) in a file containing {content!r}: got {got!r}, expected {[l for n, l in want]!r}")
    st.transitions += 2 * (4 * len(TEXTS) + 4 * len(PATTERNS))


UNI = "Σσςα\u0391\u0130i\u00dfsS\u212bå\n"


def uni_cases(tier):
    for k in range(4 if tier == "quick" else 5):
        for w in itertools.product(UNI, repeat=k):
            yield "".join(w)


UNI_TEXTS = ["Σ", "σ", "ς", "αΣ", "ΑΣ", "\u0130", "i", "ß", "ss", "SS", "\u212b", "å", "\u00c5", "sσ"]


def uni_check(content, st):
    p = grep_file()
    lines = lines_of(content)
    for enc in ("utf-8", "utf-16", "utf-32-le"):
        write(p, content.encode(enc))
        for text in UNI_TEXTS:
            for ci in (False, True):
                want = [(n, l) for n, l in enumerate(lines, 1) if (text.casefold() in l.casefold() if ci else text in l)]
                got = fgrep(p, text, encoding=enc, case_insensitive=ci, enumerate=True)
                if got != want:
                    fail(f"fgrep({text!r}, encoding={enc!r}, case_insensitive={ci}) in a file containing {content!r}: got {got!r}, expected {want!r}")
                got = fgrep(pathlib.Path(p), text, encoding=enc, case_insensitive=ci)
                if got != [l for n, l in want]:
                    fail(f"fgrep(Path, {text!r}, encoding={enc!r}, case_insensitive={ci}) in a file containing {content!r}: got {got!r}")
            got = grep(p, text, encoding=enc, enumerate=True)
            want = [(n, l) for n, l in enumerate(lines, 1) if text in l]
            if got != want:
                fail(f"grep({text!r}, encoding={enc!r}) in a file containing {content!r}: got {got!r}, expected {want!r}")
    st.transitions += 3 * 5 * len(UNI_TEXTS)


def break_cases(tier):
    for k in range(7 if tier == "quick" else 9):
        for w in itertools.product("a\r\n\x0b" if k < 7 else "a\r\n", repeat=k):
            yield "".join(w)


def break_check(content, st):
    "universal newlines in text, other white space stays; binary lines end at line feeds"
    p = grep_file()
    write(p, content.encode())
    lines = lines_of(content.replace("\r\n", "\n").replace("\r", "\n"))
    for text in ("", "a", "\x0b"):
        want = [(n, l) for n, l in enumerate(lines, 1) if text in l]
        for got in (fgrep(p, text, enumerate=True), grep(p, text, enumerate=True), fgrep(p, text, case_insensitive=True, enumerate=True)):
            show(content, f"(f)grep({text!r}, enumerate=True)", got, want)
    blines = [l.encode() for l in lines_of(content)]
    for text in (b"", b"a", b"\x0b"):
        want = [(n, l) for n, l in enumerate(blines, 1) if text in l]
        # a binary line may or may not keep the carriage return of a DOS line break
        want2 = [(n, l[:-1] if l.endswith(b"\r") else l) for n, l in want]
        for got in (fgrep(p, text, enumerate=True), grep(p, text, enumerate=True), fgrep(p, text, case_insensitive=True, enumerate=True)):
            if got != want2:
                show(content, f"(f)grep({text!r}, enumerate=True)", got, want)
    st.transitions += 18


def error_check(case, st):
    p = grep_file()
    write(p, b"a\nb\xe9\n")
    n = len(os.listdir("/proc/self/fd"))
    for f in (grep, fgrep):
        for path in (p, p.encode(), pathlib.Path(p)):
            for enc in ("utf-8", "ascii", "latin-1"):
                expect(outcome(f, path, b"a", encoding=enc), ('exc', 'ValueError'), f"{f.__name__}({path!r}, b'a', encoding={enc!r})")
            expect(f(path, "\xe9", encoding="latin-1"), ["b\xe9"], f"{f.__name__}(latin-1)")
            expect(f(path, b"\xe9"), [b"b\xe9"], f"{f.__name__}(bytes)")
            expect(outcome(f, path, "a", encoding="utf-8"), ('exc', 'UnicodeDecodeError'), f"{f.__name__} of a file that isn't UTF-8")
        for path in (p + "x", p.encode() + b"x", pathlib.Path(p + "x")):
            for t in ("a", b"a"):
                expect(outcome(f, path, t), ('exc', 'FileNotFoundError'), f"{f.__name__}({path!r})")
    if len(os.listdir("/proc/self/fd")) != n:
        fail("grep or fgrep left a file open")


def stat_check(case, st):
    size, ns = case
    p = grep_file()
    write(p, b"x" * size)
    os.utime(p, ns=(5, ns))
    link = p + ".link"
    os.symlink(p, link)
    os.utime(link, ns=(7, 7), follow_symlinks=False)
    for path in (p, p.encode(), pathlib.Path(p), link):
        expect(file_size(path), size, f"file_size({path!r})")
        expect(type(file_size(path)), int, "type of file_size")
        expect(file_mtime_ns(path), ns, f"file_mtime_ns({path!r})")
        expect(type(file_mtime_ns(path)), int, "type of file_mtime_ns")
        m = file_mtime(path)
        if type(m) is not float or abs(m - ns / 1e9) > 1e-6 * max(1, 1):
            fail(f"file_mtime({path!r}) with {ns} ns: got {m!r}")
    os.unlink(p)
    for path in (p, link):
        for f in (file_size, file_mtime, file_mtime_ns):
            expect(outcome(f, path), ('exc', 'FileNotFoundError'), f"{f.__name__} of a missing file")
    os.unlink(link)


def stat_cases(tier):
    for size in (0, 1, 2, 511, 512, 4096, 65537):
        for ns in (0, 1, 999999999, 10 ** 9, 10 ** 9 + 1, 1234567890123456789, 1700000000999999999):
            yield (size, ns)


class CleanPart(Part):
    "a part whose workers remove their scratch directories when they are done"
    def __init__(self, name, cases, check, **kw):
        def cases_then_clean(tier):
            try:
                yield from cases(tier)
            finally:
                cleanup()
        super().__init__(name, cases_then_clean, check, setup=setup, **kw)


PARTS = [
    CleanPart("tree", tree_cases, tree_check, bound="300 starting trees (three names, each missing, file, empty or full or deep directory, link to another, into another, to itself, to nothing, fifo) x 27 operations (mkdir, unlink, touch on 9 paths) in 6 path forms; all pairs of operations on 81 trees [thorough: on all, and all triples of 12 operations on 81]"),
    CleanPart("meddling", meddle_cases, meddle_check, bound="another process creates, replaces or removes a file or directory at the path before each executed line of the helper, for each helper, starting state and path form"),
    CleanPart("pushd", pushd_cases, pushd_check, bound="all programs of up to 3 actions (push, chdir, raise) over 8 targets in 3 path forms, of 4 [5] over 3 targets"),
    CleanPart("pushd reuse", reuse_words, reuse_check, bound="all sequences up to length 6 [7] of making, entering, leaving two pushd objects and changing directory"),
    CleanPart("grep", grep_cases, grep_check, bound="all files up to 6 [7] of a A b space newline x 10 texts, 17 patterns x case x text/bytes x enumerate x path kind"),
    CleanPart("unicode", uni_cases, uni_check, bound="all files up to length 3 [4] of 13 characters with unusual case x 14 texts x 3 encodings"),
    CleanPart("line breaks", break_cases, break_check, bound="all files up to length 6 [8] over a CR LF VT"),
    CleanPart("errors", lambda tier: [0], error_check, bound="bytes with an encoding, missing files, undecodable files; no file left open"),
    CleanPart("stat", stat_cases, stat_check, bound="7 sizes x 7 times x 3 path kinds and a link"),
]
