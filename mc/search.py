"""
Explicit-state search over the REAL objects.

A World couples real objects with a reference model.  A state is reached by a
history (an initial literal + a tuple of literal operations) and is rebuilt by
replaying that history on fresh objects.  Two histories are merged only if the
complete state of the real objects AND of the model is the same: key() walks
every attribute reachable from the World, whatever it is called, so merged
states have the same future.  With no depth limit the search ends at the
fixpoint: then it covers every history of any length over the alphabet.

World protocol:
    World(init)       build
    w.ops()           list of literal operations enabled now
    w.step(op)        do it on both sides, raise Violation where they differ
    w.finish()        final checks of a state (once per distinct state), may destroy the world
    unordered = True  merge states that differ only in the order of dicts and sets
    w.state()         what the key is made of (default: w.__dict__)
"""
import gc
import hashlib
import multiprocessing
import multiprocessing.connection
import os
import pickle
import resource
import signal
import traceback
import types

from . import core
from .core import Part, Violation, Stats, _check_one

ATOMS = (int, float, complex, str, bytes, bool, type(None), type(Ellipsis))
NAMED = (types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType)


def canon(o, memo):
    """
    The complete state reachable from o as nested tuples of atoms.  Sets and
    dicts lose their order (their keys must be atoms or objects met before).
    """
    t = type(o)
    if t in ATOMS:
        return o if t is not float and t is not bool else (t.__name__, repr(o))
    if t is tuple:
        return (1,) + tuple([x if type(x) is int or type(x) is str else canon(x, memo) for x in o])
    i = memo.get(id(o))
    if i is not None:
        return ("@", i)
    memo[id(o)] = len(memo)
    if t is list:
        return (2,) + tuple([x if type(x) is int or type(x) is str else canon(x, memo) for x in o])
    if t is set or t is frozenset:
        return (3,) + tuple(sorted([canon(x, memo) for x in o], key=repr))
    if isinstance(o, NAMED):
        return ("N", str(getattr(o, "__qualname__", o.__name__)))
    if isinstance(o, types.MethodType):
        return ("M", o.__func__.__qualname__, canon(o.__self__, memo))
    parts = [t.__name__]
    if isinstance(o, dict):
        # sort by key before descending, so that the numbering of objects is canonical
        for k in sorted(o, key=repr_key):
            parts.append(canon(k, memo))
            parts.append(canon(o[k], memo))
    elif isinstance(o, (list, tuple)):
        parts += [canon(x, memo) for x in o]
    elif isinstance(o, (set, frozenset)):
        parts += sorted([canon(x, memo) for x in o], key=repr)
    elif not hasattr(o, "__dict__") and not hasattr(t, "__slots__"):
        r = o.__reduce_ex__(4)
        memo.setdefault("keep", []).append(r)
        parts += [canon(x, memo) for x in r[1:]]
    d = getattr(o, "__dict__", None)
    if d:
        for k in sorted(d):
            parts.append(k)
            parts.append(canon(d[k], memo))
    for c in t.__mro__:
        slots = c.__dict__.get("__slots__", ())
        for s in (slots,) if isinstance(slots, str) else slots:
            if s not in ("__dict__", "__weakref__") and hasattr(o, s):
                parts.append(s)
                parts.append(canon(getattr(o, s), memo))
    return tuple(parts)


def repr_key(k):
    t = type(k)
    return (t.__name__, repr(k) if t in ATOMS or t is tuple else "")


def key_of(world):
    state = world.state() if hasattr(world, "state") else world.__dict__
    if not getattr(world, "unordered", False):
        # the fast, finer key: the order of dicts and sets counts
        try:
            return hashlib.blake2b(pickle.dumps(state, 4), digest_size=12).digest()
        except Exception:
            pass
    return hashlib.blake2b(repr(canon(state, {})).encode("utf-8", "surrogatepass"), digest_size=12).digest()


class Search(Part):
    def __init__(self, name, world, inits, *, depth=lambda tier: None, bound="", limit=None):
        super().__init__(name, None, None, bound=bound)
        self.world = world
        self.inits = inits          # tier -> list of literals
        self.depth = depth          # tier -> int or None (until the fixpoint)
        self.limit = limit          # only to notice a runaway key
        self.check = self.check_case

    def build(self, case):
        w = self.world(case[0])
        for op in case[1:]:
            w.step(op)
        return w

    def check_case(self, case, st):
        """Replay one history (prefix by prefix, since finish destroys)."""
        w = self.build(case)
        w.finish()

    def expand(self, case, last=False):
        """
        Final checks of one state, then all its successors (unless last):
        -> (list of (key, op), None) or (None, (case, message, key))
        """
        out = []
        ops = [()]

        def first(c, st):
            w = self.build(c)
            if not last:
                ops[0] = w.ops()
            w.finish()
        bad = _check_one(Part("", None, first), case, None)
        if bad:
            return None, (case,) + bad
        for op in ops[0]:
            new = case + (op,)
            key = [None]

            def one(c, st):
                w = self.build(c)
                key[0] = key_of(w)
            bad = _check_one(Part("", None, one), new, None)
            if bad:
                return None, (new,) + bad
            out.append((key[0], op))
        return out, None


def level(quick, thorough):
    return lambda tier: quick if tier == "quick" else thorough


def thorough_only(inits):
    return lambda tier: inits if tier == "thorough" else []


def _server(part, conn, known):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (core.WORKER_MEMORY, core.WORKER_MEMORY))
        signal.signal(signal.SIGALRM, core._on_alarm)
        gc.freeze()
        while True:
            msg = conn.recv()
            if msg is None:
                break
            results = []
            last, chunk = msg
            for index, case in chunk:
                out, bad = part.expand(case, last)
                results.append((index, out, bad))
                if bad:
                    break
            conn.send(results)
    except EOFError:
        pass
    except BaseException as e:
        try:
            conn.send([(-1, None, ((None,), f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}", None))])
        except BaseException:
            pass
    os._exit(0)


def run(part, tier, n, ctx):
    """-> (Stats, found or None)"""
    st = Stats()
    found = None
    seen = {}
    frontier = []
    for init in part.inits(tier):
        case = (init,)
        key = [None]

        def one(c, s):
            key[0] = key_of(part.build(c))
        bad = _check_one(Part("", None, one), case, st)
        if bad:
            return st, (0, repr(case), bad[0], bad[1])
        if key[0] not in seen:
            seen[key[0]] = None
            frontier.append(case)
    servers = []
    for _ in range(n):
        a, b = ctx.Pipe(duplex=True)
        p = ctx.Process(target=_server, args=(part, b, None), daemon=True)
        p.start()
        b.close()
        servers.append((p, a))
    depth = 0
    complete = True
    limit = part.depth(tier)
    try:
        while frontier:
            last = limit is not None and depth >= limit
            depth += 1
            size = max(1, min(200, len(frontier) // (n * 4) or 1))
            chunks = [[(i, frontier[i]) for i in range(s, min(s + size, len(frontier)))] for s in range(0, len(frontier), size)]
            results = {}
            bads = []
            chunks.reverse()
            busy = {}
            idle = list(servers)
            while (chunks or busy):
                while chunks and idle and not bads:
                    s = idle.pop()
                    s[1].send((last, chunks.pop()))
                    busy[s[1]] = s
                if not busy:
                    break
                for conn in multiprocessing.connection.wait(list(busy)):
                    s = busy.pop(conn)
                    try:
                        for index, out, bad in conn.recv():
                            if bad:
                                bads.append((index, bad))
                            else:
                                results[index] = out
                        idle.append(s)
                    except EOFError:
                        bads.append((-1, ((None,), "worker process died (crash or out of memory)", None)))
                if bads:
                    chunks = []
            if bads:
                bads.sort(key=lambda b: b[0])
                case, message, key = bads[0][1]
                found = (depth, repr(case), message, key)
                break
            nxt = []
            for index in range(len(frontier)):
                for key, op in results[index]:
                    st.transitions += 1
                    if key not in seen:
                        seen[key] = None
                        nxt.append(frontier[index] + (op,))
            if nxt:
                st.samples.append(f"{part.name}: {nxt[len(nxt) // 2]!r}"[:400])
            frontier = nxt
            if last:
                complete = False
                depth -= 1
            if part.limit and len(seen) > part.limit:
                raise RuntimeError(f"{part.name}: runaway state space")
            if os.environ.get("MC_VERBOSE"):
                print(f"    {part.name}: depth {depth} new {len(nxt)} seen {len(seen)} transitions {st.transitions}", flush=True)
    finally:
        for p, a in servers:
            try:
                a.send(None)
            except OSError:
                pass
            a.close()
        for p, a in servers:
            p.terminate()
            p.join()
    st.states = len(seen)
    st.traces = st.transitions
    st.extra[f"states[{part.name}]"] = len(seen)
    st.extra[f"max depth[{part.name}]"] = depth
    st.extra[f"fixpoint[{part.name}]"] = int(complete and not found)
    return st, found
