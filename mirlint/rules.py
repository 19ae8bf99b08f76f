"""Obligations, reports and the query vocabulary shared by the rule modules."""
import hashlib
import json
import os
import re
import sys
import time

from . import core, frontend
from .core import T, Anchor, Budget, mk, agg, SOME, NONE, OK, ERR, short, show

VERIF = frontend.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")

# ------------------------------------------------------------------ signatures

_sig = {}


def sig(t, an=None, d=0):
    """Structural text of a term without call sites: equal text = same computation.
    Phi terms print their alternatives (needs the analysis)."""
    if not isinstance(t, T):
        return str(t)
    if d > 30:
        return ".."
    k = (t, id(an) if an is not None else 0)
    if k in _sig:
        return _sig[k]
    s = lambda x: sig(x, an, d + 1)
    o = t.op
    if o == "param":
        r = t.a[0]
    elif o == "int":
        r = str(t.a[0])
    elif o == "str":
        r = repr(t.a[0])
    elif o in ("fld",):
        r = s(t.a[0]) + "." + str(t.a[1])
    elif o == "pay":
        r = s(t.a[0]) + "@" + t.a[1].split("::")[-1] + "." + str(t.a[2])
    elif o in ("ok", "err"):
        r = "%s(%s)" % (o, s(t.a[0]))
    elif o == "agg":
        r = t.a[0].split("::")[-1] + "{" + ", ".join("%s: %s" % (f, s(x)) for f, x in t.a[1]) + \
            (", ..%s" % s(t.a[2]) if t.a[2] is not None else "") + "}"
    elif o in ("bin",):
        r = "%s(%s, %s)" % (t.a[0], *sorted((s(t.a[1]), s(t.a[2])))) if t.a[0] in ("Add", "Mul", "Eq", "BitAnd", "BitOr",
                                                                                 "BitXor") else \
            "%s(%s, %s)" % (t.a[0], s(t.a[1]), s(t.a[2]))
    elif o == "call":
        r = "%s(%s)" % (short(t.a[0]), ", ".join(s(x) for x in t.a[2]))
    elif o in ("elem", "next"):
        r = "%s(%s)" % (o, s(t.a[0]))
    elif o in ("cq", "static", "lazy", "fn"):
        r = short(t.a[0])
    elif o == "new":
        r = "new " + short(str(t.a[0]))
    elif o == "phi":
        if an is None:
            r = "phi"
        else:
            _sig[k] = "phi"
            r = "phi{" + " | ".join(sorted({s(x) for x in an.alts(t)})) + "}"
            del _sig[k]
    else:
        r = "%s(%s)" % (o, ", ".join(s(x) for x in t.a if isinstance(x, (T, str))))
    if d == 0 or len(r) < 2000:
        _sig[k] = r
    return r


def fname(q):
    """Stable, generics-free name of a function for report keys."""
    q = re.sub(r"^<(.*) as ([^<>]*(?:<.*>)?)>::", lambda m: m.group(1) + "::", q)
    while True:
        n = re.sub(r"<[^<>]*>", "", q)
        if n == q:
            break
        q = n
    return re.sub(r"::\{\{.*?\}\}", "", q).replace("::::", "::")


# ---------------------------------------------------------------- term helpers

def uncall(t):
    """strip ok()/err() payload wrappers: what the call returned"""
    while t.op == "ok":
        t = t.a[0]
    return t


def is_call(t, rx):
    return t.op == "call" and re.search(rx, t.a[0]) is not None


def root_of(t):
    """the object a place term lives in: strips fields, payloads, elements, ok()"""
    while t.op in ("fld", "pay", "ok", "err", "elem", "idx", "index", "slot") or (t.op == "it"):
        t = t.a[1] if t.op == "it" else t.a[0]
    return t


def path_of(t):
    """(root, [field names]) of a place term made of fields/payloads only"""
    p = []
    while t.op in ("fld", "pay", "ok"):
        if t.op == "fld":
            p.append(t.a[1])
        elif t.op == "pay":
            p.append(t.a[2])
        t = t.a[0]
    return t, list(reversed(p))


def fld(t, *names):
    for n in names:
        t = mk("fld", t, n)
    return t


SELF = mk("param", "self")


def P(n):
    return mk("param", n)


def field(t, name):
    """field of an aggregate term, or of an opaque one"""
    if t.op == "agg":
        for f, x in t.a[1]:
            if f == name:
                return x
        return fld(t.a[2], name) if t.a[2] is not None else None
    return fld(t, name)


def has_field(t, name):
    return t.op == "fld" and t.a[1] == name


# ---------------------------------------------------------------------- checks

class Check:
    def __init__(self, pid, db, tier="quick", seed=1):
        self.pid, self.db, self.tier, self.seed = pid, db, tier, seed
        self.obls = []           # (rule, fn, construct, ok, where, detail, path)
        self.cache = {}
        self.functions = set()
        self.nodes = self.events = self.edges = 0
        self.notes = []

    # -- analyses
    def an(self, root, **kw):
        b = root if not isinstance(root, str) else self.db.bodies[root]
        k = (b.q, json.dumps({x: sorted(y) if isinstance(y, set) else y for x, y in kw.items() if x != "params"},
                             sort_keys=True, default=str), tuple(sorted((kw.get("params") or {}).items(), key=str)))
        if k not in self.cache:
            a = core.Analysis(self.db, b, **kw)
            self.cache[k] = a
            self.functions |= {q for q in a.inlined if not q.startswith("mirmodel")}
            self.nodes += len(a.nodes)
            self.events += len(a.events)
            self.edges += sum(len(v) for v in a.succ.values())
        return self.cache[k]

    # -- obligations
    def ob(self, rule, fn, construct, ok, where="", detail="", path=None):
        fn = fname(fn.root.q if isinstance(fn, core.Analysis) else (fn.q if isinstance(fn, core.Body) else str(fn)))
        self.obls.append((rule, fn, str(construct)[:300], bool(ok), where, detail, path))
        return ok

    def nopath(self, rule, an, construct, path, detail="", where=None):
        """path is None (discharged) or an offending path of the event graph"""
        w = where or ""
        fp = None
        if path is not None:
            fp = an.fmt_path(path, 24)
            if not w:
                last = path[-1]
                if isinstance(last, int):
                    w = rel(an.events[last].span)
        return self.ob(rule, an, construct, path is None, w, detail, fp)

    def floor(self, rule, fn, what, n, least):
        return self.ob(rule, fn, "at least %d %s" % (least, what), n >= least, "", "found %d" % n)


def rel(span):
    return span.split(frontend.REPO + "/")[-1].split("/repo/")[-1]


# ------------------------------------------------------------------ quantifier

def iter_sources(t):
    """what an iterated term ranges over, or None if only part of it is visited"""
    while t.op == "it":
        if t.a[0] in ("values", "values_mut", "keys", "rev", "enumerate"):
            t = t.a[1]
        else:
            return None
    r = core.full_range(t)
    return r if r is not None else t


def forall(an, coll, evs, allow_exit=None, skip=None):
    """see forall1; also through a local collection that is first filled with one entry per element of coll"""
    done, bad = forall1(an, coll, evs, allow_exit, skip)
    if done or skip is not None:
        return done, bad
    for n in {iter_sources(e.args[0]) for e in an.events if e.kind == "next"}:
        if n is None or n.op != "new" or coll(n):
            continue
        adds = additions(an, n)
        if not adds or tampered(an, n, adds) or not all(an.has(e.args[-1], lambda y: y.op == "elem" and iter_sources(y.a[0]) is not None and
                                      coll(iter_sources(y.a[0]))) for e in adds):
            continue
        d1, _ = forall1(an, coll, adds, allow_exit)
        d2, _ = forall1(an, lambda s: s is n, evs, allow_exit)
        heads = [e for e in an.events if e.kind == "next" and iter_sources(e.args[0]) is n]
        if d1 and d2 and unfinished(an, d1, [an.start], heads) is None:
            done |= d2
    return done, bad


def forall1(an, coll, evs, allow_exit=None, skip=None):
    """Edges on which a complete iteration over a collection matched by coll(term) ends, for loops in which every
    element passes one of the events evs first.  Returns (completion edges, problems)."""
    evs = {e.id for e in evs}
    groups = {}
    for e in an.events:
        if e.kind == "next":
            src = iter_sources(e.args[0]) or e.args[0]
            if coll(src):
                groups.setdefault((e.term.a[1] if e.term.op == "next" else e.term, e.args[0]), []).append(e)
    done, bad = set(), []
    for k, ns in groups.items():
        src = iter_sources(k[1]) or k[1]
        t = [e for y in an.alts(src) if y.op == "new" for e in tampered(an, y, additions(an, y)) if an.reach([e], ns) is not None]
        if t:
            bad.append((ns[0], [t[0].id, ns[0].id]))
            continue
        terms = {n.term for n in ns}
        some = an.edges_where(lambda t, v: t in terms and v == frozenset(["Some"]))
        none = an.edges_where(lambda t, v: t in terms and v == frozenset(["None"]))
        ids = {n.id for n in ns}
        exits = [e for e in an.exits() if an.retshape(e) != "err"] if allow_exit is None else \
            [e for e in an.exits() if not allow_exit(e)]
        eok = (lambda a, b, cnd: not any(skip(t, v) for t, v in cnd)) if skip is not None else None
        p = an.reach([m for _, m, _ in some if m not in evs], [n for n in ids] + exits, avoid=evs, edge_ok=eok)
        if p is None and some:
            done |= {(n, m) for n, m, _ in none}
        else:
            bad.append((ns[0], p))
    return done, bad


def without_edges(edges):
    return lambda n, m, conds: (n, m) not in edges


def unfinished(an, done, starts, targets, avoid=()):
    """a path from starts to targets that crosses none of the completion edges (None if there is none)"""
    return an.reach(starts, targets, avoid=avoid, edge_ok=without_edges(done))


def expand(an, t, d=0, move=True):
    """t with elements of locally built collections replaced by what is put into them (a set of terms)"""
    if d > 8:
        return {t}
    o = t.op
    if o == "phi":
        return set().union(*[expand(an, x, d + 1, move) for x in an.alts(t)]) if an.alts(t) else {t}
    if o == "elem":
        src = t.a[0]
        while src.op == "it" and src.a[0] in ("rev", "take", "skip", "values", "keys", "chunks"):
            src = src.a[1]
        out = set()
        for c in an.alts(src):
            if c.op == "new" and an.pushes.get(c):
                for x in an.pushes[c]:
                    out |= expand(an, resite(x, t.a[1]) if move else x, d + 1, move)
            else:
                out.add(t if c is t.a[0] else mk("elem", c, t.a[1]))
        return out
    if o == "fld":
        out = set()
        for y in expand(an, t.a[0], d + 1, move):
            f = field(y, t.a[1])
            out |= expand(an, f, d + 1, move) if f is not None and f is not t else {t}
        return out
    if o in ("ok", "err"):
        out = set()
        for y in expand(an, t.a[0], d + 1, move):
            if y.op == "agg" and y.a[0] in (SOME, OK, ERR, NONE):
                if (y.a[0] in (SOME, OK)) == (o == "ok") and y.a[1]:
                    out |= expand(an, y.a[1][0][1], d + 1, move)
            else:
                out.add(mk(o, y))
        return out
    if o == "pay":
        out = set()
        for y in expand(an, t.a[0], d + 1, move):
            if y.op == "agg" and y.a[0] == t.a[1]:
                f = field(y, t.a[2])
                out |= expand(an, f, d + 1, move) if f is not None else {t}
            elif y.op == "agg" and y.a[0] in an.db.variants:
                continue
            else:
                out.add(mk("pay", y, t.a[1], t.a[2]))
        return out
    return {t}


def resite(x, site):
    """the entry x of a local list, as seen by the loop at `site` over that list: what x took from the element the
    filling loop was at is now the element the consuming loop is at"""
    if not isinstance(site, tuple):
        return x
    memo = {}

    def go(t):
        if isinstance(t, tuple):
            return tuple(go(y) for y in t)
        if not isinstance(t, T) or not t.a:
            return t
        if t in memo:
            return memo[t]
        if t.op == "elem" and isinstance(t.a[1], tuple):
            r = mk("elem", t.a[0], site)
        elif t.op in ("fld", "pay", "ok", "err", "agg", "call", "bin", "un", "cast", "discr"):
            r = mk(t.op, *[go(y) for y in t.a])
        else:
            r = t
        memo[t] = r
        return r
    return go(x)


def variants(an, t, cap=48):
    """phi-free alternatives of a term, also inside it (a loop-carried phi stays)"""
    def go(x, open_):
        if isinstance(x, tuple):
            outs = [()]
            for y in x:
                ys = go(y, open_)
                outs = [o + (z,) for o in outs for z in ys][:cap]
            return outs
        if not isinstance(x, T):
            return [x]
        if x.op == "phi":
            if x in open_:
                return [x]
            r = []
            for y in an.phi.get(x, ()):
                for z in go(y, open_ | {x}):
                    if z not in r and z is not x:
                        r.append(z)
            return r[:cap] or [x]
        if not x.a or not an.has(x, lambda y: y.op == "phi"):
            return [x]
        out = []
        for a in go(x.a, open_):
            y = rebuild(x.op, a)
            if y is not None and y not in out:
                out.append(y)
        return out
    return go(t, frozenset())


def rebuild(op, a):
    """a term from its parts, simplified where the parts allow it (None: impossible combination)"""
    if op == "fld" and a[0].op == "agg":
        f = field(a[0], a[1])
        return f if f is not None else mk(op, *a)
    if op in ("ok", "err") and a[0].op == "agg" and a[0].a[0] in (SOME, OK, ERR, NONE):
        good = (a[0].a[0] in (SOME, OK)) == (op == "ok")
        return a[0].a[1][0][1] if good and a[0].a[1] else None
    if op == "pay" and a[0].op == "agg":
        return field(a[0], a[2]) if a[0].a[0] == a[1] else None
    if op == "bin":
        return core.binop(*a)
    return mk(op, *a)


PUSHQ = re.compile(r"(^push|::push|::push_back|::insert|::extend|::append|::extend_from_slice)$")


def additions(an, coll):
    """events that add to the collection"""
    return [e for e in an.events if e.kind == "call" and PUSHQ.search(e.q or "") and e.args and e.args[0] is coll]


RESHAPERS = re.compile(r"(^|(Vec|VecDeque|\])::)(swap_remove|remove|dedup\w*|truncate|clear|resize\w*|split_off|retain|fill|drain|pop\w*)$")
REORDERS = re.compile(r"(Vec|VecDeque|\])::(sort\w*|reverse|swap|rotate_\w+)$")


def tampered(an, coll, adds, ordered=False):
    """calls that drop, duplicate (or reorder) entries of the local list coll once entries are in it"""
    evs = [e for e in an.events if e.kind == "call" and e.args and e.args[0] is coll and
           (RESHAPERS.search(e.q or "") or ordered and REORDERS.search(e.q or ""))]
    if not evs:
        return []
    uses = uses_after(an, coll, adds) + [e for e in an.events if e.kind == "next" and an.has(e.args[0], lambda y: y is coll)
                                         or e.kind == "write" and e.val is not None and an.has(e.val, lambda y: y is coll)]
    return [e for e in evs if an.reach(adds, [e]) is not None and an.reach([e], uses) is not None]


def seqmap(c, rule, an, what, coll, is_src, elem_ok, skip=None, ordered=True):
    """coll is built by one pass over a source: one entry per element, in source order, each entry elem_ok(entry).
    skip(term, value): edges on which an element may be left out."""
    colls = {x for x in an.alts(coll)}
    if all(is_src(x) for x in colls):
        return c.ob(rule, an, what, True)
    ok = True
    for x in colls:
        if x.op != "new":
            return c.ob(rule, an, what, False, "", "not built in one pass: %s" % sig(x, an)[:160])
        adds = additions(an, x)
        if not adds:
            ok = c.ob(rule, an, what, False, "", "nothing is added to it")
            continue
        for e in adds:
            good = all(elem_ok(y) for y in expand(an, e.args[-1]))
            ok = c.ob(rule, an, what + ": entry", good, rel(e.span), sig(e.args[-1], an)[:200]) and ok
        for e in tampered(an, x, adds, ordered):
            ok = c.ob(rule, an, what + ": kept as built", False, rel(e.span), "%s after it was built" % short(e.q))
        heads = [e for e in an.events if e.kind == "next" and is_src((iter_sources(e.args[0]) or e.args[0])
                 if ordered is False or not has_rev(e.args[0]) else mk("unk", "rev"))]
        done, bad = forall(an, is_src, adds, skip=skip)
        p = unfinished(an, done, [an.start], uses_after(an, x, adds)) if done else [an.start, adds[0].id]
        ok = c.nopath(rule, an, what + ": every element", p, "an element can be missing") and ok
        ok = c.nopath(rule, an, what + ": one entry per element", an.reach(adds, adds, avoid=heads),
                      "an element can be entered twice") and ok
    return ok


def has_rev(t):
    while t.op == "it":
        if t.a[0] == "rev":
            return True
        t = t.a[1]
    return False


def uses_after(an, coll, adds):
    """events that consume the finished collection: calls with it as argument (not additions) and successful exits"""
    ids = {e.id for e in adds}
    out = []
    for e in an.events:
        if e.id in ids:
            continue
        if e.kind == "return" and e.val is not None and an.retshape(e) != "err" and an.has(e.val, lambda y: y is coll):
            out.append(e)
        elif e.kind == "call" and any(an.has(a, lambda y: y is coll) for a in e.args) and not re.search(
                r"::(len|is_empty|reserve|capacity|with_capacity)$", e.q or ""):
            out.append(e)
    return out


def checked(c, rule, an, calls, what=None, exits=None):
    """a failing call cannot be followed by success: every path from it to a successful exit crosses its Ok edge"""
    for e in calls:
        ok = exits if exits is not None else [o for o in an.ok_exits() if not any(x is e.term for x in an.alts(o.val))]
        t0 = e.term

        def cond(t, v, t0=t0, e=e):
            if v != frozenset(["Ok"]):
                return False
            if t is t0:
                return True
            # one variable that holds the outcome of this call or of calls on other paths
            return t.op == "phi" and any(x is t0 for x in an.alts(t)) and \
                an.reach([e], [x for x in an.events if x.kind == "call" and x.id != e.id and any(y is x.term for y in an.alts(t))]) is None
        c.nopath(rule, an, what or "failure of %s is reported" % short(e.q), an.guarded_after([e], ok, cond),
                 "an error is swallowed", rel(e.span))


def ge_known(a, b):
    """condition under which a >= b is known"""
    def cond(t, v):
        if t.op == "bin" and t.a[0] == "Lt":
            if t.a[1] is a and t.a[2] is b:
                return v is False
            if t.a[2] is a and (t.a[1] is b or (b.op == "int" and b.a[0] == 1 and t.a[1].op == "int")):
                return v is True
        if t.op == "bin" and t.a[0] == "Eq" and {t.a[1], t.a[2]} >= {a}:
            o = t.a[2] if t.a[1] is a else t.a[1]
            if o is b:
                return v is True
            if o.op == "int" and o.a[0] == 0 and b.op == "int" and b.a[0] == 1:
                return v is False
        if t is a and b.op == "int" and b.a[0] == 1 and isinstance(v, int) and not isinstance(v, bool):
            return v > 0
        if t.op == "bin" and t.a[0] == "Cmp":
            if t.a[1] is a and t.a[2] is b:
                return isinstance(v, frozenset) and "Less" not in v
            if t.a[2] is a and t.a[1] is b:
                return isinstance(v, frozenset) and "Greater" not in v
        if t.op == "call" and t.a[0].endswith("::checked_sub") and len(t.a[2]) == 2 and t.a[2][0] is a and t.a[2][1] is b:
            return v == frozenset(["Some"])
        if t.op == "call" and t.a[0].endswith("::is_empty") and b.op == "int" and b.a[0] == 1 and v is False:
            return a.op in ("len",) or (a.op == "call" and a.a[0].endswith("::len") and a.a[2][0] is t.a[2][0])
        return False
    return cond


def underflows(an):
    """subtractions of unsigned numbers that are not guarded by a comparison of the same operands: [(event, path)]"""
    out = []
    for e in an.events:
        if e.kind == "sub":
            p = an.guarded([e], ge_known(*e.args))
            if p is not None:
                out.append((e, p))
    return out


# ------------------------------------------------------------ partial functions

PARTIAL = re.compile(r"::(index|index_mut|copy_from_slice|clone_from_slice|copy_within|copy_to_slice|split_at|split_at_mut|split_off|"
                     r"split_to|swap_remove|drain|advance|slice|slice_from|slice_to|get_(u|i)(8|16|32|64|128)(_le|_be)?|chunks_exact|"
                     r"read_(u|i)(8|16|32|64|128)|get_unchecked|get_unchecked_mut|from_utf8_unchecked|unreachable_unchecked)$|"
                     r"Vec::(remove|insert)$|ethbloom::Bloom::from_slice$|::H(160|256|512)::from_slice$|^rlp::decode_list$|"
                     r"^rlp::impls::|num_bigint::.*::(div|rem|sub)$")
DIGEST = r"hasher::.*::digest$"


def len_of(t, x):
    return (t.op == "call" and t.a[0].endswith("::len") and len(t.a[2]) == 1 and uncall(t.a[2][0]) is uncall(x)) or \
        (t.op == "len" and t.a[0] is x)


def at_least(x, n):
    """condition under which len(x) >= n is known (n an integer)"""
    def cond(t, v):
        if t.op == "bin" and t.a[0] in ("Lt", "Eq") and isinstance(v, bool):
            l, r = t.a[1], t.a[2]
            if t.a[0] == "Eq":
                k = r if len_of(l, x) else l if len_of(r, x) else None
                return k is not None and k.op == "int" and (v is True and k.a[0] >= n or v is False and k.a[0] == 0 and n == 1)
            if len_of(l, x) and r.op == "int":
                return v is False and r.a[0] >= n
            if len_of(r, x) and l.op == "int":
                return v is True and l.a[0] + 1 >= n
        if t.op == "call" and t.a[0].endswith("::is_empty") and v is False and n == 1:
            return t.a[2][0] is x
        if t.op == "call" and t.a[0].endswith("::starts_with") and v is True and t.a[2][0] is x:
            return t.a[2][1].op == "str" and len(t.a[2][1].a[0]) >= n
        if t.op == "call" and re.search(r"\]::(get|first|last)$|Vec::get$|str::get$", t.a[0]) and v == frozenset(["Some"]) and uncall(t.a[2][0]) is uncall(x):
            return len(t.a[2]) == 1 and n == 1 or len(t.a[2]) == 2 and t.a[2][1].op == "int" and t.a[2][1].a[0] + 1 >= n
        return False
    return cond


def exactly(x, n):
    """condition under which len(x) = n is known; n an integer, or a predicate on terms"""
    def cond(t, v):
        if t.op == "bin" and t.a[0] == "Eq" and v is True:
            k = t.a[2] if len_of(t.a[1], x) else t.a[1] if len_of(t.a[2], x) else None
            return k is not None and (n(k) if callable(n) else length(k) == n)
        return False
    return cond


def length(k):
    """an integer the program text fixes"""
    if k.op == "int":
        return k.a[0]
    if k.op == "len":
        return const_len(k.a[0])
    if k.op == "call" and k.a[0].endswith("::len") and len(k.a[2]) == 1:
        return const_len(k.a[2][0])
    return None


def const_len(t):
    """length of an array the program text fixes"""
    if t.op == "repeat":
        return int(str(t.a[1])) if str(t.a[1]).isdigit() else None
    if t.op == "agg" and t.a[0] == "array":
        return len(t.a[1])
    if is_call(t, DIGEST):
        return 32
    return None


def aborts(an, hostile=lambda t: True, skip=None):
    """constructs that abort the thread for some value of their operands: [(event, what, path on which nothing rules it out)]"""
    out = []
    for e in an.events:
        what = p = None
        if e.kind == "panic":
            what = "panic %s" % (e.q or "").rsplit("::", 1)[-1]
            p = an.reach([an.start], [e])
        elif e.kind == "sub" and all(hostile(a) or a.op == "int" for a in e.args):
            what = "subtraction"
            p = an.guarded([e], ge_known(*e.args))
        elif e.kind == "assert" and not (e.q or "").startswith("attempt to") and e.val is not None:
            what = "assert %s" % e.q
            v = e.val
            if v.op == "int":
                continue
            p = an.guarded([e], lambda t, b, v=v: t is v and b is True)
            if p is not None and v.op == "bin" and v.a[0] == "Lt" and v.a[1].op == "int":
                l = v.a[2]
                x = l.a[0] if l.op == "len" else l.a[2][0] if l.op == "call" else None
                if x is not None:
                    p = an.guarded([e], at_least(x, v.a[1].a[0] + 1))
        elif e.kind == "call" and PARTIAL.search(e.q) and not re.search(r"collections|HashMap|BTreeMap", e.q):
            n = e.q.rsplit("::", 1)[-1]
            what = "%s of a value of any size" % n
            x = e.args[0] if e.args else None
            if n in ("copy_from_slice", "clone_from_slice", "copy_to_slice"):
                d, s = const_len(e.args[0]), const_len(e.args[1])
                if d is not None and d == s:
                    p = None
                elif d is not None:
                    p = an.guarded([e], exactly(e.args[1], d))
                elif s is not None:
                    p = an.guarded([e], exactly(e.args[0], s))
                else:
                    p = an.guarded([e], exactly(e.args[1], lambda k, x=x: len_of(k, x)))
            elif n == "from_slice":
                m = 256 if "Bloom" in e.q else int(re.search(r"H(\d+)", e.q).group(1)) // 8
                p = an.guarded([e], exactly(x, m)) if const_len(x) != m else None
            elif n == "decode_list":
                p = an.reach([an.start], [e])
            else:
                b = bound(e.args[1]) if len(e.args) > 1 else None
                if len(e.args) > 1 and n.startswith("split_") and e.args[1].op == "bin" and e.args[1].a[0] == "Sub" and len_of(e.args[1].a[1], x):
                    continue
                if b is None and len(e.args) > 1:
                    # an index that was compared with the length
                    i = e.args[1]
                    p = an.guarded([e], lambda t, v, i=i, x=x: t.op == "bin" and t.a[0] == "Lt" and t.a[1] is i and len_of(t.a[2], x) and v is True or
                                   t.op == "next" and v == frozenset(["Some"]) and an.has(i, lambda y: y.op == "elem" and y.a[0] is t.a[0]))
                elif b is not None:
                    if n in ("index", "index_mut", "remove", "swap_remove") and e.args[1].op == "int":
                        b += 1
                    if const_len(x) is not None and const_len(x) >= b or b == 0:
                        continue
                    p = an.guarded([e], at_least(x, b))
                else:
                    p = an.reach([an.start], [e])
        if what is not None and (skip is None or not skip(e)):
            out.append((e, what, p))
    return out


def bound(t):
    """the largest position an index or range of constants needs"""
    if t.op == "int":
        return t.a[0]
    if t.op == "agg" and "Range" in t.a[0]:
        xs = [x for _, x in t.a[1]]
        if all(x.op == "int" for x in xs):
            m = max([x.a[0] for x in xs] or [0])
            return m + 1 if "Inclusive" in t.a[0] else m
    return None


# --------------------------------------------------------------------- running

def known():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip("\n")
            if l.startswith("finding: "):
                # finding: property=<id> key=<rule|function|construct> :: what fails
                m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", l)
                if m:
                    out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


def finish(c, fn, title, t0, extra=None):
    """Report; returns the exit code."""
    outdir = os.environ.get("VERIF_REPORTS", os.path.join(VERIF, "reports"))
    os.makedirs(outdir, exist_ok=True)
    bad, seen = [], {}
    for o in c.obls:
        if not o[3]:
            key = "|".join(o[:3])
            if key not in seen:
                seen[key] = o
                bad.append((key, o))
    kn = known().get(c.pid, {})
    viol = [(k, o) for k, o in bad if k not in kn]
    for k, o in bad:
        if k in kn:
            print("KNOWN-FINDING: property=%s %s [%s]" % (c.pid, kn[k], k))
    rules = {}
    for o in c.obls:
        r = rules.setdefault(o[0], [0, 0])
        r[0] += 1
        r[1] += o[3]
    samples = [{"rule": o[0], "function": o[1], "construct": o[2], "holds": o[3], "at": o[4]} for o in c.obls][:12]
    ev = {
        "property": c.pid, "tier": c.tier, "seed": c.seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the MIR of /repo's current source: each obligation is one construct "
                           "(call site, path set, field, table entry) checked against the rule named with it; "
                           "nothing of /repo is executed. " + title,
            "obligations": len(c.obls), "discharged": sum(1 for o in c.obls if o[3]),
            "rules": {k: {"obligations": v[0], "discharged": v[1]} for k, v in sorted(rules.items())},
            "functions_analysed": len(c.functions), "functions": sorted(fname(x) for x in c.functions)[:400],
            "flow_graph": {"nodes": c.nodes, "edges": c.edges, "events": c.events},
            "samples": samples,
        },
        "assumptions": sorted(set(c.notes)),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, c.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    if not viol:
        print("OK property=%s obligations=%d functions=%d known=%d %.1fs" % (
            c.pid, len(c.obls), len(c.functions), len(bad) - len(viol), time.time() - t0))
        return 0
    rp = os.path.join(outdir, c.pid + ".txt")
    with open(rp, "w") as f:
        f.write("property %s: %s\n\n" % (c.pid, title))
        for k, o in viol:
            f.write("rule      %s\nfunction  %s\nconstruct %s\nat        %s\n%s\n" % (o[0], o[1], o[2], o[4], o[5]))
            if o[6]:
                f.write("path:\n" + "".join("    %s\n" % s for s in o[6]))
            f.write("\n")
    for k, o in viol[:12]:
        print("  %s  %s: %s  %s %s" % (o[4], o[1], o[2], o[0], o[5]))
        for s in (o[6] or [])[-6:]:
            print("      | " + s[:200])
    print("VIOLATION property=%s replay=%s" % (c.pid, rp))
    return 1
