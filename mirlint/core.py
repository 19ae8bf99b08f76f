"""Interprocedural, path-partitioned dataflow over the MIR of the workspace.

For a root function the engine builds an exploded flow graph: nodes are
(inlining context, basic block, partition), where the partition is the set of
enum variants / booleans known for the live locals.  Values are interned terms
(value numbering with phi terms at joins), references are resolved to the place
they alias, library combinators are replaced by the reference bodies of
stubs/mirmodel.rs.  Nothing is executed and no path is handed to a solver: the
graph is the fixpoint of a monotone transfer function.

Rules query the resulting *event graph* (calls, awaits, writes, exits) with
reachability-avoiding-a-set questions.
"""
import heapq
import re
from collections import defaultdict, deque

# --------------------------------------------------------------------- terms


class T:
    __slots__ = ("op", "a", "n", "_b")

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.n = len(_tab)
        t._b = None
        _tab[k] = t
    return t


def short(q):
    q = re.sub(r"<[^<>]* as ([^<>]*)>", r"\1", q)
    p = q.split("::")
    return "::".join(p[-2:])


def show(t, d=0):
    if isinstance(t, str):
        return t
    if not isinstance(t, T):
        return repr(t)
    if d > 7:
        return ".."
    o = t.op
    s = lambda x: show(x, d + 1)
    if o == "param":
        return t.a[0]
    if o == "int":
        return str(t.a[0])
    if o == "str":
        return repr(t.a[0])
    if o in ("cq", "static", "lazy"):
        return short(t.a[0])
    if o == "fn":
        return "fn " + short(t.a[0])
    if o == "fld":
        return s(t.a[0]) + "." + str(t.a[1])
    if o == "pay":
        return s(t.a[0]) + "@" + t.a[1].split("::")[-1] + "." + t.a[2]
    if o in ("ok", "err"):
        return "%s(%s)" % (o, s(t.a[0]))
    if o == "agg":
        n = t.a[0].split("::")[-1]
        b = ", ".join("%s: %s" % (f, s(x)) for f, x in t.a[1])
        if t.a[2] is not None:
            b += ", ..%s" % s(t.a[2])
        return "%s{%s}" % (n, b)
    if o == "bin":
        return "%s(%s, %s)" % (t.a[0], s(t.a[1]), s(t.a[2]))
    if o == "un":
        return "%s(%s)" % (t.a[0], s(t.a[1]))
    if o == "call":
        return "%s(%s)" % (short(t.a[0]), ", ".join(s(x) for x in t.a[2]))
    if o in ("elem", "next"):
        return "%s(%s)" % (o, s(t.a[0]))
    if o == "ref":
        return "&" + repr(t.a)
    if o == "phi":
        return "phi%d" % t.n
    return "%s(%s)" % (o, ", ".join(s(x) if isinstance(x, T) else str(x) for x in t.a))


def agg(name, fields, base=None):
    return mk("agg", name, tuple(fields), base)


UNIT = agg("tuple", ())
TRUE = mk("int", 1, "bool")
FALSE = mk("int", 0, "bool")
SOME = "core::option::Option::Some"
NONE = "core::option::Option::None"
OK = "core::result::Result::Ok"
ERR = "core::result::Result::Err"
READY = "core::task::poll::Poll::Ready"
PAYLOAD = {SOME, OK, READY}


def some(t):
    return agg(SOME, (("0", t),))


def int_(v, ty="u64"):
    return mk("int", int(v), ty)


def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "un" and t.a[0] == "Not":
        return t.a[1]
    return mk("un", "Not", t)


def other_variant(a, b):
    """different variants of one enum"""
    if a.op != "agg" or b.op != "agg" or a.a[0] == b.a[0]:
        return False
    p, q = a.a[0].rsplit("::", 1)[0], b.a[0].rsplit("::", 1)[0]
    return p == q and "::" in p and p.rsplit("::", 1)[-1][:1].isupper()


def binop(op, a, b):
    ia = a.a[0] if a.op == "int" else None
    ib = b.a[0] if b.op == "int" else None
    if op in ("Eq", "Ne"):
        if ia is not None and ib is not None:
            r = TRUE if ia == ib else FALSE
        elif a is b and a.op not in ("phi",):
            r = TRUE
        elif other_variant(a, b):
            r = FALSE
        elif ib in (0, 1) and b.a[1] == "bool":
            r = a if ib else not_(a)
        elif ia in (0, 1) and a.a[1] == "bool":
            r = b if ia else not_(b)
        else:
            if a.n > b.n:
                a, b = b, a
            r = mk("bin", "Eq", a, b)
        return r if op == "Eq" else not_(r)
    if op in ("Lt", "Gt", "Le", "Ge"):
        if ia is not None and ib is not None:
            v = {"Lt": ia < ib, "Gt": ia > ib, "Le": ia <= ib, "Ge": ia >= ib}[op]
            return TRUE if v else FALSE
        if op == "Lt":
            return mk("bin", "Lt", a, b)
        if op == "Gt":
            return mk("bin", "Lt", b, a)
        if op == "Le":
            return not_(mk("bin", "Lt", b, a))
        return not_(mk("bin", "Lt", a, b))
    if ia is not None and ib is not None:
        ty = a.a[1]
        if op == "Add":
            return mk("int", ia + ib, ty)
        if op == "Sub" and ia >= ib:
            return mk("int", ia - ib, ty)
        if op == "Mul":
            return mk("int", ia * ib, ty)
    if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and a.n > b.n:
        a, b = b, a
    if op in ("BitAnd", "BitOr") and (a.op == "int" or b.op == "int"):
        c, x = (a, b) if a.op == "int" else (b, a)
        if c.a[1] == "bool":
            if op == "BitAnd":
                return x if c is TRUE else FALSE
            return TRUE if c is TRUE else x
    return mk("bin", op, a, b)


def full_range(t):
    """the collection C when t is 0..C.len()"""
    if t.op == "agg" and t.a[0].endswith("ops::range::Range"):
        f = dict(t.a[1])
        lo, hi = f.get("start"), f.get("end")
        if lo is not None and lo.op == "int" and lo.a[0] == 0 and hi is not None:
            if hi.op == "len":
                return hi.a[0]
            if hi.op == "call" and hi.a[0].endswith("::len") and len(hi.a[2]) == 1:
                return hi.a[2][0]
    return None


def is_variant_name(db, n):
    return n in db.variants


# ------------------------------------------------------------------ database

STD_ENUMS = {
    "core::option::Option": {"0": "None", "1": "Some"},
    "core::result::Result": {"0": "Ok", "1": "Err"},
    "core::task::poll::Poll": {"0": "Ready", "1": "Pending"},
    "core::cmp::Ordering": {"-1": "Less", "0": "Equal", "1": "Greater",
                            "255": "Less", "18446744073709551615": "Less"},
    "std::collections::hash::map::Entry": {"0": "Occupied", "1": "Vacant"},
    "alloc::collections::btree::map::Entry": {"0": "Vacant", "1": "Occupied"},
    "alloc::borrow::Cow": {"0": "Borrowed", "1": "Owned"},
}


class Body:
    def __init__(self, j, crate):
        self.j = j
        self.q = j["q"]
        self.crate = crate
        self.kind = j["kind"]
        self.nargs = j["nargs"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.span = j["span"]
        self.generics = j.get("generics", [])
        self.upvars = j.get("upvars") or []
        self._live = None
        self._rpo = None
        self._dead = None

    def succs(self, i):
        t = self.blocks[i]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return list(t[4])
        if k == "drop":
            return [t[2]]
        if k == "replace":
            return [t[3]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        if k == "yield":
            return [t[2]]
        return []

    def dead_drops(self):
        """blocks that drop a lock guard which was moved away on every path to them (nothing happens there)"""
        if self._dead is not None:
            return self._dead
        want = {t[1][0] for t in (b["t"] for b in self.blocks) if t[0] == "drop" and isinstance(t[1][0], int) and not t[1][1] and
                "Guard" in self.locals[t[1][0]][0]}
        self._dead = set()
        if not want:
            return self._dead

        def moved(x, out):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == "mv" and isinstance(x[1], list) and len(x[1]) == 2 and x[1][0] in want and isinstance(x[1][0], int):
                    l, proj = x[1]
                    if not proj or self.locals[l][0].startswith("core::option::Option<"):
                        out.add(l)
                    return
                for y in x:
                    moved(y, out)

        def through(i, live, until_end):
            live = set(live)
            for s in self.blocks[i]["s"]:
                if s[0] == "=":
                    out = set()
                    moved(s[2], out)
                    live -= out
                    if s[1][0] in want and isinstance(s[1][0], int):
                        live.add(s[1][0])
                elif s[0] == "sd":
                    live.discard(s[1])
            if until_end:
                t = self.blocks[i]["t"]
                out = set()
                moved(t[1:], out)
                live -= out
                if t[0] == "drop" and isinstance(t[1][0], int) and not t[1][1]:
                    live.discard(t[1][0])
                for x in t[1:]:     # the place a call writes to
                    if isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and x[0] in want and isinstance(x[1], list) and t[0] in ("call", "replace"):
                        live.add(x[0])
            return live
        ins = {0: frozenset(l for l in want if 1 <= l <= self.nargs)}
        work = [0]
        while work:
            i = work.pop()
            out = through(i, ins[i], True)
            for j in self.succs(i):
                new = frozenset(out | ins.get(j, frozenset()))
                if new != ins.get(j):
                    ins[j] = new
                    work.append(j)
        for i, b in enumerate(self.blocks):
            t = b["t"]
            if t[0] == "drop" and i in ins and isinstance(t[1][0], int) and not t[1][1] and t[1][0] in want and t[1][0] not in through(i, ins[i], False):
                self._dead.add(i)
        return self._dead

    @property
    def rpo(self):
        if self._rpo is None:
            seen, order = set(), []
            st = [(0, iter(self.succs(0)))]
            seen.add(0)
            while st:
                n, it = st[-1]
                for s in it:
                    if s is not None and s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(n)
                    st.pop()
            order.reverse()
            self._rpo = {b: i for i, b in enumerate(order)}
        return self._rpo

    @property
    def live(self):
        """(live-in per block, borrowed locals)"""
        if self._live is not None:
            return self._live
        borrowed = set()
        use, dfn = {}, {}

        def place_uses(p, acc):
            if isinstance(p[0], int):
                acc.append(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == "i":
                    acc.append(e[1])

        def op_uses(o, acc):
            if o[0] in ("cp", "mv"):
                place_uses(o[1], acc)

        def rv_uses(r, acc):
            k = r[0]
            if k in ("use", "repeat"):
                op_uses(r[1], acc)
            elif k == "ref":
                place_uses(r[2], acc)
                if isinstance(r[2][0], int) and "*" not in r[2][1]:
                    borrowed.add(r[2][0])
            elif k in ("len", "discr"):
                place_uses(r[1], acc)
            elif k == "cast":
                op_uses(r[2], acc)
            elif k == "bin":
                op_uses(r[2], acc)
                op_uses(r[3], acc)
            elif k == "un":
                op_uses(r[2], acc)
            elif k == "agg":
                for o in r[4]:
                    op_uses(o, acc)

        for i in self.rpo:
            b = self.blocks[i]
            u, d = set(), set()

            def use_(l):
                if l not in d:
                    u.add(l)
            for s in b["s"]:
                if s[0] == "=":
                    acc = []
                    rv_uses(s[2], acc)
                    for l in acc:
                        use_(l)
                    p = s[1]
                    if isinstance(p[0], int):
                        if p[1]:
                            acc = []
                            place_uses(p, acc)
                            for l in acc:
                                use_(l)
                        else:
                            d.add(p[0])
            t = b["t"]
            acc = []
            if t[0] == "switch":
                op_uses(t[1], acc)
            elif t[0] == "call":
                op_uses(t[1], acc)
                for o in t[2]:
                    op_uses(o, acc)
            elif t[0] == "assert":
                op_uses(t[1], acc)
            elif t[0] == "yield":
                op_uses(t[1], acc)
            elif t[0] == "replace":
                op_uses(t[2], acc)
                if t[1][1]:
                    place_uses(t[1], acc)
            elif t[0] == "return":
                acc.append(0)
            for l in acc:
                use_(l)
            if t[0] == "call" and t[3] is not None:
                p = t[3]
                if p[1]:
                    acc = []
                    place_uses(p, acc)
                    for l in acc:
                        use_(l)
                elif isinstance(p[0], int):
                    d.add(p[0])
            use[i], dfn[i] = u, d
        live = {i: set(use[i]) for i in self.rpo}
        ch = True
        order = sorted(self.rpo, key=lambda i: -self.rpo[i])
        while ch:
            ch = False
            for i in order:
                out = set()
                for s in self.succs(i):
                    out |= live.get(s, set())
                n = use[i] | (out - dfn[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        self._live = (live, borrowed)
        return self._live


class DB:
    def __init__(self, dump):
        self.dump = dump
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.fns = {}
        self.crates = list(dump)
        foreign = {}
        for c, x in dump.items():
            for j in x["bodies"]:
                self.bodies[j["q"]] = Body(j, c)
            for a in x["adts"]:
                self.adts[a["q"]] = a
            for i in x["impls"]:
                i["crate"] = c
                self.impls.append(i)
            for t in x["traits"]:
                self.traits[t["q"]] = t
            for f in x["fns"]:
                self.fns[f[0]] = f
            foreign.update(x.get("enums") or {})
        self.enums = {k: dict(v) for k, v in STD_ENUMS.items()}
        for q, a in self.adts.items():
            if a["kind"] == "enum" or any(v["disc"] is not None for v in a["variants"]):
                self.enums[q] = {str(v["disc"]): v["name"] for v in a["variants"]}
        for q, vs in foreign.items():
            if q not in self.enums:
                self.enums[q] = {d: n for d, n in vs}
        # enums of other crates: learn the variants from the downcasts used
        for b in self.bodies.values():
            for k in b.blocks:
                for s in k["s"]:
                    if s[0] == "=":
                        self._learn(s[2])
                        self._learn_place(s[1])
                if k["t"][0] == "call":
                    for o in k["t"][2]:
                        if o[0] in ("cp", "mv"):
                            self._learn_place(o[1])
        self.variants = set()
        for q, v in self.enums.items():
            for n in v.values():
                self.variants.add(q + "::" + n)
        self.derived = set()
        self.impl_items = defaultdict(list)   # (trait, method) -> [(self, q)]
        for i in self.impls:
            for it in i["items"]:
                if i.get("derived"):
                    self.derived.add(it[1])
                if i.get("trait"):
                    self.impl_items[(i["trait"], it[0])].append((i["self"], it[1]))
        self.ctors = {}
        for q, a in self.adts.items():
            for v in a["variants"]:
                n = q + "::" + v["name"] if q in self.enums else q
                self.ctors[n] = [f[0] for f in v["fields"]]

    def _learn(self, r):
        if r[0] == "use" and r[1][0] in ("cp", "mv"):
            self._learn_place(r[1][1])
        elif r[0] == "ref":
            self._learn_place(r[2])
        elif r[0] == "discr":
            self._learn_place(r[1])

    def _learn_place(self, p):
        for e in p[1]:
            if isinstance(e, list) and e[0] == "d" and "::" in e[2]:
                a, v = e[2].rsplit("::", 1)
                d = self.enums.setdefault(a, {})
                if a not in self.adts and a not in STD_ENUMS:
                    d.setdefault(str(e[1]), v)

    def body(self, pat, crate=None, kind=None):
        r = self.find(pat, crate, kind)
        if len(r) != 1:
            raise Anchor("function %s: %d matches %s" % (pat, len(r), [b.q for b in r][:4]))
        return r[0]

    def find(self, pat, crate=None, kind=None):
        rx = re.compile(pat)
        return [b for b in self.bodies.values()
                if rx.search(b.q) and (crate is None or b.crate == crate) and (kind is None or b.kind == kind)]

    def trait_impl(self, trait, method, selfpat=None, crate=None):
        """The one implementation of trait::method (selfpat narrows the Self type)."""
        c = [(s, q) for (s, q) in self.impl_items.get((trait, method), [])
             if (selfpat is None or re.search(selfpat, s)) and q in self.bodies
             and (crate is None or self.bodies[q].crate == crate)]
        if len(c) != 1:
            raise Anchor("implementation of %s::%s for %s: %d found" % (trait, method, selfpat, len(c)))
        return self.bodies[c[0][1]]


class Anchor(Exception):
    """An anchor a rule needs is not in the program: the check fails closed."""


# ---------------------------------------------------------------- model table

SCALAR_MUT = re.compile(r"&mut (core::option::Option<|core::result::Result<|(bool|char|[iu](8|16|32|64|128|size))$)")

O = "core::option::Option::"
R = "core::result::Result::"
I = "core::iter::traits::iterator::Iterator::"
RI = "rayon::iter::ParallelIterator::"
MODELS = {}
for m in ("map and_then and or or_else filter map_or map_or_else ok_or ok_or_else is_some is_none unwrap expect "
          "unwrap_or unwrap_or_else unwrap_or_default transpose flatten get_or_insert_with get_or_insert take replace").split():
    MODELS[O + m] = "option_" + m
for m in ("map map_err and_then and or_else ok err is_ok is_err unwrap expect unwrap_err unwrap_or unwrap_or_else "
          "unwrap_or_default transpose").split():
    MODELS[R + m] = "result_" + m
for p in (I, RI, "rayon::iter::IndexedParallelIterator::"):
    for m in ("map filter filter_map flat_map take_while skip_while chain inspect for_each fold all any find "
              "find_map try_for_each try_fold position count unzip").split():
        MODELS[p + m] = "iter_" + m
for p in ("std::collections::hash::map::Entry::", "alloc::collections::btree::map::Entry::"):
    for m in "and_modify or_insert or_insert_with or_default".split():
        MODELS[p + m] = "entry_" + m
MODELS["rand::seq::IteratorRandom::choose_multiple"] = "iter_choose_multiple"
MODELS["core::ops::range::Range::contains"] = "range_contains"
MODELS["core::ops::range::RangeInclusive::contains"] = "range_incl_contains"
MODELS["core::cmp::Ordering::then_with"] = "ordering_then_with"
MODELS["core::iter::traits::collect::Extend::extend"] = "extend"
MODELS["alloc::vec::Vec::retain"] = "retain"
MODELS["std::collections::hash::map::HashMap::retain"] = "retain"
MODELS["std::collections::hash::set::HashSet::retain"] = "retain"
for p in ("futures_util::try_future::TryFutureExt::", "futures_util::future::FutureExt::"):
    MODELS[p + "map_err"] = "fut_map_err"
    MODELS[p + "unwrap_or_else"] = "fut_else"
    MODELS[p + "and_then"] = "fut_and_then"
    MODELS[p + "map"] = "fut_map"
    MODELS[p + "then"] = "fut_then"
MODELS["futures_util::try_future::try_join_all::try_join_all"] = "fut_all"
MODELS["runtime::task::spawn"] = "spawn"
MODELS["tokio_executor::global::spawn"] = "spawn"
MODELS["std::thread::spawn"] = "spawn"
MODELS["futures_executor::local_pool::block_on"] = "block_on"
MODELS["runtime_raw::enter"] = "block_on"
MODELS = {k: "mirmodel::" + v for k, v in MODELS.items()}

# value identity: the result is the (dereferenced) first argument
FIRST_BYTE = None
INT_BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
            "i8": -8, "i16": -16, "i32": -32, "i64": -64, "i128": -128, "isize": -64}


def lossy(a, b):
    """some value of type a is no value of type b"""
    x, y = INT_BITS[a], INT_BITS[b]
    if x > 0:
        return x > (y if y > 0 else -y - 1)
    return y > 0 or -x > -y


VALUE_ID = set("""
core::clone::Clone::clone alloc::borrow::ToOwned::to_owned core::convert::Into::into core::convert::From::from
[T]::to_vec [T]::into_vec core::option::Option::cloned core::option::Option::copied alloc::boxed::Box::new
alloc::boxed::Box::pin core::cell::RefCell::new lock_api::rwlock::RwLock::new lock_api::mutex::Mutex::new
futures_util::lock::mutex::Mutex::new std::sync::mutex::Mutex::new std::sync::rwlock::RwLock::new
core::pin::Pin::new_unchecked core::pin::Pin::as_mut core::pin::Pin::new std::future::from_generator [T]::iter [T]::iter_mut
core::iter::traits::collect::IntoIterator::into_iter alloc::vec::Vec::as_slice
core::ops::try::Try::into_result core::iter::traits::iterator::Iterator::cloned
core::iter::traits::iterator::Iterator::copied core::iter::traits::iterator::Iterator::by_ref
core::iter::traits::iterator::Iterator::fuse core::iter::traits::iterator::Iterator::peekable
rayon::iter::IntoParallelIterator::into_par_iter rayon::iter::IntoParallelRefIterator::par_iter
rayon::iter::ParallelIterator::cloned
std::collections::hash::map::HashMap::iter std::collections::hash::map::HashMap::iter_mut
std::collections::hash::map::HashMap::drain std::collections::hash::set::HashSet::drain
std::collections::hash::set::HashSet::iter alloc::collections::btree::map::BTreeMap::iter
alloc::collections::btree::map::BTreeMap::iter_mut
alloc::vec::Vec::drain alloc::collections::vec_deque::VecDeque::drain alloc::collections::vec_deque::VecDeque::iter
alloc::vec::Vec::into_boxed_slice alloc::rc::Rc::clone alloc::sync::Arc::clone
futures_util::try_future::TryFutureExt::err_into futures_util::stream::StreamExt::fuse
alloc::string::String::as_bytes str::as_bytes alloc::string::String::as_str core::cell::RefCell::into_inner
core::convert::identity alloc::string::String::from_utf8_unchecked std::future::IntoFuture::into_future
""".split())
# result is a reference to the same place
PLACE_ID = set("""
core::ops::deref::Deref::deref core::ops::deref::DerefMut::deref_mut core::convert::AsRef::as_ref
core::convert::AsMut::as_mut core::borrow::Borrow::borrow core::borrow::BorrowMut::borrow_mut
core::cell::RefCell::borrow core::cell::RefCell::borrow_mut core::cell::RefCell::get_mut
lock_api::rwlock::RwLock::read lock_api::rwlock::RwLock::write lock_api::mutex::Mutex::lock
alloc::sync::Arc::get_mut alloc::sync::Arc::make_mut core::pin::Pin::get_mut core::pin::Pin::get_unchecked_mut
futures_util::compat::compat01as03::Compat01As03::get_mut futures_util::compat::compat01as03::Compat01As03::get_ref
""".split())
LOCKS = {"lock_api::rwlock::RwLock::read", "lock_api::rwlock::RwLock::write", "lock_api::mutex::Mutex::lock"}
SMART = re.compile(r"^&?(mut )?(alloc::(rc::Rc|sync::Arc)|core::cell::Ref|core::cell::RefMut|lock_api::|futures_util::lock)")
HEAP = {"alloc::rc::Rc::new", "alloc::sync::Arc::new"}
NEW = re.compile(r"^(alloc::vec::Vec|std::collections::hash::(map::HashMap|set::HashSet)|alloc::collections::"
                 r"(btree::map::BTreeMap|vec_deque::VecDeque|btree::set::BTreeSet)|alloc::string::String|bytes::bytes::Bytes(Mut)?)"
                 r"::(new|with_capacity)$")
RESHAPE = re.compile(r"(sort\w*|reverse|swap|swap_remove|remove|dedup\w*|truncate|pop|pop_front|pop_back|clear|rotate_\w+|resize\w*|split_off|"
                     r"split_to|advance|drain|retain|fill)$")
RESHAPED = re.compile(r"(Vec|VecDeque|Bytes|BytesMut|String|\])::\w+$")
PUSH = {"push": 1, "push_back": 1, "insert": -1, "push_str": 1, "extend_from_slice": 1, "append": 1, "push_front": 1}
ARITH = {"add_assign": "Add", "sub_assign": "Sub", "mul_assign": "Mul", "add": "Add", "sub": "Sub", "mul": "Mul",
         "div": "Div", "rem": "Rem", "bitxor_assign": "BitXor", "bitor_assign": "BitOr", "bitand_assign": "BitAnd"}
CMP = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}
PANICS = re.compile(r"(panicking::(begin_panic|begin_panic_fmt|panic|panic_fmt)|::unimplemented|process::(exit|abort))$")
LAZY_ITERS = {"take", "skip", "rev", "step_by", "enumerate", "zip", "keys", "values", "values_mut", "chunks", "windows",
              "flatten", "skip_take"}
NO_INLINE_TRAITS = re.compile(r"(fmt::(Debug|Display)|^core::hash|serde::|^std::error|^core::error|prost::message::Message$|rlp::traits)")
FNTRAITS = ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn")


class Ctx:
    __slots__ = ("id", "body", "parent", "bb", "dest", "target", "wrap", "subst", "chain", "depth", "gen")


class State:
    __slots__ = ("env", "mem", "facts")

    def __init__(self, env, mem, facts):
        self.env, self.mem, self.facts = env, mem, facts

    def copy(self):
        return State(dict(self.env), dict(self.mem), dict(self.facts))


class Event:
    __slots__ = ("kind", "q", "args", "term", "span", "ctx", "callee", "val", "bb", "id", "fn", "raw", "facts")

    def __repr__(self):
        if self.kind in ("call", "await"):
            return "%s %s(%s) @%s" % (self.kind, short(self.q), ", ".join(map(show, self.args)), self.span.split("/repo/")[-1])
        if self.kind == "write":
            return "write %s := %s @%s" % (show(self.term), show(self.val), self.span.split("/repo/")[-1])
        return "%s %s %s @%s" % (self.kind, self.q or "", show(self.val) if self.val else "", self.span.split("/repo/")[-1])


class Budget(Exception):
    pass


class Analysis:
    def __init__(self, db, root, inline=None, stop=(), params=None, max_nodes=60000, cha=True, extra_stop=None,
                 force=(), assume=None, axioms=None, ints=False, nofold=False, errs=False):
        self.axioms, self.ints, self.errs = axioms, ints, errs
        self._args = (db, root, inline, stop, params, max_nodes, cha, extra_stop, force, assume, axioms, ints)
        self._kw = dict(errs=errs)
        self.nofold, self._seen, self._coarse = nofold, {}, None
        self._mem0 = {}
        self.db = db
        self.root = db.bodies[root] if isinstance(root, str) else root
        self.inline = set(inline) if inline else {self.root.crate}
        self.inline.add("mirmodel")
        self.stop = re.compile("|".join("(?:%s)" % s for s in stop)) if stop else None
        self.force = re.compile("|".join("(?:%s)" % s for s in force)) if force else None
        self.cha = cha
        self.max_nodes = max_nodes
        self.ctxs = []
        self.ctxtab = {}
        self.phi = {}          # phi term -> set of inputs
        self.phi_in = {}       # phi term -> input -> edges (node, node, conditions) on which it takes that input
        self.pushes = defaultdict(set)   # container term -> terms inserted
        self.boxed = {}                  # vec![..] -> number of entries
        self.calls = {}        # call term -> callee json
        self.inlined = set()
        self.opaque = defaultdict(int)
        self.params = params
        self._run()

    def contents(self, t):
        """t with elements of locally built lists replaced by what was put into them so far"""
        from .rules import expand
        return expand(self, t, move=False)

    def look(self, t):
        """contents(t), checked to be complete when the analysis ends"""
        if self.nofold:
            return {t}
        v = self.contents(t)
        if v != {t} or t in self._seen:
            self._seen[t] = v
        return v

    # ---------------------------------------------------------------- setup
    def ctx(self, body, parent, bb, dest, target, wrap, subst):
        k = (body.q, parent, bb, wrap, subst)
        c = self.ctxtab.get(k)
        if c is None:
            c = Ctx()
            c.id = len(self.ctxs)
            c.body, c.parent, c.bb, c.dest, c.target, c.wrap = body, parent, bb, dest, target, wrap
            c.subst = subst
            c.gen = False
            c.chain = (self.ctxs[parent].chain + (body.q,)) if parent is not None else (body.q,)
            c.depth = len(c.chain)
            self.ctxs.append(c)
            self.ctxtab[k] = c
            self.inlined.add(body.q)
        return c

    def _prio(self, cid, bb):
        p = []
        while cid is not None:
            c = self.ctxs[cid]
            p.append((c.body.rpo.get(bb, 10 ** 6), cid))

            bb = c.bb
            cid = c.parent
        p.reverse()
        return tuple(p)

    def _run(self):
        db = self.db
        c0 = self.ctx(self.root, None, None, None, None, None, ())
        env = {}
        b = self.root
        for i in range(1, b.nargs + 1):
            nm = b.locals[i][1] or ("self" if i == 1 and False else "arg%d" % i)
            if b.kind == "closure" and i == 1:
                # free-standing closure / generator: captured variables become parameters
                base = mk("param", "env")
                # (or what the function that builds it is known to put there)
                fs = [(str(k), (self.params or {}).get("^%d" % k) or mk("param", u.lstrip("_") if u != "_" else u)) for k, u in enumerate(b.upvars)]
                v = agg("closure:" + b.q, fs, base)
                if b.locals[1][0].startswith("&"):
                    cell = mk("heap", "env")
                    env_mem = {cell: v}
                    env[(0, 1)] = mk("ref", ("o", cell), ())
                    self._mem0 = env_mem
                    continue
                env[(0, 1)] = v
                continue
            env[(0, i)] = (self.params or {}).get(nm) or mk("param", nm)
        st = State(env, dict(getattr(self, "_mem0", {})), {})
        self.nodes = {}        # key -> State
        self.index = defaultdict(list)   # (ctx,bb) -> [key]
        heap = []
        queued = set()
        k0 = self._place(0, 0, st, heap, queued)
        self.entry = k0
        steps = 0
        while heap:
            _, _, k = heapq.heappop(heap)
            queued.discard(k)
            steps += 1
            if steps > self.max_nodes * 4 or len(self.nodes) > self.max_nodes:
                raise Budget("analysis of %s exceeds its node budget" % self.root.q)
            for (cid, bb, s2, _conds) in self._exec(k[0], k[1], self.nodes[k].copy(), None):
                if cid is None:
                    continue
                self._place(cid, bb, s2, heap, queued)
        self.steps = steps
        if any(self.contents(t) != v for t, v in list(self._seen.items())):
            # a local list was looked into before it was complete: do without
            self.__init__(*self._args, nofold=True, **self._kw)
            return
        # final pass: events and edges
        self.events = []
        self.nev = {}
        self.edges = {}
        self._final = True
        for k in list(self.nodes):
            evs = []
            out = self._exec(k[0], k[1], self.nodes[k].copy(), evs)
            for e in evs:
                e.id = len(self.events)
                self.events.append(e)
            self.nev[k] = evs
            es = []
            for (cid, bb, s2, conds) in out:
                if cid is None:
                    continue
                kk = self._coarse[self._key(cid, bb, s2)]
                es.append((kk, conds))
                self._provenance((evs[-1].id if evs else ("b", k), ("b", kk), conds), self.nodes[kk], s2)
            self.edges[k] = es
        self._build_graph()

    _coarse = None
    _seq = 0

    LEVELS = (40, 40, 40, 24)

    def _place(self, cid, bb, st, heap, queued):
        if self._coarse is None:
            self._coarse = {}
            self._nlev = defaultdict(int)
        full = self._key(cid, bb, st)
        k = self._coarse.get(full)
        if k is None:
            # a block with too many partitions falls back to coarser and coarser keys
            cands = (full, (cid, bb, ("c0", full[2][0])), (cid, bb, ("c1", self._ckey(cid, st, False))),
                     (cid, bb, ("c2", self._ckey(cid, st, True))), (cid, bb, "*"))
            for lev, k in enumerate(cands):
                if k in self.nodes or lev == 4 or self._nlev[(cid, bb, lev)] < self.LEVELS[lev]:
                    break
            if k not in self.nodes:
                self._nlev[(cid, bb, lev)] += 1
            self._coarse[full] = k
        old = self.nodes.get(k)
        if old is None:
            self.nodes[k] = st
            self.index[(cid, bb)].append(k)
            ch = True
        else:
            ch = self._merge(k, old, st)
        if ch and k not in queued:
            queued.add(k)
            self._seq += 1
            heapq.heappush(heap, (self._prio(cid, bb), self._seq, k))
        return k

    def _ckey(self, cid, st, only_ret):
        """coarse partition: the outermost variants of the locals of this frame (or of its return slot only)"""
        out = []
        for s, v in st.env.items():
            if s[0] != cid or (only_ret and s[1] != 0):
                continue
            if v.op == "agg" and v.a[0] in self.db.variants:
                sub = v.a[1][0][1] if v.a[0] in PAYLOAD and v.a[1] else None
                out.append((s, v.a[0], sub.a[0] if sub is not None and sub.op == "agg" and sub.a[0] in self.db.variants else ""))
            elif v.op == "int" and v.a[1] == "bool":
                out.append((s, v.a[0]))
        out.sort(key=str)
        return tuple(out)

    # partition key; also prunes dead locals and facts
    def _key(self, cid, bb, st):
        c = self.ctxs[cid]
        live, borrowed = c.body.live
        lv = live.get(bb, ())
        env = st.env
        dead = [s for s in env if s[0] == cid and s[1] not in lv and s[1] not in borrowed]
        for s in dead:
            del env[s]
        shape = []
        roots = set()
        direct = set()
        for s, v in env.items():
            sh = self._shape(v, 0)
            if sh:
                shape.append((s, sh))
            roots |= self._bases(v)
            direct.add(v)
            if v.op == "un":
                direct.add(v.a[1])
        for t, v in st.mem.items():
            roots |= self._bases(v)
            if self.axioms is not None and t.op == "new" and t.a[0] == "box":
                sh = self._shape(v, 0)
                if sh:
                    shape.append(((cid, -1 - t.a[2]), sh))
        keep, tell = {}, {}
        for t, f in st.facts.items():
            if isinstance(f, bool):
                if t in direct or (t.op == "occupied" and t.a[0] in roots):
                    keep[t] = f
                elif t.op == "call" and t.a[1] == () and any(self._bases(x) & roots for x in t.a[2]):
                    tell[t] = f         # known where it is known on all ways here
            elif self._bases(t) & roots:
                keep[t] = f
        st.facts = {**keep, **tell} if tell else keep
        shape.sort()
        fk = tuple(sorted(((t.n, f if isinstance(f, bool) else tuple(sorted(f))) for t, f in keep.items()),
                          key=lambda x: (x[0], str(x[1]))))
        return (cid, bb, (tuple(shape), fk))

    def _shape(self, v, d):
        if v.op == "int" and (v.a[1] == "bool" or self.ints):
            return v.a[0] + 1 if v.a[1] == "bool" else ("i", v.a[0])
        if v.op == "agg":
            n = v.a[0]
            if n in self.db.variants:
                if d < 3 and (n != ERR or self.errs):
                    sub = tuple((f, s) for f, s in ((f, self._shape(x, d if n in PAYLOAD else d + 1)) for f, x in v.a[1]) if s)
                    return (n, sub)
                return (n,)
            if n == "array" and self.ints and len(v.a[1]) <= 4:
                return ("a",) + tuple((f, self._shape(x, 3)) for f, x in v.a[1] if self._shape(x, 3)) or None
            if d < 2 and not n.startswith("closure:") and n != "array":
                sub = tuple((f, s) for f, s in ((f, self._shape(x, d + 1)) for f, x in v.a[1]) if s)
                return ("t", sub) if sub else None
        if v.op == "cat" and self.ints:
            return self._shape(v.a[0], d)
        return None

    def _bases(self, t):
        b = t._b
        if b is None:
            o = t.op
            if o in ("fld", "pay", "ok", "err", "elem", "next", "discr", "cast", "optref"):
                x = t.a[0] if isinstance(t.a[0], T) else (t.a[1] if len(t.a) > 1 and isinstance(t.a[1], T) else None)
                b = self._bases(x) if x is not None else frozenset()
                if o in ("elem", "next"):
                    b = b | frozenset((t if o == "next" else mk("next", *t.a),))
            elif o == "agg":
                b = frozenset()
                for _, x in t.a[1]:
                    if isinstance(x, T):
                        b = b | self._bases(x)
                if t.a[2] is not None:
                    b = b | self._bases(t.a[2])
            elif o == "ref":
                b = self._bases(t.a[0][1]) if t.a[0][0] == "o" else frozenset()
            elif o in ("int", "str", "fn", "cq", "bytes", "k", "subst"):
                b = frozenset()
            elif o == "un":
                b = self._bases(t.a[1])
            else:
                b = frozenset((t,))
            t._b = b
        return b

    # ------------------------------------------------------------------ join
    def _merge(self, k, old, new):
        ch = False
        for s, v in new.env.items():
            o = old.env.get(s)
            if o is None:
                old.env[s] = v
                ch = True
            elif o is not v:
                j = self._join((k, s), o, v, 0)
                if j is not o:
                    old.env[s] = j
                    ch = True
        for s, v in new.mem.items():
            o = old.mem.get(s)
            if o is None:
                o = s if s.op != "heap" else v
            if o is not v or s not in old.mem:
                j = self._join((k, s), o, v, 0) if o is not v else v
                if old.mem.get(s) is not j:
                    old.mem[s] = j
                    ch = True
        for s in list(old.mem):
            if s not in new.mem and s.op != "heap":
                o = old.mem[s]
                j = self._join((k, s), o, s, 0)
                if j is not o:
                    old.mem[s] = j
                    ch = True
        for t in list(old.facts):
            f = new.facts.get(t)
            o = old.facts[t]
            if f == o:
                continue
            if f is None or isinstance(f, bool) or isinstance(o, bool):
                del old.facts[t]
                ch = True
            else:
                u = f | o
                if u != o:
                    old.facts[t] = u
                    ch = True
        return ch

    def _join(self, key, a, b, d):
        if a is b:
            return a
        p = mk("phi", key)
        if a is p:
            s = self.phi.setdefault(p, set())
            if b is not p:
                s.add(b)
            return p
        if b is p:
            # value computed downstream from this very join
            self.phi.setdefault(p, set()).add(a)
            return p
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and d < 6:
            fa, fb = dict(a.a[1]), dict(b.a[1])
            base = a.a[2] if a.a[2] is b.a[2] else None
            if list(fa) == list(fb) and a.a[2] is b.a[2]:
                return agg(a.a[0], ((f, self._join((key, f), fa[f], fb[f], d + 1)) for f in fa), a.a[2])
            if a.a[2] is b.a[2] and base is not None:
                fs = []
                for f in list(fa) + [x for x in fb if x not in fa]:
                    x = fa.get(f) or self.project(base, self._pe(f), None)
                    y = fb.get(f) or self.project(base, self._pe(f), None)
                    fs.append((f, self._join((key, f), x, y, d + 1)))
                return agg(a.a[0], fs, base)
        if a.op == "agg" and a.a[2] is b and a.a[0] == "upd" and d < 6:
            return agg("upd", ((f, self._join((key, f), x, self.project(b, self._pe(f), None), d + 1)) for f, x in a.a[1]), b)
        if b.op == "agg" and b.a[2] is a and b.a[0] == "upd" and d < 6:
            return agg("upd", ((f, self._join((key, f), self.project(a, self._pe(f), None), x, d + 1)) for f, x in b.a[1]), a)
        s = self.phi.setdefault(p, set())
        s.add(a)
        s.add(b)
        return p

    def _provenance(self, edge, at, new):
        """records on which edge a phi of the node entered takes which value"""
        def rec(p, v, d):
            if p is v:
                return
            if p.op == "phi":
                self.phi_in.setdefault(p, {}).setdefault(v, []).append(edge)
            elif d < 6 and p.op == "agg" and v.op == "agg" and p.a[0] == v.a[0]:
                fv = dict(v.a[1])
                for f, x in p.a[1]:
                    if f in fv:
                        rec(x, fv[f], d + 1)
        for s, p in at.env.items():
            if s in new.env:
                rec(p, new.env[s], 0)
        for s, p in at.mem.items():
            rec(p, new.mem.get(s, s), 0)

    def chosen(self, t, alt, starts, targets, avoid=(), edge_ok=None):
        """a path from starts to targets on which the phi t takes the value alt, or None"""
        starts, targets, avoid = [{x.id if isinstance(x, Event) else x for x in xs} for xs in (starts, targets, avoid)]
        if t is alt:
            return self.reach(starts, targets, avoid, edge_ok)
        if t.op != "phi":
            return None
        for v, es in self.phi_in.get(t, {}).items():
            if v is t or alt not in self.alts(v):
                continue
            for n, m, cs in es:
                if edge_ok is not None and not edge_ok(n, m, cs):
                    continue
                rest = [m] if m in targets else self.reach([m], targets, avoid, edge_ok)
                if rest is None:
                    continue
                if v is alt:
                    first = [n] if n in starts else self.reach(starts, [n], avoid, edge_ok)
                else:
                    first = self._chosen1(v, alt, starts, n, avoid, edge_ok, {t})
                if first is not None:
                    return first + rest
        return None

    def _chosen1(self, t, alt, starts, to, avoid, edge_ok, seen):
        if t in seen:
            return None
        for v, es in self.phi_in.get(t, {}).items():
            if v is t or alt not in self.alts(v):
                continue
            for n, m, cs in es:
                if edge_ok is not None and not edge_ok(n, m, cs):
                    continue
                if m != to and self.reach([m], [to], avoid, edge_ok) is None:
                    continue
                if v is alt:
                    first = [n] if n in starts else self.reach(starts, [n], avoid, edge_ok)
                else:
                    first = self._chosen1(v, alt, starts, n, avoid, edge_ok, seen | {t})
                if first is not None:
                    return first + [m]
        return None

    @staticmethod
    def _pe(f):
        return ("f", f) if not isinstance(f, tuple) else f

    # ---------------------------------------------------------- places, values
    def project(self, t, e, st):
        """value of projection element e of value t (references are followed)."""
        n = 0
        while t.op == "ref" and st is not None and n < 10:
            t = self.readlv(t.a[0], t.a[1], st)
            n += 1
        k = e[0]
        if t.op == "optref":
            if k == "v":
                if e[1] in PAYLOAD or e[1] == ERR:
                    return mk("ref", t.a[0], t.a[1] + (e,))
            if st is not None:
                return self.project(self.readlv(t.a[0], t.a[1], st), e, st)
        if k == "f":
            if t.op == "agg":
                for f, x in t.a[1]:
                    if f == e[1]:
                        return x
                if t.a[2] is not None:
                    return self.project(t.a[2], e, st)
                return mk("fld", t, e[1])
            if t.op == "next_pair":
                pass
            return mk("fld", t, e[1])
        if k == "v":
            if t.op == "agg" and t.a[0] in self.db.variants:
                if t.a[0] == e[1]:
                    for f, x in t.a[1]:
                        if f == e[2]:
                            return x
                return mk("unk", "variant")
            if t.op == "agg" and t.a[0] == "upd":
                for f, x in t.a[1]:
                    if f == e:
                        return x
                return self.project(t.a[2], e, st)
            if e[1] in PAYLOAD:
                return self.ok(t)
            if e[1] == ERR:
                return mk("err", t)
            return mk("pay", t, e[1], e[2])
        if k == "i":
            if t.op == "agg" and t.a[0] == "array" and e[1].op == "int":
                for f, x in t.a[1]:
                    if f == str(e[1].a[0]):
                        return x
            if FIRST_BYTE is not None and e[1].op == "int" and e[1].a[0] == 0 and t.op in ("cat", "prefix", "bytes"):
                x = FIRST_BYTE(t)
                if x is not None:
                    return x
            return mk("idx", t, e[1])
        return mk("sub", t, e[1] if len(e) > 1 else None)

    def ok(self, t):
        if t.op == "next":
            c, site = t.a
            if c.op == "it" and c.a[0] == "zip":
                return agg("tuple", (("0", mk("elem", c.a[1], site)), ("1", mk("elem", c.a[2], site))))
            if c.op == "it" and c.a[0] == "enumerate":
                return agg("tuple", (("0", mk("index", c.a[1], site)), ("1", mk("elem", c.a[1], site))))
            return mk("elem", c, site)
        return mk("ok", t)

    def readroot(self, root, st):
        if root[0] == "l":
            v = st.env.get((root[1], root[2]))
            if v is None:
                v = mk("uninit", root[1], root[2])
            return v
        return st.mem.get(root[1], root[1])

    def readlv(self, root, path, st):
        v = self.readroot(root, st)
        for e in path:
            v = self.project(v, e, st)
        return v

    def resolve(self, cid, place, st):
        base, projs = place
        if isinstance(base, str):
            root, path = ("o", mk("static", base)), ()
        else:
            root, path = ("l", cid, base), ()
        down = None
        for e in projs:
            if e == "*":
                v = self.readlv(root, path, st)
                if v.op == "ref":
                    root, path = v.a
                elif v.op == "agg" or v.op == "optref":
                    pass
                else:
                    root, path = ("o", v), ()
                continue
            k = e[0]
            # projecting through a reference value that was never dereferenced (erased boxes)
            if k in ("f", "i", "ci", "ss"):
                v = None
                if path == () or True:
                    v = self.readlv(root, path, st)
                    n = 0
                    while v.op == "ref" and n < 10:
                        root, path = v.a
                        v = self.readlv(root, path, st)
                        n += 1
            if k == "d":
                down = e[2]
            elif k == "f":
                if down:
                    v = self.readlv(root, path, st)
                    if v.op == "optref" and (down in PAYLOAD or down == ERR):
                        # payload of Option<&T> made by as_ref/as_mut: a reference to the slot
                        root, path = ("o", mk("cell", v)), ()
                        st.mem[root[1]] = mk("ref", v.a[0], v.a[1] + (("v", down, e[2]),))
                    else:
                        path = path + (("v", down, e[2]),)
                    down = None
                else:
                    path = path + (("f", e[2]),)
            elif k == "i":
                path = path + (("i", self.canon(self.readroot(("l", cid, e[1]), st), st)),)
            elif k == "ci":
                path = path + (("i", mk("int", e[1] if not e[2] else -e[1], "usize")),)
            elif k == "ss":
                path = path + (("s", mk("int", e[1], "usize")),)
        return root, path

    def write(self, root, path, v, st):
        if root[0] == "l":
            k = (root[1], root[2])
            if not path:
                st.env[k] = v
                return
            cur = st.env.get(k)
            if cur is None:
                cur = mk("uninit", root[1], root[2])
            st.env[k] = self.update(cur, path, v, st)
        else:
            if not path:
                st.mem[root[1]] = v
            else:
                st.mem[root[1]] = self.update(st.mem.get(root[1], root[1]), path, v, st)

    def update(self, t, path, v, st):
        if not path:
            return v
        e = path[0]
        if e[0] in ("i", "s"):
            return t           # element of a container: the container keeps its identity
        name = e[1] if e[0] == "f" else (e[2] if t.op == "agg" and t.a[0] == e[1] else e)
        inner = self.update(self.project(t, e, st), path[1:], v, st) if len(path) > 1 else v
        if t.op == "agg":
            fs = list(t.a[1])
            for i, (f, _) in enumerate(fs):
                if f == name:
                    fs[i] = (f, inner)
                    break
            else:
                fs.append((name, inner))
            return agg(t.a[0], fs, t.a[2])
        if e[0] == "v" and e[1] in self.db.variants and e[1] in self.db.ctors:
            # payload of a known variant updated in place: the value is that variant
            return agg(e[1], ((f, inner if f == e[2] else self.project(t, ("v", e[1], f), st)) for f in self.db.ctors[e[1]]))
        return agg("upd", ((name, inner),), t)

    def canon(self, t, st, d=0):
        """t with every reference replaced by the value it points to."""
        o = t.op
        if o == "ref" or o == "optref":
            if d > 12:
                return mk("unk", "depth")
            return self.canon(self.readlv(t.a[0], t.a[1], st), st, d + 1)
        if o == "agg":
            if d > 12:
                return t
            ch = False
            fs = []
            for f, x in t.a[1]:
                y = self.canon(x, st, d + 1)
                ch = ch or y is not x
                fs.append((f, y))
            return agg(t.a[0], fs, t.a[2]) if ch else t
        if o == "heap":
            v = st.mem.get(t)
            return self.canon(v, st, d + 1) if v is not None and d < 12 else t
        return t

    def strip(self, t, st, n=10):
        while t.op == "ref" and n:
            t = self.readlv(t.a[0], t.a[1], st)
            n -= 1
        return t

    def const_value(self, q):
        b = self.db.bodies.get(q)
        if b is not None and b.kind == "const" and len(b.blocks) == 1:
            for s in b.blocks[0]["s"]:
                if s[0] == "=" and s[1] == [0, []] and s[2][0] == "use" and s[2][1][0] in ("int", "str", "bytes"):
                    return self.operand(None, s[2][1], None)
        return mk("cq", q)

    def operand(self, cid, o, st):
        k = o[0]
        if k in ("cp", "mv"):
            root, path = self.resolve(cid, o[1], st)
            return self.readlv(root, path, st)
        if k == "int":
            return mk("int", int(o[1]), o[2])
        if k == "str":
            return mk("str", o[1])
        if k == "bytes":
            return mk("bytes", tuple(o[1]))
        if k == "fn":
            cal = o[1]
            sub = self.ctxs[cid].subst if cid is not None else ()
            t = mk("fn", cal["def"], tuple(self.tsub(a, sub) for a in cal.get("args", [])), cal.get("inst"))
            self.calls[t] = cal
            return t
        if k == "const":
            return self.const_value(o[1])
        if o[2] == "()" or o[1].startswith("()"):
            return UNIT
        return mk("k", o[1], o[2])

    def tsub(self, ty, sub):
        for n, v in sub:
            if n in ty and n != v:
                ty = re.sub(r"(?<![\w:])%s(?![\w:])" % re.escape(n), lambda m: v, ty)
        return ty

    def rvalue(self, cid, r, st):
        k = r[0]
        if k == "use":
            return self.operand(cid, r[1], st)
        if k == "ref":
            root, path = self.resolve(cid, r[2], st)
            v = self.readlv(root, path, st)
            # reborrow of a reference-valued place keeps the reference itself reachable
            return mk("ref", root, path) if not (root[0] == "o" and path == () and v is root[1] and False) else v
        if k == "agg":
            kind, q, names, ops = r[1], r[2], r[3], r[4]
            vals = [self.operand(cid, o, st) for o in ops]
            if kind in ("closure", "generator"):
                fs = [(str(i), v) for i, v in enumerate(vals)]
                fs.append(("$subst", mk("subst", self.ctxs[cid].subst)))
                return agg("closure:" + q, fs)
            if kind == "adt":
                return agg(q, zip(names, vals))
            return agg(kind, ((str(i), v) for i, v in enumerate(vals)))
        if k == "bin":
            a, b = self.canon(self.operand(cid, r[2], st), st), self.canon(self.operand(cid, r[3], st), st)
            return binop(r[1], a, b)
        if k == "un":
            a = self.canon(self.operand(cid, r[2], st), st)
            return not_(a) if r[1] == "Not" else mk("un", r[1], a)
        if k == "cast":
            v = self.operand(cid, r[2], st)
            if "Misc" in r[1]:
                ty = self.tsub(r[3], self.ctxs[cid].subst)
                v = self.canon(v, st)
                if v.op == "discr" or v.op == "int":
                    return v if v.op != "int" else mk("int", v.a[0], ty)
                if v.op == "agg" and v.a[0] in self.db.variants and not v.a[1]:
                    e, n = v.a[0].rsplit("::", 1)
                    for dv, vn in self.db.enums.get(e, {}).items():
                        if vn == n:
                            return mk("int", int(dv), ty)
                return mk("cast", v, ty)
            if "ClosureFnPointer" in r[1] or "ReifyFnPointer" in r[1]:
                return v
            return v
        if k == "discr":
            root, path = self.resolve(cid, r[1], st)
            v = self.readlv(root, path, st)
            v = self.strip(v, st)
            if v.op == "optref":
                v = self.strip(self.readlv(v.a[0], v.a[1], st), st)
            return mk("discr", v, r[2])
        if k == "len":
            root, path = self.resolve(cid, r[1], st)
            return mk("len", self.canon(self.readlv(root, path, st), st))
        if k == "repeat":
            return mk("repeat", self.canon(self.operand(cid, r[1], st), st), r[2])
        return mk("unk", k)

    # ----------------------------------------------------------------- events
    def ev(self, evs, kind, cid, bb, span, q=None, args=(), term=None, callee=None, val=None, raw=None, st=None):
        if evs is None:
            return
        x = self.ctxs[cid]
        if x.body.crate == "mirmodel":
            while x.body.crate == "mirmodel" and x.parent is not None:
                pb = x.bb
                x = self.ctxs[x.parent]
            if pb is not None and pb >= 0:
                span = x.body.blocks[pb]["l"]
        e = Event()
        e.kind, e.q, e.args, e.term, e.span, e.ctx = kind, q, tuple(args), term, span, cid
        e.callee, e.val, e.bb, e.fn, e.raw = callee, val, bb, x.body.q, raw
        e.facts = dict(st.facts) if st is not None else {}
        evs.append(e)

    def wtarget(self, root, path):
        """canonical term of a written place, None for plain locals"""
        if root[0] != "o":
            return None
        t = root[1]
        for e in path:
            if e[0] == "f":
                t = mk("fld", t, e[1])
            elif e[0] == "v":
                t = self.ok(t) if e[1] in PAYLOAD else mk("pay", t, e[1], e[2])
            elif e[0] == "i":
                t = mk("idx", t, e[1])
        return t

    # --------------------------------------------------------------- transfer
    def _exec(self, cid, bb, st, evs):
        """Execute one block abstractly; returns [(ctx, bb, state, conds)]."""
        c = self.ctxs[cid]
        blk = c.body.blocks[bb]
        for s in blk["s"]:
            if s[0] == "=":
                v = self.rvalue(cid, s[2], st) if s[2][0] != "nullary" else mk("new", "box", cid, bb)
                if s[2][0] == "bin" and s[2][1] == "Sub" and c.body.crate != "mirmodel" and evs is not None and v.op != "int":
                    self.ev(evs, "sub", cid, bb, s[3] if len(s) > 3 and isinstance(s[3], str) else blk["l"], q="Sub", val=v,
                            args=(self.canon(self.operand(cid, s[2][2], st), st), self.canon(self.operand(cid, s[2][3], st), st)), st=st)
                if s[2][0] == "cast" and evs is not None and "Misc" in s[2][1] and s[2][2][0] != "const":
                    o = s[2][2][1]
                    t1 = c.body.locals[o[0]][0] if isinstance(o, list) and isinstance(o[0], int) and not o[1] else None
                    if t1 in INT_BITS and s[2][3] in INT_BITS and lossy(t1, s[2][3]):
                        self.ev(evs, "narrow", cid, bb, s[3], q="%s as %s" % (t1, s[2][3]), val=v,
                                args=(self.canon(self.operand(cid, s[2][2], st), st),), st=st)
                root, path = self.resolve(cid, s[1], st)
                if root[0] == "o" and root[1].op == "new" and root[1].a[0] == "box" and not path and v.op == "agg":
                    # vec![..]: the boxed array becomes the vector
                    self.pushes[root[1]] |= {self.canon(x, st) for _, x in v.a[1]}
                    self.boxed[root[1]] = max(self.boxed.get(root[1], 0), len(v.a[1]))
                    if self.axioms is not None:
                        self.write(root, path, v, st)
                    continue
                if root[0] == "o" and root[1].op not in ("cell",):
                    self.ev(evs, "write", cid, bb, s[3], term=self.wtarget(root, path), val=self.canon(v, st), st=st)
                self.write(root, path, v, st)
            elif s[0] == "sd":
                st.env.pop((cid, s[1]), None)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(cid, t[1], st, ())]
        if k == "drop":
            if evs is not None and isinstance(t[1][0], int) and not t[1][1] and "Guard" in c.body.locals[t[1][0]][0] and \
                    bb not in c.body.dead_drops():
                self.ev(evs, "unlock", cid, bb, blk["l"], q=c.body.locals[t[1][0]][0], st=st)
            return [(cid, t[2], st, ())]
        if k == "replace":
            v = self.operand(cid, t[2], st)
            root, path = self.resolve(cid, t[1], st)
            if root[0] == "o":
                self.ev(evs, "write", cid, bb, blk["l"], term=self.wtarget(root, path), val=self.canon(v, st), st=st)
            self.write(root, path, v, st)
            return [(cid, t[3], st, ())]
        if k == "assert":
            v = self.operand(cid, t[1], st)
            self.ev(evs, "assert", cid, bb, blk["l"], q=t[3], val=self.canon(v, st), st=st)
            return [(cid, t[4], st, ())]
        if k == "yield":
            return [(cid, t[2], st, ())]
        if k == "switch":
            return self._switch(cid, t, st)
        if k == "return":
            return self._return(c, st, evs, blk["l"])
        if k == "call":
            return self._call(cid, bb, t, st, evs, blk["l"])
        return []

    def _switch(self, cid, t, st):
        v = self.canon(self.operand(cid, t[1], st), st) if t[1][0] in ("cp", "mv") else self.operand(cid, t[1], st)
        ty, vals, tgts = t[2], t[3], t[4]
        out = []
        if v.op == "discr":
            x, adt = v.a
            if adt == "":
                adt = self._adt_of(x)
            names = self.db.enums.get(adt, {})
            if x.op == "agg" and x.a[0] in self.db.variants:
                vn = x.a[0].rsplit("::", 1)[1]
                for val, tg in zip(vals, tgts):
                    if names.get(val) == vn:
                        return [(cid, tg, st, ())]
                return [(cid, tgts[-1], st, ())] if len(tgts) > len(vals) else []
            allv = frozenset(names.values())
            known = st.facts.get(x)
            if isinstance(known, bool):
                known = None
            if self.axioms is not None and known is None:
                ys = self.look(x)
                if ys and all(y.op == "agg" and y.a[0] in self.db.variants for y in ys):
                    known = frozenset(y.a[0].rsplit("::", 1)[1] for y in ys)
            rem = set(allv)
            exact = bool(allv)
            for val, tg in zip(vals, tgts):
                vn = names.get(val, "#" + val)
                rem.discard(vn)
                if known is not None and vn not in known:
                    continue
                s2 = st.copy()
                s2.facts[x] = frozenset((vn,))
                out.append((cid, tg, s2, ((x, frozenset((vn,))),)))
            if len(tgts) > len(vals):
                r = frozenset(rem) if known is None else frozenset(rem) & known
                if adt in self.db.adts or adt in STD_ENUMS:
                    if r:
                        s2 = st.copy()
                        s2.facts[x] = r
                        out.append((cid, tgts[-1], s2, ((x, r),)))
                else:
                    out.append((cid, tgts[-1], st.copy(), ((x, frozenset(["#other"])),)))
            return out
        if ty == "bool":
            neg = False
            a = v
            while a.op == "un" and a.a[0] == "Not":
                a = a.a[1]
                neg = not neg
            # vals is ["0"] : targets[0] when false, targets[1] otherwise
            def tg(b):
                for val, g in zip(vals, tgts):
                    if int(val) == int(b):
                        return g
                return tgts[-1]
            if a.op == "int":
                return [(cid, tg((a.a[0] != 0) != neg), st, ())]
            known = st.facts.get(a)
            for truth in (True, False):
                if known is not None and known != truth:
                    continue
                s2 = st.copy()
                s2.facts[a] = truth
                out.append((cid, tg(truth != neg), s2, ((a, truth),)))
            return out
        if v.op == "int":
            for val, tg in zip(vals, tgts):
                if int(val) == v.a[0]:
                    return [(cid, tg, st, ())]
            return [(cid, tgts[-1], st, ())]
        negs = []
        for val, tg in zip(vals, tgts):
            a = binop("Eq", v, mk("int", int(val), ty))
            out.append((cid, tg, st.copy(), ((a, True),)))
            negs.append((a, False))
        if len(tgts) > len(vals):
            out.append((cid, tgts[-1], st.copy(), tuple(negs)))
        return out

    def _adt_of(self, x):
        return ""

    def _return(self, c, st, evs, span):
        v = st.env.get((c.id, 0), UNIT)
        if c.parent is None:
            f = self.strip(v, st)
            if f.op == "agg" and f.a[0].startswith("closure:"):
                b = self.db.bodies.get(f.a[0][8:])
                if b is not None and b.locals[1][0].startswith("generator:"):
                    # the root is an async fn: follow the future it returns
                    sub = dict(f.a[1]).get("$subst")
                    return self._enter(c.id, -1, b, [f], None, "ROOT", st, None, sub.a[0] if sub is not None else ())
        if c.parent is None or c.target == "ROOT":
            self.ev(evs, "return", c.id, -1, span, val=self.canon(v, st), raw=v, st=st)
            return []
        if c.wrap == "ready":
            v = agg(READY, (("0", v),))
        p = self.ctxs[c.parent]
        cid = c.id
        for s in [s for s in st.env if s[0] == cid]:
            del st.env[s]
        if c.dest is not None:
            root, path = self.resolve(c.parent, c.dest, st)
            self.write(root, path, v, st)
        if c.target is None:
            return []
        return [(c.parent, c.target, st, ())]

    # ------------------------------------------------------------------ calls
    def _call(self, cid, bb, t, st, evs, span):
        fn, argops, dest, target = t[1], t[2], t[3], t[4]
        args = [self.operand(cid, o, st) for o in argops]
        if fn[0] == "fn":
            cal = fn[1]
        else:
            f = self.strip(self.operand(cid, fn, st), st)
            return self._call_value(cid, bb, f, None, args, dest, target, st, evs, span)
        return self._dispatch(cid, bb, cal, args, dest, target, st, evs, span, argops)

    def _finish(self, cid, dest, target, v, st):
        if target is None:
            return []
        if dest is not None:
            root, path = self.resolve(cid, dest, st)
            self.write(root, path, v, st)
        return [(cid, target, st, ())]

    def _enter(self, cid, bb, body, args, dest, target, st, wrap=None, subst=(), tag=None):
        c = self.ctx(body, cid, bb, dest, target, wrap, subst)
        c.dest, c.target = dest, target
        for s in [s for s in st.env if s[0] == c.id]:
            del st.env[s]
        for i, a in enumerate(args):
            st.env[(c.id, i + 1)] = a
        return [(c.id, 0, st, ())]

    def _call_value(self, cid, bb, f, fref, args, dest, target, st, evs, span):
        """call of a closure / function value with already untupled args"""
        if f.op == "agg" and f.a[0].startswith("closure:"):
            q = f.a[0][8:]
            body = self.db.bodies.get(q)
            if body is not None and self.ctxs[cid].chain.count(q) < 1:
                sub = dict(f.a[1]).get("$subst")
                sub = sub.a[0] if sub is not None else ()
                if body.locals[1][0].startswith("&"):
                    if fref is None:
                        cell = mk("heap", "clo", cid, bb)
                        st.mem[cell] = f
                        fref = mk("ref", ("o", cell), ())
                    a1 = fref
                else:
                    a1 = f
                return self._enter(cid, bb, body, [a1] + args, dest, target, st, None, sub)
        if f.op == "fn":
            cal = dict(self.calls[f])
            cal["args"] = list(f.a[1])
            n = f.a[0]
            if n in self.db.ctors or n in (SOME, OK, ERR, READY):
                names = self.db.ctors.get(n, ["0"])
                return self._finish(cid, dest, target, agg(n, zip(names, args)), st)
            return self._dispatch(cid, bb, cal, args, dest, target, st, evs, span, None)
        cargs = [self.canon(a, st) for a in args]
        term = mk("call", "<value>", (cid, bb), (self.canon(f, st),) + tuple(cargs))
        self.ev(evs, "call", cid, bb, span, q="<value>", args=[self.canon(f, st)] + cargs, term=term, st=st)
        return self._finish(cid, dest, target, term, st)

    def _subst_for(self, body, cal, cid, key):
        sub = self.ctxs[cid].subst
        a = [self.tsub(x, sub) for x in cal.get(key, [])]
        g = [x for x in body.generics if not x.startswith("<") and not x.startswith("impl ")]
        g = body.generics
        if len(a) >= len(g):
            return tuple((n, v) for n, v in zip(g, a) if n != v and not n.startswith("<"))
        return ()

    def _purge(self, st, site):
        def has(t, d=0):
            if t.op in ("call", "next", "elem", "index") and t.a[1] == site:
                return True
            if d > 8:
                return False
            for x in t.a:
                if isinstance(x, T):
                    if has(x, d + 1):
                        return True
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T) and has(y, d + 1):
                            return True
            return False
        for t in [t for t in st.facts if has(t)]:
            del st.facts[t]
        for t in [t for t in st.mem if t.op != "heap" and has(t)]:
            del st.mem[t]

    def reshaped(self, r, st):
        """(place, value) of an owned local list with a value from elsewhere, reached through the reference r"""
        while True:
            v = self.readlv(r.a[0], r.a[1], st)
            if v.op != "ref":
                break
            r = v
        ok = (r.a[0][0] != "o" or r.a[0][1].op == "heap") and v.op in ("param", "fld", "pay", "ok", "elem", "call", "phi")
        return (r, v) if ok else None

    def _opaque(self, cid, bb, cal, args, dest, target, st, evs, span, argops=None, q=None):
        q = q or cal["def"]
        cargs = tuple(self.canon(a, st) for a in args)
        site = (cid, bb)
        if q.endswith("str::starts_with") and all(self._fixed(t) for t in cargs):
            site = ()        # the same answer wherever it is asked
        else:
            self._purge(st, site)
        term = mk("call", q, site, cargs)
        self.calls[term] = cal
        self.opaque[q] += 1
        sub = self.ctxs[cid].subst
        cal2 = cal
        if sub:
            cal2 = dict(cal)
            cal2["args"] = [self.tsub(a, sub) for a in cal.get("args", [])]
            if "self" in cal:
                cal2["self"] = self.tsub(cal["self"], sub)
        self.ev(evs, "call", cid, bb, span, q=q, args=cargs, term=term, callee=cal2, raw=tuple(args), st=st)
        # what a &mut argument points to may have changed: forget facts about it
        if argops:
            for o, a in zip(argops, args):
                if o[0] in ("cp", "mv") and not o[1][1] and isinstance(o[1][0], int):
                    ty = self.ctxs[cid].body.locals[o[1][0]][0]
                    if ty.startswith("&mut"):
                        base = self.canon(a, st)
                        for f in [f for f in st.facts if self._contains(f, base)]:
                            del st.facts[f]
                    # (a constant or a variant seen through the pointer is not what is there any more)
                    if a.op == "ref" and SCALAR_MUT.match(ty) and self.readlv(a.a[0], a.a[1], st).op in ("agg", "int", "str"):
                        self.write(a.a[0], a.a[1], mk("mut", q, term), st)
        if target is None:
            self.ev(evs, "panic", cid, bb, span, q=q, args=cargs, st=st)
            return []
        # closures / futures handed to unknown code may run
        for a in args:
            v = self.strip(a, st)
            if v.op == "agg" and v.a[0].startswith("closure:"):
                b = self.db.bodies.get(v.a[0][8:])
                if b is None:
                    continue
                if dest is not None:
                    root, path = self.resolve(cid, dest, st)
                    self.write(root, path, term, st)
                if b.locals[1][0].startswith("generator:"):
                    m = self.db.bodies["mirmodel::spawn"]
                else:
                    n = b.nargs - 1
                    m = self.db.bodies["mirmodel::maybe_call%d" % min(n, 2)]
                return self._enter(cid, bb, m, [v], None, target, st)
        return self._finish(cid, dest, target, term, st)

    def _fixed(self, t):
        """a constant, or what a parse of part of a parameter gave: nothing changes it"""
        while t.op in ("fld", "ok", "call"):
            if t.op == "call" and not (t.a[0].endswith("str::parse") and len(t.a[2]) == 1):
                return False
            t = t.a[2][0] if t.op == "call" else t.a[0]
        return t.op in ("str", "param")

    def _contains(self, t, x, d=0):
        if t is x:
            return True
        if d > 10:
            return False
        for y in t.a:
            if isinstance(y, T):
                if self._contains(y, x, d + 1):
                    return True
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T) and self._contains(z, x, d + 1):
                        return True
        return False

    def _panic(self, cid, bb, q, args, st, evs, span):
        self.ev(evs, "panic", cid, bb, span, q=q, args=[self.canon(a, st) for a in args], st=st)
        return []

    def _dispatch(self, cid, bb, cal, args, dest, target, st, evs, span, argops):
        q = cal["def"]
        name = cal.get("name") or q.rsplit("::", 1)[-1]
        trait = cal.get("trait")
        db = self.db
        fin = lambda v: self._finish(cid, dest, target, v, st)
        site = (cid, bb)
        sub = self.ctxs[cid].subst

        # ---- primitives of the model crate
        if q.startswith("mirmodel::prim_") or q == "mirmodel::entry_occupied":
            return self._prim(q[10:], cid, bb, cal, args, dest, target, st, evs, span)
        if trait in FNTRAITS:
            fref = args[0] if args[0].op == "ref" else None
            f = args[0]
            n = 0
            while f.op == "ref" and n < 10:
                v = self.readlv(f.a[0], f.a[1], st)
                if v.op == "ref":
                    fref = v
                f = v
                n += 1
            tup = self.strip(args[1], st)
            if tup.op == "agg" and tup.a[0] == "tuple":
                xs = [x for _, x in tup.a[1]]
            else:
                xs = [tup]
            return self._call_value(cid, bb, f, fref, xs, dest, target, st, evs, span)
        if self.axioms is not None:
            v = self.axioms(self, q, cal, args, st, cid)
            if v is not None:
                return fin(v)
        # ---- enum / struct constructors used as functions
        if q in db.ctors and q not in db.bodies:
            return fin(agg(q, zip(db.ctors[q], args)))
        if q in (SOME, OK, ERR, READY):
            return fin(agg(q, (("0", args[0]),)))
        if PANICS.search(q):
            return self._panic(cid, bb, q, args, st, evs, span)
        selfty = self.tsub(cal.get("self", ""), sub)
        # ---- stop set: rule anchors are events, never looked into
        inst = cal.get("inst")
        if self.stop is not None and (self.stop.search(q) or (inst and self.stop.search(inst))):
            return self._opaque(cid, bb, cal, args, dest, target, st, evs, span, argops)
        # ---- logging is not part of any behaviour decided here
        if trait == "core::cmp::PartialOrd" and "log::Level" in selfty:
            return fin(FALSE)
        # ---- resolve to a body
        body = None
        skey = "args"
        if inst and inst in db.bodies:
            body = db.bodies[inst]
            skey = "iargs"
        elif q in db.bodies and not trait:
            body = db.bodies[q]
        elif trait:
            cand = [x for x in db.impl_items.get((trait, name), ()) if x[1] in db.bodies]
            ex = [x for x in cand if x[0] == selfty]
            if inst or not (trait in db.traits or trait in self.RESOLVE):
                ex = []
            if ex:
                body, skey = db.bodies[ex[0][1]], None
            elif self.cha and len(cand) == 1 and trait in db.traits and (
                    selfty.startswith("dyn") or re.match(r"^[\w<> :]*$", selfty)) and not selfty.startswith("core::"):
                body, skey = db.bodies[cand[0][1]], None
            elif cal.get("inst_default") and q in db.bodies:
                body = db.bodies[q]
        if q in ("core::convert::Into::into", "core::convert::TryInto::try_into") and len(cal.get("args", ())) == 2:
            # blanket impls of the standard library: U::from(t), U::try_from(t)
            t_, u_ = (self.tsub(x, sub) for x in cal["args"])
            k = "From" if name == "into" else "TryFrom"
            b2 = db.bodies.get("<%s as core::convert::%s<%s>>::%s" % (u_, k, t_, "from" if name == "into" else "try_from"))
            if b2 is not None and b2.q not in db.derived:
                body, skey, trait = b2, None, "core::convert::" + k
            elif t_ == u_ and name == "try_into":
                return fin(agg(OK, (("0", args[0]),)))
        derived = body is not None and body.q in db.derived
        # comparison / arithmetic through operator traits
        if trait in ("core::cmp::PartialEq", "core::cmp::PartialOrd") and name in CMP and (body is None or derived):
            return fin(binop(CMP[name], self.canon(args[0], st), self.canon(args[1], st)))
        if trait == "core::cmp::Ord" and name == "cmp" and (body is None or derived):
            return fin(mk("bin", "Cmp", self.canon(args[0], st), self.canon(args[1], st)))
        if trait in ("core::clone::Clone",) and (body is None or derived):
            return fin(self._value_id(args[0], st))
        if trait and trait.startswith("core::ops::") and name in ARITH and body is None:
            if name.endswith("_assign"):
                r = args[0]
                if r.op == "ref":
                    old = self.canon(self.readlv(r.a[0], r.a[1], st), st)
                    v = binop(ARITH[name], old, self.canon(args[1], st))
                    self.ev(evs, "call", cid, bb, span, q=q, args=[old, self.canon(args[1], st)], term=v, callee=cal, st=st)
                    if r.a[0][0] == "o":
                        self.ev(evs, "write", cid, bb, span, term=self.wtarget(*r.a), val=v, st=st)
                    self.write(r.a[0], r.a[1], v, st)
                else:
                    old = self.canon(r, st)
                    v = binop(ARITH[name], st.mem.get(old, old), self.canon(args[1], st))
                    self.ev(evs, "call", cid, bb, span, q=q, args=[old, self.canon(args[1], st)], term=v, callee=cal, st=st)
                    self.ev(evs, "write", cid, bb, span, term=old, val=v, st=st)
                    st.mem[old] = v
                return fin(UNIT)
            return fin(binop(ARITH[name], self.canon(args[0], st), self.canon(args[1], st)))
        if trait in ("core::ops::index::Index", "core::ops::index::IndexMut") and body is None and len(args) == 2:
            site_ = self.index_site(self.canon(args[0], st), self.canon(args[1], st))
            if site_ is not None:
                return fin(mk("ref", ("o", mk("elem", self.canon(args[0], st), site_)), ()))
        # lazy statics
        if trait == "core::ops::deref::Deref":
            v = self.strip(args[0], st)
            if v.op in ("static", "cq"):
                return fin(mk("lazy", v.a[0]))
        # iterators: next() of anything goes through the model
        if q == I + "next" and (body is None):
            return self._next(cid, bb, args[0], dest, target, st, evs, span)
        if body is not None and body.crate in self.inline and not NO_INLINE_TRAITS.search(trait or "") \
                and self.ctxs[cid].chain.count(body.q) < 1 and self.ctxs[cid].depth < 40:
            subst = self._subst_for(body, cal, cid, skey) if skey else self._subst_impl(body, selfty)
            return self._enter(cid, bb, body, args, dest, target, st, None, subst)
        # ---- library functions
        if q in MODELS:
            if MODELS[q] == "mirmodel::spawn":
                self.ev(evs, "spawn", cid, bb, span, q=q, args=[self.canon(a, st) for a in args], callee=cal, st=st)
            return self._enter(cid, bb, db.bodies[MODELS[q]], args, dest, target, st)
        if q == O + "as_ref" or q == O + "as_mut" or q == R + "as_ref" or q == R + "as_mut" or q == O + "as_deref":
            r = args[0]
            if r.op == "ref":
                v = self.readlv(r.a[0], r.a[1], st)
                n = 0
                while v.op == "ref" and n < 10:
                    r = v
                    v = self.readlv(r.a[0], r.a[1], st)
                    n += 1
                return fin(mk("optref", r.a[0], r.a[1]))
            return fin(r)
        if q == "core::ops::try::Try::into_result" and selfty.startswith("core::option::Option"):
            return self._enter(cid, bb, db.bodies["mirmodel::option_into_result"], args, dest, target, st)
        if q == "core::ops::try::Try::from_error":
            if selfty.startswith("core::option::Option"):
                return fin(agg(NONE, ()))
            return fin(agg(ERR, (("0", args[0]),)))
        if q == "core::ops::try::Try::from_ok":
            return fin(agg(SOME if selfty.startswith("core::option::Option") else OK, (("0", args[0]),)))
        if q in HEAP:
            h = mk("heap", "h", cid, bb)
            st.mem[h] = args[0]
            return fin(mk("ref", ("o", h), ()))
        if name == "drain":
            self.ev(evs, "call", cid, bb, span, q=q, args=[self.canon(a, st) for a in args], term=None, callee=cal, st=st)
            if len(args) == 2 and not (args[1].op == "agg" and args[1].a[0].endswith("::RangeFull")):
                return fin(mk("it", "part", self.canon(args[0], st), self.canon(args[1], st)))
        if q in VALUE_ID and not (body is not None and not derived and trait == "core::convert::From"):
            return fin(self._value_id(args[0], st))
        if q in PLACE_ID or name in ("index", "index_mut") and len(args) == 2 and args[1].op == "agg" and args[1].a[0].endswith("::RangeFull"):
            r = args[0]
            if q in LOCKS:
                self.ev(evs, "lock", cid, bb, span, q=q, args=[self.canon(r, st)], st=st)
            if r.op == "ref":
                v = self.readlv(r.a[0], r.a[1], st)
                if v.op in ("param", "call", "fld", "pay", "ok", "elem") and r.a[0][0] == "l" and SMART.match(selfty):
                    # a smart pointer held in a local: what it points to is an object of its own
                    return fin(mk("ref", ("o", v), ()))
                return fin(v if v.op == "ref" else r)
            return fin(r)
        if q == "std::future::poll_with_tls_context":
            return self._poll(cid, bb, args[0], dest, target, st, evs, span, "ready")
        if q == "core::future::future::Future::poll":
            v = self.strip(args[0], st)
            if v.op == "agg" and v.a[0].startswith("closure:"):
                return self._poll(cid, bb, args[0], dest, target, st, evs, span, "ready")
        if q in ("core::mem::replace", "core::mem::swap", "core::mem::take"):
            r = args[0]
            if r.op == "ref" and name == "replace":
                old = self.readlv(r.a[0], r.a[1], st)
                if r.a[0][0] == "o":
                    self.ev(evs, "write", cid, bb, span, term=self.wtarget(*r.a), val=self.canon(args[1], st), st=st)
                self.write(r.a[0], r.a[1], args[1], st)
                return fin(old)
            if r.op == "ref" and name == "take":
                old = self.readlv(r.a[0], r.a[1], st)
                nv = mk("new", "default", cid, bb)
                if r.a[0][0] == "o":
                    self.ev(evs, "write", cid, bb, span, term=self.wtarget(*r.a), val=nv, st=st)
                self.write(r.a[0], r.a[1], nv, st)
                return fin(old)
        if NEW.match(q):
            v = mk("new", q, cid, bb)
            self.pushes.setdefault(v, self.pushes.get(v, set()))
            self.ev(evs, "call", cid, bb, span, q=q, args=[self.canon(a, st) for a in args], term=v, callee=cal, st=st)
            return fin(v)
        if trait == "core::default::Default" and body is None:
            return fin(mk("new", "default:" + selfty, cid, bb))
        if q.startswith(I) or q.startswith(RI):
            if name == "collect":
                ga = [self.tsub(x, sub) for x in cal.get("args", [])]
                to = ga[-1] if ga else ""
                if self._dest_ty(cid, dest).startswith("core::result::Result") or to.startswith("core::result::Result"):
                    m = "iter_collect_result"
                elif self._dest_ty(cid, dest).startswith("core::option::Option") or to.startswith("core::option::Option"):
                    m = "iter_collect_option"
                else:
                    m = "iter_collect"
                return self._enter(cid, bb, db.bodies["mirmodel::" + m], args, dest, target, st)
            if name == "flatten" and re.search(r"<.*core::option::Option", selfty):
                return self._enter(cid, bb, db.bodies["mirmodel::iter_flatten_option"], args, dest, target, st)
            if name == "flatten":
                return self._enter(cid, bb, db.bodies["mirmodel::iter_flatten"], args, dest, target, st)
            if name == "take":
                v = args[0]
                while v.op == "ref":
                    v = self.readlv(v.a[0], v.a[1], st)
                if v.op == "agg" and v.a[0].startswith("mirmodel::"):
                    self.ev(evs, "call", cid, bb, span, q=q, args=[self.canon(a, st) for a in args], callee=cal, st=st)
                    return self._enter(cid, bb, db.bodies["mirmodel::iter_take"], args, dest, target, st)
            if name in LAZY_ITERS:
                return fin(mk("it", name, *[self.canon(a, st) for a in args]))
        if q.split("::")[-1] in ("keys", "values", "values_mut") and "collections" in q:
            return fin(mk("it", name, self.canon(args[0], st)))
        if q == "core::iter::traits::collect::FromIterator::from_iter":
            return self._enter(cid, bb, db.bodies["mirmodel::iter_collect"], args, dest, target, st)
        if RESHAPE.match(name) and RESHAPED.search(q) and args and args[0].op == "ref":
            # a list owned here is no longer the list it was
            r = self.reshaped(args[0], st)
            if r is not None:
                out = self._opaque(cid, bb, cal, args, dest, target, st, evs, span, argops)
                for x in out:
                    self.write(r[0].a[0], r[0].a[1], mk("mut", name, r[1]), x[2])
                return out
        if name in PUSH and len(args) >= 2 and ("::vec::" in q or "collections" in q or "bytes::" in q or "String::" in q):
            r = self.strip(args[0], st)
            if name in ("append",):
                self.pushes[r].add(mk("elem", self.canon(args[1], st), "append"))
            elif name == "insert" and len(args) == 3 and "map" in q:
                self.pushes[r].add(agg("tuple", (("0", self.canon(args[1], st)), ("1", self.canon(args[2], st)))))
            else:
                self.pushes[r].add(self.canon(args[PUSH[name] if PUSH[name] > 0 else len(args) - 1], st))
        if body is not None and NO_INLINE_TRAITS.search(trait or "") is None and body.crate in self.inline:
            pass
        return self._opaque(cid, bb, cal, args, dest, target, st, evs, span, argops)

    def index_site(self, coll, i):
        """i is the position of the element a loop (or search) over the whole of coll is at: the site of that loop"""
        if i.op == "index" and i.a[0] is coll:
            return i.a[1]
        if i.op == "elem" and full_range(i.a[0]) is coll:
            return i.a[1]
        return None

    def _dest_ty(self, cid, dest):
        if dest is None or dest[1] or not isinstance(dest[0], int):
            return ""
        return self.tsub(self.ctxs[cid].body.locals[dest[0]][0], self.ctxs[cid].subst)

    def _subst_impl(self, body, selfty):
        # impl<A, B> Trait for X<A, B>: match the printed self type
        imp = body.j.get("impl_self")
        if not imp or imp == selfty or not body.generics:
            return ()
        rx = re.escape(imp)
        names = []
        for g in body.generics:
            if re.search(r"(?<![\w:])%s(?![\w:])" % re.escape(g), imp):
                rx = re.sub(r"(?<![\w:])%s(?![\w:])" % re.escape(re.escape(g)), lambda m: "(.+)", rx, count=1)
                names.append(g)
        m = re.match("^" + rx + "$", selfty)
        if not m:
            return ()
        return tuple(zip(names, m.groups()))

    def _value_id(self, a, st):
        if a.op == "ref":
            v = self.readlv(a.a[0], a.a[1], st)
            if v.op == "optref":
                return self.readlv(v.a[0], v.a[1], st)
            return v
        if a.op == "optref":
            return self.readlv(a.a[0], a.a[1], st)
        return a

    def _next(self, cid, bb, r, dest, target, st, evs, span):
        v = r
        ref = r
        n = 0
        while v.op == "ref" and n < 10:
            ref = v
            v = self.readlv(v.a[0], v.a[1], st)
            n += 1
        if v.op == "agg" and v.a[0].startswith("mirmodel::"):
            nm = {"Map": "map", "Filter": "filter", "FilterMap": "filter_map", "FlatMap": "flat_map", "Inspect": "inspect",
                  "TakeWhile": "take_while", "SkipWhile": "skip_while", "Chain": "chain", "Take": "take"}[v.a[0].split("::")[-1]]
            return self._enter(cid, bb, self.db.bodies["mirmodel::next_" + nm], [ref], dest, target, st)
        site = (cid, bb)
        self._purge(st, site)
        c = self.canon(v, st)
        term = mk("next", c, site)
        self.ev(evs, "next", cid, bb, span, q="next", args=[c], term=term, st=st)
        return self._finish(cid, dest, target, term, st)

    RESOLVE = {"core::ops::deref::Deref", "core::ops::deref::DerefMut", I[:-2], "core::default::Default",
               "core::future::future::Future"}
    FUTS = {"FutMapErr": "poll_map_err", "FutMap": "poll_map", "FutThen": "poll_then", "FutAndThen": "poll_and_then",
            "FutElse": "poll_else", "FutAll": "poll_all"}

    def _poll(self, cid, bb, f, dest, target, st, evs, span, wrap):
        fref = None
        v = f
        n = 0
        while v.op == "ref" and n < 10:
            fref = v
            v = self.readlv(v.a[0], v.a[1], st)
            n += 1
        if v.op == "agg" and v.a[0].startswith("closure:"):
            q = v.a[0][8:]
            body = self.db.bodies.get(q)
            if body is not None and self.ctxs[cid].chain.count(q) < 1:
                sub = dict(v.a[1]).get("$subst")
                a1 = v
                if body.locals[1][0].startswith("&") and fref is not None:
                    a1 = fref
                return self._enter(cid, bb, body, [a1], dest, target, st, wrap, sub.a[0] if sub is not None else ())
        if v.op == "agg" and v.a[0].startswith("mirmodel::Fut"):
            m = self.FUTS[v.a[0].split("::")[-1]]
            return self._enter(cid, bb, self.db.bodies["mirmodel::" + m], [v], dest, target, st, wrap)
        c = self.canon(v, st)
        self.ev(evs, "await", cid, bb, span, q=c.a[0] if c.op == "call" else c.op,
                args=c.a[2] if c.op == "call" else (), term=c, callee=self.calls.get(c), st=st)
        r = agg(READY, (("0", c),)) if wrap == "ready" else c
        return self._finish(cid, dest, target, r, st)

    def _prim(self, p, cid, bb, cal, args, dest, target, st, evs, span):
        fin = lambda v: self._finish(cid, dest, target, v, st)
        if p == "prim_panic":
            # attribute to the caller of unwrap / expect
            return self._panic(cid, bb, self.ctxs[cid].body.q, [], st, evs, span)
        if p == "prim_nondet":
            self._purge(st, (cid, bb))
            return fin(mk("call", "nondet", (cid, bb), ()))
        if p == "prim_next":
            return self._next(cid, bb, args[0], dest, target, st, evs, span)
        if p == "prim_new":
            x = self.ctxs[cid]
            kind = re.search(r"(Hash|BTree)(Map|Set)", self._dest_ty(x.parent, x.dest) if x.parent is not None else "")
            return fin(mk("new", "collect" + (" " + kind.group(0).lower() if kind else ""), cid, bb))
        if p in ("prim_default", "prim_any", "prim_handle"):
            return fin(mk(p[5:], cid, bb))
        if p == "prim_push":
            r = self.strip(args[0], st)
            x = self.canon(args[1], st)
            self.pushes[r].add(x)
            self.ev(evs, "call", cid, bb, span, q="push", args=[self.canon(r, st), x], term=None, st=st)
            return fin(UNIT)
        if p == "prim_first":
            return fin(mk("it", "take", self.canon(args[0], st), self.canon(args[1], st)))
        if p == "prim_len":
            return fin(mk("len", self.canon(args[0], st)))
        if p == "prim_item":
            return fin(self.canon(args[0], st))
        if p in ("prim_lo", "prim_hi"):
            x = self.canon(args[0], st)
            if x.op == "call" and x.a[0].endswith("RangeInclusive::new") and len(x.a[2]) == 2:
                return fin(x.a[2][0 if p == "prim_lo" else 1])
            return fin(fld(x, "start" if p == "prim_lo" else "end"))
        if p == "prim_index":
            x = self.canon(args[0], st)
            if x.op == "elem":
                return fin(mk("index", x.a[0], x.a[1]))
            return fin(mk("call", "position", (cid, bb), (x,)))
        if p == "prim_remove_elem":
            self.ev(evs, "call", cid, bb, span, q="remove", args=[self.canon(a, st) for a in args], st=st)
            r = self.reshaped(args[0], st) if args[0].op == "ref" else None
            if r is not None:
                self.write(r[0].a[0], r[0].a[1], mk("mut", "retain", r[1]), st)
            return fin(UNIT)
        if p == "prim_await":
            return self._poll(cid, bb, args[0], dest, target, st, evs, span, None)
        if p == "prim_take":
            return fin(self.strip(args[0], st))
        e = self.canon(args[0], st)
        if p == "entry_occupied":
            # Entry is a term call(entry, map, key)
            if st.mem.get(mk("filled", e)) is TRUE:
                return fin(TRUE)
            return fin(mk("occupied", e))
        if p in ("prim_entry_slot", "prim_entry_ref"):
            return fin(mk("ref", ("o", mk("slot", e)), ()))
        if p == "prim_entry_fill":
            s = mk("slot", e)
            v = self.canon(args[1], st)
            self.ev(evs, "write", cid, bb, span, term=s, val=v, q="insert", st=st)
            if e.op == "call":
                self.pushes[e.a[2][0]].add(agg("tuple", (("0", e.a[2][1]), ("1", v))))
            st.mem[s] = args[1]
            st.mem[mk("filled", e)] = TRUE
            return fin(UNIT)
        raise Anchor("unknown primitive " + p)

    # ----------------------------------------------------------- event graph
    def _build_graph(self):
        """self.succ: graph node -> [(node, conds)].  Nodes: ('b', key) block entries and ints (event ids)."""
        self.succ = {}
        self.pred = defaultdict(list)
        for k, evs in self.nev.items():
            prev = ("b", k)
            for e in evs:
                self.succ.setdefault(prev, []).append((e.id, ()))
                prev = e.id
            self.succ.setdefault(prev, [])
            for (kk, conds) in self.edges[k]:
                self.succ[prev].append((("b", kk), conds))
        for a, l in self.succ.items():
            for b, conds in l:
                self.pred[b].append((a, conds))
        self.start = ("b", self.entry)

    # ---------------------------------------------------------------- queries
    def alts(self, t, seen=None):
        """phi-free alternatives of a term (top level)"""
        if t.op != "phi":
            return {t}
        out, seen, st = set(), set(), [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                st.extend(self.phi.get(x, ()))
            else:
                out.add(x)
        return out

    def subterms(self, t, pushes=False, limit=4000):
        """all subterms, looking through phis (and, with pushes, into built collections)"""
        seen, st = set(), [t]
        while st and len(seen) < limit:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            yield x
            if x.op == "phi":
                st.extend(self.phi.get(x, ()))
                continue
            for y in x.a:
                if isinstance(y, T):
                    st.append(y)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            st.append(z)
                        elif isinstance(z, tuple):
                            st.extend(w for w in z if isinstance(w, T))
            if pushes and x in self.pushes:
                st.extend(self.pushes[x])

    def has(self, t, pred, pushes=False):
        return any(pred(x) for x in self.subterms(t, pushes))

    def every(self, t, pred):
        return all(pred(x) for x in self.alts(t))

    def calls_to(self, pat, kind="call"):
        rx = re.compile(pat)
        return [e for e in self.events if e.kind == kind and (rx.search(e.q or "") or
                (e.callee and e.callee.get("inst") and rx.search(e.callee["inst"])))]

    def writes(self, pred=None):
        return [e for e in self.events if e.kind == "write" and e.term is not None and (pred is None or pred(e))]

    def exits(self):
        return [e for e in self.events if e.kind == "return"]

    def retshape(self, e):
        """'ok' / 'err' / 'any' of the value returned at exit e"""
        v = e.val
        k = set()
        for x in self.alts(v):
            if x.op == "agg" and x.a[0] in (OK, SOME):
                k.add("ok")
            elif x.op == "agg" and x.a[0] in (ERR, NONE):
                k.add("err")
            else:
                f = e.facts.get(x)
                if f == frozenset(["Err"]) or f == frozenset(["None"]):
                    k.add("err")
                elif f == frozenset(["Ok"]) or f == frozenset(["Some"]):
                    k.add("ok")
                else:
                    k.add("any")
        return k.pop() if len(k) == 1 else "any"

    def ok_exits(self):
        return [e for e in self.exits() if self.retshape(e) != "err"]

    def err_exits(self):
        return [e for e in self.exits() if self.retshape(e) != "ok"]

    def reach(self, starts, targets, avoid=(), edge_ok=None, reverse=False):
        """A path (list of nodes) from starts to a target that visits no node in avoid, or None.
        starts/targets: events or graph nodes.  A start in avoid is allowed (path leaves it)."""
        ids = lambda xs: {x.id if isinstance(x, Event) else x for x in xs}
        S, G, A = ids(starts), ids(targets), ids(avoid)
        par = {}
        dq = deque()
        for s in S:
            par[s] = None
            dq.append(s)
        first = True
        while dq:
            n = dq.popleft()
            for m, conds in self.succ.get(n, ()):
                if edge_ok is not None and not edge_ok(n, m, conds):
                    continue
                if m in G and m not in A:
                    path = [m, n]
                    x = par[n]
                    while x is not None:
                        path.append(x)
                        x = par[x]
                    return list(reversed(path))
                if m in A or m in par:
                    continue
                par[m] = n
                dq.append(m)
        return None

    def reach_set(self, starts, avoid=(), edge_ok=None):
        ids = lambda xs: {x.id if isinstance(x, Event) else x for x in xs}
        S, A = ids(starts), ids(avoid)
        seen = set(S)
        dq = deque(S)
        while dq:
            n = dq.popleft()
            for m, conds in self.succ.get(n, ()):
                if edge_ok is not None and not edge_ok(n, m, conds):
                    continue
                if m in seen or m in A:
                    continue
                seen.add(m)
                dq.append(m)
        return seen

    def before(self, a, b):
        """None if every path from entry to an event of b passes an event of a first; else the offending path"""
        return self.reach([self.start], b, avoid=a)

    def after(self, a, b, exits):
        """None if every path from an event of a to an exit passes an event of b"""
        if not a:
            return None
        bs = {x.id for x in b}
        return self.reach([x for x in a if x.id not in bs], exits, avoid=b)

    def guarded(self, p, cond):
        """None if every path from entry to an event of p crosses an edge (or lies in a partition) on which
        cond(term, value) holds; else the offending path."""
        def edge_ok(n, m, conds):
            return not any(cond(t, v) for t, v in conds)
        return self.reach([self.start], p, edge_ok=edge_ok)

    def guarded_after(self, a, p, cond):
        def edge_ok(n, m, conds):
            return not any(cond(t, v) for t, v in conds)
        return self.reach(a, p, edge_ok=edge_ok)

    def edges_where(self, cond):
        """graph nodes entered by an edge on which cond holds (targets of the edges)"""
        r = []
        for n, l in self.succ.items():
            for m, conds in l:
                if any(cond(t, v) for t, v in conds):
                    r.append((n, m, conds))
        return r

    def fmt_path(self, path, limit=14):
        out = []
        last = None
        for n in path:
            if isinstance(n, int):
                e = self.events[n]
                s = repr(e)
            else:
                k = n[1]
                b = self.ctxs[k[0]].body
                if b.crate == "mirmodel":
                    continue
                s = b.blocks[k[1]]["l"].split("/repo/")[-1]
            if s != last:
                out.append(s)
            last = s
        if len(out) > limit:
            out = out[:limit // 2] + ["..."] + out[-limit // 2:]
        return out

    def dump(self, events_only=True):
        for e in self.events:
            print(e.id, e, "  in", short(e.fn))
