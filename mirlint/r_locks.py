"""Locks: what is held where, over the whole node.

A flow analysis of every body of its own (not of the term engine): which locks may be held
at each call, what every function takes (closed over calls, closures and async blocks), and
from both which lock is asked for while which other one is held.
"""
import re

from .rules import rel

CRATES = {"huobi_chain", "protocol"}

GUARD = re.compile(r"(RwLock\w*|Mutex\w*)Guard\b|MutexLockFuture\b")
TAKE = re.compile(r"::(RwLock|Mutex|ReentrantMutex)::(read|write|lock|upgradable_read|read_recursive)$")
TRY = re.compile(r"::(RwLock|Mutex|ReentrantMutex)::try_(read|write|lock)\w*$")
SPAWN = re.compile(r"::(spawn\w*|from_generator)$")
BLOCK = re.compile(r"::(block_on|block_on_stream|park|sleep|recv|recv_timeout|recv_deadline|join|wait)$")
BLOCKERS = re.compile(r"^(std::sync::mpsc|std::thread|crossbeam_channel|futures_executor|tokio::runtime|std::sync::(condvar|barrier|Condvar|Barrier))")
LEAK = re.compile(r"::(mem::forget|ManuallyDrop::new|Box::leak|RwLockReadGuard::leak|force_unlock\w*)$")
THROUGH = re.compile(r"::(deref|deref_mut|as_ref|as_mut|borrow|borrow_mut|clone|new|index|get_ref|get_mut|unwrap|expect|into_ref|iter|next|get|from|into)$")
SYNC = re.compile(r"(lock_api|parking_lot|std::sync)\S*Guard")


def moved(x, out):
    """places moved out of in an operand tree"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "mv" and isinstance(x[1], list) and len(x[1]) == 2 and isinstance(x[1][0], int):
            out.append(x[1])
            return
        for y in x:
            moved(y, out)


def places(x, out):
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ("mv", "cp") and isinstance(x[1], list) and len(x[1]) == 2 and isinstance(x[1][0], int):
            out.append(x[1])
            return
        for y in x:
            places(y, out)


class Locks:
    def __init__(self, db):
        self.db = db
        self.bodies = {q: b for q, b in db.bodies.items() if b.crate != "mirmodel"}
        self.memo, self.made = {}, {}
        self.by_trait = {}
        for q, b in self.bodies.items():
            m = re.match(r"^<(.*) as (.+?)>::(\w+)$", q)
            if m:
                self.by_trait.setdefault((re.sub(r"<.*$", "", m.group(2)), m.group(3)), []).append(q)
        for q, b in self.bodies.items():
            for bl in b.blocks:
                for s in bl["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1] in ("closure", "generator"):
                        self.made[s[2][2]] = (q, s[2][4])
        self.fields = {}
        for q, a in db.adts.items():
            for v in a["variants"]:
                for f in v["fields"]:
                    name, ty = (f["name"], f["ty"]) if isinstance(f, dict) else (f[0], f[1])
                    t = self.locktype(ty)
                    if t:
                        self.fields.setdefault(t, set()).add("%s.%s" % (q, name))
        self.defs, self.calls = {}, {}
        for q, b in self.bodies.items():
            d = {}
            for bl in b.blocks:
                for s in bl["s"]:
                    if s[0] == "=" and not s[1][1]:
                        d.setdefault(s[1][0], []).append(("=", s[2]))
                t = bl["t"]
                if t[0] == "call" and t[3] and not t[3][1]:
                    d.setdefault(t[3][0], []).append(("call", t))
            self.defs[q] = d
        self.takes = {q: set() for q in self.bodies}     # what a body may wait for
        self.gives = {q: set() for q in self.bodies}     # what it leaves held in its answer
        self.handed = {}                                 # closures its callers hand to a body
        for q, b in self.bodies.items():
            for bl in b.blocks:
                t = bl["t"]
                if t[0] == "call":
                    fs, cs = self.targets(q, t)
                    for f in fs if cs else ():
                        self.handed.setdefault(f, set()).update(cs)

    # -- which lock
    def locktype(self, ty):
        m = re.search(r"(RwLock|Mutex|ReentrantMutex)<", ty)
        return re.sub(r"&(mut )?|alloc::sync::Arc<", "", ty[m.start():]).rstrip(">") if m else None

    def lock_of(self, q, op, depth=0):
        """names of the locks an operand may refer to"""
        b = self.bodies[q]
        out = set()
        if op[0] not in ("mv", "cp") or depth > 12:
            return self.unnamed(op)
        return self.lock_at(q, op[1], depth) or (self.typed(b.locals[op[1][0]][0]) if isinstance(op[1][0], int) else set())

    def unnamed(self, op):
        return {"static %s" % op[1]} if len(op) > 1 and op[0] in ("static", "const") and isinstance(op[1], str) else set()

    def typed(self, ty):
        t = self.locktype(ty)
        if t is None:
            return set()
        fs = self.fields.get(t, set())
        return set(fs) if fs else {"a lock of type %s" % t[:90]}

    def lock_at(self, q, place, depth):
        b = self.bodies[q]
        l, proj = place
        if not isinstance(l, int):
            return {"static %s" % (l,)}
        fs = [p for p in proj if isinstance(p, list) and p[0] == "f"]
        if fs:
            f = fs[-1]
            own = f[3] if len(f) > 3 and f[3] else ""
            if own in self.made or "{c" in own.rsplit("::", 1)[-1] or (l == 1 and q in self.made):
                got = self.made.get(own) or self.made.get(q)
                if got and f[1] < len(got[1]):
                    return self.lock_of(got[0], got[1][f[1]], depth + 1)
                return set()
            if own and (own.rsplit("::", 1)[0] in self.db.adts or own in self.db.adts):
                name = "%s.%s" % (own, f[2])
                for a in (own, own.rsplit("::", 1)[0]):
                    if any("%s.%s" % (a, f[2]) in x for x in self.fields.values()):
                        return {"%s.%s" % (a, f[2])}
                return {name} if "Lock" in name else set()
            # a tuple or a foreign wrapper: look through it
        ds = self.defs[q].get(l, [])
        if not ds and 1 <= l <= b.nargs and q not in self.made and re.match(r"&(mut )?(alloc::sync::Arc<|std::sync::Arc<)?[\w:]*(RwLock|Mutex)<", b.locals[l][0]):
            return {"param %s#%d" % (q, l)}     # the caller knows
        if not ds or l <= b.nargs:
            return set()
        out = set()
        for k, d in ds:
            if k == "=":
                if d[0] == "ref":
                    out |= self.lock_at(q, d[2], depth + 1) if depth < 12 else set()
                else:
                    ps = []
                    places(d, ps)
                    for p in ps:
                        if depth < 12:
                            out |= self.lock_at(q, p, depth + 1)
            elif THROUGH.search(self.name(d)) and d[2] and d[2][0][0] in ("mv", "cp") and depth < 12:
                out |= self.lock_at(q, d[2][0][1], depth + 1)
        return out

    def outside(self, names, q=None, t=None):
        """names of locks, those a body is handed replaced by what the call t in q hands to it (or by all of the type)"""
        out = set()
        for l, m in names:
            g = re.match(r"param (.*)#(\d+)$", l)
            if not g:
                out.add((l, m))
                continue
            i = int(g.group(2))
            got = self.lock_of(q, t[2][i - 1]) if t is not None and i <= len(t[2]) else set()
            out |= {(x, m) for x in got or self.typed(self.bodies[g.group(1)].locals[i][0])}
        return out

    # -- who is called
    @staticmethod
    def name(t):
        return t[1][1]["def"] if t[1][0] == "fn" else ""

    def targets(self, q, t):
        """bodies of ours a call may run"""
        if t[1][0] != "fn":
            return set(), set()
        f = t[1][1]
        out = set()
        for k in ("inst", "def"):
            n = f.get(k)
            if n in self.bodies:
                out.add(n)
                break
        else:
            if re.match(r"core::ops::function::Fn", f.get("trait") or ""):
                mine = set()
                for a in t[2][:1]:
                    mine |= self.closures(q, a, 0)
                return set(), mine or set(self.handed.get(q, ()))
            if f.get("trait"):
                out |= set(self.by_trait.get((re.sub(r"<.*$", "", f["trait"]), f.get("name")), ()))
                me = re.sub(r"<.*$", "", f.get("self") or "")
                exact = {x for x in out if x.startswith("<" + me)} if me and me in self.db.adts else None
                if exact is not None:
                    out = exact
        mine = set()
        for a in t[2]:
            mine |= self.closures(q, a, 0)
        return out, mine

    def closures(self, q, op, depth):
        """closures and async blocks an operand hands over"""
        if op[0] not in ("mv", "cp") or depth > 8:
            return set()
        if not isinstance(op[1][0], int):
            return set()
        out = set()
        for k, d in self.defs[q].get(op[1][0], []):
            if k == "=" and d[0] == "agg" and d[1] in ("closure", "generator"):
                out.add(d[2])
            elif k == "=" and d[0] in ("use", "ref", "cast"):
                ps = []
                places(d, ps)
                if d[0] == "ref":
                    ps.append(d[2])
                for p in ps:
                    if not p[1]:
                        out |= self.closures(q, ["cp", p], depth + 1)
        return out

    def spawned(self, q, local, depth=0):
        """the value goes to another task"""
        if depth > 6:
            return False
        for bl in self.bodies[q].blocks:
            for s in bl["s"]:
                if s[0] == "=" and not s[1][1]:
                    ps = []
                    places(s[2], ps)
                    if any(p[0] == local for p in ps) and self.spawned(q, s[1][0], depth + 1):
                        return True
            t = bl["t"]
            if t[0] == "call":
                ps = []
                places(t[2], ps)
                if any(p[0] == local for p in ps):
                    n = self.name(t)
                    if re.search(r"::spawn\w*$", n):
                        return True
                    if t[3] and not t[3][1] and re.search(r"::(from_generator|pin|new|boxed|map\w*|then|and_then|or_else|unwrap_or_else|abortable|fuse|shared|remote_handle)$", n) \
                            and self.spawned(q, t[3][0], depth + 1):
                        return True
        return False

    def waits(self, q, t):
        """[(lock, mode)] a call may wait for"""
        n = self.name(t)
        out = set()
        m = TAKE.search(n)
        if m and t[2]:
            mode = "read" if m.group(2).startswith("read") else "write"
            for l in self.lock_of(q, t[2][0]) or {"a lock of %s" % q}:
                out.add((l, mode))
            return out
        if re.search(r"::spawn\w*$", n) and not n.endswith("spawn_blocking"):
            return out
        fs, cs = self.targets(q, t)
        if cs and t[3] and not t[3][1] and self.spawned(q, t[3][0]):
            cs = set()
        elif fs and t[3] and not t[3][1] and re.search(r"impl:|Future", self.bodies[q].locals[t[3][0]][0]) and self.spawned(q, t[3][0]):
            fs = set()
        for x in fs:
            out |= self.outside(self.takes.get(x, set()), q, t)
        for x in cs:
            out |= self.outside(self.takes.get(x, set()))
        return out

    def holdable(self, ty):
        if ty in self.memo:
            return self.memo[ty]
        self.memo[ty] = False
        r = bool(GUARD.search(ty)) and not ty.startswith("&")
        if not r and not ty.startswith("&"):
            for a in re.findall(r"[\w:]+", ty):
                if a in self.db.adts and a.split("::")[0] in self.db.crates:
                    for v in self.db.adts[a]["variants"]:
                        for f in v["fields"]:
                            t = f["ty"] if isinstance(f, dict) else f[1]
                            r = r or self.holdable(t)
        self.memo[ty] = r
        return r

    # -- flow
    def flow(self, q, record=None):
        b = self.bodies[q]
        if not any(self.holdable(l[0]) for l in b.locals):
            for i, bl in enumerate(b.blocks):
                t = bl["t"]
                if t[0] == "call":
                    self.takes[q] |= self.waits(q, t)
            return
        ins = {0: {}}
        work = [0]
        given = set()

        def take(st, x):
            got = set()
            ps = []
            moved(x, ps)
            for l, proj in ps:
                if l in st:
                    got |= st[l]
                    if not proj or GUARD.search(b.locals[l][0]):
                        del st[l]
            return got
        def step(i, record):
            st = dict(ins[i])
            bl = b.blocks[i]
            for s in bl["s"]:
                if s[0] == "=":
                    got = take(st, s[2])
                    l = s[1][0]
                    if got and isinstance(l, int):
                        st[l] = got | (st.get(l, set()) if s[1][1] else set())
                elif s[0] == "sd":
                    st.pop(s[1], None)
            t = bl["t"]
            k = t[0]
            if k == "return":
                given.update(st.get(0, set()))
            elif k == "yield":
                if record:
                    record("yield", i, t, st, set())
                take(st, t[1])
            elif k == "drop":
                if isinstance(t[1][0], int):
                    st.pop(t[1][0], None)
            elif k == "replace":
                got = take(st, t[2])
                if isinstance(t[1][0], int):
                    st.pop(t[1][0], None)
                    if got:
                        st[t[1][0]] = got
            elif k == "call":
                w = self.waits(q, t)
                self.takes[q] |= w
                if record:
                    record("call", i, t, st, w)
                got = take(st, t[2])
                d = t[3][0] if t[3] else None
                if isinstance(d, int):
                    if not t[3][1]:
                        st.pop(d, None)
                    new = set(got) if self.holdable(b.locals[d][0]) else set()
                    n = self.name(t)
                    if TAKE.search(n):
                        new |= w
                    elif TRY.search(n) and t[2]:
                        mode = "read" if n.endswith("read") else "write"
                        new |= {(l, mode) for l in self.lock_of(q, t[2][0]) or {"a lock of %s" % q}}
                    elif self.holdable(b.locals[d][0]):
                        for f in self.targets(q, t)[0]:
                            new |= self.outside(self.gives.get(f, set()), q, t)
                        if "poll" in n or "poll" in self.name(t):
                            for l, h in ins[i].items():
                                if "MutexLockFuture" in b.locals[l][0]:
                                    new |= h
                    if new:
                        st[d] = st.get(d, set()) | new
            return st
        while work:
            i = work.pop()
            st = step(i, None)
            for j in b.succs(i):
                old = ins.get(j)
                new = {l: set(h) for l, h in (old or {}).items()}
                for l, h in st.items():
                    new[l] = new.get(l, set()) | h
                if old is None or new != old:
                    ins[j] = new
                    work.append(j)
        for i in sorted(ins) if record else ():
            step(i, record)
        self.gives[q] |= given

    def solve(self):
        n = None
        while n != (sum(map(len, self.takes.values())), sum(map(len, self.gives.values()))):
            n = (sum(map(len, self.takes.values())), sum(map(len, self.gives.values())))
            for q in self.bodies:
                self.flow(q)

    # -- tasks
    def roots(self):
        """{body: the entries from outside that lead to it}"""
        callers = {}
        for q, b in self.bodies.items():
            for bl in b.blocks:
                t = bl["t"]
                if t[0] == "call":
                    fs, cs = self.targets(q, t)
                    for x in fs | cs:
                        callers.setdefault(x, set()).add(q)
            if q in self.made:
                callers.setdefault(q, set()).add(self.made[q][0])
        self.callers = callers

        def up(q):
            seen, st, out = {q}, [q], set()
            while st:
                x = st.pop()
                cs = callers.get(x, set()) - {x}
                # a method of a type that only one task owns stands for that task
                t = self.owner(x)
                if t:
                    out.add(t)
                    continue
                if not cs:
                    out.add(x)
                for y in cs:
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
            return out
        return up

    def owner(self, q):
        """the type whose one owner runs q: nobody else can have a second handle of it"""
        b = self.bodies[q]
        while b.q in self.made:
            b = self.bodies[self.made[b.q][0]]
        if not b.nargs:
            return None
        t = re.sub(r"^(core::pin::Pin<)?&(mut )?", "", b.locals[1][0])
        t = re.sub(r"<.*$", "", t).rstrip(">")
        if t not in self.db.adts or not b.locals[1][1] == "self":
            return None
        if self.shared(t):
            return None
        return t

    def shared(self, t):
        if not hasattr(self, "_shared"):
            self._shared = {}
        if t not in self._shared:
            rx = re.compile(r"^<%s(<.*>)? as core::clone::Clone>::clone$" % re.escape(t))
            clone = any(rx.match(q) for q in self.bodies)
            arc = any(re.search(r"alloc::sync::Arc<%s\b" % re.escape(t), l[0]) for b in self.bodies.values() for l in b.locals)
            arc = arc or any(re.search(r"alloc::sync::Arc<%s\b" % re.escape(t), (f["ty"] if isinstance(f, dict) else f[1]))
                             for a in self.db.adts.values() for v in a["variants"] for f in v["fields"])
            self._shared[t] = clone or arc
        return self._shared[t]


def short(l):
    return re.sub(r"\w+::", "", l)


def l01(c):
    lk = Locks(c.db)
    lk.solve()
    up = lk.roots()
    edges = {}
    sites = [0]
    writers, born = {}, {}
    for q, b in lk.bodies.items():
        for bl in b.blocks:
            t = bl["t"]
            if t[0] != "call":
                continue
            n = lk.name(t)
            if TAKE.search(n) and not n.endswith(("::read", "::read_recursive")):
                for l, _ in lk.outside(lk.waits(q, t)):
                    writers.setdefault(l, set()).add(q)
            elif re.search(r"::(RwLock|Mutex)::new$", n) and t[3] and not t[3][1]:
                for l in lk.typed(b.locals[t[3][0]][0]):
                    born.setdefault(q, set()).add(l)

    def quiet(l, q):
        """nobody writes to l while q runs: q is where l is made, or one task does both"""
        if l in born.get(q, ()):
            return True
        ts = up(q)
        for w in writers.get(l, ()):
            ts |= up(w)
        return len(ts) == 1 and next(iter(ts)) in c.db.adts
    c.functions |= {q for q in lk.bodies if lk.takes[q]}
    for q, b in sorted(lk.bodies.items()):
        if not any(lk.holdable(l[0]) for l in b.locals):
            continue
        seen = set()

        def record(kind, i, t, st, w, q=q, b=b, seen=seen):
            held = set()
            for h in st.values():
                held |= h
            held, w = lk.outside(held), lk.outside(w)
            where = rel(b.blocks[i].get("l", "") or "")
            if kind == "yield":
                bad = {l for l in st if SYNC.search(b.locals[l][0])}
                c.ob("L01.await", b, "nothing is awaited while a lock is held", not bad, where,
                     ", ".join(sorted(short(x[0]) for l in bad for x in st[l])))
                return
            n = lk.name(t)
            if TAKE.search(n):
                sites[0] += 1
                named = not any(l.startswith("a lock of") for l, _ in w)
                c.ob("L01.named", b, "%s: the lock taken is known" % where.rsplit("/", 1)[-1].split(":")[0], named, where,
                     ", ".join(sorted(l for l, _ in w))) if not named else None
            if LEAK.search(n):
                ps = []
                moved(t[2], ps)
                c.ob("L01.kept", b, "a lock that was taken is given back", not any(p[0] in st for p in ps), where, n)
            if not held:
                return
            if BLOCK.search(n) and BLOCKERS.search(n):
                c.ob("L01.wait", b, "nothing is waited for while a lock is held", False, where, n)
            for l, m in sorted(w):
                for h, hm in sorted(held):
                    if l == h:
                        bad = not (m == "read" and hm == "read") or not quiet(l, q)
                        key = ("again", l, where)
                        if key not in seen or bad:
                            seen.add(key)
                            c.ob("L01.again", b, "%s is not asked for by who holds it" % short(l), not bad, where,
                                 "%s while it is held for %s, through %s" % (m, hm, short(n)))
                    else:
                        edges.setdefault((h, l), []).append((q, where, n))
        lk.flow(q, record)
    c.floor("L01.sites", "node", "places where a lock is taken", sites[0], 40)
    # circles
    succ = {}
    for (h, l), v in edges.items():
        succ.setdefault(h, set()).add(l)

    def path(a, z):
        seen, st = {a: None}, [a]
        while st:
            x = st.pop(0)
            if x == z:
                p = []
                while x is not None:
                    p.append(x)
                    x = seen[x]
                return p[::-1]
            for y in sorted(succ.get(x, ())):
                if y not in seen:
                    seen[y] = x
                    st.append(y)
        return None
    for (h, l), v in sorted(edges.items()):
        back = path(l, h)
        tasks = set()
        for q, w, n in v:
            tasks |= up(q)
        ok, det = True, ""
        if back:
            legs = [(h, l)] + list(zip(back, back[1:]))
            ts = set()
            for leg in legs:
                for q, w, n in edges[leg]:
                    ts |= up(q)
            # one task that nobody can run twice cannot wait for itself in a circle
            ok = len(ts) == 1 and next(iter(ts)) in c.db.adts
            det = "circle %s; taken by %s" % (" -> ".join(short(x) for x in [h] + back), ", ".join(sorted(short(x) for x in ts)))
        for q, w, n in v[:1]:
            c.ob("L01.order", lk.bodies[q], "%s is asked for while %s is held" % (short(l), short(h)), ok, w, det)
    c.notes.append("a lock is identified by the field that holds it: two values of one type count as one")
    return lk, edges


CHECKS = {
    "L01": ("how locks are taken over the whole node", CRATES, l01),
}
