"""Storage: key spaces, batches, epoch indexes, error propagation."""
import re

from .core import Anchor, mk, SOME, NONE
from .rules import (P, SELF, additions, checked, expand, field, fld, has_rev, forall, has_field, is_call, iter_sources, path_of, rel,
                    root_of, seqmap, sig, uncall, unfinished)

CR = "core_storage"
CRATES = {"core_storage", "protocol"}
ST = "protocol::traits::storage::Storage"
AD = "protocol::traits::storage::StorageAdapter"
SS = "protocol::traits::storage::StorageSchema"
CAT = "protocol::traits::storage::StorageCategory"
ENC = r"ProtocolCodec(Sync)?::encode$"
DEC = r"ProtocolCodec(Sync)?::decode$"


def adapters(c):
    """(self type, {method: body}) of every storage adapter"""
    out = {}
    for m in ("insert", "get", "remove", "contains", "batch_modify"):
        for s, q in c.db.impl_items.get((AD, m), ()):
            if q in c.db.bodies:
                out.setdefault(s, {})[m] = c.db.bodies[q]
    if not out:
        raise Anchor("storage adapters")
    return out


def argn(an, i):
    return mk("param", an.root.locals[i][1] or "arg%d" % i)


# ------------------------------------------------ physical operations of an adapter

class Op:
    def __init__(self, e, kind, space, key, val, fallible, staged=None):
        self.e, self.kind, self.space, self.key, self.val, self.fallible, self.staged = e, kind, space, key, val, fallible, staged


def ops(an):
    out = []
    for e in an.events:
        if e.kind != "call" or not e.args:
            continue
        n = e.q.rsplit("::", 1)[-1]
        if "rocksdb" in e.q and re.search(r"::(DB|WriteBatch)::", e.q) or re.search(r"rocksdb::.*::(put|get|delete|write)", e.q):
            staged = None if root_of(e.args[0]) is SELF else e.args[0]
            if n in ("put_cf", "put_cf_opt", "merge_cf"):
                out.append(Op(e, "put", e.args[1], e.args[2], e.args[3], True, staged))
            elif n in ("put", "merge", "put_opt"):
                out.append(Op(e, "put", None, e.args[1], e.args[2], True, staged))
            elif n in ("delete_cf", "delete_cf_opt"):
                out.append(Op(e, "del", e.args[1], e.args[2], None, True, staged))
            elif n == "delete":
                out.append(Op(e, "del", None, e.args[1], None, True, staged))
            elif n in ("get_cf", "get_cf_opt", "get_pinned_cf"):
                out.append(Op(e, "get", e.args[1], e.args[2], None, True, staged))
            elif n == "get":
                out.append(Op(e, "get", None, e.args[1], None, True, staged))
            elif n in ("write", "write_opt", "write_without_wal"):
                out.append(Op(e, "write", None, None, e.args[1], True))
            elif n in ("clear", "drop_cf", "destroy"):
                out.append(Op(e, "other", None, None, None, True))
        elif root_of(e.args[0]) is SELF and "collections" in e.q:
            if n == "insert":
                out.append(Op(e, "put", None, e.args[1], e.args[2], False))
            elif n == "remove":
                out.append(Op(e, "del", None, e.args[1], None, False))
            elif n in ("get", "contains_key"):
                out.append(Op(e, "get", None, e.args[1], None, False))
            elif n in ("clear", "drain", "retain", "extend", "entry", "append", "get_mut"):
                out.append(Op(e, "other", None, None, None, False))
    return out


def spell(an, t, key, d=0):
    """how a physical key is computed from the encoded key: structural text with the key parameter replaced"""
    if t is None:
        return "-"
    if d > 10:
        return ".."
    if t is key or (t.op == "elem" and iter_sources(t.a[0]) is not None and P("keys") in an.alts(iter_sources(t.a[0]))) or \
            (t.op == "elem" and t.a[0] is key):
        return "KEY"
    if t.op == "new" and an.pushes.get(t):
        return "[" + ", ".join(sorted({spell(an, x, key, d + 1) for x in an.pushes[t]})) + "]"
    if t.op == "phi":
        return "{" + " | ".join(sorted({spell(an, x, key, d + 1) for x in an.alts(t)})) + "}"
    if t.op in ("ok", "err", "cast"):
        return "%s(%s)" % (t.op, spell(an, t.a[0], key, d + 1))
    if t.op == "call":
        return "%s(%s)" % (t.a[0].rsplit("::", 2)[-2] + "::" + t.a[0].rsplit("::", 1)[-1],
                           ", ".join(spell(an, x, key, d + 1) for x in t.a[2]))
    if t.op == "discr":
        return "discr(%s)" % spell(an, t.a[0], key, d + 1)
    return sig(t, an)


def keyspell(an, op, key):
    return {(spell(an, op.space, key), spell(an, k, key)) for k in expand(an, op.key)}


def s01(c):
    ncat = len(c.db.enums.get(CAT, {}))
    if ncat < 2:
        raise Anchor("storage categories")
    for s, ms in sorted(adapters(c).items()):
        base = None
        for m in ("insert", "get", "remove", "contains", "batch_modify"):
            if m not in ms:
                raise Anchor("%s::%s" % (s, m))
            an = c.an(ms[m])
            key = argn(an, 2)
            phys = [o for o in ops(an) if o.kind in ("put", "get", "del")]
            c.floor("S01.access", an, "access to the store", len(phys), 1)
            for o in phys:
                sp = keyspell(an, o, key)
                cat = "StorageSchema::category"
                whole = " ".join(x for y in sp for x in y)
                c.ob("S01.category", an, "%s addresses a place chosen by the category" % o.kind, cat in whole or
                     strs_by_category(c, an, o, ncat), rel(o.e.span), whole[:200])
                if base is None:
                    base = (m, sp, colfn(an, o))
                c.ob("S01.same-place", an, "%s addresses the same place as %s" % (o.kind, base[0]), sp == base[1] and
                     colfn(an, o) == base[2], rel(o.e.span), "%s / %s" % (sorted(sp)[:1], sorted(base[1])[:1]))
            # the mapping of categories to column families separates them
            for e in an.calls_to(r"::cf_handle$"):
                al = an.alts(e.args[1])
                names = {x.a[0] for x in al if x.op == "str"}
                c.ob("S01.distinct", an, "each category has a column family of its own", len(names) == ncat and len(al) == ncat,
                     rel(e.span), "names %s for %d categories" % (sorted(names), ncat))
                for nb in [b for b in c.db.bodies.values() if b.crate == CR and b.j.get("impl_self") == s and b.q.endswith("::new")]:
                    na = c.an(nb)
                    opened = set()
                    for o in na.calls_to(r"DB::open"):
                        for a in o.args:
                            for x in na.subterms(a, pushes=True):
                                if x.op == "str":
                                    opened.add(x.a[0])
                        c.ob("S01.opened", na, "every column family is opened", names <= opened, rel(o.span),
                             "opened %s, used %s" % (sorted(opened), sorted(names)))
            if not an.calls_to(r"::cf_handle$"):
                for o in phys:
                    for k in expand(an, o.key):
                        pre = [x for x in an.pushes.get(k, ())] if k.op == "new" else []
                        fixed = [x for x in pre if x.op in ("cast", "discr") or x.op == "int"]
                        rest = [x for x in pre if x not in fixed]
                        c.ob("S01.distinct", an, "the key is a fixed-width category tag and the encoded key", len(fixed) == 1 and
                             len(rest) == 1 and an.has(fixed[0], lambda y: is_call(y, "StorageSchema::category$")) and
                             is_call(uncall(rest[0]), ENC), rel(o.e.span), str([sig(x) for x in pre]))
    # schemas of one category do not share keys
    acc = schema_access(c)
    cats = {}
    for sch in acc:
        cats[sch] = category_of(c, sch)
    schs = sorted(acc)
    c.floor("S01.schema", "core_storage", "schema in use", len(schs), 4)
    for i, a in enumerate(schs):
        for b in schs[i + 1:]:
            if cats[a] != cats[b]:
                c.ob("S01.schema", "core_storage", "%s and %s" % (short_(a), short_(b)), True)
                continue
            ka, kb = key_class(c, acc[a]), key_class(c, acc[b])
            clash = ka & kb
            # two computed keys of one type are one key space, and so is one constant used twice
            c.ob("S01.schema", "core_storage", "%s and %s share a category but no key" % (short_(a), short_(b)), not clash, "",
                 "both use %s" % sorted(clash))


def short_(q):
    return q.rsplit("::", 1)[-1]


def strs_by_category(c, an, o, ncat):
    h = uncall(o.space) if o.space is not None else None
    return h is not None and is_call(h, "cf_handle$") and any(is_call(e.term, "StorageSchema::category$") for e in
                                                             an.events if e.kind == "call" and e.term is not None) and \
        len({x for x in an.alts(h.a[2][1]) if x.op == "str"}) == ncat


def colfn(an, o):
    h = uncall(o.space) if o.space is not None else None
    if h is None:
        return None
    return tuple(sorted({e.fn for e in an.events if e.kind == "call" and e.term is h}))


def category_of(c, sch):
    b = [q for s, q in c.db.impl_items.get((SS, "category"), ()) if s == sch]
    if len(b) != 1:
        raise Anchor("category of %s" % sch)
    an = c.an(b[0])
    out = {x.a[0] for e in an.exits() for x in an.alts(e.val) if x.op == "agg"}
    if len(out) != 1:
        raise Anchor("category of %s is not a constant" % sch)
    return out.pop()


def storage_methods(c):
    out = {}
    for (tr, m), l in c.db.impl_items.items():
        if tr == ST:
            for s, q in l:
                if q in c.db.bodies and c.db.bodies[q].crate == CR:
                    out[m] = c.db.bodies[q]
    if not out:
        raise Anchor("implementation of Storage")
    return out


def sch_of(e):
    a = [x for x in (e.callee or {}).get("args", []) if "Schema" in x or "::" in x]
    a = [x for x in a if x in {s for s, _ in CATS}]
    return a[-1] if a else None


CATS = set()


def schema_access(c):
    CATS.clear()
    CATS.update(c.db.impl_items.get((SS, "category"), ()))
    acc = {}
    for m, b in storage_methods(c).items():
        an = c.an(b)
        for e in an.calls_to(r"StorageAdapter::(insert|get|get_batch|remove|contains|batch_modify)$"):
            s = sch_of(e)
            if s is None:
                raise Anchor("schema of a storage access in %s" % m)
            acc.setdefault(s, []).append((an, e))
    return acc


def key_class(c, uses):
    out = set()
    for an, e in uses:
        ks = an.alts(e.args[1])
        if e.q.endswith(("batch_modify", "get_batch")):
            ks = set()
            for x in an.alts(e.args[1]):
                ks |= set(an.pushes.get(x, ())) if x.op == "new" else {mk("elem", x, "k")}
        for k in ks:
            if k.op == "lazy":
                out.add("constant " + sig_const(c, k))
            elif k.op == "agg":
                out.add("computed " + k.a[0].rsplit("::", 1)[-1])
            else:
                t = typeof(c, an, k)
                out.add("computed " + t)
    return out


def sig_const(c, k):
    b = [b for b in c.db.bodies.values() if k.a[0] in b.q and "__static_ref_initialize" in b.q]
    if len(b) != 1:
        return k.a[0]
    an = c.an(b[0])
    return " | ".join(sorted({sig(x, an) for e in an.exits() for x in an.alts(e.val)}))


def typeof(c, an, t):
    if t.op == "param":
        for ty, nm in an.root.locals:
            if nm == t.a[0]:
                return ty.rsplit("::", 1)[-1].strip("&>")
    if t.op == "elem":
        x = t.a[0]
        if x.op == "param":
            for ty, nm in an.root.locals:
                if nm == x.a[0]:
                    return ty.split("<", 1)[-1].rsplit("::", 1)[-1].strip("&>")
    if t.op == "fld":
        for q, a in c.db.adts.items():
            if q.startswith("protocol::types"):
                for v in a["variants"]:
                    for f in v["fields"]:
                        if f[0] == t.a[1]:
                            return f[1].rsplit("::", 1)[-1].strip("&>")
    if t.op == "call":
        f = c.db.fns.get(t.a[0])
        if f:
            return f[3].rsplit("::", 1)[-1].strip("&>")
        if t.a[0].endswith("Hash::digest"):
            return "Hash"
    if t.op in ("ok",):
        x = uncall(t)
        if is_call(x, r"StorageAdapter::get$"):
            return "looked-up"
    return sig(t)


# --------------------------------------------------------------------- batches

def s02(c):
    for s, ms in sorted(adapters(c).items()):
        an = c.an(ms["batch_modify"])
        keys, vals = argn(an, 2), argn(an, 3)
        all_ = ops(an)
        mut = [o for o in all_ if o.kind in ("put", "del", "write", "other") and o.staged is None]
        entries = [o for o in all_ if o.kind in ("put", "del")]
        me = [o.e for o in mut]
        c.floor("S02.entries", an, "put and delete of a batch entry", len({o.kind for o in entries}), 2)

        def eqlen(t, v):
            if t.op != "bin" or t.a[0] != "Eq" or v is not True:
                return False
            xs = [x for x in t.a[1:]]
            return all(is_call(x, r"::len$") for x in xs) and {x.a[2][0] for x in xs} == {keys, vals}
        c.nopath("S02.length", an, "nothing is changed unless keys and values pair up", an.guarded(me, eqlen),
                 "a batch of unequal length is partly applied")
        c.nopath("S02.length", an, "a batch of unequal length is not reported as done", an.guarded(an.ok_exits(), eqlen))
        enc = [e for e in an.events if e.kind in ("call", "await") and re.search(ENC, e.q or "")]
        c.nopath("S02.all-encoded", an, "everything that can fail to encode is encoded before the first change",
                 an.reach(me, enc) if me else None, "a failing encoding leaves the batch half applied")
        # one commit for stores that can fail, one lock section for the in-memory one
        fall = [o.e for o in mut if o.fallible]
        c.nopath("S02.atomic", an, "one store operation applies the batch", an.reach(fall, fall) if fall else None,
                 "the store is changed in several steps")
        if fall:
            c.ob("S02.atomic", an, "the batch is written by one atomic write", all(o.kind == "write" for o in mut), "", "")
            for o in mut:
                st = {x.staged for x in entries}
                c.ob("S02.atomic", an, "the written batch is the one that was filled", st == {o.e.args[1]}, rel(o.e.span))
        inf = [o.e for o in mut if not o.fallible]
        if inf:
            locks = [e for e in an.events if e.kind == "lock"]
            c.nopath("S02.atomic", an, "the batch is applied under one lock",
                     an.reach(inf, [l for l in locks if an.reach([l], inf) is not None]),
                     "a reader can see part of the batch")
            unl = [e for e in an.events if e.kind == "unlock"]
            c.nopath("S02.atomic", an, "the lock is held until the whole batch is applied",
                     an.reach(inf, [u for u in unl if an.reach([u], inf) is not None]), "a reader can see part of the batch")
        # pairing
        for o in entries:
            ks = expand(an, o.key)
            kk = set()
            for k in ks:
                kk |= {y for y in an.subterms(k, pushes=True) if y.op == "elem" and iter_src(an, y, keys)}
            c.ob("S02.paired", an, "%s is addressed by its own key" % o.kind, len(kk) == 1, rel(o.e.span), str([sig(k, an) for k in ks])[:200])
            site = {k.a[1] for k in kk}
            if o.kind == "put":
                for v in expand(an, o.val):
                    r = uncall(v)
                    ok = is_call(r, ENC) and r.a[2][0].op == "pay" and r.a[2][0].a[1].endswith("::Insert") and \
                        r.a[2][0].a[0].op == "elem" and r.a[2][0].a[0].a[0] is vals
                    ok = ok and ({r.a[2][0].a[0].a[1]} == site or all(
                        {y.a[1] for y in an.subterms(w) if y.op == "elem" and y.a[0] is vals} == site
                        for w in expand(an, o.val, 0, False)))
                    c.ob("S02.paired", an, "put stores the value paired with the key", ok, rel(o.e.span), sig(v, an)[:200])
            else:
                el = [x for x in {e.term for e in an.events if e.kind == "next"}]

                def removing(t, v):
                    if v == frozenset(["Remove"]) and t.op == "elem" and t.a[0] is vals:
                        return True
                    if v == frozenset(["None"]) and t.op == "elem" and t.a[0].op == "new":
                        return removal_marks(an, t.a[0], None, vals)
                    if v == frozenset(["None"]) and t.op == "fld" and t.a[0].op == "elem":
                        coll = t.a[0].a[0]
                        return coll.op == "new" and removal_marks(an, coll, t.a[1], vals)
                    return False
                c.nopath("S02.removal", an, "only an entry marked for removal is deleted", an.guarded([o.e], removing))
        ees = [o.e for o in entries]
        done, bad = forall(an, lambda t: complete_src(an, t, keys, vals), ees)
        tgt = [o.e for o in mut if o.kind == "write"] or an.ok_exits()
        p = unfinished(an, done, [an.start], tgt) if done else [an.start]
        c.nopath("S02.complete", an, "every entry of the batch is applied", p, "an entry can be left out")
        c.nopath("S02.complete", an, "success implies the batch was written", an.before([o.e for o in mut if o.kind == "write"],
                 an.ok_exits()) if fall else None)
        checked(c, "S02.reported", an, [o.e for o in all_ if o.fallible])
        checked(c, "S02.reported", an, [e for e in enc if e.kind == "await"])


def iter_src(an, y, keys):
    return iter_sources(y.a[0]) is keys


def removal_marks(an, coll, f, vals):
    """entries whose field f is None are exactly those made for a removal"""
    adds = additions(an, coll)
    for e in adds:
        v = field(e.args[-1], f) if f is not None else e.args[-1]
        if v is None:
            return False
        for x in an.alts(v):
            if x.op == "agg" and x.a[0] == NONE:
                if an.guarded([e], lambda t, w: t.op == "elem" and t.a[0] is vals and w == frozenset(["Remove"])) is not None:
                    return False
            elif not (x.op == "agg" and x.a[0] == SOME):
                return False
    return bool(adds)


def complete_src(an, t, keys, vals, d=0):
    """t enumerates all pairs: zip(keys, vals), or a collection built from all of them"""
    if t is None or d > 3:
        return False
    if t.op == "it" and t.a[0] == "zip":
        return {t.a[1], t.a[2]} == {keys, vals} or all(
            x in (keys, vals) or x.op == "new" and complete_src(an, x, keys, vals, d + 1) and once_each(an, x) for x in t.a[1:3])
    if t in (keys, vals):
        return True
    if t.op == "new":
        adds = additions(an, t)
        if not adds:
            return False
        done, bad = forall2(an, lambda s: complete_src(an, s, keys, vals, d + 1), adds)
        heads = [e for e in an.events if e.kind == "next" and e.args[0] is t]
        return bool(done) and unfinished(an, done, [an.start], heads) is None and not any(
            True for e in an.events if e.kind == "call" and e.args and e.args[0] is t and
            re.search(r"::(pop|remove|truncate|clear|retain|swap_remove|dedup|split_off)$", e.q or ""))
    return False


def once_each(an, x):
    adds = additions(an, x)
    heads = [e for e in an.events if e.kind == "next"]
    return an.reach(adds, adds, avoid=heads) is None and not any(has_rev(e.args[0]) for e in heads)


def forall2(an, coll, evs):
    # like forall but for zipped sources
    return forall(an, coll, evs)


# ---------------------------------------------------------------- epoch indexes

def s03(c):
    ms = storage_methods(c)
    acc = schema_access(c)
    an = c.an(ms["insert_epoch"])
    ep = argn(an, 2)
    ins = an.calls_to(r"StorageAdapter::(insert|batch_modify)$")
    idt = fld(fld(ep, "header"), "epoch_id")
    byid = [e for e in ins if e.args[1].op == "agg" and any(x is idt for _, x in e.args[1].a[1]) and e.args[2] is ep]
    latest = [e for e in ins if e.args[1].op == "lazy" and e.args[2] is ep]
    byhash = [e for e in ins if is_call(e.args[1], r"Hash::digest$") and an.has(e.args[1], lambda y: y is fld(ep, "header"))
              and e.args[2].op == "agg" and any(x is idt for _, x in e.args[2].a[1])]
    oks = an.ok_exits()
    for nm, es in (("by id", byid), ("by hash", byhash), ("as the latest", latest)):
        c.floor("S03.stored", an, "insertion of the epoch " + nm, len(es), 1)
        c.nopath("S03.stored", an, "success implies the epoch is stored " + nm, an.before(es, oks) if es else [an.start])
    for e in ins:
        c.ob("S03.only", an, "insertion %s" % sig(e.args[1], an)[:100], e in byid + byhash + latest, rel(e.span),
             "stores something that is not an index of the inserted epoch")
    aw = lambda es: [x for x in an.events if x.kind == "await" and x.term in {e.term for e in es}]

    def done(es):
        ts = {e.term for e in es}
        return lambda t, v: t in ts and v == frozenset(["Ok"])
    for nm, es in (("by id", byid), ("by hash", byhash)):
        c.nopath("S03.order", an, "the latest pointer moves only after the epoch is stored " + nm, an.guarded(latest, done(es)),
                 "a crash leaves a latest epoch that cannot be found " + nm)
    sch = lambda es: {sch_of(e) for e in es}

    def reader(m):
        return c.an(ms[m])
    # readers
    ra = reader("get_epoch_by_epoch_id")
    g = single_get(c, "S03.read", ra)
    if g:
        c.ob("S03.read", ra, "an epoch is looked up where it is stored by id", sch([g]) == sch(byid) and g.args[1].op == "agg" and
             g.args[1].a[0] == byid[0].args[1].a[0] and [x for _, x in g.args[1].a[1]] == [argn(ra, 2)], rel(g.span), sig(g.args[1]))
        returns(c, "S03.read", ra, g)
    ra = reader("get_latest_epoch")
    g = single_get(c, "S03.read", ra)
    if g:
        c.ob("S03.read", ra, "the latest epoch is looked up where it is stored", sch([g]) == sch(latest) and
             g.args[1] is latest[0].args[1], rel(g.span), sig(g.args[1]))
        returns(c, "S03.read", ra, g)
    ra = reader("get_epoch_by_hash")
    gs = ra.calls_to(r"StorageAdapter::get$")
    first = [g for g in gs if g.args[1] is argn(ra, 2)]
    # (or taken apart and put together again)
    whole = lambda t: t.a[1][0][1].a[0] if t.op == "agg" and len(t.a[1]) == 1 and t.a[0] == byid[0].args[1].a[0] and \
        t.a[1][0][1].op == "fld" and t.a[1][0][1].a[1] == t.a[1][0][0] else t
    second = [g for g in gs if first and whole(g.args[1]) in (mk("ok", mk("ok", f.term)) for f in first)]
    c.ob("S03.read", ra, "an epoch hash resolves through its id", len(first) >= 1 and len(second) >= 1 and sch(first) == sch(byhash)
         and sch(second) == sch(byid) and len(gs) == len(first) + len(second), "", str([sig(g.args[1]) for g in gs]))
    for g in second:
        returns(c, "S03.read", ra, g)
    # proof
    pa = c.an(ms["update_latest_proof"])
    pi = pa.calls_to(r"StorageAdapter::(insert|batch_modify)$")
    ok = len(pi) >= 1 and all(e.args[1].op == "lazy" and e.args[2] is argn(pa, 2) for e in pi)
    c.ob("S03.proof", pa, "the latest proof is stored", ok)
    c.nopath("S03.proof", pa, "success implies the proof is stored", pa.before(pi, pa.ok_exits()))
    ra = reader("get_latest_proof")
    g = single_get(c, "S03.proof", ra)
    if g and pi:
        c.ob("S03.proof", ra, "the latest proof is looked up where it is stored", sch([g]) == sch(pi) and g.args[1] is pi[0].args[1])
        returns(c, "S03.proof", ra, g)


def single_get(c, rule, an):
    gs = an.calls_to(r"StorageAdapter::get$")
    c.ob(rule, an, "one lookup", len({g.term for g in gs}) == 1, "", str(len(gs)))
    return gs[0] if gs else None


def returns(c, rule, an, g):
    want = mk("ok", mk("ok", g.term))
    for o in an.ok_exits():
        for x in an.alts(o.val):
            v = field(x, "0") if x.op == "agg" else None
            c.ob(rule, an, "what was found is returned", v is want, rel(o.span), sig(x, an)[:160])
    c.nopath(rule, an, "an absent entry is reported", an.guarded(an.ok_exits(), lambda t, v: t is mk("ok", g.term) and v ==
                                                                 frozenset(["Some"])))


# -------------------------------------------------------------- items and errors

def s04(c):
    # adapter level: what is written is read back
    for s, ms in sorted(adapters(c).items()):
        ia = c.an(ms["insert"])
        k, v = argn(ia, 2), argn(ia, 3)
        po = ops(ia)
        puts = [o for o in po if o.kind == "put"]
        c.floor("S04.insert", ia, "insertion into the store", len(puts), 1)
        for o in puts:
            r = uncall(o.val)
            c.ob("S04.insert", ia, "the stored bytes are the encoded value", is_call(r, ENC) and r.a[2][0] is v, rel(o.e.span), sig(o.val))
        c.ob("S04.insert", ia, "insert does nothing else", all(o.kind in ("put",) for o in po))
        c.nopath("S04.insert", ia, "success implies the value is stored", ia.before([o.e for o in puts], ia.ok_exits()))
        ra = c.an(ms["remove"])
        dels = [o for o in ops(ra) if o.kind == "del"]
        c.floor("S04.remove", ra, "removal from the store", len(dels), 1)
        c.nopath("S04.remove", ra, "success implies the entry is gone", ra.before([o.e for o in dels], ra.ok_exits()))
        c.ob("S04.remove", ra, "remove does nothing else", all(o.kind in ("del", "get") for o in ops(ra)))
        ga = c.an(ms["get"])
        gets = [o for o in ops(ga) if o.kind == "get"]
        c.ob("S04.get", ga, "get changes nothing", all(o.kind == "get" for o in ops(ga)))
        c.floor("S04.get", ga, "lookup in the store", len(gets), 1)
        found = lambda o: (lambda t, v: t is (mk("ok", o.e.term) if o.fallible else o.e.term) and v == frozenset(["Some"]))
        absent = lambda o: (lambda t, v: t is (mk("ok", o.e.term) if o.fallible else o.e.term) and v == frozenset(["None"]))
        for e in ga.ok_exits():
            for x in ga.alts(e.val):
                y = field(x, "0") if x.op == "agg" else None
                for z in ga.alts(y) if y is not None else [None]:
                    if z is not None and z.op == "agg" and z.a[0] == NONE:
                        c.nopath("S04.get", ga, "absence is reported only for absent entries", any_guard(ga, [e], gets, absent))
                    elif z is not None and z.op == "agg" and z.a[0] == SOME:
                        d = uncall(field(z, "0"))
                        src = {uncall(w) for w in expand(ga, d.a[2][0])} if is_call(d, DEC) else set()
                        c.ob("S04.get", ga, "the value returned is decoded from the bytes found", src and all(
                            any(ga.has(w, lambda q, o=o: q is o.e.term) for o in gets) for w in src), rel(e.span), sig(z, ga)[:200])
                    else:
                        # Option built by a combinator: accept only a decode of the found bytes
                        c.ob("S04.get", ga, "the value returned is decoded from the bytes found", z is not None and ga.has(
                            z, lambda q: is_call(q, DEC)), rel(e.span), sig(x, ga)[:200])
        ca = c.an(ms["contains"])
        cg = [o for o in ops(ca) if o.kind == "get"]
        c.ob("S04.contains", ca, "contains changes nothing", all(o.kind == "get" for o in ops(ca)))
        c.floor("S04.contains", ca, "lookup in the store", len(cg), 1)
        for e in ca.ok_exits():
            for x in ca.alts(e.val):
                y = field(x, "0") if x.op == "agg" else None
                for z in ca.alts(y) if y is not None else []:
                    if z.op == "int":
                        c.nopath("S04.contains", ca, "contains answers %s only if so" % bool(z.a[0]),
                                 any_guard(ca, [e], cg, found if z.a[0] else absent), where=rel(e.span))
                    else:
                        c.ob("S04.contains", ca, "contains answers from the lookup", any(z is o.e.term for o in cg), rel(e.span), sig(z))
        for m in ("insert", "get", "remove", "contains"):
            a = c.an(ms[m])
            checked(c, "S04.errors", a, [o.e for o in ops(a) if o.fallible])
            checked(c, "S04.errors", a, [e for e in a.events if e.kind == "await" and re.search(ENC + "|" + DEC, e.q or "")])
            for p in [e for e in a.events if e.kind == "panic"]:
                c.ob("S04.panic", a, "no panic", False, rel(p.span), str(p))
    # service level
    ms = storage_methods(c)
    acc = schema_access(c)
    for ins, get1, getn in (("insert_transactions", "get_transaction_by_hash", "get_transactions"),
                            ("insert_receipts", "get_receipt", "get_receipts")):
        an = c.an(ms[ins])
        items = argn(an, 2)
        bs = an.calls_to(r"StorageAdapter::(batch_modify|insert)$")
        c.floor("S04.items", an, "insertion of the items", len(bs), 1)
        c.nopath("S04.items", an, "success implies the items are stored", an.before(bs, an.ok_exits()))
        for e in bs:
            if not e.q.endswith("batch_modify"):
                c.ob("S04.items", an, "items are stored as one batch", False, rel(e.span), "a crash leaves part of the items")
                continue
            isrc = lambda t: t is items
            seqmap(c, "S04.items", an, "keys of the batch", e.args[1], isrc, lambda y: y.op == "fld" and y.a[1] == "tx_hash" and
                   y.a[0].op == "elem" and y.a[0].a[0] is items)
            seqmap(c, "S04.items", an, "values of the batch", e.args[2], isrc, lambda y: y.op == "agg" and y.a[0].endswith("::Insert")
                   and y.a[1][0][1].op == "elem" and y.a[1][0][1].a[0] is items)
        sc = {sch_of(e) for e in bs}
        ga = c.an(ms[get1])
        g = single_get(c, "S04.items", ga)
        if g:
            c.ob("S04.items", ga, "an item is looked up where it is stored", {sch_of(g)} == sc and g.args[1] is argn(ga, 2))
            returns(c, "S04.items", ga, g)
        na = c.an(ms[getn])
        hs = argn(na, 2)
        gs = na.calls_to(r"StorageAdapter::get(_batch)?$")
        c.ob("S04.batch", na, "items are looked up where they are stored", gs and {sch_of(x) for x in gs} == sc)
        for e in na.ok_exits():
            for x in na.alts(e.val):
                y = field(x, "0") if x.op == "agg" else None
                srcs = {mk("ok", g.term) for g in gs if g.q.endswith("get_batch")}
                if y is None:
                    c.ob("S04.batch", na, "the found items are returned", False, rel(e.span), sig(x, na)[:160])
                    continue
                for g in gs:
                    if g.q.endswith("get_batch"):
                        c.ob("S04.batch", na, "all requested hashes are looked up", g.args[1] is hs, rel(g.span), sig(g.args[1]))
                seqmap(c, "S04.batch", na, "items returned", y, lambda t: t in srcs or t is hs,
                       lambda z: z.op == "ok", skip=lambda t, v: v == frozenset(["None"]) and t.op in ("elem", "ok"))
    # default batch lookup of the adapter trait: position by position
    q = AD + "::get_batch"
    if q in c.db.bodies:
        an = c.an(q)
        ks = argn(an, 2)
        gs = an.calls_to(r"StorageAdapter::get$")
        for e in an.ok_exits():
            for x in an.alts(e.val):
                y = field(x, "0") if x.op == "agg" else x
                seqmap(c, "S04.positions", an, "batch lookup", y, lambda t: t is ks,
                       lambda z: z.op == "ok" and z.a[0] in {g.term for g in gs} and uncall(z).a[2][1].op == "elem")
        checked(c, "S04.positions", an, [e for e in an.events if e.kind == "await"])
    for m, b in ms.items():
        a = c.an(b)
        checked(c, "S04.errors", a, [e for e in a.events if e.kind == "await"])
        for p in [e for e in a.events if e.kind == "panic"]:
            c.ob("S04.panic", a, "no panic", False, rel(p.span), str(p))


def any_guard(an, evs, os, mkc):
    conds = [mkc(o) for o in os]
    return an.guarded(evs, lambda t, v: any(f(t, v) for f in conds))


CHECKS = {
    "S01": ("Key spaces of stored items are isolated", CRATES, s01),
    "S02": ("Batch modifications are positional and all or nothing", CRATES, s02),
    "S03": ("Epoch indexes agree and the latest pointer moves last", CRATES, s03),
    "S04": ("Stored items are found again, missing and failing lookups are reported", CRATES, s04),
}
