"""Executor properties: isolation, balances, assets, cycles, determinism, commit, totality, reads, receipts, trie store."""
import re

from . import core
from .core import Anchor, mk, SOME, NONE, OK, ERR, TRUE, FALSE
from .rules import (checked, expand, additions, tampered, short, underflows, variants, ge_known, SELF, P, fld, field, sig, forall, unfinished, is_call, iter_sources, root_of, path_of, rel, fname)

CR = "core_executor"
EX = "protocol::traits::executor::Executor"
EF = "protocol::traits::executor::ExecutorFactory"
AC = "protocol::traits::executor::contract::AccountContract"
BC = "protocol::traits::executor::contract::BankContract"
SA = "protocol::traits::executor::contract::ContractStateAdapter"
S_AD = r"executor::contract::ContractStateAdapter::"
S_CT = r"executor::contract::(AccountContract|BankContract)::"
S_MP = r"MPTTrie(<.*>)?::"
READS = {"get_balance", "get_account", "get_nonce", "get_asset", "get", "contains"}
CRATES = ["core_executor"]


def impl(c, trait, m):
    return c.db.trait_impl(trait, m, crate=CR)


def argn(body, i):
    return P(body.locals[i][1] or "arg%d" % i)


def exec_an(c):
    return c.an(impl(c, EX, "exec"), stop=[S_CT, S_AD, S_MP])


def exec_full(c):
    return c.an(impl(c, EX, "exec"), stop=[S_AD, S_MP])


def genesis_an(c):
    return c.an(impl(c, EX, "create_genesis"), stop=[S_CT, S_AD, S_MP])


def tx_nexts(an):
    p = argn(an.root, 2)
    return [e for e in an.events if e.kind == "next" and iter_sources(e.args[0]) is p]


def receipt_pushes(an):
    """events that add a Receipt to a collection"""
    out = []
    for e in an.events:
        if e.kind == "call" and re.search(r"(^|::)(push|push_back|insert)$", e.q or "") and len(e.args) >= 2:
            for x in an.alts(e.args[-1]):
                if x.op == "agg" and x.a[0].endswith("receipt::Receipt"):
                    out.append((e, x))
    return out


def result_kinds(an, r):
    return {x.a[0].rsplit("::", 1)[-1] if x.op == "agg" else "?" for x in an.alts(field(r, "result"))}


def fields_of(db, adt_rx, ty_rx):
    out = []
    for q, a in db.adts.items():
        if re.search(adt_rx, q):
            for v in a["variants"]:
                for f in v["fields"]:
                    if re.search(ty_rx, f[1]):
                        out.append(f[0])
    return out


def adapter_map(c):
    """the executor field that registers the state adapters (a map to adapters)"""
    b = impl(c, EX, "exec")
    me = re.sub(r"<.*", "", b.j["impl_self"])
    f = fields_of(c.db, "^" + re.escape(me) + "$", r"^std::collections::hash::map::HashMap<.*StateAdapter|^alloc::collections"
                  r"::btree::map::BTreeMap<.*StateAdapter")
    if len(f) != 1:
        raise Anchor("executor field holding the state adapters: %s" % f)
    return fld(SELF, f[0])


def mutators(an):
    return [e for e in an.events if e.kind == "call" and re.search(S_CT, e.q) and e.q.rsplit("::", 1)[-1] not in READS]


def adapter_calls(an, m):
    return [e for e in an.events if e.kind == "call" and e.q == SA + "::" + m]


def each_adapter(an, amap, m):
    evs = [e for e in adapter_calls(an, m) if e.args and _elem_of(e.args[0], amap)]
    return forall(an, lambda s: s is amap, evs)


def _elem_of(t, coll):
    """t is (the value part of) an element of coll"""
    if t.op == "fld" and t.a[1] == "1":
        t = t.a[0]
    return t.op == "elem" and iter_sources(t.a[0]) is coll


# ------------------------------------------------------------------------ E01

def e01(c):
    an = exec_an(c)
    amap = adapter_map(c)
    nx = tx_nexts(an)
    c.floor("E01.loop", an, "iteration over the transactions", len({e.span for e in nx}), 1)
    rv_done, rv_bad = each_adapter(an, amap, "revert_cache")
    st_done, st_bad = each_adapter(an, amap, "stash")
    c.ob("E01.revert-all", an, "revert_cache runs on every registered state adapter", bool(rv_done), "",
         "no complete loop over the adapters reverts each of them")
    c.ob("E01.stash-all", an, "stash runs on every registered state adapter", bool(st_done), "",
         "no complete loop over the adapters stashes each of them")
    pushes = receipt_pushes(an)
    fails = [e for e, r in pushes if "Fail" in result_kinds(an, r)]
    good = [e for e, r in pushes if result_kinds(an, r) != {"Fail"}]
    c.floor("E01.pushes", an, "receipt recorded for a failed transaction", len(fails), 1)
    c.floor("E01.pushes", an, "receipt recorded for a successful transaction", len(good), 1)
    muts = mutators(an)
    nonce = [e for e in muts if e.q.endswith("::inc_nonce")]
    work = [e for e in muts if not e.q.endswith(("::inc_nonce",))]
    inloop = an.reach_set(nx)
    work = [e for e in work if an.reach([e], nx) is not None]
    stashes = adapter_calls(an, "stash")
    reverts = adapter_calls(an, "revert_cache")
    for m in sorted({e.q for e in work}):
        evs = [e for e in work if e.q == m]
        n = m.rsplit("::", 1)[-1]
        # failed: everything the transaction wrote is reverted before its receipt is recorded, and never stashed first
        p = unfinished(an, rv_done, evs, fails, avoid=nx)
        c.nopath("E01.fail-reverts", an, "%s then a failed receipt" % n, p,
                 "a failed transaction keeps what it wrote: no complete revert between the write and the receipt")
        early = [s for s in stashes if unfinished(an, rv_done, evs, [s], avoid=nx) is not None]
        p = an.reach(early, fails, avoid=nx) if early else None
        c.nopath("E01.fail-not-stashed", an, "%s stashed on a failing path" % n, p,
                 "writes of a failed transaction are stashed before the failure is known")
        # succeeded: everything is stashed before the receipt, never dropped
        p = unfinished(an, st_done, evs, good, avoid=nx)
        c.nopath("E01.success-stashes", an, "%s then a successful receipt" % n, p,
                 "a successful transaction's writes are not stashed before its receipt is recorded")
        early = [s for s in reverts if unfinished(an, st_done, evs, [s], avoid=nx) is not None]
        p = an.reach(early, good, avoid=nx) if early else None
        c.nopath("E01.success-not-reverted", an, "%s reverted on a successful path" % n, p,
                 "writes of a successful transaction are dropped before they are stashed")
    c.floor("E01.mutators", an, "state-changing contract call in transaction processing", len({e.q for e in work}), 2)
    # a failed step makes the transaction fail
    steps = [e for e in an.events if e.kind == "call" and re.search(S_CT, e.q) and not e.q.endswith("::inc_nonce")
             and e.term is not None]
    for q in sorted({e.q for e in steps}):
        terms = {e.term for e in steps if e.q == q}
        starts = [m for _, m, _ in an.edges_where(lambda t, v: t in terms and v == frozenset(["Err"]))]
        p = an.reach(starts, good, avoid=nx) if starts else None
        c.nopath("E01.err-is-failure", an, "error of %s leads to a successful receipt" % q.rsplit("::", 1)[-1], p,
                 "a transaction whose step failed is reported successful")
    nonce_kept(c, "E01")
    wiring(c, "E01")
    # adapter layer
    adapter_rules(c, "E01")


def nonce_kept(c, pid):
    """the nonce step of a transaction is stashed whatever its outcome"""
    an = exec_an(c)
    amap = adapter_map(c)
    nx = tx_nexts(an)
    st_done, _ = each_adapter(an, amap, "stash")
    allp = [e for e, _ in receipt_pushes(an)]
    nonce = [e for e in mutators(an) if e.q.endswith("::inc_nonce")]
    reverts = adapter_calls(an, "revert_cache")
    p = unfinished(an, st_done, nonce, allp, avoid=nx) if nonce else None
    c.nopath(pid + ".nonce-stashed", an, "inc_nonce then the receipt", p,
             "the nonce change stays in the cache, where the next failing transaction discards it")
    late = [e for e in reverts if an.reach(nonce, [e], avoid=nx) is not None]
    p = None
    for e in late:
        if unfinished(an, st_done, nonce, [e], avoid=nx) is not None:
            p = an.reach(nonce, [e], avoid=nx)
    c.nopath(pid + ".nonce-not-reverted", an, "revert after inc_nonce", p, "the nonce change is reverted")
    c.floor(pid + ".nonce", an, "nonce increment", len(nonce), 1)


def wiring(c, pid):
    """every state adapter a contract writes through is registered in the adapter map"""
    fr = c.an(impl(c, EF, "from_root"), stop=[S_AD, S_MP])
    builts = []
    for e in fr.ok_exits():
        for x in fr.subterms(e.val, pushes=False):
            if x.op == "agg" and x.a[0].endswith("TransactionExecutor"):
                builts.append((e, x))
    if not builts:
        raise Anchor("from_root does not build the executor")
    mapname = adapter_map(c).a[1]
    keyof, loads, fresh = {}, {}, []
    seen = {}
    for ex, built in builts:
        if id(built) in seen:
            used = seen[id(built)]
        else:
            mt = field(built, mapname)
            pairs = [p for p in fr.pushes.get(mt, ()) if p.op == "agg" and p.a[0] == "tuple"] if mt is not None else []
            regd = {}                 # adapter value -> keys it is registered under
            for p in pairs:
                regd.setdefault(field(p, "1"), set()).add(sig(field(p, "0")))
            used = {}
            for f, v in built.a[1]:
                if f == mapname:
                    continue
                for x in fr.subterms(v):
                    if x.op == "agg" and re.search(r"StateAdapter$", x.a[0]):
                        used.setdefault(f, set()).add(x)
            seen[id(built)] = used
            c.floor(pid + ".wiring", fr, "contract with a state adapter", len(used), 2)
            for f, xs in used.items():
                c.ob(pid + ".wiring", fr, "adapter of %s is registered" % f, all(x in regd for x in xs), "",
                     "the adapter the contract writes through is not in the map that is stashed, reverted and committed")
                ks = set().union(*[regd.get(x, set()) for x in xs])
                c.ob(pid + ".wiring-keys", fr, "the adapter of %s is registered under one key" % f, len(ks) == 1, "", "keys %s" % sorted(ks))
                keyof.setdefault(f, set()).update(ks)
        for f, xs in used.items():
            for x in xs:
                ys = {y for y in fr.subterms(x) if is_call(y, r"MPTTrie(<.*>)?::get$")}
                loads.setdefault(f, set()).update(ys)
                if not ys:
                    fresh.append((f, ex, x))
    # the trie of an adapter is the one stored under the key it is registered with
    under = lambda f, y: any(sig(z) in keyof[f] for z in fr.subterms(y.a[2][1]))
    for f in keyof:
        ok = loads.get(f) and all(under(f, y) for y in loads[f])
        c.ob(pid + ".wiring-root", fr, "the trie of %s is loaded from the key its adapter is registered under" % f, ok, "",
             "loads: %s" % sorted({sig(y)[:160] for y in loads.get(f, ())}))
    allk = [k for ks in keyof.values() for k in ks]
    c.ob(pid + ".wiring-keys", fr, "adapters have distinct keys", len(set(allk)) == len(allk) and
         True, "", "keys %s" % sorted(allk))
    return fr, built


def adapter_rules(c, pid):
    # field roles: found from what insert_cache / stash / commit do
    ins = c.an(impl(c, SA, "insert_cache"), stop=[S_MP])
    puts = [e for e in ins.events if e.kind == "call" and e.q.endswith("::insert") and e.args and root_of(e.args[0]) is SELF]
    k, v = argn(ins.root, 2), argn(ins.root, 3)
    good = [e for e in puts if len(e.args) == 3 and _enc(ins, e.args[1], k) and _enc(ins, e.args[2], v)]
    c.floor(pid + ".insert", ins, "insertion of the encoded key and value into the cache", len(good), 1)
    if not good:
        return
    cache = good[0].args[0]
    c.nopath(pid + ".insert", ins, "every successful insert_cache stores the pair", ins.before(good, ins.ok_exits()) if
             ins.ok_exits() else [0])
    muts = [e for e in selfmuts(ins) if e not in good]
    c.ob(pid + ".insert-only", ins, "insert_cache changes nothing else", not muts, "", str(muts[:2]))
    # stash
    st = c.an(impl(c, SA, "stash"), stop=[S_MP])
    moved = [e for e in st.events if e.kind == "call" and re.search(r"(::insert|^push)$", e.q) and
             root_of(e.args[0]) is SELF and e.args[0] is not cache and _kv_of(e, cache)]
    c.floor(pid + ".stash", st, "move of a cached pair to the stash", len(moved), 1)
    if not moved:
        return
    stash = moved[0].args[0]
    done, bad = forall(st, lambda s: s is cache, moved)
    oks = st.ok_exits()
    # bulk move of an empty stash is not an option: pairs of earlier transactions live there
    p = unfinished(st, done, [st.start], oks) if done else [st.start]
    c.nopath(pid + ".stash-all", st, "every cached pair is stashed on success", p, "a cached pair can miss the stash")
    clears = emptied(st, cache)
    c.nopath(pid + ".stash-empties", st, "the cache is empty after stash", st.before(clears, oks) if clears else [st.start],
             "")
    for e in clears:
        # (a drain or an assignment leaves the old pairs with whoever took them: the iteration is over those)
        if e.kind == "call" and not e.q.endswith("drain"):
            c.nopath(pid + ".stash-empties", st, "the cache is emptied only after everything is stashed",
                     unfinished(st, done, [st.start], [e]) if done else [st.start])
    other = [e for e in selfmuts(st) if e not in moved and e not in clears]
    c.ob(pid + ".stash-only", st, "stash changes nothing else", not other, "", str(other[:2]))
    # revert
    rv = c.an(impl(c, SA, "revert_cache"), stop=[S_MP])
    clears = emptied(rv, cache)
    c.nopath(pid + ".revert", rv, "revert_cache empties the cache on success",
             rv.before(clears, rv.ok_exits()) if clears else [rv.start])
    other = [e for e in selfmuts(rv) if e not in clears]
    c.ob(pid + ".revert-only", rv, "revert_cache touches only the cache", not other, "", str(other[:2]))
    # commit
    cm = c.an(impl(c, SA, "commit"), stop=[S_MP])
    ins_ = [e for e in cm.calls_to(r"MPTTrie(<.*>)?::insert$") if _kv_of(e, stash)]
    done, bad = forall(cm, lambda s: s is stash, ins_)
    tc = cm.calls_to(r"MPTTrie(<.*>)?::commit$")
    c.floor(pid + ".commit", cm, "trie commit", len(tc), 1)
    c.nopath(pid + ".commit-all", cm, "every stashed pair is in the trie before it commits",
             unfinished(cm, done, [cm.start], tc) if done else [cm.start], "a stashed pair can miss the trie")
    c.nopath(pid + ".commit-root", cm, "commit succeeds only after the trie commit", cm.before(tc, cm.ok_exits()))
    terms = {mk("ok", e.term) for e in tc}
    for e in cm.ok_exits():
        vals = {x for a in cm.alts(e.val) for x in cm.alts(field(a, "0") if a.op == "agg" else mk("ok", a))}
        c.ob(pid + ".commit-root", cm, "commit returns the new trie root", vals <= terms, rel(e.span), sig(e.val, cm)[:200])
    allowed = set(e.id for e in ins_ + tc) | {e.id for e in emptied(cm, stash)}
    other = [e for e in selfmuts(cm) if e.id not in allowed]
    c.ob(pid + ".commit-only", cm, "commit writes nothing but stashed pairs", not other, "", str(other[:2]))
    wrong = [e for e in cm.calls_to(r"MPTTrie(<.*>)?::insert$") if e not in ins_]
    c.ob(pid + ".commit-pairs", cm, "commit stores each pair under its own key", not wrong, "", str(wrong[:2]))
    return cache, stash


def _enc(an, t, x):
    """t is the encoding of x"""
    return all(a.op == "ok" and is_call(a.a[0], r"encode_fixed$") and a.a[0].a[2] and a.a[0].a[2][0] is x for a in an.alts(t))


def _kv_of(e, coll):
    """the event inserts an element (key and value) of coll"""
    xs = e.args[1:]
    if len(xs) == 1:
        x = xs[0]
        if x.op == "agg" and x.a[0] == "tuple" and len(x.a[1]) == 2:
            xs = [field(x, "0"), field(x, "1")]
        else:
            return x.op == "elem" and iter_sources(x.a[0]) is coll
    k, v = xs[0], xs[1]
    return all(t.op == "fld" and t.a[1] == n and t.a[0].op == "elem" and iter_sources(t.a[0].a[0]) is coll
               for t, n in ((k, "0"), (v, "1"))) and k.a[0] is v.a[0]


PUREM = re.compile(r"::(get|contains|contains_key|len|is_empty|iter|keys|values|as_slice|as_ref|clone|root|borrow|first|last|"
                   r"to_vec|get_ref|deref|as_bytes|with_capacity|new|is_some|is_none)$")


def selfmuts(an):
    """events that may change something reachable from self"""
    out = []
    for e in an.events:
        if e.kind == "write" and e.term is not None and root_of(e.term) is SELF:
            out.append(e)
        elif e.kind == "call" and e.args and root_of(e.args[0]) is SELF and e.args[0] is not SELF and not PUREM.search(e.q) \
                and e.callee is not None and not re.search(r"::(encode_fixed|as_bytes)$", e.q):
            if e.args[0].op == "elem" or "elem(" in sig(e.args[0]):
                continue
            out.append(e)
        elif e.kind == "call" and e.q == "push" and root_of(e.args[0]) is SELF:
            out.append(e)
    return out


def emptied(an, coll):
    out = []
    for e in an.events:
        if e.kind == "call" and re.search(r"::(clear|drain)$", e.q) and e.args and e.args[0] is coll:
            out.append(e)
        elif e.kind == "write" and e.term is coll and e.val is not None and e.val.op == "new" and not an.pushes.get(e.val):
            out.append(e)
    return out


# ------------------------------------------------------------------------ E02

def amounts(an, c):
    """balance updates: (event, target term, kind, amount, container)"""
    out = []
    bal = lambda t: slot_key(t) is not None or path_of(t)[1][-1:] == ["balance"] or "assets" in path_of(t)[1]
    for e in an.events:
        if e.kind == "write" and e.val is not None and e.term is not None:
            if e.q == "insert":
                out.append((e, e.term, "fill", e.val))
            elif not bal(e.term):
                continue
            elif e.val.op == "bin" and e.val.a[0] in ("Add", "Sub"):
                out.append((e, e.term, e.val.a[0], e.val))
            elif path_of(e.term)[1][-1:] == ["balance"] or e.term.op in ("slot", "ok"):
                out.append((e, e.term, "set", e.val))
        elif e.kind == "call" and e.q.endswith("BTreeMap::insert") and len(e.args) == 3 and (
                "assets" in sig(e.args[0]) or any(is_assets_of(an, x.args[2], e.args[0]) for x in adapter_calls(an, "insert_cache"))):
            out.append((e, mk("slotof", e.args[0], e.args[1]), "fill", e.args[2]))
    return out


def is_assets_of(an, acc, m):
    """m is the asset table of the account value acc"""
    return any(y.op == "agg" and field(y, "assets") is m for x in an.alts(acc) for y in an.subterms(x))


def slot_key(t):
    """(container, key) of the map slot a place term lives in"""
    while t.op in ("fld", "ok", "pay"):
        t = t.a[0]
    if t.op == "slot":
        t = t.a[0]
    if t.op == "call" and re.search(r"::(get_mut|entry|get|index_mut)$", t.a[0]) and len(t.a[2]) == 2:
        return t.a[2][0], t.a[2][1]
    if t.op == "slotof":
        return t.a[0], t.a[1]
    return None


def owner_of(an, cont, inserts):
    """addresses whose stored account contains the container"""
    out = set()
    base = cont
    for a in an.alts(base):
        for y in an.subterms(a):
            if is_call(y, r"ContractStateAdapter::get$"):
                out.add(y.a[2][1])
    for e in inserts:
        if an.has(e.args[2], lambda y: y is cont):
            out.add(e.args[1])
    return out


def movement(c, rule, an, addr, asset, amount, want):
    """every balance update in an is a `want` of amount for (addr, asset), guarded and persisted"""
    inserts = adapter_calls(an, "insert_cache")
    ups = amounts(an, c)
    mine = []
    for e, target, kind, val in ups:
        sk = slot_key(target)
        if sk is None or e.q == "insert" and is_zero(val):
            if kind == "fill" or kind == "set":
                continue
            c.ob(rule + ".place", an, "update of %s" % sig(target)[:120], False, rel(e.span), "not a slot of an asset table")
            continue
        own = owner_of(an, sk[0], inserts)
        if len(own) == 1 and own == {addr} and sk[1] is asset:
            mine.append((e, target, kind, val))
    return ups, mine, inserts


def check_debit(c, rule, an, e, target, kind, val, amount):
    ok = kind == "Sub" and val.a[1] is target and val.a[2] is amount
    if not ok:
        # new = balance.checked_sub(amount)
        ok = any(is_call(y, r"checked_sub$") and len(y.a[2]) == 2 and y.a[2][1] is amount for y in an.subterms(val))
        c.ob(rule + ".debit", an, "debit writes balance - amount", ok, rel(e.span), sig(val, an)[:200])
        return
    c.ob(rule + ".debit", an, "debit writes balance - amount", True, rel(e.span))

    enough = ge_known(target, amount)
    c.nopath(rule + ".sufficient", an, "debit only when the balance covers it", an.guarded([e], enough),
             "the balance can go below zero or wrap")


def is_zero(v):
    if v is None:
        return False
    if v.op == "agg" and field(v, "balance") is not None:
        v = field(v, "balance")
    return v.op == "int" and v.a[0] == 0 or v.op == "default" or is_call(v, r"(zero|default)$")


def check_credit(c, rule, an, e, target, kind, val, amount):
    if kind == "Add":
        ok = all(y.op == "bin" and y.a[0] == "Add" and amount in y.a[1:] and (target in y.a[1:] or any(is_zero(z) for z in y.a[1:]))
                 or y is amount for y in variants(an, val))
        ok = ok and an.has(val, lambda y: y is target or y is root_of(target))
        c.ob(rule + ".credit", an, "credit writes balance + amount", ok, rel(e.span), sig(val, an)[:200])
    elif kind == "fill":
        v = val
        if v.op == "agg":
            v = field(v, "balance")
        ok = v is amount
        if not ok and v is not None:
            # or_default then +=
            ok = v.op in ("default", "new") or (v.op == "int" and v.a[0] == 0) or is_call(v, r"(zero|default|from)$")
        c.ob(rule + ".credit", an, "first credit stores exactly the amount", ok, rel(e.span), sig(val, an)[:200])
        if target.op == "slotof":
            def absent(t, w):
                return t.op == "call" and re.search(r"::(get|get_mut)$", t.a[0]) and t.a[2][0] is target.a[0] and \
                    w == frozenset(["None"]) or (t.op == "call" and t.a[0].endswith("contains_key") and w is False)
            full = v is not None and v.op == "bin" and v.a[0] == "Add"
            if not full:
                c.nopath(rule + ".credit-fresh", an, "a fresh balance never replaces an existing one", an.guarded([e], absent))
    else:
        c.ob(rule + ".credit", an, "credit writes balance + amount", False, rel(e.span), sig(val, an)[:200])


def e02(c):
    AD = [S_AD]
    for m, want in (("sub_balance", "debit"), ("add_balance", "credit")):
        b = impl(c, AC, m)
        an = c.an(b, stop=AD)
        asset, addr, amount = argn(b, 2), argn(b, 3), argn(b, 4)
        one_side(c, "E02." + want, an, addr, asset, amount, want)
    # transfer
    b = impl(c, AC, "transfer")
    an = c.an(b, stop=AD)
    ictx, to = argn(b, 2), argn(b, 3)
    ca = mk("ok", fld(ictx, "carrying_asset"))
    asset, amount, caller = fld(ca, "asset_id"), fld(ca, "amount"), fld(ictx, "caller")
    ups, deb, inserts = movement(c, "E02.transfer", an, caller, asset, amount, "debit")
    _, cre, _ = movement(c, "E02.transfer", an, to, asset, amount, "credit")
    ids = {x[0].id for x in deb} | {x[0].id for x in cre}
    c.floor("E02.transfer", an, "debit of the sender", len(deb), 1)
    c.floor("E02.transfer", an, "credit of the receiver", len(cre), 1)
    for e, target, kind, val in ups:
        if (slot_key(target) is None or e.q == "insert" and is_zero(val)) and kind in ("set", "fill"):
            continue
        c.ob("E02.only", an, "balance update %s" % sig(target, an)[:150], e.id in ids, rel(e.span),
             "a transfer changes a balance that is neither the sender's nor the receiver's for the carried asset")
    for x in deb:
        check_debit(c, "E02.transfer", an, *x, amount)
    for x in cre:
        check_credit(c, "E02.transfer", an, *x, amount)
    oks = an.ok_exits()
    de = [x[0] for x in deb]
    ce = [x[0] for x in cre]
    pf = [e for e in inserts if e.args[1] is caller]
    pt = [e for e in inserts if e.args[1] is to]
    rt = [e for e in adapter_calls(an, "get") if e.args[1] is to]
    c.nopath("E02.order", an, "a successful transfer debits the sender", an.before(de, oks))
    c.nopath("E02.order", an, "a successful transfer credits the receiver", an.before(ce, oks))
    c.nopath("E02.order", an, "the debit is stored before success", an.reach(de, oks, avoid=pf))
    c.nopath("E02.order", an, "the credit is stored before success", an.reach(ce, oks, avoid=pt))
    c.nopath("E02.alias", an, "the debited sender is stored before the receiver is read",
             an.reach(de, rt, avoid=pf) or an.reach([an.start], rt, avoid=pf),
             "sender and receiver may be the same account: one of the two updates is lost")
    c.nopath("E02.once", an, "one debit per transfer", an.reach(de, de))
    c.nopath("E02.once", an, "one credit per transfer", an.reach(ce, [e for e in ce if not _fillpair(an, e, ce)]))
    # what the executor hands to the contract comes from the transaction
    ex = exec_an(c)
    nx = tx_nexts(ex)
    for e in [x for x in mutators(ex) if x.q.endswith("::transfer")]:
        el = None
        for y in ex.subterms(e.args[1]):
            if y.op == "elem" and iter_sources(y.a[0]) is argn(ex.root, 2):
                el = y
        ctx = e.args[1]
        act = fld(el, "raw", "action") if el is not None else None
        V = "protocol::types::transaction::TransactionAction::Transfer"
        wc = core.SOME
        got = field(ctx, "carrying_asset")
        want = mk("pay", act, V, "carrying_asset") if act is not None else None
        ok = got is not None and {_payload(x) for x in ex.alts(got)} == {want}
        c.ob("E02.from-tx", ex, "the transferred asset is the transaction's", ok, rel(e.span), sig(got, ex)[:200] if got is not None else "")
        to_ok = all(x.op == "agg" and x.a[0].endswith("Address::User") and field(x, "0") is mk("pay", act, V, "receiver")
                    for x in ex.alts(e.args[2]))
        c.ob("E02.from-tx", ex, "the receiver is the transaction's", to_ok, rel(e.span), sig(e.args[2], ex)[:200])
        cal = field(ctx, "caller")
        ok = cal is not None and all(x.op == "agg" and x.a[0].endswith("Address::User") and
                                     is_call(_un(field(x, "0")), r"UserAddress::from_pubkey_bytes$") and
                                     _un(field(x, "0")).a[2][0] is fld(el, "pubkey") for x in ex.alts(cal))
        c.ob("E02.from-tx", ex, "the sender is the key that signed the transaction", ok, rel(e.span), sig(cal, ex)[:200])
        ga = [g for g in ex.calls_to(r"BankContract::get_asset$") if
              all(_payload(x) is want for x in ex.alts(field(g.args[1], "carrying_asset"))) and g.args[2] is fld(want, "asset_id")]
        terms = {g.term for g in ga}
        c.nopath("E02.asset-exists", ex, "a transfer runs only for a registered asset",
                 ex.guarded_after(nx, [e], lambda t, v: t in terms and v == frozenset(["Ok"])) if ga else [ex.start])
    c.floor("E02.from-tx", ex, "transfer of a transaction", len([x for x in mutators(ex) if x.q.endswith("::transfer")]), 1)
    for e in pf + pt:
        absent_first(c, "E02.transfer", an, e, e.args[1])
    # no other balance writers
    fee_debit(c)
    # the balances read are those last written
    layers(c, "E02")


def _fillpair(an, e, ce):
    return e.q == "insert"


def _un(t):
    while t is not None and t.op == "ok":
        t = t.a[0]
    return t


def _payload(t):
    if t.op == "agg" and t.a[0] == SOME:
        return field(t, "0")
    return t


def fee_debit(c):
    """fees credited to the coinbase are taken from somebody"""
    ex = exec_an(c)
    rew = [e for e in mutators(ex) if e.q.endswith("::add_balance")]
    subs = [e for e in mutators(ex) if e.q.endswith("::sub_balance")]
    for e in rew[:1]:
        p = ex.before(subs, [e]) if subs else [ex.start, e.id]
        c.nopath("E02.fees-conserved", ex, "coinbase reward", p, "fees are credited to the coinbase but debited from nobody")


def one_side(c, rule, an, addr, asset, amount, want):
    ups, mine, inserts = movement(c, rule, an, addr, asset, amount, want)
    c.floor(rule, an, "balance update of the account", len(mine), 2)
    ids = {x[0].id for x in mine}
    for e, target, kind, val in ups:
        if (slot_key(target) is None or e.q == "insert" and is_zero(val)) and kind in ("set", "fill"):
            continue
        c.ob(rule + ".only", an, "update %s" % sig(target, an)[:150], e.id in ids, rel(e.span),
             "changes a balance other than the one named by the caller")
    for x in mine:
        (check_debit if want == "debit" else check_credit)(c, rule, an, *x, amount)
    evs = [x[0] for x in mine]
    ps = [e for e in inserts if e.args[1] is addr]
    c.nopath(rule + ".effective", an, "success implies the %s happened" % want, an.before(evs, an.ok_exits()))
    c.nopath(rule + ".stored", an, "success implies the %s is stored" % want, an.reach(evs, an.ok_exits(), avoid=ps))
    bad = [e for e in inserts if e.args[1] is not addr]
    c.ob(rule + ".stored", an, "no other account is stored", not bad, "", str(bad[:1]))
    for e in ps:
        # the stored account is the account that was read, with only its asset table changed
        for x in an.alts(e.args[2]):
            ok = same_account(an, x, addr)
            c.ob(rule + ".rest", an, "the stored account keeps every other field", ok, rel(e.span), sig(x, an)[:200])
        absent_first(c, rule + ".rest", an, e, addr)


def same_account(an, x, addr, nonce=None):
    """x is an Account built from what the state holds for addr (or a fresh empty one), apart from nonce / assets"""
    if x.op != "agg" or not re.search(r"Account::(User|Contract)$", x.a[0]):
        # the value read from the state itself
        r = root_of(x)
        return is_call(r, r"ContractStateAdapter::get$") and r.a[2][1] is addr
    var = x.a[0].rsplit("::", 1)[-1]
    inner = field(x, "0")
    for y in an.alts(inner):
        r = root_of(y)
        if is_call(r, r"ContractStateAdapter::get$"):
            if r.a[2][1] is not addr or not ("@%s." % var in sig(y)):
                return False
            continue
        if y.op != "agg":
            return False
        for f, v in y.a[1]:
            for w in an.alts(v):
                if f == "nonce" and nonce is not None:
                    continue
                if not fresh_or_read(an, w, f, addr, var):
                    return False
        if y.a[2] is not None:
            r = root_of(y.a[2])
            if not is_call(r, r"ContractStateAdapter::get$"):
                return False
    return True


def fresh_or_read(an, w, f, addr, var):
    if w.op == "fld" and w.a[1] == f:
        r = root_of(w)
        return is_call(r, r"ContractStateAdapter::get$") and r.a[2][1] is addr and ("@%s." % var) in sig(w)
    if f == "nonce":
        return w.op == "int" and w.a[0] == 0
    if f == "assets":
        return w.op == "new" and not [p for p in an.pushes.get(w, ()) if p.op == "int"]
    if f == "storage_root":
        return is_call(w, r"Hash::(from_empty|default)$")
    if f == "approved":
        return w.op in ("new", "default")
    return False


def absent_first(c, rule, an, e, addr):
    """a fresh account is stored for addr only where the state holds none"""
    gets = {y.term for y in adapter_calls(an, "get") if y.args[1] is addr}

    def none(n, m, conds):
        return not any(v == frozenset(["None"]) and _un(t) in gets for t, v in conds)

    def table(t):
        """fresh: the asset table of this account value is a new one (not seen through a phi)"""
        if t.op == "agg":
            a = field(t, "assets")
            if a is not None:
                return a.op in ("new", "default")
            return any(table(v) for _, v in t.a[1] if isinstance(v, core.T)) if re.search(r"Account", t.a[0]) else False
        return t.op in ("new", "default") and not re.search(r"box", str(t.a[0]))
    done = set()

    def go(t, d=0):
        if t in done or d > 8:
            return
        done.add(t)
        if t.op == "phi":
            for a in an.alts(t):
                if table(a):
                    c.nopath(rule, an, "an account that exists is not replaced by a fresh one", an.chosen(t, a, [an.start], [e], edge_ok=none),
                             "the account's balances and nonce are forgotten", rel(e.span))
                go(a, d + 1)
        elif t.op == "agg":
            for _, v in t.a[1]:
                if isinstance(v, core.T):
                    go(v, d + 1)
    v = e.args[2]
    if table(v):
        c.nopath(rule, an, "an account that exists is not replaced by a fresh one", an.reach([an.start], [e], edge_ok=none),
                 "the account's balances and nonce are forgotten", rel(e.span))
    go(v)


# ------------------------------------------------------------------------ E03

def e03(c):
    b = impl(c, BC, "register")
    an = c.an(b, stop=[S_AD])
    ictx, addr, name, sym, sup = [argn(b, i) for i in range(2, 7)]
    ins = adapter_calls(an, "insert_cache")
    con = adapter_calls(an, "contains") + adapter_calls(an, "get")
    oks = an.ok_exits()
    c.floor("E03.store", an, "asset insertion", len(ins), 1)
    c.nopath("E03.store", an, "success implies the asset is stored", an.before(ins, oks))
    for e in ins:
        key, val = e.args[1], e.args[2]
        dig = [x for x in an.alts(key)]
        ok = all(is_call(x, r"Hash::digest$") for x in dig)
        parts = []
        for x in dig:
            for y in an.subterms(x, pushes=True):
                if is_call(y, r"(Hash|ContractAddress)::as_bytes$"):
                    parts.append(y.a[2][0])
        c.ob("E03.id", an, "asset id is the digest of chain id and contract address",
             ok and set(parts) == {fld(SELF, "chain_id"), addr}, rel(e.span), sig(key, an)[:200])
        terms = {x.term for x in con if x.args[1] is key}

        def absent(t, v):
            u = t.a[0] if t.op == "ok" else t
            return u in terms and (v is False or v == frozenset(["None"])) and t.op == "ok"
        c.nopath("E03.unique", an, "an id is registered only if it is not yet taken", an.guarded([e], absent),
                 "registration can overwrite an existing asset")

        def is_asset(t, v):
            return t.op == "bin" and t.a[0] == "Eq" and v is True and any(is_call(x, r"contract_type$") or
                   x.op == "fld" and x.a[1] == "contract_type" for x in t.a[1:]) and \
                any(x.op == "agg" and x.a[0].endswith("ContractType::Asset") for x in t.a[1:]) or \
                (is_call(t, r"contract_type$") or t.op == "fld" and t.a[1] == "contract_type") and v == frozenset(["Asset"])
        c.nopath("E03.kind", an, "only an asset contract can manage an asset", an.guarded([e], is_asset))
        want = {"id": key, "name": name, "symbol": sym, "supply": sup, "manage_contract": addr}
        for x in an.alts(val):
            for f, w in want.items():
                c.ob("E03.content", an, "stored asset.%s" % f, x.op == "agg" and field(x, f) is w, rel(e.span), sig(val, an)[:200])
        for o in oks:
            for x in an.alts(o.val):
                c.ob("E03.result", an, "register returns the stored asset", x.op == "agg" and field(x, "0") is val, rel(o.span))
    # only register writes assets
    writers = {bb.q for bb in c.db.bodies.values() if bb.crate == CR for cal, _ in callees(bb)
               if cal.get("def", "").endswith("ContractStateAdapter::insert_cache") and
               any("FixedAssetSchema" in a for a in cal.get("args", []))}
    c.floor("E03.writers", an, "function writing assets", len(writers), 1)
    for w in sorted(writers):
        c.ob("E03.writers", w, "assets are written by registration only", w in an.inlined, "", "")
    # the existence check sees everything written before
    layers(c, "E03")
    # get_asset
    b = impl(c, BC, "get_asset")
    ga = c.an(b, stop=[S_AD])
    idp = argn(b, 3)
    for o in ga.ok_exits():
        for x in ga.alts(o.val):
            v = field(x, "0") if x.op == "agg" else mk("ok", x)
            r = _un(v)
            c.ob("E03.get", ga, "get_asset returns the asset stored under the id",
                 is_call(r, r"ContractStateAdapter::get$") and r.a[2][1] is idp, rel(o.span), sig(v, ga)[:160])
    # deploy
    ex = exec_an(c)
    regs = [e for e in mutators(ex) if e.q.endswith("::register")]
    c.floor("E03.deploy", ex, "registration by a deploy transaction", len(regs), 1)
    for e in regs:
        a = _un(e.args[2])
        el = next((y for y in ex.subterms(a) if y.op == "elem" and iter_sources(y.a[0]) is argn(ex.root, 2)), None)
        ok = is_call(a, r"ContractAddress::from_code$") and el is not None and \
            a.a[2][0] is mk("pay", fld(el, "raw", "action"), "protocol::types::transaction::TransactionAction::Deploy", "code")
        c.ob("E03.deploy", ex, "the contract address is derived from the deployed code", ok, rel(e.span), sig(a, ex)[:200])
        n = _un(a.a[2][1]) if ok else None
        ok2 = n is not None and is_call(n, r"AccountContract::get_nonce$") and n.a[2][1] is field(e.args[1], "caller")
        c.ob("E03.deploy", ex, "the contract address depends on the sender's nonce", ok2, rel(e.span), sig(a, ex)[:200])
    for e, r in receipt_pushes(ex):
        for x in ex.alts(field(r, "result")):
            if x.op == "agg" and x.a[0].endswith("ReceiptResult::Deploy"):
                ok = any(field(x, "contract") is g.args[2] for g in regs)
                c.ob("E03.receipt", ex, "the deploy receipt names the registered contract", ok, rel(e.span), sig(x, ex)[:200])


# ------------------------------------------------------------------------ E04

def cycles_table(c, t, db):
    """(actions -> cost) of a lazily built table term"""
    name = t.a[0]
    ini = [b for b in db.bodies.values() if b.q.startswith("<" + name + " as ") and b.q.endswith("__static_ref_initialize")]
    if not ini:
        ini = [b for b in db.bodies.values() if name in b.q and "__static_ref_initialize" in b.q and b.kind == "fn"]
    if len(ini) != 1:
        raise Anchor("initialiser of %s" % name)
    a = c.an(ini[0])
    out = {}
    for e in a.exits():
        for x in a.alts(e.val):
            for p in {z for y in a.pushes.get(x, ()) for z in expand(a, y)}:
                if p.op == "agg" and p.a[0] == "tuple":
                    k, v = field(p, "0"), field(p, "1")
                    out.setdefault(k.a[0].rsplit("::", 1)[-1] if k.op == "agg" else sig(k), set()).add(v)
    return out


def e04(c):
    for tr, m in ((AC, "transfer"), (BC, "register")):
        b = impl(c, tr, m)
        an = c.an(b, stop=[S_AD])
        ictx = argn(b, 2)
        used, limit = fld(ictx, "cycles_used"), fld(ictx, "cycles_limit")
        ws = an.writes(lambda e: e.term is used)
        oks = an.ok_exits()
        c.floor("E04.charge", an, "cycle charge", len(ws), 1)
        c.nopath("E04.charge", an, "success implies cycles were charged", an.before(ws, oks))
        c.nopath("E04.charge-once", an, "cycles are charged once", an.reach(ws, ws))
        for w in ws:
            for v in an.alts(w.val):
                v0 = v
                while v.op == "ok":
                    v = v.a[0]
                parts = list(v.a[1:]) if v.op == "bin" and v.a[0] == "Add" else \
                    (list(v.a[2]) if is_call(v, r"checked_add$") else [])
                cost = [x for x in parts if x is not used]
                ok = used in parts and len(cost) == 1
                c.ob("E04.amount", an, "charge adds the cost of the action to what was used", ok, rel(w.span), sig(v, an)[:160])
                if not ok:
                    continue
                for k in an.alts(cost[0]):
                    kk = _un(k)
                    if kk.op == "int":
                        c.ob("E04.cost", an, "cost is positive", kk.a[0] > 0, rel(w.span), sig(k))
                        continue
                    tb = next((x for x in an.subterms(k) if x.op == "lazy"), None)
                    act = next((x for x in an.subterms(k) if x.op == "agg" and x.a[0].startswith("core_executor::")), None)
                    ok = tb is not None and act is not None and is_call(kk, r"::(get|index)$")
                    c.ob("E04.cost", an, "cost comes from the cost table", ok, rel(w.span), sig(k, an)[:160])
                    if ok:
                        tab = cycles_table(c, tb, c.db)
                        en = act.a[0].rsplit("::", 1)[0]
                        for vn in c.db.enums.get(en, {}).values():
                            vals = tab.get(vn, set())
                            c.ob("E04.table", tb.a[0], "cost of %s" % vn, len(vals) == 1 and all(
                                x.op == "int" and x.a[0] > 0 for x in vals), "", str([sig(x) for x in vals]))
                        want = {"transfer": "Transfer", "register": "Register"}[m]
                        c.ob("E04.action", an, "%s is charged as its own action" % m, want in act.a[0].rsplit("::", 1)[-1],
                             rel(w.span), sig(act))

                k1, k2 = ge_known(limit, v), ge_known(limit, v0)

                def within(t, val, k1=k1, k2=k2):
                    return k1(t, val) or k2(t, val)
                c.nopath("E04.limit", an, "charge only within the limit", an.guarded([w], within),
                         "a transaction can use more cycles than its limit")
    # context and receipt
    ex = exec_full(c)
    el_ok = lambda t: t.op == "elem" and iter_sources(t.a[0]) is argn(ex.root, 2)
    price = fld(SELF, "cycles_price")
    n = 0
    for e, r in receipt_pushes(ex):
        n += 1
        fee = field(r, "cycles_used")
        asset, cyc = field(fee, "asset_id"), field(fee, "cycle")
        ok = asset is not None and all(x.op == "fld" and _path(x) == ["raw", "fee", "asset_id"] and el_ok(root3(x)) for x in ex.alts(asset))
        c.ob("E04.receipt", ex, "the fee is in the asset the transaction names", ok, rel(e.span), sig(asset, ex)[:160])
        failed = result_kinds(ex, r) == {"Fail"}
        for x in ex.alts(cyc):
            ok = x.op == "bin" and x.a[0] == "Mul" and price in x.a[1:]
            u = [y for y in x.a[1:] if y is not price] if ok else []
            if ok and len(u) == 1:
                for y in ex.alts(u[0]):
                    charged = ex.has(y, lambda z: z.op == "lazy") or (y.op == "int" and y.a[0] > 0)
                    c.ob("E04.receipt", ex, "the receipt charges the cycles used (%s)" % ("failed" if failed else "ok"),
                         charged or (failed or "Fail" in result_kinds(ex, r)) and y.op == "int", rel(e.span), sig(y, ex)[:160])
            else:
                c.ob("E04.receipt", ex, "the receipt fee is cycles used times price", False, rel(e.span), sig(x, ex)[:200])
    c.floor("E04.receipt", ex, "receipt", n, 2)
    an = exec_an(c)
    for e in an.calls_to(S_CT + r"(transfer|register)$"):
        ctx = e.args[1]
        for f, want in (("cycles_limit", ["raw", "fee", "cycle"]), ("fee_asset_id", ["raw", "fee", "asset_id"])):
            v = field(ctx, f)
            ok = v is not None and all(x.op == "fld" and _path(x) == want for x in an.alts(v))
            c.ob("E04.context", an, "invoke context %s is the transaction's" % f, ok, rel(e.span), sig(v, an)[:120])
        v = field(ctx, "cycles_used")
        c.ob("E04.context", an, "a transaction starts with no cycles used", v is not None and v.op == "int" and v.a[0] == 0, rel(e.span))
        c.ob("E04.context", an, "invoke context price is the executor's", field(ctx, "cycles_price") is price, rel(e.span))
    aggregate(c, an)


def root3(t):
    while t.op == "fld":
        t = t.a[0]
    return t


def _path(t):
    p = []
    while t.op == "fld":
        p.append(t.a[1])
        t = t.a[0]
    return list(reversed(p))


def aggregate(c, an):
    """all_cycles_used is the per-asset sum over the receipts of the block"""
    outs = []
    for o in an.ok_exits():
        for x in an.alts(o.val):
            r = field(x, "0") if x.op == "agg" else None
            if r is not None:
                for y in an.alts(r):
                    outs.append((o, y))
    c.floor("E04.total", an, "successful result", len(outs), 1)
    for o, r in outs:
        tot, rcs = field(r, "all_cycles_used"), field(r, "receipts")
        adds = [e for e in an.events if e.kind == "call" and re.search(r"(^|::)push$", e.q) and e.args[0] is tot]
        incs = an.writes(lambda e: e.term.op == "fld" and e.term.a[1] == "cycle" and e.term.a[0].op == "elem" and
                         e.term.a[0].a[0] is tot)
        done, bad = forall(an, lambda s: s is rcs, adds + incs)
        c.nopath("E04.total", an, "every receipt's fee is in the total", unfinished(an, done, [an.start], [o]) if done else [an.start],
                 "a receipt can be left out of the block's fee total")
        lost = [e for y in an.alts(tot) if y.op == "new" for e in tampered(an, y, adds + incs)]
        c.ob("E04.total", an, "totals are kept once computed", not lost, rel(lost[0].span) if lost else "", ", ".join(short(e.q) for e in lost))
        el = lambda t: t.op == "fld" and t.a[1] in ("cycle", "asset_id") and t.a[0].op == "fld" and t.a[0].a[1] == "cycles_used" \
            and t.a[0].a[0].op == "elem" and iter_sources(t.a[0].a[0].a[0]) is rcs
        for e in adds:
            x = e.args[1]
            cyc, aid = field(x, "cycle"), field(x, "asset_id")
            ok = x is not None and (el(cyc) and cyc.a[1] == "cycle" and el(aid) and aid.a[1] == "asset_id" or
                                    x.op == "fld" and x.a[1] == "cycles_used")
            c.ob("E04.total-new", an, "a new total starts with the receipt's fee", ok, rel(e.span), sig(x, an)[:160])
        for e in incs:
            v = e.val
            ok = v.op == "bin" and v.a[0] == "Add" and e.term in v.a[1:] and any(el(y) and y.a[1] == "cycle" for y in v.a[1:])
            c.ob("E04.total-add", an, "an existing total grows by the receipt's fee", ok, rel(e.span), sig(v, an)[:160])

            def same(t, w):
                return w is True and t.op == "bin" and t.a[0] == "Eq" and any(el(y) and y.a[1] == "asset_id" for y in t.a[1:]) and \
                    any(y.op == "fld" and y.a[1] == "asset_id" and y.a[0] is e.term.a[0] for y in t.a[1:])
            nxs = [m for m in an.events if m.kind == "next" and iter_sources(m.args[0]) is rcs]
            c.nopath("E04.total-asset", an, "fees are added up per asset", an.guarded_after(nxs, [e], same))
        c.nopath("E04.total-once", an, "a fee is counted once", an.reach(adds + incs, adds + incs, avoid=[m for m in an.events if
                 m.kind == "next" and iter_sources(m.args[0]) is rcs]))
        # a fresh entry only when no entry of that asset exists: the search ran to its end
        inner = [m for m in an.events if m.kind == "next" and iter_sources(m.args[0]) is tot]
        nterms = {m.term for m in inner}
        outer = [m for m in an.events if m.kind == "next" and iter_sources(m.args[0]) is rcs]
        c.nopath("E04.total-new", an, "a new total only for an asset without one",
                 an.guarded_after(outer, adds, lambda t, v: t in nterms and v == frozenset(["None"])))


# ------------------------------------------------------------------------ E05

NONDET = re.compile(
    r"^(std::time::|std::env::|std::fs::|std::net::|std::thread::|std::process::|rand|rand_core|getrandom|chrono|uuid|"
    r"std::collections::hash::map::RandomState|core::hash::Hasher::finish|core::hash::BuildHasher|tokio|futures_timer|"
    r"core::any::TypeId|core::ptr::.*addr|std::io::stdin|num_cpus|hostname)")
HASHITER = re.compile(r"collections::hash::(map::HashMap|set::HashSet)::(iter|iter_mut|drain|keys|values|values_mut|retain|into_iter)$")


def reach_bodies(c, roots):
    """bodies reachable in the MIR call graph (class hierarchy for trait calls), own crates"""
    db = c.db
    seen, todo = set(), list(roots)
    while todo:
        q = todo.pop()
        if q in seen or q not in db.bodies:
            continue
        seen.add(q)
        b = db.bodies[q]
        for cal in callees(b):
            for x in targets(db, cal):
                todo.append(x)
        for k in db.bodies:
            if k.startswith(q + "::{{"):
                todo.append(k)
    return seen


def callees(b):
    for blk in b.blocks:
        t = blk["t"]
        if t[0] == "call" and t[1][0] == "fn":
            yield t[1][1], blk["l"]


def targets(db, cal):
    cal = cal[0] if isinstance(cal, tuple) else cal
    out = []
    q = cal.get("def", "")
    if cal.get("inst") in db.bodies:
        return [cal["inst"]]
    if q in db.bodies:
        out.append(q)
    tr = cal.get("trait")
    if tr:
        out += [x[1] for x in db.impl_items.get((tr, cal.get("name") or q.rsplit("::", 1)[-1]), ())]
    return out


def e05(c):
    roots = [impl(c, EX, "exec").q, impl(c, EX, "create_genesis").q, impl(c, EF, "from_root").q]
    bodies = reach_bodies(c, roots)
    bodies = {q for q in bodies if not q.startswith("mirmodel")}
    c.functions |= bodies
    c.floor("E05.scope", roots[0], "function reachable from execution", len(bodies), 60)
    for q in sorted(bodies):
        b = c.db.bodies[q]
        bad = []
        for cal, l in callees(b):
            d = cal.get("def", "")
            if NONDET.search(d):
                bad.append((d, l))
        if b.crate in (CR,) or bad:
            c.ob("E05.source", q, "no clock, randomness, environment, thread or file input", not bad, rel(bad[0][1]) if bad else "",
                 ", ".join(d for d, _ in bad))
        fl = [t for t, _ in b.locals if t in ("f32", "f64")]
        if fl:
            c.ob("E05.float", q, "no floating point in execution", False, "", "")
    # hash-ordered iteration has no order-dependent effect
    ans = [exec_an(c), genesis_an(c), c.an(impl(c, EF, "from_root"), stop=[S_AD, S_MP])] + \
          [c.an(impl(c, SA, m), stop=[S_MP]) for m in ("stash", "commit", "revert_cache", "insert_cache")]
    ans += [c.an(impl(c, AC, m), stop=[S_AD]) for m in ("transfer", "add_balance", "sub_balance", "inc_nonce")]
    covered = set()
    n = 0
    for an in ans:
        covered |= an.inlined
        for e in an.events:
            if e.kind != "next":
                continue
            src = full_source(e.args[0])
            if not hashed(c, an, src):
                continue
            n += 1
            bad = order_effects(an, e, src)
            c.ob("E05.hash-order", an, "iteration over %s" % sig(src), not bad, rel(e.span),
                 "the result depends on the iteration order of a hash map: %s" % (bad[:2],))
    c.floor("E05.hash-order", roots[0], "hash-ordered iteration examined", n, 3)
    for q in sorted(bodies):
        b = c.db.bodies[q]
        its = [l for cal, l in callees(b) if HASHITER.search(cal.get("def", "")) or
               (cal.get("name") == "into_iter" and "collections::hash::" in cal.get("self", ""))]
        if its and b.crate == CR:
            c.ob("E05.hash-covered", q, "hash-ordered iteration is examined", q in covered, rel(its[0]), "")
    # persisted and returned types carry no hash-ordered collection
    for q, a in c.db.adts.items():
        if re.match(r"protocol::types::(account|asset|receipt|transaction|epoch|genesis|bloom)", q) or q.endswith("ExecutorExecResp"):
            for v in a["variants"]:
                for f in v["fields"]:
                    if "collections::hash" in f[1]:
                        c.ob("E05.persisted", q, "%s.%s" % (v["name"], f[0]), False, "", f[1])


def full_source(t):
    while t.op == "it":
        t = t.a[1]
    return t


def hashed(c, an, t):
    if t.op == "new":
        return "hash" in str(t.a[0]).lower()
    if t.op == "fld":
        tys = {f[1] for q, a in c.db.adts.items() if a.get("q", "").startswith(CR) or q.startswith(CR) or q.startswith("protocol")
               for v in a["variants"] for f in v["fields"] if f[0] == t.a[1]}
        return any("collections::hash" in x for x in tys)
    if t.op == "param":
        for ty, nm in an.root.locals:
            if nm == t.a[0]:
                return "collections::hash" in ty
    return False


def list_uses(an, x, d):
    """uses of the list x that depend on the order of its entries"""
    bad = []
    for e in an.events:
        if e.kind == "next" and full_source(e.args[0]) is x:
            bad += order_effects(an, e, x, d)
        elif e.kind == "return" and an.retshape(e) != "err" and e.val is not None and an.has(e.val, lambda y: y is x, pushes=True):
            bad.append(repr(e))
        elif e.kind == "call" and any(a is x for a in e.args) and not re.search(
                r"(^push|::(push|push_back|len|is_empty|with_capacity|new|reserve|sort|sort_unstable|extend))$", e.q):
            bad.append(repr(e))
        elif e.kind == "call" and any(a is not x and an.has(a, lambda y: y is x) and not an.has(a, lambda y: y.op == "elem" and
                                      full_source(y.a[0]) is x) for a in e.args):
            bad.append(repr(e))
    return bad


def order_effects(an, nx, src, d=0):
    """order-dependent effects inside a loop over a hash-ordered collection"""
    frame = nx.ctx if not nx.term.op == "next" else nx.term.a[1][0]
    while an.ctxs[frame].body.q.startswith("mirmodel::next_") and an.ctxs[frame].parent is not None:
        frame = an.ctxs[frame].parent  # the loop is where the adapted iterator is stepped
    inframe = {}

    def under(cid):
        if cid not in inframe:
            x = cid
            while x is not None and x != frame:
                x = an.ctxs[x].parent
            inframe[cid] = x is not None
        return inframe[cid]
    ctxof = lambda n: an.events[n].ctx if isinstance(n, int) else n[1][0]
    sites = {e.term for e in an.events if e.kind == "next" and e.term.op == "next" and e.term.a[1] == nx.term.a[1]}
    heads = {e.id for e in an.events if e.kind == "next" and e.term in sites}
    some = [m for _, m, _ in an.edges_where(lambda t, v: t in sites and v == frozenset(["Some"]))]
    none = {(n, m) for n, m, _ in an.edges_where(lambda t, v: t in sites and v == frozenset(["None"]))}
    inner = lambda a, b, cnd: (a, b) not in none and under(ctxof(b))
    inside = an.reach_set(some, avoid=heads, edge_ok=inner)
    loop = [i for i in inside if isinstance(i, int) and i not in heads and
            (an.reach([i], heads, edge_ok=inner) is not None or an.events[i].kind == "return")]
    bad = []
    for i in loop:
        e = an.events[i]
        if e.kind == "write":
            if an.has(e.term, lambda y: y.op == "elem" and full_source(y.a[0]) is src):
                continue
            bad.append(repr(e))
        elif e.kind == "call":
            n = e.q.rsplit("::", 1)[-1]
            mine = lambda t: an.has(t, lambda y: y.op == "elem" and full_source(y.a[0]) is src)
            if e.args and mine(e.args[0]):
                continue
            if n in ("insert",) and len(e.args) >= 3 and mine(e.args[1]):
                continue
            if n in ("push", "insert") and len(e.args) == 2 and e.q == "push" and mine(e.args[1]) and keyed(e.args[0]):
                continue
            if n in ("push", "push_back") and e.args[0].op == "new" and d < 3:
                # a local list in hash order: every later use of it must not depend on the order either
                bad += list_uses(an, e.args[0], d + 1)
                continue
            if n in ("push", "push_back", "append", "extend_from_slice", "push_str") or re.search(S_CT, e.q):
                bad.append(repr(e))
        elif e.kind == "return" and an.retshape(e) != "err":
            bad.append(repr(e))
    return bad


def keyed(t):
    return t.op == "fld" and "map" in t.a[1] or (t.op == "new" and "map" in str(t.a[0]).lower())


# ------------------------------------------------------------------------ E06

def e06(c):
    amap = adapter_map(c)
    for an, what in ((exec_an(c), "exec"), (genesis_an(c), "genesis")):
        trie = fld(SELF, "trie")
        ins = []
        for e in an.calls_to(r"MPTTrie(<.*>)?::insert$"):
            k, v = unpack(an, e.args[1], e.args[2])
            ok = e.args[0] is not None and is_call(k, r"Address::as_bytes$") and _key_of(k.a[2][0], amap) and \
                is_call(v, r"Hash::as_bytes$") and is_call(_un(v.a[2][0]), r"ContractStateAdapter::commit$") and \
                _elem_of(_un(v.a[2][0]).a[2][0], amap) and v.a[2][0].op == "ok"
            c.ob("E06.roots", an, "each adapter's new root is stored at its own address", ok, rel(e.span), repr(e)[:240])
            if ok:
                ins.append(e)
        done, bad = forall(an, lambda s: s is amap, ins)
        tc = an.calls_to(r"MPTTrie(<.*>)?::commit$")
        c.floor("E06.commit", an, "commit of the world state trie", len(tc), 1)
        c.nopath("E06.commit-all", an, "every adapter is committed before the world state root is taken",
                 unfinished(an, done, [an.start], tc) if done else [an.start], "an adapter can be left out of the state root")
        c.nopath("E06.commit-once", an, "the state root is final", an.reach(tc, tc))
        late = mutators(an) + adapter_calls(an, "insert_cache") + ins
        c.nopath("E06.final", an, "no state change after the state root is taken", an.reach(tc, late))
        c.nopath("E06.success", an, "success implies the state was committed", an.before(tc, an.ok_exits()))
        roots = {mk("ok", e.term) for e in tc}
        for o in an.ok_exits():
            for x in an.alts(o.val):
                r = field(x, "0") if x.op == "agg" else mk("ok", x)
                for y in an.alts(r):
                    v = field(y, "state_root") if what == "exec" and y.op == "agg" else y
                    c.ob("E06.root", an, "the returned state root is the committed one", v is not None and
                         set(an.alts(v)) <= roots, rel(o.span), sig(v, an)[:160])
                    if what == "exec":
                        rcs = field(y, "receipts")
                        ws = an.writes(lambda e: e.term.op == "fld" and e.term.a[1] == "state_root" and e.term.a[0].op == "elem"
                                       and iter_sources(e.term.a[0].a[0]) is rcs and set(an.alts(e.val)) <= roots)
                        d2, _ = forall(an, lambda s: s is rcs, ws)
                        direct = [r2 for e2, r2 in receipt_pushes(an) if set(an.alts(field(r2, "state_root"))) <= roots]
                        p = unfinished(an, d2, tc, [o]) if d2 else (None if direct else [an.start])
                        c.nopath("E06.receipt-root", an, "every receipt carries the committed state root", p)
        # what was written is in the state that is committed
        st_done, _ = each_adapter(an, amap, "stash")
        rv_done, _ = each_adapter(an, amap, "revert_cache")
        cm = adapter_calls(an, "commit")
        for q in sorted({e.q for e in mutators(an)}):
            evs = [e for e in mutators(an) if e.q == q]
            p = unfinished(an, st_done | rv_done, evs, cm)
            c.nopath("E06.stashed", an, "%s before commit" % q.rsplit("::", 1)[-1], p,
                     "the write is still in the cache when the state is committed: it is lost")
    fr, built = wiring(c, "E06")
    st = argn(fr.root, 2)
    root_dep = [x for x in fr.subterms(field(built, "trie")) if x is st]
    c.ob("E06.open", fr, "the executor opens the state at the given root", bool(root_dep), "", sig(field(built, "trie"), fr)[:160])
    open_state(c, "E06", fr, st)
    # trie wrapper
    for m, rx in (("get", r"::get$"), ("contains", r"::contains$"), ("insert", r"::insert$")):
        b = c.db.body(r"^core_executor::trie::MPTTrie(<.*>)?::%s$" % m)
        an = c.an(b)
        k = argn(b, 2)
        evs = [e for e in an.events if e.kind == "call" and re.search(r"Trie.*" + rx, e.q) and e.args and root_of(e.args[0]) is SELF]
        c.floor("E06.trie", an, "%s of the underlying trie" % m, len(evs), 1)
        for e in evs:
            ok = e.args[1] is k and (m != "insert" or e.args[2] is argn(b, 3))
            c.ob("E06.trie", an, "%s passes its key%s through" % (m, " and value" if m == "insert" else ""), ok, rel(e.span), repr(e)[:200])
        c.nopath("E06.trie", an, "%s succeeds only through the underlying trie" % m, an.before(evs, an.ok_exits()))
        if m != "insert":
            terms = {e.term for e in evs}
            for o in an.ok_exits():
                for x in an.alts(o.val):
                    v = field(x, "0") if x.op == "agg" else mk("ok", x)
                    ok = all(_un(_payload(y)) in terms or (y.op == "agg" and y.a[0] == NONE) for y in an.alts(v))
                    c.ob("E06.trie", an, "%s returns what the trie holds" % m, ok, rel(o.span), sig(v, an)[:160])
    b = c.db.body(r"^core_executor::trie::MPTTrie(<.*>)?::commit$")
    an = c.an(b)
    rt = [e for e in an.events if e.kind == "call" and re.search(r"Trie.*::root$", e.q)]
    c.floor("E06.trie", an, "root of the underlying trie", len(rt), 1)
    for o in an.ok_exits():
        ok = all(any(is_call(z, r"::root$") for z in an.subterms(x)) for x in an.alts(o.val))
        c.ob("E06.trie", an, "commit returns the root of the underlying trie", ok, rel(o.span), sig(o.val, an)[:160])


def open_state(c, pid, fr, st):
    """from_root loads what the root holds; an empty trie only where there is nothing to load"""
    rule = pid + ".open"
    loads = fr.calls_to(r"MPTTrie(<.*>)?::(from|get)$")
    checked(c, rule, fr, loads, what="a trie that cannot be loaded is an error")
    news = {e.term: e for e in fr.calls_to(r"MPTTrie(<.*>)?::new$")}
    empty = lambda t, v: t.op == "bin" and t.a[0] in ("Eq", "Ne") and v is (t.a[0] == "Eq") and st in t.a[1:] and \
        any(is_call(x, r"Hash::(from_empty|default)$") for x in t.a[1:])
    n = 0
    seen = set()
    for o in fr.ok_exits():
        for x in fr.subterms(o.val, pushes=False):
            if x.op != "agg" or field(x, "trie") is None:
                continue
            world = x.a[0].endswith("TransactionExecutor")
            for y in fr.alts(field(x, "trie")):
                if (y, world) in seen:
                    continue
                seen.add((y, world))
                n += 1
                if y in news:
                    if world:
                        p = fr.guarded([news[y]], empty)
                    else:
                        p = fr.guarded([news[y]], lambda t, v: v == frozenset(["None"]) and t.op == "ok" and is_call(t.a[0], r"MPTTrie(<.*>)?::get$"))
                    c.nopath(rule, fr, "an empty %s only where none is stored" % ("state" if world else "contract state"), p,
                             "the committed state is not read back", rel(news[y].span))
                    continue
                f = y.a[0] if y.op == "ok" else None
                r = f.a[2][0] if f is not None and is_call(f, r"MPTTrie(<.*>)?::from$") else None
                if r is not None and not world:
                    h = _un(r)
                    r = _un(_un(h.a[2][0])) if is_call(h, r"Hash::from_bytes$") else None
                    ok = r is not None and is_call(r, r"MPTTrie(<.*>)?::get$")
                else:
                    ok = r is st
                c.ob(rule, fr, "the %s is loaded from its root" % ("state" if world else "contract state"), ok, rel(o.span), sig(y, fr)[:200])
    c.floor(rule, fr, "trie opened", n, 4)


def unpack(an, k, v):
    """key and value of an entry that went through a local list of pairs, replaced by what was put into the list"""
    r = None
    for t in (k, v):
        x = t.a[2][0] if t.op == "call" and len(t.a[2]) == 1 else t
        if x.op == "fld" and x.a[0].op == "elem" and x.a[0].a[0].op == "new":
            ps = an.pushes.get(x.a[0].a[0], ())
            if len(ps) == 1 and (r is None or r[0] is x.a[0]):
                r = (x.a[0], next(iter(ps)))
    if r is None:
        return k, v

    def sub(t):
        if t is r[0]:
            return r[1]
        if t.op == "fld":
            y = field(sub(t.a[0]), t.a[1])
            return y if y is not None else t
        if t.op == "call":
            return mk("call", t.a[0], t.a[1], tuple(sub(z) for z in t.a[2]))
        return t
    return sub(k), sub(v)


def _key_of(t, coll):
    return t.op == "fld" and t.a[1] == "0" and t.a[0].op == "elem" and iter_sources(t.a[0].a[0]) is coll or \
        t.op == "elem" and t.a[0].op == "it" and t.a[0].a[0] == "keys" and t.a[0].a[1] is coll


# ------------------------------------------------------------------------ E07

def e07(c):
    ex = exec_full(c)
    seen = {}
    for e in ex.events:
        if e.kind == "panic":
            seen.setdefault((fname(e.fn), "panic " + (e.q or "").rsplit("::", 1)[-1]), e)
        elif e.kind == "assert":
            seen.setdefault((fname(e.fn), "assert %s" % (e.q,)), e)
        elif e.kind == "call" and re.search(r"::(index|index_mut|unwrap|expect|copy_from_slice|split_at|split_off|remove|swap_remove)$", e.q) \
                and not re.search(r"collections|HashMap|BTreeMap", e.q):
            seen.setdefault((fname(e.fn), "partial operation " + e.q.rsplit("::", 1)[-1]), e)
    n = 0
    for (f, what), e in sorted(seen.items()):
        ok = False
        d = "a transaction can abort the node here"
        if what.startswith("panic"):
            # the table lookup of a statically complete table cannot fail (see E04.table)
            p = ex.guarded([x for x in ex.events if x.kind == "panic" and x.fn == e.fn and x.q == e.q],
                           lambda t, v: is_call(t, r"HashMap::get$") and t.a[2][0].op == "lazy" and v == frozenset(["None"])
                           and table_has(c, t))
            ok = p is None
        c.ob("E07.abort", f, what, ok, rel(e.span), d, None if ok else ex.fmt_path(ex.reach([ex.start], [e]) or [], 12))
        n += 1
    c.ob("E07.scope", ex, "panic sites examined", True, "", "%d" % n)
    # a transaction can fail only itself: every error that ends exec comes from the state store
    an = exec_an(c)
    src = {}
    for o in an.err_exits():
        for x in an.alts(o.val):
            y = field(x, "0") if x.op == "agg" else x
            todo, met = list(an.alts(y)) if y is not None else [], set()
            while todo:
                w = todo.pop()
                if w in met:
                    continue
                met.add(w)
                if w.op in ("err", "ok", "fld"):
                    todo += [v if v.op != "agg" or w.op == "fld" else field(v, "0") or v for v in an.alts(w.a[0])]
                else:
                    src.setdefault(w.a[0] if w.op == "call" else sig(w, an)[:80], o)
    allow = re.compile(r"ContractStateAdapter::(stash|revert_cache|commit)$|MPTTrie(<.*>)?::(insert|commit)$|"
                       r"AccountContract::(inc_nonce|add_balance)$|UserAddress::from_pubkey_bytes$")
    for q, o in sorted(src.items(), key=lambda kv: kv[0]):
        c.ob("E07.isolated", an, "execution of the block ends with the error of %s" % core.short(q), bool(allow.search(q)), rel(o.span),
             "a single transaction can stop the whole block")
    c.floor("E07.isolated", an, "error source of block execution", len(src), 3)
    # inc_nonce / add_balance fail only on state access
    for m in ("inc_nonce", "add_balance"):
        a = c.an(impl(c, AC, m), stop=[S_AD])
        for o in a.err_exits():
            for x in a.alts(o.val):
                y = field(x, "0") if x.op == "agg" else x
                for z in (a.alts(y) if y is not None else ()):
                    w = z
                    while w.op in ("err", "ok", "fld"):
                        w = w.a[0]
                    ok = w.op == "phi" or is_call(w, S_AD)
                    c.ob("E07.system-steps", a, "%s fails only if the state cannot be accessed" % m, ok, rel(o.span), sig(z, a)[:120])
    for e, p in underflows(ex):
        c.nopath("E07.underflow", ex, "subtraction %s is guarded" % sig(e.val)[:100], p, "an unsigned number can go below zero: the node panics "
                 "or the number wraps", rel(e.span))
    # unchecked arithmetic on numbers a transaction chooses
    for e in ex.events:
        if e.kind == "write" and e.val is not None:
            for y in ex.subterms(e.val):
                if y.op == "bin" and y.a[0] in ("Mul", "Add", "Sub") and any(
                        z.op == "fld" and _path(z)[-3:] == ["raw", "fee", "cycle"] for z in y.a[1:]):
                    c.ob("E07.overflow", ex, "arithmetic on the transaction's cycle limit", False, rel(e.span), sig(y, ex)[:120])


def table_has(c, t):
    act = t.a[2][1]
    if act.op != "agg":
        return False
    tab = cycles_table(c, t.a[2][0], c.db)
    return act.a[0].rsplit("::", 1)[-1] in tab


# ------------------------------------------------------------------------ E08

def layer_lookup(t, layer, key):
    if t.op == "call" and re.search(r"::(get|contains_key|contains)$", t.a[0]) and len(t.a[2]) == 2 and t.a[2][0] is layer and \
            t.a[2][1] is key:
        return t.a[0].rsplit("::", 1)[-1]
    return None


def miss_of(layer, key):
    def f(t, v):
        u = t.a[0] if t.op == "ok" else t
        k = layer_lookup(u, layer, key)
        if k is None:
            return False
        return v is False or v == frozenset(["None"])
    return f


def hit_of(layers, key):
    def f(t, v):
        u = t.a[0] if t.op == "ok" else t
        return any(layer_lookup(u, l, key) for l in layers) and (v is True or v == frozenset(["Some"]))
    return f


def layers(c, pid):
    """reads see the latest write through cache, stash and trie"""
    r = adapter_rules(c, pid)
    if not r:
        return
    cache, stash = r
    trie = fld(SELF, "trie")
    g = c.an(impl(c, SA, "get"), stop=[S_MP])
    kp = argn(g.root, 2)
    keys = {mk("ok", e.term) for e in g.calls_to(r"encode_fixed$") if e.args[0] is kp}
    c.floor(pid + ".key", g, "encoding of the key", len(keys), 1)
    order = [("cache", cache), ("stash", stash), ("trie", trie)]
    n = 0
    for o in g.ok_exits():
        for x in variants(g, o.val):
            v = field(x, "0") if x.op == "agg" else mk("ok", x)
            for y in variants(g, v):
                y0 = _payload(y)
                if y.op == "agg" and y.a[0] == NONE:
                    for nm, l in order:
                        c.nopath(pid + ".get-none", g, "absence is reported only after looking in the %s" % nm,
                                 g.guarded([o], lambda t, w, l=l: any(miss_of(l, k)(t, w) for k in keys)))
                    continue
                d = _un(y0)
                src = d.a[2][0] if is_call(d, r"decode_fixed$") else None
                s = _un(src) if src is not None else None
                hit = None
                if s is not None and s.op == "call" and len(s.a[2]) == 2 and s.a[2][1] in keys:
                    hit = next((i for i, (nm, l) in enumerate(order) if s.a[2][0] is l), None)
                c.ob(pid + ".get-value", g, "a read returns the decoded value of its own key", hit is not None, rel(o.span), sig(y, g)[:200])
                if hit is None:
                    continue
                n += 1
                looks = [z for z in g.events if z.term is s]
                for nm, l in order[:hit]:
                    missed = lambda t, w, l=l: any(miss_of(l, k)(t, w) for k in keys)
                    c.nopath(pid + ".get-order", g, "value of the %s only if the %s has none" % (order[hit][0], nm),
                             g.guarded(looks, missed) and g.guarded([o], missed),
                             "a stale value can be returned")
    c.floor(pid + ".get-value", g, "source of a value read", n, 3)
    k = c.an(impl(c, SA, "contains"), stop=[S_MP])
    kp = argn(k.root, 2)
    keys = {mk("ok", e.term) for e in k.calls_to(r"encode_fixed$") if e.args[0] is kp}
    for o in k.ok_exits():
        for x in k.alts(o.val):
            v = field(x, "0") if x.op == "agg" else mk("ok", x)
            for y in k.alts(v):
                neg = []
                if y is TRUE:
                    c.nopath(pid + ".contains", k, "true only if some layer holds the key",
                             k.guarded([o], lambda t, w: any(hit_of([cache, stash, trie], q)(t, w) for q in keys)))
                    continue
                if y is FALSE:
                    neg = order
                else:
                    u = _un(y)
                    hit = next((i for i, (nm, l) in enumerate(order) if any(layer_lookup(u, l, q) for q in keys)), None)
                    c.ob(pid + ".contains", k, "contains answers for its own key", hit is not None, rel(o.span), sig(y, k)[:160])
                    if hit is None:
                        continue
                    neg = [z for i, z in enumerate(order) if i != hit]
                for nm, l in neg:
                    c.nopath(pid + ".contains", k, "absence is reported only after looking in the %s" % nm,
                             k.guarded([o], lambda t, w, l=l: any(miss_of(l, q)(t, w) for q in keys)))


def e08(c):
    layers(c, "E08")
    # balance / nonce / account reads
    for m in ("get_balance", "get_account", "get_nonce"):
        b = impl(c, AC, m)
        an = c.an(b, stop=[S_AD])
        addr = argn(b, 3) if m == "get_balance" else argn(b, 2)
        gets = [e for e in adapter_calls(an, "get")]
        c.ob("E08.read", an, "%s reads the account it was asked for" % m, gets and all(e.args[1] is addr for e in gets), "", "")
        for o in an.ok_exits():
            for x in an.alts(o.val):
                v = field(x, "0") if x.op == "agg" else mk("ok", x)
                for y in an.alts(v):
                    r = root_of(y)
                    if m == "get_account":
                        ok = is_call(r, r"ContractStateAdapter::get$")
                    elif m == "get_nonce":
                        ok = is_call(r, r"ContractStateAdapter::get$") and y.op == "fld" and y.a[1] == "nonce"
                    else:
                        asset = argn(b, 2)
                        look = next((z for z in an.subterms(y) if is_call(z, r"BTreeMap::get$") and z.a[2][1] is asset and
                                     is_call(root_of(z.a[2][0]), r"ContractStateAdapter::get$")), None)
                        ok = look is not None and (y is mk("ok", look) or y.op == "fld" and y.a[1] == "balance" and y.a[0] is mk("ok", look))
                        if not ok and (y.op == "int" and y.a[0] == 0 or is_call(y, r"::(zero|default)$") or y.op in ("default", "new")):
                            # zero only when the account has no entry
                            p = an.guarded([o], lambda t, w: is_call(t, r"BTreeMap::get$") and t.a[2][1] is asset and w == frozenset(["None"]))
                            c.nopath("E08.read-zero", an, "zero only for an asset the account does not hold", p)
                            continue
                    c.ob("E08.read", an, "%s returns the stored value" % m, ok, rel(o.span), sig(y, an)[:160])
    b = impl(c, EX, "get_balance")
    an = c.an(b, stop=[S_CT])
    evs = an.calls_to(r"AccountContract::get_balance$")
    ok = evs and all(e.args[1] is argn(b, 3) and e.args[2] is argn(b, 2) for e in evs)
    c.ob("E08.query", an, "the executor answers for the asset and address asked", bool(ok), "", str(evs[:1]))
    for o in an.exits():
        vals = an.alts(o.val)
        ok = all(any(e.term in (x, _un(field(x, "0")) if x.op == "agg" and field(x, "0") is not None else x) or
                     an.has(x, lambda z: z is e.term) for e in evs) for x in vals)
        c.ob("E08.query", an, "the executor returns the contract's answer", ok, rel(o.span), sig(o.val, an)[:120])


# ------------------------------------------------------------------------ E09

def e09(c):
    an = exec_an(c)
    txs = argn(an.root, 2)
    nx = tx_nexts(an)
    ps = receipt_pushes(an)
    evs = [e for e, _ in ps]
    done, bad = forall(an, lambda s: s is txs, evs)
    oks = an.ok_exits()
    c.nopath("E09.each", an, "every transaction gets a receipt", unfinished(an, done, [an.start], oks) if done else [an.start],
             "a transaction can be skipped")
    c.nopath("E09.once", an, "one receipt per transaction", an.reach(evs, evs, avoid=nx))
    c.ob("E09.order", an, "transactions are executed in block order", all(not _reversed(e.args[0]) for e in nx), "",
         "the list is iterated in another order")
    for e, r in ps:
        h = field(r, "tx_hash")
        ok = h is not None and all(x.op == "fld" and x.a[1] == "tx_hash" and x.a[0].op == "elem" and iter_sources(x.a[0].a[0]) is txs
                                   for x in an.alts(h))
        c.ob("E09.hash", an, "a receipt carries its transaction's hash", ok, rel(e.span), sig(h, an)[:120])
        c.ob("E09.epoch", an, "a receipt carries the epoch being executed", field(r, "epoch_id") is fld(SELF, "epoch_id"), rel(e.span))
        c.ob("E09.append", an, "receipts are appended", e.q.endswith("push"), rel(e.span), e.q)
        for x in an.alts(field(r, "result")):
            if x.op == "agg" and x.a[0].endswith("ReceiptResult::Transfer"):
                el = field(x, "asset_id")
                bal = [y for y in an.calls_to(r"AccountContract::get_balance$")]
                tr = [y for y in mutators(an) if y.q.endswith("::transfer")]
                b_, a_ = field(x, "before_amount"), field(x, "after_amount")
                tb = {mk("ok", y.term): y for y in bal}
                ok = b_ in tb and a_ in tb
                c.ob("E09.transfer", an, "before and after amounts are balances read from the state", ok, rel(e.span), sig(x, an)[:200])
                if ok:
                    yb, ya = tb[b_], tb[a_]
                    c.nopath("E09.transfer", an, "the before amount is read before the transfer", an.reach(tr, [yb], avoid=nx))
                    c.nopath("E09.transfer", an, "the after amount is read after the transfer", an.reach(nx, [ya], avoid=tr))
                    want = [field(tr[0].args[1], "caller")] if tr else []
                    c.ob("E09.transfer", an, "before and after amounts are the sender's, for the transferred asset",
                         all(y.args[2] in want and y.args[1] is el for y in (yb, ya)), rel(e.span), "")
        if "Fail" in result_kinds(an, r) and len(result_kinds(an, r)) > 1:
            c.ob("E09.result", an, "outcome of a receipt is decided", False, rel(e.span), "")
    cont = {e.args[0] for e in evs}
    for o in oks:
        for x in an.alts(o.val):
            r = field(x, "0")
            for y in (an.alts(r) if r is not None else ()):
                c.ob("E09.returned", an, "the receipts recorded are the receipts returned", field(y, "receipts") in cont, rel(o.span))
    bad = [e for e in an.events if e.kind == "call" and e.args and e.args[0] in cont and
           re.search(r"::(sort\w*|reverse|swap|swap_remove|remove|dedup\w*|truncate|pop|insert|clear|retain|drain|rotate_\w+)$", e.q)]
    c.ob("E09.stable", an, "recorded receipts are not reordered or dropped", not bad, "", str(bad[:1]))
    # nonce: exactly one increment per transaction, of its sender
    inc = [e for e in mutators(an) if e.q.endswith("::inc_nonce")]
    d2, _ = forall(an, lambda s: s is txs, inc)
    c.nopath("E09.nonce", an, "every transaction increments its sender's nonce", unfinished(an, d2, [an.start], oks) if d2 else [an.start])
    c.nopath("E09.nonce", an, "the nonce is incremented once per transaction", an.reach(inc, inc, avoid=nx))
    nonce_kept(c, "E09")
    b = impl(c, AC, "inc_nonce")
    ni = c.an(b, stop=[S_AD])
    caller = fld(argn(b, 2), "caller")
    ins = adapter_calls(ni, "insert_cache")
    c.nopath("E09.nonce-stored", ni, "success implies the new nonce is stored", ni.before(ins, ni.ok_exits()))
    for e in ins:
        absent_first(c, "E09.nonce-rest", ni, e, caller)
        c.ob("E09.nonce-account", ni, "the caller's account is stored", e.args[1] is caller, rel(e.span), sig(e.args[1])[:100])
        for x in ni.alts(e.args[2]):
            nn = nonces(ni, x)
            ok = bool(nn) and all(v.op == "bin" and v.a[0] == "Add" and any(y.op == "int" and y.a[0] == 1 for y in v.a[1:]) and
                                  any(y.op == "fld" and y.a[1] == "nonce" for y in v.a[1:]) or v.op == "int" and v.a[0] == 1
                                  for v in nn)
            c.ob("E09.nonce-step", ni, "the nonce grows by one", ok, rel(e.span), str([sig(v, ni)[:80] for v in nn]))
            c.ob("E09.nonce-rest", ni, "everything else of the account is kept", same_account(ni, x, caller, nonce=True), rel(e.span),
                 sig(x, ni)[:200])


def nonces(an, x):
    out = []
    inner = field(x, "0") if x.op == "agg" else x
    for y in an.alts(inner):
        v = field(y, "nonce") if y.op in ("agg", "upd") else None
        if v is None:
            ws = an.writes(lambda e: e.term.op == "fld" and e.term.a[1] == "nonce")
            out += [w.val for w in ws]
        else:
            out += list(an.alts(v))
    return out


def _reversed(t):
    while t.op == "it":
        if t.a[0] == "rev":
            return True
        t = t.a[1]
    return False


# ------------------------------------------------------------------------ E10

def e10(c):
    D = "cita_trie::db::DB"
    def im(m):
        return c.db.trait_impl(D, m, r"RocksTrieDB", crate=CR)
    db = fld(SELF, "db")
    raw = lambda an, rx: [e for e in an.events if e.kind == "call" and re.search(r"rocksdb.*::%s$" % rx, e.q)]
    # removal only in light mode
    for m in ("remove", "remove_batch"):
        an = c.an(im(m))
        w = raw(an, "(delete|delete_cf|write|write_opt|write_without_wal)")
        c.floor("E10.remove", an, "deletion", len(w), 1)
        c.nopath("E10.archive", an, "old state is deleted only by a light node",
                 an.guarded(w, lambda t, v: t.op == "fld" and t.a[1] == "light" and t.a[0] is SELF and v is True),
                 "an archive node deletes historic state")
    for m in ("get", "contains", "insert", "insert_batch", "flush"):
        an = c.an(im(m))
        bad = raw(an, r"delete\w*")
        c.ob("E10.nodelete", an, "%s deletes nothing" % m, not bad, "", str(bad[:1]))
    b = im("insert")
    an = c.an(b)
    w = [e for e in raw(an, "put")]
    c.nopath("E10.insert", an, "insert stores before it succeeds", an.before(w, an.ok_exits()))
    for e in w:
        c.ob("E10.insert", an, "insert stores the value under the key", e.args[1] is argn(b, 2) and e.args[2] is argn(b, 3), rel(e.span), repr(e)[:160])
    b = im("insert_batch")
    an = c.an(b)
    keys, vals = argn(b, 2), argn(b, 3)
    puts = raw(an, "put")
    wr = [e for e in raw(an, "(write|write_opt)")]
    direct = [e for e in puts if root_of(e.args[0]) is SELF]
    c.ob("E10.batch-atomic", an, "a batch is written as one write", not direct and len({e.span for e in wr}) == 1, "", str(direct[:1]))
    c.nopath("E10.batch-atomic", an, "one write per batch", an.reach(wr, wr))
    c.nopath("E10.batch", an, "a batch is written before it succeeds", an.before(wr, an.ok_exits()))
    for e in puts:
        k, v = e.args[1], e.args[2]
        ok = _pos(k, keys) is not None and _pos(k, keys, (keys, vals)) == _pos(v, vals, (keys, vals)) or _zipped(k, v, keys, vals)
        c.ob("E10.batch-pairs", an, "the batch pairs each key with its own value", ok, rel(e.span), "%s -> %s" % (sig(k, an), sig(v, an)))
    lens = lambda t: t.op in ("len",) and t.a[0] in (keys, vals) or is_call(t, r"::len$") and t.a[2][0] in (keys, vals)

    def eqlen(t, v):
        return t.op == "bin" and t.a[0] == "Eq" and lens(t.a[1]) and lens(t.a[2]) and v is True
    c.nopath("E10.batch-length", an, "mismatched batches are refused", an.guarded(wr, eqlen))
    nxs = [e for e in an.events if e.kind == "next"]
    c.nopath("E10.batch-all", an, "the batch is written after it is complete",
             an.reach(puts, wr, edge_ok=lambda n, m, cs: not any(v == frozenset(["None"]) and t.op == "next" for t, v in cs)))
    for e in nxs:
        s = sig(e.args[0], an)
        c.ob("E10.batch-all", an, "the whole batch is visited", full_range(an, e.args[0], keys, vals), rel(e.span), s[:160])
    for m in ("get", "contains"):
        b = im(m)
        an = c.an(b)
        gs = raw(an, "get")
        terms = {e.term for e in gs}
        c.ob("E10.read", an, "%s looks up its own key" % m, gs and all(e.args[1] is argn(b, 2) for e in gs), "", str(gs[:1]))
        for o in an.ok_exits():
            for x in an.alts(o.val):
                v = field(x, "0") if x.op == "agg" else mk("ok", x)
                for y in an.alts(v):
                    if m == "get":
                        ok = _un(_payload(y)) in terms or y.op == "agg" and y.a[0] == NONE and an.guarded(
                            [o], lambda t, w: _un(t) in terms and w == frozenset(["None"])) is None
                    else:
                        want = {TRUE: "Some", FALSE: "None"}.get(y)
                        ok = want is not None and an.guarded([o], lambda t, w: _un(t) in terms and t.op == "ok" and w == frozenset([want])) is None
                    c.ob("E10.read", an, "%s reports what the database holds" % m, ok, rel(o.span), sig(y, an)[:120])
        for e in gs:
            t = e.term
            errs = [m2 for _, m2, _ in an.edges_where(lambda q, v: q is t and v == frozenset(["Err"]))]
            p = an.reach(errs, [o for o in an.exits() if an.retshape(o) == "ok"]) if errs else [an.start]
            c.nopath("E10.read-error", an, "%s reports a database error" % m, p, "a read error is swallowed")


def _pos(t, coll, allc=()):
    """the position term when t is coll[i]"""
    if t.op == "elem" and t.a[0] is coll:
        return ("at", t.a[1])
    if t.op in ("idx", "index") and t.a[0] is coll:
        return t.a[-1]
    if t.op == "call" and re.search(r"::index$", t.a[0]) and t.a[2][0] is coll:
        i = t.a[2][1]
        return ("at", i.a[1]) if i.op in ("elem", "index") and (core.full_range(i.a[0]) or i.a[0]) in allc else i
    if t.op == "ok" and is_call(t.a[0], r"::get$") and t.a[0].a[2][0] is coll:
        return t.a[0].a[2][1]
    return None


def _zipped(k, v, keys, vals):
    def el(t, n):
        return t.op == "fld" and t.a[1] == n and t.a[0].op == "elem" and t.a[0].a[0].op == "it" and t.a[0].a[0].a[0] == "zip"
    return el(k, "0") and el(v, "1") and k.a[0] is v.a[0] and k.a[0].a[0].a[1] is keys and k.a[0].a[0].a[2] is vals


def full_range(an, t, keys, vals):
    if t.op == "it" and t.a[0] == "zip":
        return {t.a[1], t.a[2]} == {keys, vals}
    if t.op == "agg" and t.a[0].endswith("Range"):
        lo, hi = field(t, "start"), field(t, "end")
        return lo.op == "int" and lo.a[0] == 0 and (hi.op == "len" and hi.a[0] in (keys, vals) or is_call(hi, r"::len$") and
                                                     hi.a[2][0] in (keys, vals))
    s = iter_sources(t)
    return s in (keys, vals)


# ------------------------------------------------------------------------ E11

def same_as(t, leaf, allow=r"::(from|into|clone|to_owned|as_ref|as_str|as_slice|as_bytes|deref|to_string|borrow)$"):
    """t is leaf, up to conversions that keep the value"""
    while t is not leaf:
        if t.op != "call" or not re.search(allow, t.a[0]) or len(t.a[2]) != 1:
            return False
        t = t.a[2][0]
    return True


def e11(c):
    an = genesis_an(c)
    g = argn(an.root, 2)
    allocs = fld(g, "state_alloc")
    adds = [e for e in mutators(an) if e.q.endswith("::add_balance")]
    regs = [e for e in mutators(an) if e.q.endswith("::register")]
    oks = an.ok_exits()
    c.floor("E11.register", an, "registration of the system token", len(regs), 1)
    c.nopath("E11.register", an, "genesis registers the system token", an.before(regs, oks))
    tok = fld(g, "system_token")
    for e in regs:
        for i, f in ((3, "name"), (4, "symbol"), (5, "supply")):
            ok = same_as(e.args[i], fld(tok, f))
            c.ob("E11.register", an, "the system token's %s is the configured one" % f, ok, rel(e.span), sig(e.args[i], an)[:120])
        cd = _un(e.args[2])
        ok = is_call(cd, r"ContractAddress::from_code$") and is_call(_un(cd.a[2][0]), r"hex::.*decode$|hex::decode$") and \
            same_as(_un(cd.a[2][0]).a[2][0], fld(tok, "code"))
        c.ob("E11.register", an, "the system token's contract is derived from the configured code", ok, rel(e.span), sig(e.args[2], an)[:120])
    inner = [e for e in an.events if e.kind == "next" and (s := iter_sources(e.args[0])) is not None and s.op == "fld" and
             s.a[1] == "assets" and s.a[0].op == "elem" and iter_sources(s.a[0].a[0]) is allocs]
    src = {iter_sources(e.args[0]) for e in inner}
    c.floor("E11.alloc", an, "loop over the assets of an allocation", len(src), 1)
    done, _ = forall(an, lambda s: s in src, adds)
    none = {(n, m) for n, m, _ in an.edges_where(lambda t, v: t in {e.term for e in inner} and v == frozenset(["None"]))}
    c.ob("E11.alloc", an, "every asset of an allocation is credited", done == none and bool(done), "", "an allocated balance can be skipped")
    outer = [e for e in an.events if e.kind == "next" and iter_sources(e.args[0]) is allocs]
    ot = {e.term for e in outer}
    some = [m for _, m, _ in an.edges_where(lambda t, v: t in ot and v == frozenset(["Some"]))]
    p = an.reach(some, outer + oks, edge_ok=lambda n, m, cs: (n, m) not in none)
    c.nopath("E11.alloc", an, "every allocation is processed", p if some else [an.start])
    p = an.reach([an.start], oks, edge_ok=lambda n, m, cs: not any(t in ot and v == frozenset(["None"]) for t, v in cs))
    c.nopath("E11.alloc", an, "genesis succeeds only after all allocations", p)
    for e in adds:
        asset = next((y for y in an.subterms(e.args[1]) if y.op == "elem"), None)
        al = next((y for y in an.subterms(e.args[2]) if y.op == "elem" and iter_sources(y.a[0]) is allocs), None)
        ok = is_call(_un(e.args[1]), r"Hash::from_hex$") and _un(e.args[1]).a[2][0] is fld(asset, "asset_id")
        c.ob("E11.credit", an, "the credited asset is the configured one", ok, rel(e.span), sig(e.args[1], an)[:120])
        ok = is_call(_un(e.args[2]), r"Address::from_hex$") and al is not None and _un(e.args[2]).a[2][0] is fld(al, "address")
        c.ob("E11.credit", an, "the credited account is the configured one", ok, rel(e.span), sig(e.args[2], an)[:120])
        am = e.args[3]
        ok = is_call(am, r"from_bytes_be$") and is_call(_un(am.a[2][0]), r"hex::.*decode$|hex::decode$") and same_as(_un(am.a[2][0]).a[2][0], fld(asset, "balance"))
        c.ob("E11.credit", an, "the credited amount is the configured one", ok, rel(e.span), sig(am, an)[:160])
        c.nopath("E11.once", an, "each allocation is credited once", an.reach([e], adds, avoid=inner))
    other = [e for e in mutators(an) if not e.q.endswith(("::add_balance", "::register", "::create_account"))]
    c.ob("E11.only", an, "genesis changes nothing else", not other, "", str(other[:1]))


def G(f, title):
    return (title, CRATES, f)


CHECKS = {
    "E01": G(e01, "Failed transactions leave no trace; successful ones are kept whole"),
    "E02": G(e02, "Transfers conserve balances and never overdraw"),
    "E03": G(e03, "Asset registration is unique and immutable"),
    "E04": G(e04, "Cycle metering and fees"),
    "E05": G(e05, "Execution is deterministic"),
    "E06": G(e06, "The state root commits exactly the executed state"),
    "E07": G(e07, "No transaction can stop block execution"),
    "E08": G(e08, "Reads return the latest write"),
    "E09": G(e09, "One receipt and one nonce step per transaction, in order"),
    "E10": G(e10, "Trie store: archive keeps history, batches are atomic"),
    "E11": G(e11, "Genesis state is exactly the configured one"),
}
