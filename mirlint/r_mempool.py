"""The pool of transactions: what enters it, what it hands out, what it packages, what it tells other nodes."""
import re

from .core import Anchor, mk
from .rules import (P, SELF, additions, checked, expand, field, fld, forall, is_call, iter_sources, rel, root_of, seqmap, sig, tampered,
                    uncall, unfinished, uses_after)

CR = "core_mempool"
CRATES = {"core_mempool", "core_network", "protocol"}
MAP = [r"core_mempool::map::Map::"]
MP = "protocol::traits::mempool::MemPool"
SOME, NONE, OK, ERR = (frozenset([x]) for x in ("Some", "None", "Ok", "Err"))


def pool(c, m):
    return c.db.trait_impl(MP, m, crate=CR)


def one(c, rx, crate=CR):
    b = [b for b in c.db.find(rx, crate) if b.kind == "fn"]
    if len(b) != 1:
        raise Anchor("%s: %d found" % (rx, len(b)))
    return b[0]


def arg(an, i):
    return P(an.root.locals[i + 1][1] or "arg%d" % (i + 1))


def is_path(t, root, *names):
    """t is root.names[0].names[1]..."""
    for n in reversed(names):
        if t.op != "fld" or t.a[1] != n:
            return False
        t = t.a[0]
    return root(t) if callable(root) else t is root


def same(a, b):
    """a condition under which two terms (given by predicates) are equal"""
    def cond(t, v):
        if not isinstance(v, bool):
            return False
        if t.op == "bin" and t.a[0] in ("Eq", "Ne"):
            x, y, no = t.a[1], t.a[2], t.a[0] == "Ne"
        elif is_call(t, r"::(eq|ne)$") and len(t.a[2]) == 2:
            x, y, no = t.a[2][0], t.a[2][1], t.a[0].endswith("::ne")
        else:
            return False
        return v != no and (a(x) and b(y) or a(y) and b(x))
    return cond


def below(a, b, strict=True):
    """a condition under which a < b (or, not strict, a <= b) is known"""
    def cond(t, v):
        if t.op == "bin" and t.a[0] == "Lt" and isinstance(v, bool):
            if v and a(t.a[1]) and b(t.a[2]):
                return True
            return not strict and not v and b(t.a[1]) and a(t.a[2])
        if t.op == "bin" and t.a[0] == "Cmp" and isinstance(v, frozenset):
            if a(t.a[1]) and b(t.a[2]):
                return v <= (frozenset(["Less"]) if strict else frozenset(["Less", "Equal"]))
            if b(t.a[1]) and a(t.a[2]):
                return v <= (frozenset(["Greater"]) if strict else frozenset(["Greater", "Equal"]))
        return False
    return cond


def addends(t):
    """the two terms a sum is made of"""
    if t.op == "bin" and t.a[0] == "Add":
        return t.a[1], t.a[2]
    t = uncall(t)
    if is_call(t, r"::(saturating_add|checked_add|add)$") and len(t.a[2]) == 2:
        return tuple(t.a[2])
    return None


def wraps(t):
    return t.op == "bin" or not is_call(uncall(t), r"::(saturating_add|checked_add)$")


def summed(a, b):
    def ok(t):
        s = addends(t)
        return s is not None and (a(s[0]) and b(s[1]) or a(s[1]) and b(s[0]))
    return ok


def latest(t):
    """what the storage holds as the newest epoch"""
    return t.op == "ok" and is_call(t.a[0], r"Storage::get_latest_epoch$")


# ------------------------------------------------------------------ M02: what enters

def verified(c, rule, an, tx, at, what, limit=True):
    """every path to the events `at` has verified the transaction tx (a predicate)"""
    own = lambda *n: (lambda t: is_path(t, tx, *n))
    hash_ = own("tx_hash")
    gap = lambda t: is_call(t, r"Atomic\w+::load$") and is_path(t.a[2][0], lambda x: True, "timeout_gap")
    head = lambda n: (lambda t: is_path(t, latest, "header", n))
    raw_hash = lambda t: is_call(t, r"Hash::digest$") and t.a[2][0].op == "ok" and \
        is_call(t.a[2][0].a[0], r"ProtocolFixedCodec::encode_fixed$") and own("raw")(t.a[2][0].a[0].a[2][0])
    stored = lambda t: is_call(t, r"Storage::get_transaction_by_hash$") and hash_(t.a[2][-1])
    conds = [
        ("its signature is valid for its hash and public key", lambda t, v: v == OK and is_call(t, r"Crypto::verify_signature$") and
         is_call(t.a[2][0], r"Hash::as_bytes$") and hash_(t.a[2][0].a[2][0]) and own("signature")(t.a[2][1]) and own("pubkey")(t.a[2][2])),
        ("its hash is that of its content", same(raw_hash, hash_)),
        ("it is for this chain", same(head("chain_id"), own("raw", "chain_id"))),
        ("it does not expire too late", below(own("raw", "timeout"), summed(gap, head("epoch_id")), False)),
        ("it has not expired", below(head("epoch_id"), own("raw", "timeout"), False)),
        ("it is not committed yet", lambda t, v: v is True and is_call(t, r"str::contains$") and t.a[2][1].op == "str" and
         t.a[2][1].a[0] == "GetNone" and is_call(t.a[2][0], r"to_string$") and t.a[2][0].a[2][0].op == "err" and
         stored(t.a[2][0].a[2][0].a[0])),
    ]
    for n, cond in conds:
        c.nopath(rule, an, "%s only if %s" % (what, n), an.guarded(at, cond), "it gets there unchecked", rel(at[0].span) if at else "")


def enters(c):
    an = c.an(pool(c, "insert"), stop=MAP)
    tx, ctx = arg(an, 2), arg(an, 1)
    table = lambda t: is_path(t, SELF, "tx_cache", "map")
    ins = [e for e in an.calls_to(r"map::Map::insert$") if table(e.args[0])]
    c.floor("M02.insert", an, "place where a transaction enters", len(ins), 1)
    if not ins:
        return
    verified(c, "M02.checked", an, lambda t: t is tx, ins, "a transaction enters")
    c.nopath("M02.room", an, "a transaction enters only if there is room",
             an.guarded(ins, below(lambda t: is_call(t, r"map::Map::len$") and table(t.a[2][0]), lambda t: is_path(t, SELF, "pool_size"))),
             "the limit is not looked at")
    for e in ins:
        v = e.args[2]
        c.ob("M02.entry", an, "it is entered under its hash, as it is, neither removed nor proposed", fld(tx, "tx_hash") is e.args[1] and
             all(field(x, "tx") is tx and all(flag(field(x, f), 0) for f in ("removed", "proposed")) for x in an.alts(v)), rel(e.span),
             sig(v, an)[:200])
    # passed on exactly once, and only when it did not come from the network
    here = lambda t, v: v is True and from_network(t)
    off = lambda t, v: v is False and from_network(t)
    keys = {k for n, m, cs in an.edges_where(lambda t, v: from_network(t)) for t, v in cs if from_network(t) for k in [from_network(t)]}
    sends = [e for e in an.calls_to(r"UnboundedSender::unbounded_send$") if is_path(e.args[0], lambda t: True, "stx_tx")]
    c.floor("M02.passed-on", an, "place where a transaction is passed on", len(sends), 1)
    for e in sends:
        c.ob("M02.passed-on", an, "what is passed on is the transaction", e.args[1] is tx, rel(e.span), sig(e.args[1], an)[:160])
    c.nopath("M02.passed-on", an, "one from the network is not passed on again", an.guarded(sends, off), "no look at where it came from")
    c.nopath("M02.passed-on", an, "one that is sent to this node is passed on",
             an.reach([an.start], an.ok_exits(), avoid=sends, edge_ok=lambda n, m, cs: not any(here(t, v) for t, v in cs)),
             "it is kept to this node")
    c.nopath("M02.passed-on", an, "it is passed on once", an.reach(sends, sends), "it is passed on again")
    c.nopath("M02.passed-on", an, "only one that entered is passed on", an.guarded(sends, lambda t, v: v == NONE and any(t is e.term for e in ins)),
             "it is passed on without having entered")
    pushed = an.calls_to(r"ArrayQueue::push$")
    c.nopath("M02.kept", an, "success means it entered", an.guarded(an.ok_exits(), lambda t, v: v == NONE and any(t is e.term for e in ins)),
             "success without entering")
    c.nopath("M02.kept", an, "success means it is queued", an.guarded(an.ok_exits(), lambda t, v: v == OK and any(t is e.term for e in pushed)),
             "success without a place in the queue")
    # nothing else adds to the table, or to the answers
    return keys


def flag(t, v):
    return t is not None and is_call(t, r"AtomicBool::new$") and t.a[2][0].op == "int" and t.a[2][0].a[0] == v


def from_network(t):
    """(key, value) of the context entry that is compared"""
    if t.op == "bin" and t.a[0] == "Eq" or is_call(t, r"::eq$"):
        xs = t.a[1:3] if t.op == "bin" else t.a[2]
        for x, y in (xs, (xs[1], xs[0])):
            if is_call(x, r"Context::get$") and x.a[2][0] is P("ctx") and y.op == "agg":
                return sig(x.a[2][1]), sig(y.a[1][0][1]) if y.a[1] else ""
    return None


def gossiped(c, keys):
    """transactions of other nodes go through the same door, marked as such"""
    an = c.an(one(c, r"NewTxsHandler.*MessageHandler>::process$"), stop=[r"MemPool>?::insert$"])
    msg, ctx = arg(an, 2), arg(an, 1)
    mine = lambda t: t.op == "fld" and t.a[0] is msg
    ins = an.calls_to(r"MemPool>?::insert$")
    c.floor("M02.gossip", an, "place where a gossiped transaction is entered", len(ins), 1)
    for e in ins:
        c.ob("M02.gossip", an, "it is entered as received", e.args[2].op == "elem" and mine(iter_sources(e.args[2].a[0]) or e.args[2]),
             rel(e.span), sig(e.args[2], an)[:160])
        t = e.args[1]
        good = is_call(t, r"Context::with_value$") and t.a[2][0] is ctx and (sig(t.a[2][1]), sig(t.a[2][2])) in keys
        c.ob("M02.gossip", an, "it is marked as coming from the network", good, rel(e.span), "%s / %s" % (sig(t, an)[:120], sorted(keys)))
    tasks = [e for e in an.events if e.kind == "spawn"]
    done, bad = forall(an, mine, ins + [e for e in tasks if an.reach([e], ins) is not None])
    c.nopath("M02.gossip", an, "every one is entered", unfinished(an, done, [an.start], an.ok_exits()) if done else
             (bad[0][1] or [an.start]) if bad else [an.start], "one can be left out")


def pulled(c):
    """what another node answers is verified like what it gossips"""
    for m in ("ensure_order_txs", "sync_propose_txs"):
        an = c.an(pool(c, m), stop=MAP)
        ins = [e for e in an.calls_to(r"map::Map::insert$") if root_of(e.args[0]) is SELF]
        c.floor("M02.pulled", an, "place where a pulled transaction is entered", len(ins), 1)
        calls = an.calls_to(r"Rpc::call$")
        c.floor("M02.pulled", an, "call to another node", len(calls), 1)
        answer = lambda t: t.op == "fld" and t.a[0].op == "ok" and any(t.a[0].a[0] is e.term for e in calls)
        elem = lambda t: t.op == "elem" and answer(iter_sources(t.a[0]) or t)
        for e in ins:
            v = e.args[2]
            tx = [field(x, "tx") if x.op == "agg" and x.a[0].endswith("TxWrapper") else x for x in an.alts(v)]
            c.ob("M02.pulled", an, "what is entered is an answered transaction under its hash", all(t is not None and elem(t) and
                 e.args[1] is fld(t, "tx_hash") for t in tx), rel(e.span), sig(v, an)[:200])
            for x in an.alts(v):
                if x.op == "agg" and x.a[0].endswith("TxWrapper"):
                    c.ob("M02.pulled", an, "it is marked as proposed, and not as removed", flag(field(x, "removed"), 0) and
                         flag(field(x, "proposed"), 1), rel(e.span), sig(x, an)[:160])
        passed_all(c, "M02.pulled", an, answer, ins)


def passed_all(c, rule, an, answer, ins):
    """every element of the answer has passed the checks before it is entered: in the same round, or in an earlier loop over all"""
    elem = lambda t: t.op == "elem" and answer(iter_sources(t.a[0]) or t)
    own = lambda t, *n: is_path(t, elem, *n)
    heads = [e for e in an.events if e.kind == "next" and answer(iter_sources(e.args[0]) or e.args[0])]
    gap = lambda t: is_call(t, r"Atomic\w+::load$") and is_path(t.a[2][0], lambda x: True, "timeout_gap")
    head = lambda n: (lambda t: is_path(t, latest, "header", n))
    hash_ = lambda t: own(t, "tx_hash")
    raw_hash = lambda t: is_call(t, r"Hash::digest$") and t.a[2][0].op == "ok" and \
        is_call(t.a[2][0].a[0], r"ProtocolFixedCodec::encode_fixed$") and own(t.a[2][0].a[0].a[2][0], "raw")
    stored = lambda t: is_call(t, r"Storage::get_transaction_by_hash$") and hash_(t.a[2][-1])
    conds = [
        ("its signature is valid for its hash and public key", lambda t, v: v == OK and is_call(t, r"Crypto::verify_signature$") and
         is_call(t.a[2][0], r"Hash::as_bytes$") and hash_(t.a[2][0].a[2][0]) and own(t.a[2][1], "signature") and own(t.a[2][2], "pubkey")),
        ("its hash is that of its content", same(raw_hash, hash_)),
        ("it is for this chain", same(head("chain_id"), lambda t: own(t, "raw", "chain_id"))),
        ("it does not expire too late", below(lambda t: own(t, "raw", "timeout"), summed(gap, head("epoch_id")), False)),
        ("it has not expired", below(head("epoch_id"), lambda t: own(t, "raw", "timeout"), False)),
        ("it is not committed yet", lambda t, v: v is True and is_call(t, r"str::contains$") and t.a[2][1].op == "str" and
         t.a[2][1].a[0] == "GetNone" and is_call(t.a[2][0], r"to_string$") and t.a[2][0].a[2][0].op == "err" and
         stored(t.a[2][0].a[2][0].a[0])),
    ]
    for n, cond in conds:
        good = {(a, b) for a, b, cs in an.edges_where(cond)}
        # loops in which every round passes the check
        done = set()
        groups = {}
        for h in heads:
            groups.setdefault((h.term.a[1] if h.term.op == "next" else h.term, h.args[0]), []).append(h)
        for hs in groups.values():
            terms = {h.term for h in hs}
            some = [m for _, m, _ in an.edges_where(lambda t, v: t in terms and v == SOME)]
            p = an.reach(some, hs + an.ok_exits() + ins, edge_ok=lambda a, b, cs: (a, b) not in good)
            if p is None and some:
                done |= {(a, b) for a, b, _ in an.edges_where(lambda t, v: t in terms and v == NONE)}
        # in the round of the entry
        p = None
        for h in heads:
            p = p or an.reach([h], ins, avoid=[x for x in heads if x.id != h.id], edge_ok=lambda a, b, cs: (a, b) not in good)
        if p is not None:
            p = an.reach([an.start], ins, edge_ok=lambda a, b, cs: (a, b) not in done)
        c.nopath(rule, an, "a pulled transaction is entered only if %s" % n, p, "it gets there unchecked", rel(ins[0].span) if ins else "")


def m02(c):
    keys = enters(c) or set()
    gossiped(c, keys)
    pulled(c)
    spread(c)


def spread(c):
    """every transaction that is handed to the broadcaster leaves in one batch"""
    an = c.an(one(c, r"adapter::DefaultMemPoolAdapter(<.*>)?::new$"))
    rule = "M02.spread"
    ends = [field(x, "stx_tx") for e in an.exits() for x in an.alts(e.val) if x.op == "agg"]
    if not ends or any(t is None or t.op != "fld" or t.a[1] != "0" for t in ends):
        c.ob(rule, an, "the adapter holds the sending end of a channel", False, "", ", ".join(sig(t, an) for t in ends if t is not None)[:200])
        return
    chan = ends[0].a[0]
    nexts = an.calls_to(r"StreamExt::next$|::recv$")
    mine = [e for e in nexts if e.args[0] is fld(chan, "1")]
    c.floor(rule, an, "place where the other end of that channel is read", len(mine), 1)
    terms = {e.term for e in mine}
    caches = set()
    puts = [e for e in an.calls_to(r"Vec(Deque)?::push(_back)?$") if any(y.op == "ok" and y.a[0] in terms for y in an.alts(e.args[-1]))]
    for e in puts:
        caches |= an.alts(e.args[0])
    some = [m for _, m, _ in an.edges_where(lambda t, v: t in terms and v == SOME)]
    heads = [e for e in an.events if e.kind in ("call", "await") and e in nexts or e.kind == "return"]
    c.nopath(rule, an, "every transaction that arrives is cached", an.reach([m for m in some if m not in {e.id for e in puts}], nexts, avoid=puts)
             if puts and some else [an.start], "one is dropped")
    out = an.calls_to(r"Gossip::broadcast$")
    c.floor(rule, an, "broadcast", len(out), 1)
    every = [x for e in out for z in an.alts(e.args[3]) if z.op == "agg" for f, _ in z.a[1] for y in an.alts(field(z, f)) if y.op == "new"
             for x in additions(an, y)]
    for e in out:
        c.ob(rule, an, "it goes to the endpoint for new transactions", e.args[2].op == "str" and e.args[2].a[0] == "/gossip/mempool/new_txs",
             rel(e.span), sig(e.args[2], an))
        b = [field(x, f) for x in an.alts(e.args[3]) if x.op == "agg" for f, _ in x.a[1]]
        c.ob(rule, an, "the message holds one batch", len(b) == 1, rel(e.span), sig(e.args[3], an)[:160])
        for x in b:
            for y in an.alts(x):
                if any(drained(y, k) for k in caches):
                    continue
                adds = [x for x in additions(an, y) if x.args[-1].op == "elem" and (iter_sources(x.args[-1].a[0]) or x.args[-1]) in caches or
                        any(z.op == "ok" and z.a[0] in terms for z in expand(an, x.args[-1]))] if y.op == "new" else []
                c.ob(rule, an, "the batch is what was cached", bool(adds) and len(adds) == len(additions(an, y)), rel(e.span), sig(y, an)[:160])
                ns = [n for n in an.events if n.kind == "next" and iter_sources(n.args[0]) in caches]
                nt = {n.term for n in ns}
                more = [m for _, m, _ in an.edges_where(lambda t, v: t in nt and v == SOME)]
                c.nopath(rule, an, "the batch is all that was cached", an.reach([m for m in more if m not in {x.id for x in every}], ns + [e],
                                                                               avoid=every) if more else [an.start], "one is left out")
                c.nopath(rule, an, "the batch is complete", an.guarded_after(puts, [e], lambda t, v: t in nt and v == NONE), "sent half filled")
    for k in caches:
        for e in tampered(an, k, puts):
            c.ob(rule, an, "the cache is emptied only into a batch", re.search(r"::(drain|take|replace|split_off|len|is_empty)$", e.q or "") is not None,
                 rel(e.span), e.q)
    # now and then the cache is sent, however few there are
    other = [e for e in nexts if e not in mine]
    ot = {e.term for e in other}
    tick = [m for _, m, _ in an.edges_where(lambda t, v: t in ot and v == SOME)]
    c.floor(rule, an, "place where a timer is awaited", len(tick), 1)

    def all_cached(y):
        """y is the cache, or all that was taken out of it"""
        adds = additions(an, y) if y.op == "new" else []
        return y in caches or any(drained(y, k) for k in caches) or \
            bool(adds) and all(x.args[-1].op == "elem" and (iter_sources(x.args[-1].a[0]) or x.args[-1]) in caches for x in adds)
    empt = lambda t, v: v is True and is_call(t, r"::is_empty$") and all_cached(t.a[2][0])
    c.nopath(rule, an, "when the timer fires everything cached is broadcast", an.reach([m for m in tick if m not in {e.id for e in out}], nexts, avoid=out,
             edge_ok=lambda n, m, cs: not any(empt(t, v) for t, v in cs)), "it stays in the cache")
    sent = an.calls_to(r"Sender::(try_send|send|start_send)$")
    beat = [e for e in sent if any(e.args[0] is fld(o.args[0].a[0], "0") for o in other if o.args[0].op == "fld")]
    c.floor(rule, an, "place where the timer fires", len(beat), 1)
    c.ob(rule, an, "the timer fires again and again", bool(beat) and an.reach(beat, beat) is not None, rel(beat[0].span) if beat else "", "it fires once")


def drained(t, cache):
    if t is cache:
        return True
    if is_call(t, r"::drain$"):
        from .core import full_range
        return t.a[2][0] is cache
    if t.op == "it" and t.a[0] == "drain":
        return t.a[1] is cache
    return is_call(t, r"::(take|replace|split_off)$") and t.a[2][0] is cache


# ------------------------------------------------------------------ M03: what is kept and given back

def swap(t, a, b):
    """t with every a replaced by b"""
    if t is a:
        return b
    if isinstance(t, tuple):
        return tuple(swap(x, a, b) for x in t)
    if hasattr(t, "op") and hasattr(t, "a"):
        new = tuple(swap(x, a, b) for x in t.a)
        return t if all(x is y for x, y in zip(new, t.a)) else mk(t.op, *new)
    return t


def bucket(t):
    """the index of the bucket whose content t is, or "each" when it is a bucket of a walk over all of them"""
    if t.op == "fld" and t.a[0].op == "elem" and is_path(t.a[0].a[0], SELF, "buckets"):
        return "each"
    if t.op != "fld":
        return None
    t = t.a[0]
    if is_call(t, r"Index::index$") and is_path(t.a[2][0], SELF, "buckets"):
        return t.a[2][1]
    if t.op == "idx" and is_path(t.a[0], SELF, "buckets"):
        return t.a[1]
    if t.op == "ok" and is_call(t.a[0], r"::get$") and is_path(t.a[0].a[2][0], SELF, "buckets"):
        return t.a[0].a[2][1]
    return None


def most(t):
    """the largest value an index can have"""
    if t.op == "cast":
        return most(t.a[0])
    if t.op == "bin" and t.a[2].op == "int":
        if t.a[0] == "Shr" and t.a[1].op == "idx":
            return 255 >> t.a[2].a[0]
        if t.a[0] == "BitAnd":
            return t.a[2].a[0]
        if t.a[0] == "Rem":
            return t.a[2].a[0] - 1
    if t.op == "idx":
        return 255
    return None


def table(c):
    rule = "M03.table"
    ANY = P("#")
    shapes = set()
    ops = {}

    def shape(i, h):
        return sig(swap(i, h, ANY)) if i is not None and i != "each" else str(i)

    for op, call in (("insert", "insert"), ("contains_key", "contains_key"), ("get", "get"), ("remove", "remove")):
        an = c.an(one(c, r"map::Map(<.*>)?::%s$" % op))
        h = arg(an, 1)
        evs = an.calls_to(r"HashMap::%s$" % call)
        c.floor(rule, an, "%s in a bucket" % call, len(evs), 1)
        ops[op] = an
        for e in evs:
            i = bucket(e.args[0])
            c.ob(rule, an, "%s works on the entry of the hash it is given" % op, i is not None and e.args[1] is h, rel(e.span), sig(e.args[0], an)[:200])
            if i is None:
                continue
            s = shape(i, h)
            shapes.add(s)
            c.ob(rule, an, "the bucket depends on the hash alone", "each" != i and not any(x.op in ("fld", "call", "new") and root_of(x) is SELF
                 for x in an.subterms(i)), rel(e.span), s)
        bad = [e for e in an.calls_to(r"HashMap::(insert|remove|clear|drain|retain|entry|get_mut)$") if e not in evs]
        c.ob(rule, an, "%s changes nothing else" % op, not bad, rel(bad[0].span) if bad else "", bad[0].q if bad else "")
    an = ops["insert"]
    h, v = arg(an, 1), arg(an, 2)
    ins = an.calls_to(r"HashMap::insert$")
    for e in ins:
        store = e.args[0]
        c.ob(rule, an, "the value is entered as it is", e.args[2] is v, rel(e.span), sig(e.args[2], an)[:120])
        absent = lambda t, x: x is False and is_call(t, r"HashMap::contains_key$") and t.a[2][0] is store and t.a[2][1] is h or \
            x == NONE and is_call(t, r"HashMap::get$") and t.a[2][0] is store and t.a[2][1] is h
        c.nopath(rule, an, "an entry is not replaced", an.guarded([e], absent), "the entry of a transaction can be replaced", rel(e.span))
        looks = [x for x in an.calls_to(r"HashMap::(contains_key|get)$") if x.args[0] is store]
        opens = [x for x in an.events if x.kind == "unlock"]
        opens = [x for x in opens if an.reach(looks, [x]) is not None]
        c.nopath(rule, an, "looking and entering are one step", an.reach(opens, [e], avoid=looks), "another thread can enter it in between", rel(e.span))
    hot = [x for x in an.exits() if an.reach(ins, [x]) is not None]
    cold = [x for x in an.exits() if an.reach([an.start], [x], avoid=ins) is not None]
    for x in cold:
        c.ob(rule, an, "something is returned when it was there", all(y.op == "agg" and shape_of(y) == "Some" or y.op == "call" and any(y is e.term for e in ins)
             for y in an.alts(x.val)), rel(x.span), sig(x.val, an)[:160])
    for x in hot:
        c.ob(rule, an, "nothing is returned when it was entered", all(y.op == "agg" and shape_of(y) == "None" or any(y is e.term for e in ins)
             for y in an.alts(x.val)), rel(x.span), sig(x.val, an)[:160])
    for op, want in (("get", "HashMap::get$"), ("contains_key", "HashMap::contains_key$")):
        an = ops[op]
        evs = {e.term for e in an.calls_to(want)}
        for x in an.exits():
            for y in an.alts(x.val):
                good = y in evs or y.op == "agg" and shape_of(y) == "Some" and y.a[1][0][1].op == "ok" and y.a[1][0][1].a[0] in evs
                if not good and y.op == "agg" and shape_of(y) == "None":
                    good = an.reach([m for _, m, _ in an.edges_where(lambda t, v: t in evs and v == SOME)], [x]) is None
                c.ob(rule, an, "%s answers what is there" % op, good, rel(x.span), sig(y, an)[:160])
    ins = ops["get"].calls_to(r"HashMap::get$")
    # deletes
    an = c.an(one(c, r"map::Map(<.*>)?::deletes$"))
    hs = arg(an, 1)
    outs = an.calls_to(r"HashMap::remove$")
    outs = [e for e in outs if bucket(e.args[0]) is not None]
    c.floor(rule, an, "place where an entry is deleted", len(outs), 1)
    elem = lambda t: t.op == "elem" and (iter_sources(t.a[0]) or t.a[0]) is hs
    direct, grouped = [], {}
    for e in outs:
        i, k = bucket(e.args[0]), e.args[1]
        if elem(k):
            direct.append(e)
            shapes.add(shape(i, k))
            continue
        g = i.a[0] if i.op == "fld" and i.a[1] == "0" and i.a[0].op == "elem" else None
        ok = g is not None and k.op == "elem" and k.a[0] is fld(g, "1")
        c.ob(rule, an, "an entry is deleted from its bucket", ok, rel(e.span), "%s of %s" % (sig(k, an)[:120], sig(e.args[0], an)[:160]))
        if ok:
            grouped.setdefault(g.a[0], []).append(e)
    puts = []
    for g, evs in grouped.items():
        for a in [x for x in an.calls_to(r"Vec(Deque)?::push(_back)?$") if elem(x.args[-1])]:
            keys = [y.a[0] for y in an.alts(a.args[0]) if y.op == "slot"]
            for k in keys:
                if is_call(k, r"HashMap::entry$") and k.a[2][0] is g:
                    puts.append(a)
                    shapes.add(shape(k.a[2][1], a.args[-1]))
        inner, bad = forall(an, lambda t: t.op == "fld" and t.a[1] == "1" and t.a[0].op == "elem" and t.a[0].a[0] is g, evs)
        c.ob(rule, an, "every hash of a group is deleted", bool(inner) and not bad, rel(evs[0].span), "one is left out")
        rounds, bad = forall(an, lambda t: t is g, evs)
        heads = [n for n in an.events if n.kind == "next" and n.args[0] is g]
        some = [m for _, m, _ in an.edges_where(lambda t, v: v == SOME and any(t is n.term for n in heads))]
        p = an.reach(some, heads + an.exits(), edge_ok=lambda n, m, cs: (n, m) not in set(inner)) if inner else [an.start]
        c.nopath(rule, an, "every group is deleted", p, "one is left out")
        over = [(n, m) for n, m, _ in an.edges_where(lambda t, v: v == NONE and any(t is x.term for x in heads))]
        c.nopath(rule, an, "every group is deleted before it returns", an.reach([an.start], an.exits(), edge_ok=lambda n, m, cs: (n, m) not in set(over)),
                 "it returns earlier")
    done, bad = forall(an, lambda t: t is hs, direct + puts)
    c.nopath(rule, an, "every hash is deleted", unfinished(an, done, [an.start], an.exits()) if done else (bad[0][1] if bad else None) or [an.start],
             "one can be left out")
    c.ob(rule, an, "every operation looks in the same bucket", len(shapes) == 1, "", " / ".join(sorted(shapes))[:300])
    # all of them
    an = c.an(one(c, r"map::Map(<.*>)?::clear$"))
    evs = [e for e in an.calls_to(r"HashMap::clear$") if bucket(e.args[0]) == "each"]
    done, bad = forall(an, lambda t: is_path(t, SELF, "buckets"), evs)
    c.nopath(rule, an, "clear empties every bucket", unfinished(an, done, [an.start], an.exits()) if done else [an.start], "one is left")
    an = c.an(one(c, r"map::Map(<.*>)?::len$"))
    evs = [e for e in an.calls_to(r"HashMap::len$") if bucket(e.args[0]) == "each"]
    done, bad = forall(an, lambda t: is_path(t, SELF, "buckets"), evs)
    total = lambda t: is_call(t, r"::sum$") and t.a[2][0].op == "agg" and shape_of(t.a[2][0]) == "Map" and is_path(field(t.a[2][0], "i"), SELF, "buckets")
    if not all(total(y) for x in an.exits() for y in an.alts(x.val)):
        c.nopath(rule, an, "len looks at every bucket", unfinished(an, done, [an.start], an.exits()) if done else [an.start], "one is left")
    ls = {e.term for e in evs}
    for x in an.exits():
        for y in an.alts(x.val):
            s = addends(y)
            good = y.op == "int" and y.a[0] == 0 or total(y) or s is not None and any(a in ls for a in s)
            c.ob(rule, an, "len is their sum", good, rel(x.span), sig(y, an)[:160])
    an = c.an(one(c, r"map::Map(<.*>)?::new$"))
    sizes = []
    for e in an.exits():
        for t in an.alts(e.val):
            b = field(t, "buckets") if t.op == "agg" else None
            for a in additions(an, b) if b is not None and b.op == "new" else []:
                for n in an.events:
                    if n.kind == "next" and n.args[0].op == "agg" and n.args[0].a[0].endswith("Range"):
                        lo, hi = field(n.args[0], "start"), field(n.args[0], "end")
                        done, bad = forall(an, lambda t, r=n.args[0]: t is r, [a])
                        if done and lo.op == hi.op == "int":
                            sizes.append(hi.a[0] - lo.a[0])
    i = bucket(ops["insert"].calls_to(r"HashMap::insert$")[0].args[0])
    top = most(i) if i is not None and i != "each" else None
    c.ob(rule, an, "there is a bucket for every hash", bool(sizes) and top is not None and min(sizes) > top, "", "%s buckets, largest index %s" % (sizes, top))


def shape_of(t):
    return re.split(r"::", t.a[0])[-1]


def role(an, e, loads):
    """how the queue of a push or pop follows from the flag: (load term, {True: queue, False: queue})"""
    q = e.args[0]
    for l in loads:
        got = {}
        for v in (True, False):
            starts = [m for _, m, cs in an.edges_where(lambda t, x: t is l and x is v)]
            got[v] = {a for a in an.alts(q) if an.chosen(q, a, starts, [e]) is not None}
        if all(len(x) == 1 for x in got.values()):
            a, b = (next(iter(got[v])) for v in (True, False))
            if a is not b:
                return l, {True: last(a), False: last(b)}
    return None, None


def last(t):
    if t.op == "ref":
        p = t.a
        while isinstance(p, tuple) and isinstance(p[-1], tuple) and p[-1]:
            p = p[-1]
        return p[-1] if isinstance(p, tuple) else str(p)
    return t.a[1] if t.op == "fld" else sig(t)


def flips(an, name):
    return [e for e in an.events if e.kind == "call" and re.search(r"Atomic\w+::%s$" % name, e.q or "")]


def kept(c):
    """a transaction that enters is in the table and in a queue, or in neither; the roles of the queues"""
    rule = "M03.queue"
    ways = {}
    for m in ("insert_new_tx", "insert_propose_tx"):
        an = c.an(one(c, r"TxCache::%s$" % m), stop=MAP)
        tx = arg(an, 1)
        ins = [e for e in an.calls_to(r"map::Map::insert$") if is_path(e.args[0], SELF, "map")]
        push = an.calls_to(r"ArrayQueue::push$")
        c.floor(rule, an, "entry in the table", len(ins), 1)
        c.floor(rule, an, "entry in a queue", len(push), 1)
        new = lambda t, v: v == NONE and any(t is e.term for e in ins)
        put = lambda t, v: v == OK and any(t is e.term for e in push)
        for e in ins:
            c.ob(rule, an, "it is entered under its hash, as it is, not removed", fld(tx, "tx_hash") is e.args[1] and all(
                field(x, "tx") is tx and flag(field(x, "removed"), 0) and flag(field(x, "proposed"), 1 if m == "insert_propose_tx" else 0)
                for x in an.alts(e.args[2])), rel(e.span), sig(e.args[2], an)[:160])
        for e in push:
            c.ob(rule, an, "what is queued is what is in the table", all(e.args[1] is x.args[2] for x in ins), rel(e.span), sig(e.args[1], an)[:160])
        c.nopath(rule, an, "one that is there is not queued again", an.guarded(push, new), "it is queued twice")
        c.nopath(rule, an, "success means it is in the table", an.guarded(an.ok_exits(), new), "success without it")
        c.nopath(rule, an, "success means it is in a queue", an.guarded(an.ok_exits(), put), "success without it")
        c.nopath(rule, an, "it is queued once", an.reach(push, push), "it is queued twice")
        full = [m for _, m, _ in an.edges_where(lambda t, v: v == ERR and any(t is e.term for e in push))]
        gone = [e for e in an.calls_to(r"map::Map::(remove|deletes)$") if is_path(e.args[0], SELF, "map") and e.args[1] is fld(tx, "tx_hash")]
        c.nopath(rule, an, "what cannot be queued does not stay in the table", an.reach([m for m in full if m not in {g.id for g in gone}], an.exits(),
                 avoid=gone) if full else [an.start], "it stays there for good")
        c.nopath(rule, an, "what is queued stays in the table", an.reach([m for _, m, _ in an.edges_where(put)],
                 [e for e in an.calls_to(r"map::Map::(remove|deletes|clear)$")]), "it is taken out again")
        count = lambda e: is_path(e.args[0], SELF, "concurrent_count") and e.args[1].op == "int" and e.args[1].a[0] == 1
        up = [e for e in flips(an, "fetch_add") if count(e)]
        down = [e for e in flips(an, "fetch_sub") if count(e)]
        loads = [e for e in flips(an, "load") if is_path(e.args[0], SELF, "is_zero")]
        c.floor(rule, an, "look at the role of the queues", len(loads), 1)
        c.nopath(rule, an, "an insertion is announced before it looks for its queue", an.before(up, loads), "packaging does not wait for it")
        c.nopath(rule, an, "the announcement stands until it is queued", an.reach(down, push, avoid=up), "packaging does not wait for it")
        c.nopath(rule, an, "the announcement is always taken back", an.reach(up, an.exits() + up, avoid=down), "packaging waits for ever")
        c.nopath(rule, an, "the announcement is taken back once", an.before(up, down) or an.reach(down, down, avoid=up), "the count is wrong")
        for e in push:
            l, w = role(an, e, [x.term for x in loads])
            c.ob(rule, an, "the flag decides the queue", w is not None, rel(e.span), sig(e.args[0], an))
            if w:
                ways[m] = w
    return ways


def emptied(c):
    rule = "M03.flush"
    an = c.an(pool(c, "flush"), stop=MAP)
    hs = arg(an, 2)
    t = lambda x: is_path(x, SELF, "tx_cache", "map")
    elem = lambda x: x.op == "elem" and (iter_sources(x.a[0]) or x.a[0]) is hs
    gets = [e for e in an.calls_to(r"map::Map::get$") if t(e.args[0]) and elem(e.args[1])]
    dels = [e for e in an.calls_to(r"map::Map::deletes$") if t(e.args[0]) and e.args[1] is hs]
    rem = [e for e in an.calls_to(r"map::Map::remove$") if t(e.args[0]) and elem(e.args[1])]
    marks = [e for e in flips(an, "store") if e.args[0].op == "fld" and e.args[0].a[1] == "removed" and e.args[0].a[0].op == "ok" and
             any(e.args[0].a[0].a[0] is g.term for g in gets) and e.args[1].op == "int" and e.args[1].a[0] == 1]
    some = [m for _, m, _ in an.edges_where(lambda x, v: v == SOME and any(x is g.term for g in gets))]
    nexts = [e for e in an.events if e.kind == "next"]
    c.floor(rule, an, "place where a committed transaction is marked", len(marks), 1)
    c.nopath(rule, an, "one that is in the pool is marked as removed", an.reach([m for m in some if m not in {e.id for e in marks}], nexts + an.exits(),
             avoid=marks) if some else [an.start], "it stays in the queue")
    done, bad = forall(an, lambda x: x is hs, gets)
    c.nopath(rule, an, "every committed transaction is looked up", unfinished(an, done, [an.start], an.ok_exits()) if done else [an.start],
             "one is left out")
    if dels:
        c.nopath(rule, an, "they are marked before they leave the table", an.reach(dels, gets), "they are deleted before they are marked")
        c.nopath(rule, an, "every one leaves the table", an.before(dels, an.ok_exits()), "they stay in the table")
    else:
        done, bad = forall(an, lambda x: x is hs, rem)
        c.nopath(rule, an, "every one leaves the table", unfinished(an, done, [an.start], an.ok_exits()) if done else [an.start], "they stay in the table")
    other = [e for e in an.calls_to(r"map::Map::(deletes|remove|clear|insert)$") if e not in dels and e not in rem]
    for e in other:
        c.ob(rule, an, "only they leave the table", is_path(e.args[0], SELF, "callback_cache") and e.q.endswith("clear"), rel(e.span), e.q)
    c.nopath(rule, an, "transactions pulled for this epoch are dropped",
             an.before([e for e in other if e.q.endswith("clear")], an.ok_exits()), "they pile up")


def rounds(an, is_coll, good):
    """the edges that leave a loop over a collection every round of which crosses an edge on which good holds"""
    heads = {}
    for e in an.events:
        if e.kind == "next" and is_coll(iter_sources(e.args[0]) or e.args[0]):
            heads.setdefault(e.args[0], []).append(e)
    ok = {(a, b) for a, b, _ in an.edges_where(good)}
    out = set()
    for hs in heads.values():
        ts = {h.term for h in hs}
        some = [m for _, m, _ in an.edges_where(lambda t, v: t in ts and v == SOME)]
        if some and an.reach(some, hs + an.ok_exits(), edge_ok=lambda a, b, cs: (a, b) not in ok) is None:
            out |= {(a, b) for a, b, _ in an.edges_where(lambda t, v: t in ts and v == NONE)}
    return out


def found(t, an, own):
    """t is what the pool holds under a hash that own accepts"""
    if t.op == "fld" and t.a[1] == "tx":
        return found1(t.a[0], own, ("tx_cache", "map"))
    return found1(t, own, ("callback_cache",))


def found1(t, own, names):
    if t.op != "ok" or not is_call(t.a[0], r"map::Map::get$"):
        return False
    at, h = t.a[0].a[2]
    for n in reversed(names):
        if at.op != "fld" or at.a[1] != n:
            return False
        at = at.a[0]
    return own(h)


def given(c):
    rule = "M03.given"
    an = c.an(pool(c, "get_full_txs"), stop=MAP)
    hs = arg(an, 2)
    handed(c, rule, an, lambda t: t is hs, [(x, y.a[1][0][1]) for x in an.ok_exits() for y in an.alts(x.val) if y.op == "agg" and shape_of(y) == "Ok"])
    # the same for another node
    an = c.an(one(c, r"PullTxsHandler.*MessageHandler>::process$"), stop=MAP)
    msg = arg(an, 2)
    out = an.calls_to(r"Rpc::response$")
    c.floor(rule, an, "answer to another node", len(out), 1)
    ctx = arg(an, 1)
    vals = []
    for e in out:
        c.ob(rule, an, "it goes where a call for transactions is answered", e.args[1] is ctx and e.args[2].op == "str" and
             e.args[2].a[0] == "/rpc_resp/mempool/pull_txs", rel(e.span), sig(e.args[2], an))
        for y in an.alts(e.args[3]):
            vals.append((e, y.a[1][0][1] if y.op == "agg" and len(y.a[1]) == 1 else y))
    handed(c, rule, an, lambda t: t.op == "fld" and t.a[0] is msg, vals)
    c.nopath(rule, an, "success means it was answered", an.before(out, [x for x in an.exits() if x not in an.err_exits()]), "no answer")
    # unknown ones
    for m in ("ensure_order_txs", "sync_propose_txs"):
        an = c.an(pool(c, m), stop=MAP)
        hs = arg(an, 2)
        call = an.calls_to(r"Rpc::call$")
        mine = lambda t: t is hs
        known = lambda t, v: v is True and is_call(t, r"map::Map::contains_key$") and is_path(t.a[2][0], SELF, "tx_cache", "map") and t.a[2][1].op == "elem"
        asked = set()
        for e in call:
            c.ob(rule, an, "another node is asked where transactions are given out", e.args[2].op == "str" and
                 e.args[2].a[0] == "/rpc_call/mempool/pull_txs", rel(e.span), sig(e.args[2], an))
            for y in an.alts(e.args[3]):
                asked.add(y.a[1][0][1] if y.op == "agg" and len(y.a[1]) == 1 else y)
        for u in asked:
            seqmap(c, rule, an, "the hashes that are asked for", u, mine, lambda t: t.op == "elem" and (iter_sources(t.a[0]) or t.a[0]) is hs, skip=known,
                   ordered=False)
        none = lambda t, v: v is True and is_call(t, r"::is_empty$") and t.a[2][0] in asked or \
            v is True and t.op == "bin" and t.a[0] == "Eq" and any(is_call(x, r"::len$") and x.a[2][0] in asked for x in t.a[1:]) and \
            any(x.op == "int" and x.a[0] == 0 for x in t.a[1:])
        c.nopath(rule, an, "if one is unknown another node is asked", an.reach([an.start], an.ok_exits(), avoid=call,
                 edge_ok=lambda n, m, cs: not any(none(t, v) for t, v in cs)), "success with unknown transactions")
        p = [m for _, m, _ in an.edges_where(lambda t, v: v == ERR and any(t is e.term for e in call))]
        c.nopath(rule, an, "no answer is no success", an.reach(p, an.ok_exits()), "success without an answer")
        ans = lambda t: t.op == "fld" and t.a[0].op == "ok" and any(t.a[0].a[0] is e.term for e in call)
        ins = an.calls_to(r"map::Map::insert$")
        if m == "ensure_order_txs":
            have = lambda t, v: v is True and is_call(t, r"map::Map::contains_key$") and is_path(t.a[2][0], SELF, "callback_cache") and \
                t.a[2][1].op == "elem" and (iter_sources(t.a[2][1].a[0]) or t.a[2][1].a[0]) in asked or \
                v == SOME and is_call(t, r"map::Map::get$") and is_path(t.a[2][0], SELF, "callback_cache") and \
                t.a[2][1].op == "elem" and (iter_sources(t.a[2][1].a[0]) or t.a[2][1].a[0]) in asked
            done = rounds(an, lambda t: t in asked, have)
            c.nopath(rule, an, "success means every one that was unknown is in the pool now", an.reach(call, an.ok_exits(),
                     edge_ok=lambda n, m, cs: (n, m) not in done), "success although one is missing")
        done, bad = forall(an, ans, ins)
        c.nopath(rule, an, "every answered transaction is kept", unfinished(an, done, call, an.ok_exits()) if done else [an.start], "one is dropped")


def handed(c, rule, an, is_src, vals):
    own = lambda h: h.op == "elem" and is_src(iter_sources(h.a[0]) or h.a[0])
    c.floor(rule, an, "list that is handed out", len(vals), 1)
    held = lambda t, v: v == SOME and is_call(t, r"map::Map::get$") and own(t.a[2][1])
    for at, coll in vals:
        adds = additions(an, coll) if coll.op == "new" else []
        c.ob(rule, an, "what is handed out comes from the pool, under the requested hashes", bool(adds) and all(
            found(x, an, own) for a in adds for x in an.alts(a.args[-1])), rel(at.span), sig(coll, an)[:160])
        hits = [m for _, m, _ in an.edges_where(held)]
        nexts = [n for n in an.events if n.kind == "next" and is_src(iter_sources(n.args[0]) or n.args[0])]
        ids = {a.id for a in adds}
        c.nopath(rule, an, "one that is found is handed out", an.reach([m for m in hits if m not in ids], nexts + [at], avoid=adds) if hits else [an.start],
                 "it is left out")
        c.nopath(rule, an, "it is handed out once", an.reach(adds, adds, avoid=nexts), "it is handed out twice")
        miss = [e for e in an.calls_to(r"map::Map::get$")]
        some = [m for _, m, _ in an.edges_where(lambda t, v: v == SOME and any(t is n.term for n in nexts))]
        for names in (("tx_cache", "map"), ("callback_cache",)):
            look = [e for e in miss if found1(mk("ok", e.term), own, names)]
            c.nopath(rule, an, "every requested one is looked up in the %s" % names[0].replace("_", " "),
                     an.reach([m for m in some if m not in {e.id for e in look}], nexts + [at], avoid=look,
                              edge_ok=lambda n, m, cs: not any(held(t, v) for t, v in cs)) if look else [an.start], "it is not")
        size = lambda t, x: is_call(t, r"::len$") and x(t.a[2][0])
        eq = same(lambda t: size(t, lambda y: y is coll), lambda t: size(t, is_src))
        full = rounds(an, is_src, held)
        p = an.guarded([at], eq)
        if p is not None and full:
            p = an.reach([an.start], [at], edge_ok=lambda n, m, cs: (n, m) not in full)
        c.nopath(rule, an, "all are handed out, or none", p, "some can be missing", rel(at.span))


def m03(c):
    table(c)
    kept(c)
    emptied(c)
    given(c)


# ------------------------------------------------------------------ M04: what is packaged

def m04(c):
    ways = kept(c)
    rule = "M04.package"
    an = c.an(pool(c, "package"), stop=MAP)
    limit = lambda t: t is arg(an, 2)
    now = lambda t: is_path(t, latest, "header", "epoch_id")
    gap = lambda t: is_path(t, SELF, "timeout_gap")
    till = summed(now, gap)
    cache = lambda t, n: is_path(t, SELF, "tx_cache", n)
    way = ways.get("insert_new_tx")
    if not way or ways.get("insert_propose_tx") != way:
        c.ob(rule, an, "every transaction is queued where packaging looks", False, "", str(ways))
        return
    loads = []
    for e in flips(an, "load"):
        if cache(e.args[0], "is_zero") and e.term not in loads:
            loads.append(e.term)
    xor = [e for e in flips(an, "fetch_xor") if cache(e.args[0], "is_zero") and e.args[1].op == "int" and e.args[1].a[0] == 1]
    first = {l for l in loads if an.reach([an.start], [e for e in an.events if e.term is l], avoid=xor) is not None}
    seen = an.reach_set([an.start])
    pops = [e for e in an.calls_to(r"ArrayQueue::pop$") if e.id in seen]
    drain = [e for e in pops if an.before(xor, [e]) is None]
    main = [e for e in pops if e not in drain]
    c.floor(rule, an, "place where the next transaction is taken", len(main), 1)
    c.floor(rule, an, "place where the roles of the queues change", len(xor), 1)
    c.floor(rule, an, "place where late transactions are taken over", len(drain), 1)
    opp = {True: way[False], False: way[True]}
    for e in main:
        l, w = role(an, e, loads)
        c.ob(rule, an, "transactions are taken from the queue they enter", l in first and w == way, rel(e.span), "%s / %s" % (w, way))
    terms = {e.term for e in main}
    tx = lambda t: t.op == "ok" and t.a[0] in terms
    own = lambda *n: (lambda t: is_path(t, tx, *n))
    hash_ = own("tx", "tx_hash")
    got = [m for _, m, _ in an.edges_where(lambda t, v: v == OK and t in terms)]
    keep = [e for e in an.calls_to(r"ArrayQueue::push$") if tx(e.args[1])]
    c.floor(rule, an, "place where a transaction is kept", len(keep), 1)
    for e in keep:
        l, w = role(an, e, loads)
        c.ob(rule, an, "it is kept in the other queue", l in first and w == opp, rel(e.span), "%s / %s" % (w, opp))
    # what is dropped
    gone = lambda v: (lambda t, x: x is v and is_call(t, r"AtomicBool::load$") and own("removed")(t.a[2][0]))
    out = own("tx", "raw", "timeout")
    early = below(now, out)          # now < timeout
    late = below(out, till, False)   # timeout <= now + gap
    expired = lambda t, v: below(out, now, False)(t, v) or below(till, out)(t, v)
    lists = {"order_tx_hashes": [], "propose_tx_hashes": []}
    for x in an.ok_exits():
        for y in an.alts(x.val):
            r = y.a[1][0][1] if y.op == "agg" and len(y.a[1]) == 1 else y
            for f in lists:
                t = field(r, f) if r.op == "agg" else None
                c.ob(rule, an, "the result is made of the two lists", t is not None and t.op == "new", rel(x.span), sig(y, an)[:160])
                if t is not None and t not in lists[f]:
                    lists[f].append(t)
    if not all(len(v) == 1 for v in lists.values()):
        c.ob(rule, an, "there is one list of each kind", False, "", str({k: len(v) for k, v in lists.items()}))
        return
    order, prop = lists["order_tx_hashes"][0], lists["propose_tx_hashes"][0]
    c.ob(rule, an, "the two lists are different", order is not prop, "", "")
    oadd, padd = additions(an, order), additions(an, prop)
    c.floor(rule, an, "place where a transaction is ordered", len(oadd), 1)
    c.floor(rule, an, "place where a transaction is proposed", len(padd), 1)
    report = oadd + padd
    for e in report:
        c.ob(rule, an, "what is reported is the hash of the transaction that was taken", hash_(e.args[-1]), rel(e.span), sig(e.args[-1], an)[:120])
    for t, adds in ((order, oadd), (prop, padd)):
        for e in tampered(an, t, adds):
            c.ob(rule, an, "what is reported stays reported", False, rel(e.span), e.q)
    dels = [e for e in an.calls_to(r"map::Map::(deletes|remove)$") if cache(e.args[0], "map")]
    dead = [e for e in an.calls_to(r"Vec(Deque)?::push(_back)?$") if e not in report and hash_(e.args[-1]) and
            any(e.args[0] is d.args[1] for d in dels)] + [d for d in dels if hash_(d.args[1])]
    other = [e for e in dels if not (hash_(e.args[1]) or all(a in dead for a in additions(an, e.args[1])))]
    for e in other:
        c.ob(rule, an, "only expired transactions leave the pool", False, rel(e.span), sig(e.args[1], an)[:120])
    nxt = main + xor + an.ok_exits()
    ids = lambda xs: {x.id for x in xs}
    use = keep + report
    c.nopath(rule, an, "a transaction is kept, unless it was removed or has expired",
             an.reach([m for m in got if m not in ids(keep + dead)], nxt, avoid=keep + dead,
                      edge_ok=lambda n, m, cs: not any(gone(True)(t, v) for t, v in cs)), "one is lost")
    for n, cond in (("has not been removed", gone(False)), ("has not expired", early), ("does not expire too late", late)):
        c.nopath(rule, an, "a transaction is used only if it %s" % n,
                 an.reach(main, use, avoid=[], edge_ok=lambda a, b, cs: not any(cond(t, v) for t, v in cs) and b not in ids(main)), "it is not looked at")
    c.nopath(rule, an, "a transaction is dropped only if it has expired",
             an.reach(main, dead, edge_ok=lambda a, b, cs: not any(expired(t, v) for t, v in cs) and b not in ids(main)), "another one is dropped")
    whole = [d for d in dels if not hash_(d.args[1])]
    if whole:
        c.nopath(rule, an, "what is dropped leaves the table", an.reach(dead, an.ok_exits(), avoid=whole), "it stays in the table")
        c.nopath(rule, an, "nothing is dropped after the table is updated", an.reach(whole, [e for e in dead if e not in dels]), "it stays in the table")
    c.nopath(rule, an, "a transaction is kept before it is reported", an.reach(main, report, avoid=keep + [], edge_ok=lambda a, b, cs: b not in ids(main)),
             "it is reported and lost")
    stuck = [m for _, m, _ in an.edges_where(lambda t, v: v == ERR and any(t is e.term for e in keep))]
    c.nopath(rule, an, "one that cannot be kept is not reported", an.reach(stuck, an.ok_exits() + report), "it is reported and lost")
    c.nopath(rule, an, "a transaction is kept once", an.reach(keep, keep, avoid=main), "it is kept twice")
    c.nopath(rule, an, "a transaction is reported once", an.reach(report, report, avoid=main), "it is reported twice")
    # the cycle limit
    fee = own("tx", "raw", "fee", "cycle")
    sums = set()

    def within(t, v):
        """the sum stays within the limit"""
        if not below(lambda x: True, limit, False)(t, v):
            return False
        x = t.a[2] if limit(t.a[1]) else t.a[1]
        return all(total(y) for y in an.alts(x))

    def beyond(t, v):
        return below(limit, lambda x: all(total(y) for y in an.alts(x)))(t, v)

    def total(y):
        s = addends(y)
        if s is None or not any(fee(x) for x in s):
            return False
        sums.add(y)
        return True
    fits = {(n, m) for n, m, _ in an.edges_where(within)}
    over = {(n, m) for n, m, _ in an.edges_where(beyond)}
    c.floor(rule, an, "comparison with the cycle limit", len(fits), 1)
    for e in oadd:
        p = an.reach(main, [e], edge_ok=lambda a, b, cs: (a, b) not in fits and b not in ids(main))
        c.nopath(rule, an, "a transaction is ordered only if the sum with it stays within the limit", p, "the limit is not looked at", rel(e.span))
    live = an.reach_set([an.start], edge_ok=lambda a, b, cs: (a, b) not in over)
    accs = set()
    for n, m, cs in an.edges_where(within):
        if n not in live:
            continue
        for t, v in cs:
            if not within(t, v):
                continue
            x = t.a[2] if limit(t.a[1]) else t.a[1]
            for y in an.alts(x):
                s = addends(y)
                c.ob(rule, an, "the sum cannot wrap around", not wraps(y), "", "%s" % sig(y, an)[:160])
                acc = s[1] if fee(s[0]) else s[0]
                if acc.op == "int":
                    c.ob(rule, an, "the sum starts at nothing", acc.a[0] == 0, "", sig(y, an)[:160])
                    c.nopath(rule, an, "the sum is not started again", an.reach(oadd, oadd) if x is y else an.chosen(x, y, oadd, oadd), "the limit is passed")
                    continue
                accs.add(acc)
    for acc in accs:
        for y in an.alts(acc):
            s = addends(y)
            good = y.op == "int" and y.a[0] == 0 or s is not None and any(fee(x) for x in s) and all(fee(x) or x in accs or
                   all(z.op == "int" and z.a[0] == 0 or addends(z) is not None for z in an.alts(x)) for x in s)
            c.ob(rule, an, "what is compared is the sum of what is ordered", good, "", sig(y, an)[:200])
            if y.op == "int":
                c.nopath(rule, an, "the sum is not started again", an.chosen(acc, y, oadd, oadd), "the limit is passed")
    c.nopath(rule, an, "once the limit is reached nothing more is ordered", an.reach([m for _, m in over], oadd), "one that fits jumps the queue")
    c.nopath(rule, an, "once one is proposed nothing more is ordered", an.reach(padd, oadd), "one that fits jumps the queue")
    inside = [e for e in keep if e.id in live]
    c.nopath(rule, an, "until the limit is reached every one is ordered", an.reach(inside, [x for x in nxt if x.id in live], avoid=oadd,
             edge_ok=lambda a, b, cs: (a, b) not in over), "one is passed over")
    # the change of roles
    none = lambda t, v: v == ERR and t in terms
    c.nopath(rule, an, "the roles change only when everything was looked at", an.guarded(xor, none), "the rest waits for the next round")
    c.nopath(rule, an, "the roles change before success", an.before(xor, an.ok_exits()), "what was kept is not found again")
    c.nopath(rule, an, "the roles change once", an.reach(xor, xor), "they change back")
    idle = lambda t, v: t.op == "bin" and t.a[0] == "Eq" and v is True and any(is_call(x, r"Atomic\w+::load$") and cache(x.a[2][0], "concurrent_count")
                                                                            for x in t.a[1:]) and any(x.op == "int" and x.a[0] == 0 for x in t.a[1:])
    c.nopath(rule, an, "late transactions are taken over when no insertion is under way", an.guarded_after(xor, drain, idle), "one can be missed")
    dt = {e.term for e in drain}
    c.nopath(rule, an, "all late transactions are taken over", an.guarded_after(xor, an.ok_exits(), lambda t, v: v == ERR and t in dt), "one is left")
    move = [e for e in an.calls_to(r"ArrayQueue::push$") if e.args[1].op == "ok" and e.args[1].a[0] in dt]
    for e, back in [(e, True) for e in drain] + [(e, False) for e in move]:
        l, w = role(an, e, loads)
        new = l is not None and l not in first
        want = (opp if back else way) if new else (way if back else opp)
        c.ob(rule, an, "late transactions go where the next round looks", w == want, rel(e.span), "%s / %s" % (w, want))
    c.nopath(rule, an, "a late transaction is kept", an.reach([m for _, m, _ in an.edges_where(lambda t, v: v == OK and t in dt) if m not in ids(move)],
             drain + an.ok_exits(), avoid=move), "it is lost")


CHECKS = {
    "M03": ("The pool keeps and gives back", CRATES, m03),
    "M04": ("Packaging fits the cycle limit", CRATES, m04),
    "M02": ("Only verified transactions enter the pool", CRATES, m02),
}
