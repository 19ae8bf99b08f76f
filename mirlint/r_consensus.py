"""The part of consensus that is this project's own: what is proposed, checked and committed, synchronisation, messages."""
import re

from .core import Anchor, mk
from .rules import (aborts, has_rev, P, SELF, additions, checked, expand, field, fld, forall, is_call, iter_sources, rel, root_of, seqmap, sig, tampered,
                    unfinished, uses_after)
from .r_mempool import ERR, NONE, OK, SOME, addends, arg, below, flag, is_path, one as one_of, same, shape_of

CR = "core_consensus"
CRATES = {"core_consensus", "core_network", "common_merkle", "protocol"}
STATUS = "current_consensus_status"
EFFECT = (r"Storage::(update_latest_proof|insert_\w+)$", r"MemPool::flush$", r"Executor::exec$", r"Gossip::(broadcast|users_cast)$",
          r"Overlord\w*::send_msg$")


def engine(c, m):
    return c.db.trait_impl("overlord::Consensus", m, crate=CR)


def consensus(c, m):
    return c.db.trait_impl("protocol::traits::consensus::Consensus", m, crate=CR)


def answer(t, rx, *args):
    """t is what a successful call of rx gave back; the arguments (from the second on) satisfy the predicates"""
    return t.op == "ok" and called(t.a[0], rx, *args)


def called(t, rx, *args):
    return is_call(t, rx) and len(t.a[2]) > len(args) and all(p is None or p(x) for p, x in zip(args, t.a[2][1:]))


def one_more(p):
    def ok(t):
        s = addends(t)
        if s is None:
            return False
        a, b = s
        return any(p(x) and y.op == "int" and y.a[0] == 1 for x, y in ((a, b), (b, a)))
    return ok


def digest(p):
    """the hash of the fixed encoding of what p accepts"""
    return lambda t: is_call(t, r"Hash::digest$") and answer0(t.a[2][0], r"encode_fixed$", p)


def answer0(t, rx, p):
    return t.op == "ok" and is_call(t.a[0], rx) and p(t.a[0].a[2][0])


def tree(p):
    """the merkle root of the list p accepts, when there is one"""
    return lambda t: is_call(t, r"Merkle::get_root_hash$") and is_call(t.a[2][0], r"Merkle::from_hashes$") and p(t.a[2][0].a[2][0])


def root(an, p):
    """t is the merkle root of the list, or the empty hash when the list has none"""
    def ok(t):
        return t.op == "ok" and tree(p)(t.a[0]) or is_call(t, r"Hash::from_empty$")
    return lambda t: all(ok(x) for x in an.alts(t)) and any(x.op == "ok" for x in an.alts(t)) or ok(t)


def held(an, lock):
    """edges on which the lock is known to be held"""
    ts = {e.term for e in an.calls_to(r"Mutex::(try_lock|lock)$") if lock(e.args[0])}
    return ts, (lambda t, v: v == SOME and t in ts)


def locked(c, rule, an, lock, effects, what):
    ts, cond = held(an, lock)
    waits = [e for e in an.events if e.kind == "await" and e.term in ts]
    c.floor(rule, an, "place where %s is taken" % what, len(ts), 1)
    p = an.guarded(effects, cond)
    if p is not None and waits:
        p = an.before(waits, effects)
    c.nopath(rule, an, "nothing is done without %s" % what, p, "an effect without it")
    offs = [e for e in an.events if e.kind == "unlock" and re.search(r"mutex::MutexGuard", e.q or "")]
    got = [m for _, m, _ in an.edges_where(cond)] or [an.start]
    offs = [e for e in offs if e.term is None or e.term in ts or not any(e.term is x for x in locks_of(an) - ts)]
    offs += [e for e in an.calls_to(r"mem::drop$") if has(an, e.args[0], lambda t: t in ts)]
    c.nopath(rule, an, "%s is kept until everything is done" % what, an.reach([e for e in offs if an.reach(got, [e]) is not None], effects),
             "an effect after it was given back")


def locks_of(an):
    return {e.term for e in an.calls_to(r"Mutex::(try_lock|lock)$")}


def effects(an):
    out = [e for rx in EFFECT for e in an.calls_to(rx)]
    return out + status_writes(an)


def status_writes(an):
    return [e for e in an.events if e.kind == "write" and e.term is not None and in_status(e.term)]


def in_status(t):
    while t.op == "fld":
        if t.a[1] == STATUS:
            return True
        t = t.a[0]
    return False


def of_status(t, *names):
    """t is a field of the status, as it was when it was last read"""
    for n in reversed(names):
        if t.op != "fld" or t.a[1] != n:
            return False
        t = t.a[0]
    return t.op == "fld" and t.a[1] == STATUS


def single(an, t, p):
    """a list of one entry, which p accepts"""
    if t.op == "new":
        adds = additions(an, t)
        if not adds and an.boxed.get(t) == 1:
            return bool(an.pushes.get(t)) and all(p(x) for x in an.pushes[t])
        return not an.boxed.get(t) and len(adds) == 1 and p(adds[0].args[-1]) and an.reach(adds, adds) is None
    return t.op == "agg" and len(t.a[1]) == 1 and p(t.a[1][0][1])


def taken_over(c, rule, an, epoch_id, epoch, proof, resp, txs, start, end, cut=()):
    """a block that was executed is recorded, then the status moves to it, completely"""
    hashes = lambda t: t.op == "fld" and t.a[1] == "ordered_tx_hashes" and epoch(t.a[0])
    saved = []
    for rx, what, p in ((r"Storage::insert_receipts$", "receipts", lambda t: t.op == "fld" and t.a[1] == "receipts" and resp(t.a[0])),
                        (r"Storage::insert_transactions$", "transactions", txs), (r"Storage::insert_epoch$", "block", epoch)):
        cs = an.calls_to(rx)
        c.floor(rule, an, "place where the %s are saved" % what, len(cs), 1)
        for e in cs:
            c.ob(rule, an, "the %s that are saved are those of this block" % what, p(e.args[1]), rel(e.span), sig(e.args[1], an)[:200])
        saved.append((what, cs))
    ws = status_writes(an)
    for what, cs in saved:
        ids = {e.term for e in cs}
        c.nopath(rule, an, "the status moves after the %s are saved" % what, an.reach(start, ws + end, edge_ok=lambda n, m, k: not any(
            v == OK and t in ids for t, v in k)), "it moves before, or without")
    want = {
        "epoch_id": one_more(epoch_id),
        "prev_hash": digest(epoch),
        "proof": proof,
        "state_root": lambda t: t.op == "fld" and t.a[1] == "state_root" and resp(t.a[0]),
        "order_root": root(an, hashes),
        "confirm_root": lambda t: single(an, t, root(an, hashes)),
        "receipt_root": lambda t: single(an, t, root(an, lambda l: digests(an, l, resp))),
    }
    for e in ws:
        n = e.term.a[1] if e.term.op == "fld" else None
        if n == STATUS and e.val is not None and e.val.op == "agg":
            for f, v in e.val.a[1]:
                c.ob(rule, an, "the status takes over the new %s" % f, f in want and want[f](v) or of_status(v, f), rel(e.span), sig(v, an)[:200])
            continue
        vals = an.alts(e.val)
        c.ob(rule, an, "the status takes over the new %s" % n, n in want and all(want[n](v) for v in vals), rel(e.span), sig(e.val, an)[:200])
    for n in want:
        mine = [e for e in ws if e.term.op == "fld" and (e.term.a[1] == n or e.term.a[1] == STATUS)]
        c.nopath(rule, an, "success means the status has the new %s" % n, an.reach(start, end, avoid=mine), "it keeps the old one")
    # the empty root only when there is none
    empty = an.calls_to(r"Hash::from_empty$")
    every = lambda t: tree(lambda l: hashes(l) or digests(an, l, resp))(t)
    for e in empty:
        c.nopath(rule, an, "the empty root is for an empty list", an.reach(start, [e], avoid=cut, edge_ok=lambda a, b, k: not any(
            x == NONE and every(t) for t, x in k)), "it is used although there is one", rel(e.span))
    offs = [e for e in an.events if e.kind == "unlock" and re.search("RwLock", e.q or "")]
    mid = [e for e in offs if an.reach(ws, [e]) is not None] + [e for e in an.events if e.kind == "await"]
    heads = [e for e in ws]
    first = {e.term.a[1] for e in ws if e.term.op == "fld"}
    bad = None
    for w in heads:
        off = [o for o in mid if an.reach([w], [o], avoid=cut) is not None]
        p = an.reach(off, [x for x in heads if x.term.a[1] != w.term.a[1]], avoid=cut)
        bad = bad or p
    c.ob(rule, an, "there is something to take over", bool(first), "", "")
    c.nopath(rule, an, "the status moves in one step", bad, "others can see half of it")


def digests(an, l, resp):
    """the list of the hashes of the receipts"""
    if l.op != "new":
        return False
    adds = additions(an, l)
    src = lambda t: t.op == "fld" and t.a[1] == "receipts" and resp(t.a[0])
    if not adds or tampered(an, l, adds, True) or any(has_rev(e.args[0]) for e in an.events if e.kind == "next" and src(iter_sources(e.args[0]) or e.args[0])):
        return False
    for e in adds:
        ok = digest(lambda t: t.op == "elem" and src(iter_sources(t.a[0]) or t.a[0]))
        if not all(ok(y) for y in expand(an, e.args[-1])):
            return False
    done, bad = forall(an, src, adds)
    heads = [e for e in an.events if e.kind == "next" and src(iter_sources(e.args[0]) or e.args[0])]
    return bool(done) and not bad and an.reach(adds, adds, avoid=heads) is None


def executed(c, rule, an, root_ok, epoch_id, epoch, txs, eng, heads=()):
    """exactly this block's transactions are executed, on the right state, in the name of its proposer"""
    ex = an.calls_to(r"Executor::exec$")
    c.floor(rule, an, "place where the transactions are executed", len(ex), 1)
    c.nopath(rule, an, "they are executed once", an.reach(ex, ex, avoid=heads), "they are executed again")
    for e in ex:
        m = e.args[0]
        made = list(an.alts(m.a[0])) if m.op == "ok" else []
        c.ob(rule, an, "the executor is made for this block", bool(made) and all(is_call(y, r"ExecutorFactory::from_root$") for y in made), rel(e.span),
             sig(m, an)[:160])
        c.ob(rule, an, "the transactions of this block are executed", txs(e.args[1]), rel(e.span), sig(e.args[1], an)[:160])
    who = lambda t: t.op == "agg" and shape_of(t) == "User" and len(t.a[1]) == 1 and t.a[1][0][1].op == "fld" and \
        t.a[1][0][1].a[1] == "proposer" and fld_of(t.a[1][0][1].a[0], "header", epoch)
    for e in an.calls_to(r"ExecutorFactory::from_root$"):
        for what, p, x in (("for this chain", lambda t: is_path(t, eng, "node_info", "chain_id"), e.args[0]),
                           ("on the state the block before it left", root_ok, e.args[1]),
                           ("with the state database", lambda t: is_path(t, eng, "adapter", "trie_db"), e.args[2]),
                           ("under the number of this block", epoch_id, e.args[3]),
                           ("at the price of this chain", lambda t: of_status(t, "cycles_price"), e.args[4]),
                           ("for its proposer", who, e.args[5])):
            c.ob(rule, an, "it is executed %s" % what, p(x), rel(e.span), sig(x, an)[:200])
    return ex


def fld_of(t, n, p):
    return t.op == "fld" and t.a[1] == n and p(t.a[0])


def authority(c, rule, an, t, src, what):
    """every validator, with its own address and weights, in sorted order"""
    def entry(y):
        if y.op != "agg" or shape_of(y) not in ("Node",):
            return False
        a, p, v = (field(y, n) for n in ("address", "propose_weight", "vote_weight"))
        own = lambda x: x.op == "elem" and src(iter_sources(x.a[0]) or x.a[0])
        return is_call(a, r"UserAddress::as_bytes$") and fld_of(a.a[2][0], "address", own) and fld_of(p, "propose_weight", own) and \
            fld_of(v, "vote_weight", own)
    seqmap(c, rule, an, what, t, lambda x: src(x), entry, ordered=False)
    for x in an.alts(t):
        sorts = [e for e in an.calls_to(r"\]::sort(_unstable)?$") if e.args[0] is x]
        uses = [e for e in uses_after(an, x, additions(an, x)) if e not in sorts]
        c.nopath(rule, an, what + ": sorted", an.before(sorts, uses) if sorts else [an.start], "its order can differ from node to node")
        c.nopath(rule, an, what + ": nothing is added once it is sorted", an.reach(sorts, additions(an, x)) if not loops(an, sorts) else None, "its order can differ")


def loops(an, evs):
    return an.reach(evs, evs) is not None


def told(c, rule, an, t, n, what):
    """the status that overlord gets: the next block, the interval and the authorities of this chain"""
    ok = t.op == "agg" and shape_of(t) == "Status"
    c.ob(rule, an, what + " is a status", ok, "", sig(t, an)[:160])
    if not ok:
        return
    c.ob(rule, an, what + ": the next block", n(field(t, "epoch_id")), "", sig(field(t, "epoch_id"), an)[:160])
    i = field(t, "interval")
    c.ob(rule, an, what + ": the interval of this chain", i.op == "agg" and shape_of(i) == "Some" and of_status(i.a[1][0][1], "consensus_interval"), "",
         sig(i, an)[:160])
    authority(c, rule, an, field(t, "authority_list"), lambda x: of_status(x, "validators"), what + ": the authorities")


# ------------------------------------------------------------------ C04: proposing, checking, committing

def commit(c):
    rule = "C04.commit"
    an = c.an(engine(c, "commit"))
    ctx, eid, cm = arg(an, 1), arg(an, 2), arg(an, 3)
    epoch = lambda t: is_path(t, cm, "content", "inner", "epoch")
    num = lambda t: t is eid or is_path(t, cm, "content", "inner", "epoch", "header", "epoch_id")
    hashes = lambda t: fld_of(t, "ordered_tx_hashes", epoch)
    full = lambda t: answer(t, r"MemPool::get_full_txs$", None, hashes)
    resp = lambda t: t.op == "ok" and any(t.a[0] is e.term for e in an.calls_to(r"Executor::exec$"))

    def proof(t):
        if t.op != "agg" or shape_of(t) != "Proof":
            return False
        f = lambda n: field(t, n)
        h = f("epoch_hash")
        return is_path(f("epoch_id"), cm, "proof", "epoch_id") and is_path(f("round"), cm, "proof", "round") and \
            h.op == "ok" and is_call(h.a[0], r"Hash::from_bytes$") and is_path(h.a[0].a[2][0], cm, "proof", "epoch_hash") and \
            is_path(f("signature"), cm, "proof", "signature", "signature") and is_path(f("bitmap"), cm, "proof", "signature", "address_bitmap")
    eff = effects(an)
    locked(c, rule, an, lambda t: is_path(t, SELF, "lock"), eff, "the lock against synchronisation")
    ps = an.calls_to(r"Storage::update_latest_proof$")
    c.floor(rule, an, "place where the proof is saved", len(ps), 1)
    for e in ps:
        c.ob(rule, an, "the proof that is saved is that of this commit", proof(e.args[1]), rel(e.span), sig(e.args[1], an)[:240])
    fl = an.calls_to(r"MemPool::flush$")
    c.floor(rule, an, "place where the pool is told", len(fl), 1)
    for e in fl:
        c.ob(rule, an, "what leaves the pool is what was committed", hashes(e.args[2]), rel(e.span), sig(e.args[2], an)[:160])
    ok = [x for x in an.exits() if x not in an.err_exits()]
    for what, l in (("the proof is saved", ps), ("the transactions leave the pool", fl)):
        c.nopath(rule, an, "success means %s" % what, an.before(l, ok) if l else [an.start], "it is left out")
    gets = [e for e in an.calls_to(r"MemPool::get_full_txs$")]
    c.nopath(rule, an, "the transactions are read before they leave the pool", an.reach(fl, gets), "they are gone")
    executed(c, rule, an, lambda t: of_status(t, "state_root"), num, epoch, full, lambda t: t is SELF)
    ws = status_writes(an)
    c.nopath(rule, an, "the state it is executed on is that of the block before", an.reach(ws, an.calls_to(r"ExecutorFactory::from_root$")), "it is changed first")
    taken_over(c, rule, an, num, epoch, proof, resp, full, [an.start], ok)
    checked(c, rule, an, [e for e in eff if e.kind == "call"] + gets)
    exempts(c, rule, an)
    bc = an.calls_to(r"Gossip::broadcast$")
    c.floor(rule, an, "place where other nodes are told", len(bc), 1)
    for e in bc:
        m = e.args[3]
        good = m.op == "ok" and is_call(m.a[0], r"bincode::serialize$") and m.a[0].a[2][0].op == "agg" and \
            shape_of(m.a[0].a[2][0]) == "FixedEpochID" and one_more(num)(field(m.a[0].a[2][0], "inner"))
        c.ob(rule, an, "other nodes are told the number of the next block", good, rel(e.span), sig(m, an)[:160])
        c.ob(rule, an, "they are told where they listen for it", e.args[2].op == "str" and e.args[2].a[0] == "/gossip/consensus/rich_epoch_id", rel(e.span),
             sig(e.args[2], an))
    c.nopath(rule, an, "they are told after the status moved", an.before(ws, bc), "they are told too early")
    c.nopath(rule, an, "success means they were told", an.before(bc, ok), "nobody is told")
    for x in ok:
        for y in an.alts(x.val):
            c.ob(rule, an, "success gives a status", y.op == "agg" and shape_of(y) == "Ok", rel(x.span), sig(y, an)[:120])
            if y.op == "agg" and shape_of(y) == "Ok":
                told(c, rule, an, y.a[1][0][1], one_more(num), "what overlord gets back")


def propose(c):
    rule = "C04.propose"
    an = c.an(engine(c, "get_epoch"))
    ctx, eid = arg(an, 1), arg(an, 2)
    pk = an.calls_to(r"MemPool::package$")
    c.floor(rule, an, "place where transactions are packaged", len(pk), 1)
    for e in pk:
        c.ob(rule, an, "they are packaged within the limit of this chain", of_status(e.args[2], "cycles_limit"), rel(e.span), sig(e.args[2], an))
    checked(c, rule, an, pk)
    part = lambda i, n: (lambda t: t.op == "fld" and (t.a[1] == i and is_call(t.a[0], r"MixedTxHashes::clap$") and answer(t.a[0].a[2][0], r"MemPool::package$") or
                                                      t.a[1] == n and answer(t.a[0], r"MemPool::package$")))
    order, prop = part("0", "order_tx_hashes"), part("1", "propose_tx_hashes")
    ok = [x for x in an.exits() if x not in an.err_exits()]
    num = lambda t: t is eid or of_status(t, "epoch_id")
    cur = same(lambda t: t is eid, lambda t: of_status(t, "epoch_id"))
    c.nopath(rule, an, "a block is proposed only on top of the newest one", an.guarded(ok, cur), "it is proposed for another number")
    want = {
        "chain_id": lambda t: is_path(t, SELF, "node_info", "chain_id"),
        "proposer": lambda t: is_path(t, SELF, "node_info", "self_address"),
        "epoch_id": num,
        "pre_hash": lambda t: of_status(t, "prev_hash"),
        "order_root": root(an, order),
        "confirm_root": lambda t: single(an, t, lambda x: of_status(x, "order_root")),
        "timestamp": lambda t: has(an, t, lambda y: is_call(y, r"SystemTime::now$")),
        "validator_version": lambda t: t.op == "int" and t.a[0] == 0,
    }
    for n in ("logs_bloom", "state_root", "receipt_root", "cycles_used", "proof", "validators"):
        want[n] = lambda t, n=n: of_status(t, n)
    ins = an.calls_to(r"HashSet::(insert|extend)$")
    hashes = []
    for x in ok:
        for y in an.alts(x.val):
            good = y.op == "agg" and shape_of(y) == "Ok" and y.a[1][0][1].op == "agg" and len(y.a[1][0][1].a[1]) == 2
            c.ob(rule, an, "a proposal is a block and its hash", good, rel(x.span), sig(y, an)[:120])
            if not good:
                continue
            pill, h = (v for _, v in y.a[1][0][1].a[1])
            pill = field(pill, "inner") if pill.op == "agg" and shape_of(pill) == "FixedPill" else None
            ep = field(pill, "epoch") if pill is not None and pill.op == "agg" else None
            hd = field(ep, "header") if ep is not None and ep.op == "agg" else None
            if hd is None or hd.op != "agg":
                c.ob(rule, an, "the header of the proposal is made here", False, rel(x.span), sig(y, an)[:120])
                continue
            for n, p in want.items():
                v = field(hd, n)
                c.ob(rule, an, "the header has the %s" % n, v is not None and p(v), rel(x.span), sig(v, an)[:160] if v is not None else "")
            c.ob(rule, an, "the block has the packaged transactions, in their order", order(field(ep, "ordered_tx_hashes")), rel(x.span),
                 sig(field(ep, "ordered_tx_hashes"), an)[:120])
            c.ob(rule, an, "the proposal names the transactions for the next block", prop(field(pill, "propose_hashes")), rel(x.span),
                 sig(field(pill, "propose_hashes"), an)[:120])
            mine = lambda t, pill=pill: is_call(t, r"Hash::as_bytes$") and digest(lambda z: z is pill or sig(z, an) == sig(pill, an))(t.a[2][0])
            c.ob(rule, an, "the hash is that of the whole proposal", mine(h), rel(x.span), sig(h, an)[:120])
            hashes.append(mine)
    for e in ins:
        c.ob(rule, an, "only this proposal needs no check", is_path(e.args[0], SELF, "exemption_hash") and any(m(e.args[1]) for m in hashes),
             rel(e.span), sig(e.args[1], an)[:120])
    for e in an.calls_to(r"Hash::from_empty$"):
        c.nopath(rule, an, "the empty order root is for an empty list", an.guarded([e], lambda t, v: v == NONE and tree(order)(t)), "it is used although there is one")


def has(an, t, p):
    return an.has(t, p)


def exempts(c, rule, an):
    for e in an.calls_to(r"HashSet::(insert|extend|replace)$"):
        c.ob(rule, an, "no other proposal is exempted from the check", not has(an, e.args[0], lambda t: t.op == "fld" and t.a[1] == "exemption_hash"),
             rel(e.span), sig(e.args[1], an)[:120])


def check(c):
    rule = "C04.check"
    an = c.an(engine(c, "check_epoch"))
    h, ep = arg(an, 3), arg(an, 4)
    order = lambda t: is_path(t, ep, "inner", "epoch", "ordered_tx_hashes")
    prop = lambda t: is_path(t, ep, "inner", "propose_hashes")
    ok = [x for x in an.exits() if x not in an.err_exits()]
    own = lambda t, v: v is True and is_call(t, r"HashSet::contains$") and is_path(t.a[2][0], SELF, "exemption_hash") and t.a[2][1] is h
    get = an.calls_to(r"MemPool::get_full_txs$")
    for rx, p, what in ((r"MemPool::sync_propose_txs$", prop, "the transactions for the next block are fetched"),
                        (r"MemPool::ensure_order_txs$", order, "the transactions of the block are known and valid")):
        cs = [e for e in an.calls_to(rx)]
        for e in cs:
            c.ob(rule, an, "%s: those of this proposal" % what, p(e.args[2]), rel(e.span), sig(e.args[2], an)[:120])
        ids = {e.term for e in cs}
        c.nopath(rule, an, "a proposal is accepted only if %s, unless it is ours" % what, an.reach([an.start], ok, edge_ok=lambda n, m, k: not any(
            own(t, v) or v == OK and t in ids for t, v in k)), "it is accepted without")
    for x in ok:
        for y in an.alts(x.val):
            good = y.op == "agg" and shape_of(y) == "Ok" and y.a[1][0][1].op == "agg" and answer(field(y.a[1][0][1], "inner"), r"MemPool::get_full_txs$", None, order)
            c.ob(rule, an, "what is accepted comes with exactly its transactions", good, rel(x.span), sig(y, an)[:160])
    checked(c, rule, an, get)
    exempts(c, rule, an)


def c04(c):
    commit(c)
    propose(c)
    check(c)


# ------------------------------------------------------------------ C05: catching up

def stale(an, t, old, since, at, seen=None):
    """a way on which t still has the value old accepts although one of the events since has happened"""
    seen = set() if seen is None else seen
    if t.op != "phi":
        return an.reach(since, [at]) if old(t) else None
    if (t, at) in seen:
        return None
    seen.add((t, at))
    live = an.reach_set([an.start])
    ins = [(v, e) for v, es in an.phi_in.get(t, {}).items() for e in es if e[0] in live and e[1] in live]
    p = an.reach(since, [at], avoid=[e[1] for _, e in ins]) if any(old(y) for y in an.alts(t)) else None
    for v, e in ins:
        if p is None:
            p = stale(an, v, old, since, e[0], seen) if v.op == "phi" else an.reach(since, [e[0]]) if old(v) else None
    return p


def catch_up(c):
    rule = "C05.sync"
    an = c.an(consensus(c, "update_epoch"))
    msg = arg(an, 2)
    told_ = lambda t: t.op == "fld" and t.a[1] == "inner" and t.a[0].op == "ok" and is_call(t.a[0].a[0], r"bincode::deserialize$") and t.a[0].a[0].a[2][0] is msg
    one = lambda t: t.op == "int" and t.a[0] == 1
    rich = lambda t: t.op == "ok" and is_call(t.a[0], r"::checked_sub$") and told_(t.a[0].a[2][0]) and one(t.a[0].a[2][1]) or \
        t.op == "bin" and t.a[0] == "Sub" and told_(t.a[1]) and one(t.a[2])
    cur = lambda t: is_path(t, lambda x: answer(x, r"Storage::get_latest_epoch$"), "header", "epoch_id")
    nxt = one_more(cur)

    def span(t):
        if is_call(t, r"RangeInclusive::new$"):
            return nxt(t.a[2][0]) and rich(t.a[2][1])
        if t.op == "agg" and shape_of(t) == "Range":
            return nxt(field(t, "start")) and (one_more(rich)(field(t, "end")) or told_(field(t, "end")))
        return False
    num = lambda t: t.op == "elem" and span(iter_sources(t.a[0]) or t.a[0])
    at = lambda e: e.op == "str" and e.a[0] == "/rpc_call/consensus/sync_pull"
    asks = lambda n, p: (lambda t: t.op == "agg" and shape_of(t) == n and p(t.a[1][0][1]))
    pay = lambda n, p: (lambda t: t.op == "pay" and t.a[1].split("::")[-1] == n and answer(t.a[0], r"Rpc::call$", None, at, asks(n, p)))
    block = pay("PullEpochs", num)
    head = lambda n: (lambda t: is_path(t, block, "header", n))
    hashes = lambda t: is_path(t, block, "ordered_tx_hashes")
    txs = lambda t: t.op == "fld" and t.a[1] == "inner" and pay("PullTxs", lambda q: hashes(q) or q.op == "agg" and hashes(q.a[1][0][1]))(t.a[0])
    resp = lambda t: t.op == "ok" and all(y.op == "call" and is_call(y, r"Executor::exec$") for y in an.alts(t.a[0]))
    live = an.reach_set([an.start])
    heads = [e for e in an.events if e.kind == "next" and span(iter_sources(e.args[0]) or e.args[0])]
    c.floor(rule, an, "round over the missing blocks, from the one after the newest to the one that was told", len(heads), 1)
    for e in heads:
        c.ob(rule, an, "the missing blocks are taken over in their order", not has_rev(e.args[0]), rel(e.span), sig(e.args[0], an)[:120])
    hids, terms = {e.id for e in heads}, {e.term for e in heads}
    rounds_ = [m for _, m, _ in an.edges_where(lambda t, v: v == SOME and t in terms)]
    over = {(n, m) for n, m, _ in an.edges_where(lambda t, v: v == NONE and t in terms)}
    eff = [e for e in effects(an) if e.id in live]
    sends = [e for e in eff if e.kind == "call" and re.search(r"send_msg$", e.q)]
    work = [e for e in eff if e not in sends]
    ok = [x for x in an.exits() if x not in an.err_exits() and x.id in live]
    # locks
    locked(c, rule, an, lambda t: is_path(t, SELF, "lock"), eff, "the lock against another synchronisation")
    locked(c, rule, an, lambda t: is_path(t, SELF, "engine", "lock"), eff, "the lock against commits")
    c.nopath(rule, an, "nothing is done unless blocks are missing", an.guarded(eff, lambda t, v: below(nxt, rich)(t, v) or below(cur, rich)(t, v)),
             "it is done although none is missing")
    # each round
    inround = lambda targets, cond: an.reach(rounds_, targets, edge_ok=lambda n, m, k: m not in hids and not any(cond(t, v) for t, v in k))
    c.nopath(rule, an, "blocks are taken over in the round only", an.reach([an.start], work, avoid=heads), "outside of it")
    c.nopath(rule, an, "a block is taken over only if it has the number that was asked for", inround(work, same(head("epoch_id"), num)), "it can have another one")
    stored = digest(lambda t: answer(t, r"Storage::get_epoch_by_epoch_id$", cur) or answer(t, r"Storage::get_latest_epoch$"))
    before = lambda t: all(stored(y) or digest(block)(y) or of_status(y, "prev_hash") or is_call(y, r"Hash::from_empty$") for y in an.alts(t))
    linked = same(before, head("pre_hash"))
    isone = same(num, lambda t: t.op == "int" and t.a[0] == 1)

    def first(t, v):
        """the number of the block is 1 (it is at least that)"""
        if isone(t, v) or t.op != "bin":
            return isone(t, v)
        k, (x, y) = t.a[0], t.a[1:3]
        n = lambda z: z.a[0] if z.op == "int" else None
        return num(x) and ((k, v, n(y)) in (("Gt", False, 1), ("Le", True, 1), ("Lt", True, 2), ("Ge", False, 2))) or \
            num(y) and ((k, v, n(x)) in (("Lt", False, 1), ("Ge", True, 1), ("Gt", True, 2), ("Le", False, 2)))
    c.nopath(rule, an, "a block is taken over only if it names the one before it", inround(work, lambda t, v: linked(t, v) or first(t, v)), "it can name another one")
    for n, m, k in an.edges_where(linked):
        if n not in live:
            continue
        for t, v in k:
            if linked(t, v):
                x = [y for y in (t.a[1:] if t.op == "bin" else t.a[2]) if not head("pre_hash")(y)]
                for y in x:
                    old = lambda z: not digest(block)(z)
                    p = stale(an, y, old, status_writes(an), n)
                    if any(is_path(z, block, "header", "pre_hash") for z in (t.a[1:] if t.op == "bin" else t.a[2])):
                        c.nopath(rule, an, "the one before it is the one that was taken over last", p, "it is compared with an older one")
    c.nopath("C05.proof", an, "a block is taken over only if its proof is valid", inround(work, lambda t, v: v == OK and t.op == "call" and re.search(
        r"verify|check_proof", t.a[0]) and any(an.has(x, head("proof")) for x in t.a[2])), "nothing looks at the proof")
    # transactions
    size = lambda p: (lambda t: is_call(t, r"::len$") and p(t.a[2][0]))
    c.nopath(rule, an, "as many transactions as the block has are taken over", inround(work_tx(an, work), same(size(hashes), size(txs))), "it can be fewer")
    own_h = lambda t: t.op == "elem" and hashes(iter_sources(t.a[0]) or t.a[0])
    own_t = lambda t: t.op == "elem" and txs(iter_sources(t.a[0]) or t.a[0])
    hashed = lambda t: own_h(t) or t.op == "fld" and t.a[1] == "tx_hash" and own_t(t.a[0])
    both = lambda t: (iter_sources(t) is not None and (txs(iter_sources(t)) or hashes(iter_sources(t)))) or \
        t.op == "it" and t.a[0] == "zip" and any(hashes(iter_sources(x) or x) for x in t.a[1:] if hasattr(x, "op")) and \
        any(txs(iter_sources(x) or x) for x in t.a[1:] if hasattr(x, "op"))
    vsig = [e for e in an.calls_to(r"Crypto::verify_signature$")]
    for what, cond in (
            ("it has the hash the block names", same(own_h, lambda t: t.op == "fld" and t.a[1] == "tx_hash" and own_t(t.a[0]))),
            ("that is its hash", same(hashed, digest(lambda t: t.op == "fld" and t.a[1] == "raw" and own_t(t.a[0])))),
            ("its signature is valid", lambda t, v: v == OK and is_call(t, r"Crypto::verify_signature$") and valid(t, hashed, own_t))):
        done = checked_rounds(an, both, cond)
        c.nopath(rule, an, "a transaction is taken over only if %s" % what, an.reach(rounds_, work_tx(an, work), edge_ok=lambda n, m, k: (n, m) not in done and m not in hids),
                 "it is not looked at")
    # execution and the rest
    roots = lambda t: all(of_status(y, "state_root") or y.op == "fld" and y.a[1] == "state_root" and resp(y.a[0]) for y in an.alts(t))
    ex = executed(c, rule, an, roots, lambda t: head("epoch_id")(t) or num(t), block, txs, lambda t: is_path(t, SELF, "engine"), heads)
    for e in an.calls_to(r"ExecutorFactory::from_root$"):
        if e.id in live:
            c.nopath(rule, an, "the state is the one the block before left", stale(an, e.args[1], lambda t: of_status(t, "state_root"), ex, e.id), "it can be an older one")
    proof = head("proof")
    for e in an.calls_to(r"Storage::update_latest_proof$"):
        c.ob(rule, an, "the proof that is saved comes with the block", proof(e.args[1]), rel(e.span), sig(e.args[1], an)[-200:])
    ends = [e for e in heads if e.id in live] + sends
    taken_over(c, rule, an, lambda t: head("epoch_id")(t) or num(t), block, proof, resp, txs, rounds_, ends, heads)
    fl = an.calls_to(r"MemPool::flush$")
    for e in fl:
        c.ob(rule, an, "what leaves the pool is what the block has", hashes(e.args[2]), rel(e.span), sig(e.args[2], an)[-160:])
    c.nopath(rule, an, "what was taken over leaves the pool", an.reach(rounds_, ends, avoid=fl), "it stays and can be proposed again")
    checked(c, rule, an, [e for e in eff if e.kind == "call"] + [e for e in an.calls_to(r"Rpc::call$") if e.id in live])
    # the end
    c.floor(rule, an, "place where overlord is told", len(sends), 1)
    for e in sends:
        m = e.args[2]
        good = m.op == "agg" and shape_of(m) == "RichStatus"
        c.ob(rule, an, "overlord is told a status", good, rel(e.span), sig(m, an)[:120])
        if good:
            told(c, rule, an, m.a[1][0][1], lambda t: one_more(rich)(t) or told_(t), "what overlord is told")
    c.nopath(rule, an, "overlord is told when all blocks are there", an.reach([an.start], sends, edge_ok=lambda n, m, k: (n, m) not in over), "it is told before")
    c.nopath(rule, an, "success after a block was taken over means overlord was told", an.reach(rounds_, ok, avoid=sends), "it is not told")
    exempts(c, rule, an)


def work_tx(an, work):
    return [e for e in work if e.kind == "write" or re.search(r"(Executor::exec|insert_\w+|flush)$", e.q or "")]


def valid(t, hashed, own):
    a = t.a[2]
    h = a[0]
    while is_call(h, r"::(as_ref|as_slice|deref|borrow)$"):
        h = h.a[2][0]
    return is_call(h, r"Hash::as_bytes$") and hashed(h.a[2][0]) and fld_of(a[1], "signature", own) and fld_of(a[2], "pubkey", own)


def checked_rounds(an, is_coll, good):
    """the edges that leave a loop over a collection every round of which crosses an edge on which good holds"""
    heads = {}
    for e in an.events:
        if e.kind == "next" and is_coll(e.args[0]):
            heads.setdefault(e.args[0], []).append(e)
    ok = {(a, b) for a, b, _ in an.edges_where(good)}
    out = set()
    for hs in heads.values():
        ts = {h.term for h in hs}
        some = [m for _, m, _ in an.edges_where(lambda t, v: t in ts and v == SOME)]
        if some and an.reach(some, hs + an.ok_exits(), edge_ok=lambda a, b, cs: (a, b) not in ok) is None:
            out |= {(a, b) for a, b, _ in an.edges_where(lambda t, v: t in ts and v == NONE)}
    return out


def c05(c):
    catch_up(c)


# ------------------------------------------------------------------ C06: what goes to and comes from the other nodes

AT = "/gossip/consensus/"


def handler(c, name):
    return c.db.trait_impl("protocol::traits::network::MessageHandler", "process", name, CR)


def once(c, rule, an, calls, what):
    """success means that one of the calls was made, and succeeded"""
    c.floor(rule, an, "place where %s" % what, len(calls), 1)
    ts = {e.term for e in calls}
    done = [x for x in an.ok_exits() if not (an.alts(x.val) and all(y in ts for y in an.alts(x.val)))]
    c.nopath(rule, an, "success means %s" % what, an.guarded(done, lambda t, v: v == OK and t in ts), "without it")
    direct = [x for x in an.exits() if x not in done and x not in an.err_exits()]
    c.nopath(rule, an, "success means %s (handed on)" % what, an.before(calls, direct) if direct else None, "without it")
    c.nopath(rule, an, "%s once" % what, an.reach(calls, calls), "it can happen twice")
    checked(c, rule, an, calls)


def received(c):
    rule = "C06.received"
    for name, v in (("ProposalMessageHandler", "SignedProposal"), ("VoteMessageHandler", "SignedVote"), ("QCMessageHandler", "AggregatedVote")):
        an = c.an(handler(c, name))
        msg = lambda t, an=an: t.op == "fld" and t.a[0] is arg(an, 2)
        sends = an.calls_to(r"OverlordHandler::send_msg$")
        for e in sends:
            m = e.args[2]
            c.ob(rule, an, "overlord gets what was received", m.op == "agg" and shape_of(m) == v and m.a[1][0][1].op == "ok" and
                 is_call(m.a[1][0][1].a[0], r"rlp::decode$") and msg(m.a[1][0][1].a[0].a[2][0]), rel(e.span), sig(m, an)[:160])
            c.ob(rule, an, "it keeps its context", e.args[1] is arg(an, 1), rel(e.span), sig(e.args[1], an)[:100])
            c.ob(rule, an, "it goes to the overlord of this node", fld_of(e.args[0], "handler", lambda t: is_path(t, SELF, "consensus")), rel(e.span),
                 sig(e.args[0], an)[:100])
        once(c, rule, an, sends, "overlord got it")
        no_abort(c, an)
    an = c.an(handler(c, "RichEpochIDMessageHandler"), stop=[r"update_epoch$"])
    ups = an.calls_to(r"update_epoch$")
    for e in ups:
        c.ob(rule, an, "the synchronisation gets what was received", e.args[2].op == "fld" and e.args[2].a[0] is arg(an, 2), rel(e.span), sig(e.args[2], an)[:100])
        c.ob(rule, an, "it keeps its context", e.args[1] is arg(an, 1), rel(e.span), sig(e.args[1], an)[:100])
    once(c, rule, an, ups, "the synchronisation was asked")
    no_abort(c, c.an(handler(c, "RichEpochIDMessageHandler")))


def no_abort(c, an):
    c.ob("C06.abort", an, "analysed for constructs that abort", True)
    for e, what, p in aborts(an):
        if p is not None and e.kind == "panic":
            # own types have an encoding (P02)
            p = an.guarded([e], lambda t, v: v == ERR and is_call(t, r"encode_fixed$"))
        c.nopath("C06.abort", an, "%s cannot abort" % what, p, "a message of a peer can end the task", rel(e.span))


def sent(c):
    rule = "C06.sent"
    an = c.an(engine(c, "broadcast_to_other"))
    want = {AT + "signed_proposal": "SignedProposal", AT + "qc": "AggregatedVote"}
    casts, seen = an.calls_to(r"Gossip::broadcast$"), set()
    payload = lambda t, v, an=an: is_call(t, r"rlp_bytes$") and t.a[2][0].op == "pay" and t.a[2][0].a[0] is arg(an, 2) and t.a[2][0].a[1].split("::")[-1] == v
    for e in casts:
        for at, m in pairs(an, e.args[2], e.args[3]):
            k = at.a[0] if at.op == "str" else None
            seen.add(k)
            c.ob(rule, an, "what is sent belongs to the endpoint", k in want and payload(m, want[k]), rel(e.span), "%s: %s" % (sig(at, an)[:60], sig(m, an)[:100]))
        c.ob(rule, an, "it keeps its context", e.args[1] is arg(an, 1), rel(e.span), sig(e.args[1], an)[:100])
    for k, v in want.items():
        c.ob(rule, an, "a %s is sent" % v, k in seen)
    once(c, rule, an, casts, "it was sent")
    an = c.an(engine(c, "transmit_to_relayer"))
    casts = an.calls_to(r"Gossip::users_cast$")
    for e in casts:
        c.ob(rule, an, "a vote goes where votes are received", e.args[2].op == "str" and e.args[2].a[0] == AT + "signed_vote", rel(e.span), sig(e.args[2], an)[:80])
        c.ob(rule, an, "it goes to the node it is for", single(an, e.args[3], lambda t, an=an: answer0(t, r"UserAddress::from_bytes$", lambda x: x is arg(an, 2))),
             rel(e.span), sig(e.args[3], an)[:100])
        m = e.args[4]
        c.ob(rule, an, "the vote is what is sent", is_call(m, r"rlp_bytes$") and m.a[2][0].op == "pay" and m.a[2][0].a[0] is arg(an, 3) and
             m.a[2][0].a[1].split("::")[-1] == "SignedVote", rel(e.span), sig(m, an)[:100])
        c.ob(rule, an, "it keeps its context", e.args[1] is arg(an, 1), rel(e.span), sig(e.args[1], an)[:100])
    once(c, rule, an, casts, "it was sent")
    an = c.an(engine(c, "get_authority_list"))
    src = lambda t: t.op == "fld" and t.a[1] == "validators" and t.a[0].op == "fld" and t.a[0].a[1] == "header" and \
        answer(t.a[0].a[0], r"Storage::get_epoch_by_epoch_id$", lambda x: x is arg(an, 2))
    for x in an.exits():
        if x not in an.err_exits():
            ok = x.val.op == "agg" and shape_of(x.val) == "Ok"
            c.ob(rule, an, "the authorities are listed", ok, rel(x.span), sig(x.val, an)[:100])
            if ok:
                authority(c, rule, an, x.val.a[1][0][1], src, "the authorities of a height")


def pairs(an, a, b):
    """the values two terms have together"""
    if a.op == "phi" and b.op == "phi":
        es = {e: v for v, l in an.phi_in.get(b, {}).items() for e in l}
        return [(v, es.get(e, b)) for v, l in an.phi_in.get(a, {}).items() for e in l]
    return [(x, y) for x in an.alts(a) for y in an.alts(b)]


def answered(c):
    rule = "C06.answered"
    an = c.an(handler(c, "RpcHandler"))
    msg = arg(an, 2)
    asked = lambda n: (lambda t: t.op == "pay" and t.a[0] is msg and t.a[1].split("::")[-1] == n)
    ids = lambda t: t.op == "fld" and t.a[1] == "inner" and asked("PullTxs")(t.a[0])
    rs, seen = an.calls_to(r"Rpc::response$"), set()
    for e in rs:
        c.ob(rule, an, "it is answered where the asking node listens", e.args[2].op == "str" and e.args[2].a[0] == "/rpc_resp/consensus/sync_pull", rel(e.span),
             sig(e.args[2], an)[:80])
        c.ob(rule, an, "the answer goes to who asked", e.args[1] is arg(an, 1), rel(e.span), sig(e.args[1], an)[:80])
        for m in an.alts(e.args[3]):
            k = shape_of(m) if m.op == "agg" else None
            seen.add(k)
            if k == "PullEpochs":
                c.ob(rule, an, "the block is the one that was asked for", answer(m.a[1][0][1], r"Storage::get_epoch_by_epoch_id$", asked("PullEpochs")), rel(e.span),
                     sig(m, an)[:160])
                continue
            l = m.a[1][0][1] if k == "PullTxs" else None
            l = field(l, "inner") if l is not None and l.op == "agg" else None
            c.ob(rule, an, "the answer is one of the two", l is not None, rel(e.span), sig(m, an)[:160])
            if l is not None:
                seqmap(c, rule, an, "the transactions are those that were asked for", l, ids,
                       lambda y: answer(y, r"Storage::get_transaction_by_hash$", lambda x: x.op == "elem" and ids(iter_sources(x.a[0]) or x.a[0])))
    for k in ("PullEpochs", "PullTxs"):
        c.ob(rule, an, "%s is answered" % k, k in seen)
    once(c, rule, an, rs, "it was answered")
    checked(c, rule, an, an.calls_to(r"Storage::get_\w+$"))
    no_abort(c, an)


def wire(c):
    rule = "C06.wire"
    T = "protocol::traits::network::MessageCodec"
    an = c.an(c.db.trait_impl(T, "encode", "ConsensusRpcResponse", CR))
    flags = {}
    inner = {"PullEpochs": (r"encode_fixed$", r"decode_fixed$"), "PullTxs": (r"bincode::serialize$", r"bincode::deserialize$")}
    for x in an.ok_exits():
        v = x.val.a[1][0][1] if x.val.op == "agg" and shape_of(x.val) == "Ok" else x.val
        for y in an.alts(v):
            k = [n for n, (enc, _) in inner.items() if answer0(y, enc, lambda t, n=n: t.op == "pay" and t.a[1].split("::")[-1] == n)]
            adds = [e for e in an.events if e.kind == "call" and e.args and e.args[0] is y and re.search(r"::(extend|extend_from_slice|push|put\w*)$", e.q)]
            fl = [e.args[1] for e in adds]
            good = len(k) == 1 and len(fl) == 1 and (fl[0].op == "bytes" and len(fl[0].a[0]) == 1 or fl[0].op == "int")
            c.ob(rule, an, "an answer is its content and one byte that names its kind", good, rel(x.span), sig(y, an)[:160])
            if good:
                flags[k[0]] = fl[0].a[0][0] if fl[0].op == "bytes" else fl[0].a[0]
                c.nopath(rule, an, "the byte is there", an.before(adds, [x]), "it can be missing")
                c.nopath(rule, an, "the byte is there once", an.reach(adds, adds), "it can be there twice")
    c.ob(rule, an, "each kind has its byte", len(set(flags.values())) == 2, "", str(flags))
    an = c.an(c.db.trait_impl(T, "decode", "ConsensusRpcResponse", CR))
    bs = arg(an, 0)
    size = lambda t: is_call(t, r"::len$") and t.a[2][0] is bs
    tail = lambda t: is_call(t, r"::split_off$") and t.a[2][0] is bs and t.a[2][1].op == "bin" and t.a[2][1].a[0] == "Sub" and size(t.a[2][1].a[1]) and \
        t.a[2][1].a[2].op == "int" and t.a[2][1].a[2].a[0] == 1
    rest = lambda t: t.op == "mut" and t.a[-1] is bs or t is bs
    kinds = {}
    for x in an.exits():
        if x in an.err_exits():
            continue
        for v in an.alts(x.val.a[1][0][1] if x.val.op == "agg" and shape_of(x.val) == "Ok" else x.val):
            k = shape_of(v) if v.op == "agg" else None
            good = k in inner and answer0(v.a[1][0][1], inner[k][1], lambda t: has(an, t, lambda y: y is bs))
            c.ob(rule, an, "an answer is decoded as what it was encoded from", good, rel(x.span), sig(v, an)[:160])
            if good:
                kinds[k] = True
                src = [e for e in an.events if e.kind == "call" and e.term is v.a[1][0][1].a[0]]
                c.nopath(rule, an, "an answer is decoded as the kind its last byte names", an.guarded(src, lambda t, b, k=k: isinstance(b, bool) and t.op == "bin" and
                         (t.a[0] == "Eq") == b and any(tail(p) and q.op == "bytes" and q.a[0] == (flags.get(k),) for p, q in ((t.a[1], t.a[2]), (t.a[2], t.a[1])))),
                         "it can be another kind", rel(x.span))
                cut = [e for e in an.calls_to(r"::split_off$|::truncate$") if e.args[0] is bs]
                c.nopath(rule, an, "the content is what is before the last byte", an.before(cut, src), "the byte can be part of it")
    c.ob(rule, an, "both kinds are decoded", len(kinds) == 2, "", str(sorted(kinds)))
    no_abort(c, an)
    for ty, enc, dec, f in (("FixedPill", r"encode_fixed$", r"decode_fixed$", "inner"), ("FixedSignedTxs", r"bincode::serialize$", r"bincode::deserialize$", None)):
        an = c.an(c.db.trait_impl("overlord::Codec", "encode", ty, CR))
        for x in an.exits():
            if x not in an.err_exits():
                v = x.val.a[1][0][1] if x.val.op == "agg" and shape_of(x.val) == "Ok" else mk("ok", x.val)
                c.ob(rule, an, "all of it is encoded", answer0(v, enc, lambda t: fld_of(t, f, lambda y: y is SELF) if f else t is SELF), rel(x.span), sig(v, an)[:120])
        an = c.an(c.db.trait_impl("overlord::Codec", "decode", ty, CR))
        for x in an.exits():
            if x not in an.err_exits():
                v = x.val.a[1][0][1] if x.val.op == "agg" and shape_of(x.val) == "Ok" else mk("ok", x.val)
                v = field(v, f) if f and v.op == "agg" else v
                c.ob(rule, an, "it is decoded the way it was encoded", answer0(v, dec, lambda t, an=an: t is arg(an, 0)), rel(x.span), sig(v, an)[:120])
        no_abort(c, an)


def signed(c):
    rule = "C06.signed"
    T = "overlord::Crypto"
    an = c.an(c.db.trait_impl(T, "hash", "OverlordCrypto", CR))
    for x in an.exits():
        c.ob(rule, an, "the hash is that of the message", is_call(x.val, r"Hash::as_bytes$") and is_call(x.val.a[2][0], r"Hash::digest$") and
             x.val.a[2][0].a[2][0] is arg(an, 1), rel(x.span), sig(x.val, an)[:120])
    key = lambda n: (lambda t: is_call(t, r"::to_bytes$") and fld_of(t.a[2][0], n, lambda y: y is SELF))
    an = c.an(c.db.trait_impl(T, "sign", "OverlordCrypto", CR))
    sg = lambda t: is_call(t, r"::to_bytes$") and answer(t.a[2][0], r"Crypto::sign_message$", key("private_key")) and t.a[2][0].a[0].a[2][0] is arg(an, 1)
    for x in an.exits():
        if x in an.err_exits():
            continue
        v = x.val.a[1][0][1] if x.val.op == "agg" else x.val
        adds = [e for e in an.events if e.kind == "call" and e.args and e.args[0] is v and re.search(r"::(extend|extend_from_slice|push|put\w*)$", e.q)]
        c.ob(rule, an, "a signature is the public key and then the signature of the hash", key("public_key")(v) and len(adds) == 1 and sg(adds[0].args[1]),
             rel(x.span), sig(v, an)[:120])
        c.nopath(rule, an, "the signature is complete", an.before(adds, [x]), "it can lack its second part")
        c.nopath(rule, an, "the signature is there once", an.reach(adds, adds), "it can be there twice")
    checked(c, rule, an, an.calls_to(r"sign_message$"))
    an = c.an(c.db.trait_impl(T, "verify_signature", "OverlordCrypto", CR))
    s = arg(an, 1)
    tail = lambda t: is_call(t, r"::split_off$") and t.a[2][0] is s and t.a[2][1].op == "int" and t.a[2][1].a[0] == 33
    head = lambda t: t.op == "mut" and any(y is s for y in t.a)
    vs = [e for e in an.calls_to(r"Crypto::verify_signature$") if e.args[0] is arg(an, 2)]
    for e in vs:
        c.ob(rule, an, "the signature is verified for the hash, with the key in front of it", tail(e.args[1]) and head(e.args[2]), rel(e.span),
             ", ".join(sig(x, an)[:60] for x in e.args))
    ts = {e.term for e in vs}
    oks = [x for x in an.exits() if x not in an.err_exits()]
    c.nopath(rule, an, "only a valid signature is accepted", an.guarded(oks, lambda t, v: v == OK and t in ts), "it is not verified")
    for x in oks:
        v = x.val.a[1][0][1] if x.val.op == "agg" else x.val
        c.ob(rule, an, "the signer is the owner of the key that verified it", is_call(v, r"UserAddress::as_bytes$") and
             answer0(v.a[2][0], r"from_pubkey_bytes$", head), rel(x.span), sig(v, an)[:120])
    no_abort(c, an)
    an = c.an(c.db.trait_impl(T, "verify_aggregated_signature", "OverlordCrypto", CR))
    oks = [x for x in an.exits() if x not in an.err_exits()]
    c.nopath("C06.aggregate", an, "an aggregated signature is accepted only if it is valid", an.guarded(oks, lambda t, v: v == OK and t.op == "call" and
             "verify" in t.a[0] and any(has(an, y, lambda z: z is arg(an, 1)) for y in t.a[2])), "nothing looks at it")
    an = c.an(one_of(c, r"OverlordConsensus::new$", CR))
    keys = [t for t in subs(an, lambda t: t.op == "agg" and t.a[0].endswith("OverlordCrypto"))]
    c.ob(rule, an, "the node has its keys", bool(keys))
    for t in keys:
        pk, sk = field(t, "public_key"), field(t, "private_key")
        c.ob(rule, an, "the public key is that of the private key", is_call(pk, r"pub_key$") and pk.a[2][0] is sk and sk is arg(an, 2), "", sig(t, an)[:120])


    own = lambda t: is_path(t, lambda x: x is arg(an, 1), "self_address")
    st = lambda n: (lambda x: fld_of(x, n, lambda y: y is arg(an, 0)))
    nodes = an.calls_to(r"Overlord::new$")
    c.floor(rule, an, "overlord of this node", len(nodes), 1)
    for e in nodes:
        c.ob(rule, an, "overlord has the address of this node", is_call(e.args[0], r"UserAddress::as_bytes$") and own(e.args[0].a[2][0]), rel(e.span), sig(e.args[0], an)[:100])
        g = e.args[1]
        c.ob(rule, an, "overlord and the synchronisation share the status and the engine", g.op == "agg" and field(g, STATUS) is arg(an, 0) and
             all(field(x.val, "engine") is g for x in an.exits() if x.val.op == "agg"), rel(e.span), sig(g, an)[:160])
    sends = an.calls_to(r"send_msg$")
    c.floor(rule, an, "place where overlord is started", len(sends), 1)
    for e in sends:
        m = e.args[2]
        m = m.a[1][0][1] if m.op == "agg" and shape_of(m) == "RichStatus" else m
        good = m.op == "agg" and shape_of(m) == "Status"
        c.ob(rule, an, "overlord starts with a status", good, rel(e.span), sig(m, an)[:100])
        if good:
            i = field(m, "interval")
            c.ob(rule, an, "overlord starts at the next height", st("epoch_id")(field(m, "epoch_id")), rel(e.span), sig(field(m, "epoch_id"), an)[:100])
            c.ob(rule, an, "overlord starts with the interval of this chain", i.op == "agg" and shape_of(i) == "Some" and st("consensus_interval")(i.a[1][0][1]),
                 rel(e.span), sig(i, an)[:100])
            authority(c, rule, an, field(m, "authority_list"), st("validators"), "overlord starts with the validators")
    c.nopath(rule, an, "overlord is started", an.before(sends, an.exits()), "it is not")


def subs(an, p):
    out = []
    for e in an.events:
        for x in list(e.args or []) + ([e.val] if e.val is not None else []):
            for y in an.subterms(x):
                if p(y) and y not in out:
                    out.append(y)
    return out


def c06(c):
    received(c)
    sent(c)
    answered(c)
    wire(c)
    signed(c)


CHECKS = {
    "C04": ("a committed block", CRATES, c04),
    "C05": ("catching up", CRATES, c05),
    "C06": ("what goes to and comes from other nodes", CRATES, c06),
}
