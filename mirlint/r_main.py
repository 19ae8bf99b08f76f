"""How the parts are put together: what a node starts from, and which part gets which message."""
import re

from .rules import P, SELF, checked, field, is_call, iter_sources, rel, seqmap, sig
from .r_mempool import ERR, NONE, OK, SOME, arg, is_path, one, shape_of
from .r_consensus import answer, answer0, digest, fld_of, one_more, single, subs

CR = "huobi_chain"
CRATES = {"huobi_chain", "protocol"}
HANDLERS = {
    "/gossip/mempool/new_txs": ("NewTxsHandler", "pool"),
    "/rpc_call/mempool/pull_txs": ("PullTxsHandler", "pool"),
    "/gossip/consensus/signed_proposal": ("ProposalMessageHandler", "consensus"),
    "/gossip/consensus/signed_vote": ("VoteMessageHandler", "consensus"),
    "/gossip/consensus/qc": ("QCMessageHandler", "consensus"),
    "/gossip/consensus/rich_epoch_id": ("RichEpochIDMessageHandler", "consensus"),
    "/rpc_call/consensus/sync_pull": ("RpcHandler", "storage"),
}
ANSWERS = ("/rpc_resp/mempool/pull_txs", "/rpc_resp/consensus/sync_pull")
NEW = {
    "pool": r"HashMemPool::new$", "consensus": r"OverlordConsensus::new$", "storage": r"ImplStorage::new$", "network": r"NetworkService::new$",
    "trie": r"RocksTrieDB::new$",
}


PATHS = [r"Config::data_path_for_\w+$"]


def located(c, an):
    """both ways in open the same databases"""
    for rx, n in ((r"RocksAdapter::new$", "block"), (r"RocksTrieDB::new$", "state")):
        es = an.calls_to(rx)
        c.floor("X01.located", an, "place where the %s database is opened" % n, len(es), 1)
        for e in es:
            c.ob("X01.located", an, "the %s database is where it always is" % n, is_call(e.args[0], r"data_path_for_%s$" % n) and
                 e.args[0].a[2][0] is arg(an, 0), rel(e.span), sig(e.args[0], an)[:80])


def built(an, what):
    return an.calls_to(NEW[what])


def text(t):
    return t.a[0] if t.op == "str" else None


def inner(t):
    """what a call that makes t of parts was given"""
    return list(t.a[2]) if t.op == "call" else [v for _, v in t.a[1]] if t.op == "agg" else []


def wired(c, an):
    rule = "X01.wired"
    made = {}
    for k in NEW:
        es = built(an, k)
        ok = c.ob(rule, an, "one %s is made" % k, len({e.term for e in es}) == 1 and an.reach(es, es) is None, "", "%d" % len(es))
        if not ok:
            return None
        made[k] = es[0].term
    is_ = lambda k: (lambda t: t is made[k] or t.op == "ok" and t.a[0] is made[k])
    regs, seen = an.calls_to(r"NetworkService::register_endpoint_handler$"), {}
    runs = [e for e in an.events if e.kind == "spawn" and is_("network")(e.args[0])] or \
        [e for e in an.events if e.kind == "await" and e.term is not None and is_("network")(e.term)]
    c.floor(rule, an, "place where the network is started", len(runs), 1)
    for e in regs:
        at, h = text(e.args[1]), e.args[2]
        seen.setdefault(at, []).append(e)
        c.ob(rule, an, "it is registered with the network of this node", is_("network")(e.args[0]), rel(e.span), sig(e.args[0], an)[:80])
        if at not in HANDLERS:
            c.ob(rule, an, "the endpoint is one that other nodes use", False, rel(e.span), sig(e.args[1], an)[:80])
            continue
        ty, of = HANDLERS[at]
        name = h.a[0].split("::")
        c.ob(rule, an, "%s is handled by %s" % (at, ty), h.op in ("call", "agg") and ty in name, rel(e.span), sig(h, an)[:80])
        c.ob(rule, an, "%s reaches the %s of this node" % (at, of), any(is_(of)(x) for x in inner(h)), rel(e.span), sig(h, an)[-160:])
    for at in HANDLERS:
        es = seen.get(at, [])
        c.ob(rule, an, "%s is registered" % at, bool(es))
        c.nopath(rule, an, "%s is registered before the network starts" % at, an.before(es, runs) if es else None, "a message can come before it")
    ans = an.calls_to(r"NetworkService::register_rpc_response$")
    for at in ANSWERS:
        es = [e for e in ans if text(e.args[1]) == at]
        c.ob(rule, an, "answers on %s are awaited" % at, bool(es))
        c.nopath(rule, an, "answers on %s are awaited before the network starts" % at, an.before(es, runs) if es else None, "an answer can come before it")
    # everybody works on the same storage, state, pool and consensus
    for rx, ks in ((r"DefaultMemPoolAdapter::new$", ("storage",)), (r"OverlordConsensusAdapter::new$", ("pool", "storage", "trie")),
                   (r"DefaultAPIAdapter::new$", ("pool", "storage", "trie"))):
        es = an.calls_to(rx)
        c.floor(rule, an, "%s is made" % rx.split(":")[0], len(es), 1)
        for e in es:
            for k in ks:
                c.ob(rule, an, "%s has the %s of this node" % (rx.split(":")[0], k), any(is_(k)(x) for x in e.args), rel(e.span), sig(e.term, an)[-160:])
    for rx, k, what in ((r"HashMemPool::new$", r"DefaultMemPoolAdapter::new$", "the pool has its adapter"),
                        (r"OverlordConsensus::new$", r"OverlordConsensusAdapter::new$", "the consensus has its adapter")):
        ts = {e.term for e in an.calls_to(k)}
        for e in an.calls_to(rx):
            c.ob(rule, an, what, any(x in ts for x in e.args), rel(e.span), "")
    run = an.calls_to(r"OverlordConsensus::run$")
    c.floor(rule, an, "place where the consensus runs", len(run), 1)
    for e in run:
        c.ob(rule, an, "the consensus that runs is the one that gets the messages", is_("consensus")(e.args[0]), rel(e.span), sig(e.args[0], an)[:80])
    c.nopath(rule, an, "the network runs when the consensus does", an.before(runs, run), "it does not")
    p = an.calls_to(r"HashMemPool::new$")[0]
    for i, path in ((0, ("mempool", "pool_size")), (1, ("mempool", "timeout_gap"))):
        x = p.args[i]
        x = x.a[0] if x.op == "cast" else x
        c.ob(rule, an, "the pool has the configured %s" % path[-1], is_path(x, lambda t: t is arg(an, 0), *path), rel(p.span), sig(x, an)[:80])
    return made


def identity(an):
    """the key of the configuration, its address, the id of the chain"""
    cfg = lambda *n: (lambda t: is_path(t, lambda x: x is arg(an, 0), *n))
    key = lambda t: answer0(t, r"::try_from$", lambda x: answer0(x, r"hex::decode$", cfg("privkey")))
    pub = lambda t: is_call(t, r"pub_key$") and key(t.a[2][0])
    addr = lambda t: answer0(t, r"UserAddress::from_pubkey_bytes$", lambda x: is_call(x, r"to_bytes$") and pub(x.a[2][0]))
    chain = lambda t: answer0(t, r"Hash::from_hex$", cfg("chain_id"))
    return cfg, key, addr, chain


def resumed(c, an, made):
    rule = "X01.resumed"
    cfg, key, addr, chain = identity(an)
    for e in an.calls_to(NEW["consensus"]):
        st, info, k = e.args[:3]
        c.ob(rule, an, "the node signs with the configured key", key(k), rel(e.span), sig(k, an)[:100])
        ok = st.op == "agg" and info.op == "agg"
        c.ob(rule, an, "the consensus starts from a status", ok, rel(e.span), sig(st, an)[:80])
        if not ok:
            continue
        c.ob(rule, an, "the node has the configured chain", chain(field(info, "chain_id")), rel(e.span), sig(field(info, "chain_id"), an)[:100])
        c.ob(rule, an, "the node has the address of its key", addr(field(info, "self_address")), rel(e.span), sig(field(info, "self_address"), an)[:160])
        store = lambda t: t is made["storage"]
        newest = lambda t: answer0(t, r"Storage::get_latest_epoch$", store)
        head = lambda *n: (lambda t: is_path(t, newest, "header", *n))
        left = lambda f: (lambda t: any(y.op == "fld" and y.a[1] == f and y.a[0].op == "ok" and is_call(y.a[0].a[0], r"Executor::exec$") for y in [t]))
        want = {
            "epoch_id": one_more(head("epoch_id")), "prev_hash": digest(newest), "logs_bloom": head("logs_bloom"),
            "order_root": head("order_root"), "confirm_root": lambda t: single(an, t, head("order_root")), "cycles_used": head("cycles_used"),
            "proof": lambda t: answer0(t, r"Storage::get_latest_proof$", store), "cycles_price": cfg("consensus", "cycles_price"),
            "cycles_limit": cfg("consensus", "cycles_limit"), "consensus_interval": cfg("consensus", "interval"),
        }
        want["state_root"] = lambda t: head("state_root")(t) or left("state_root")(t)
        want["receipt_root"] = lambda t: single(an, t, lambda x: is_call(x, r"Hash::from_empty$") or x.op == "ok" and is_call(x.a[0], r"get_root_hash$"))
        for f, v in st.a[1]:
            if f in want:
                c.ob(rule, an, "the status has the %s the newest block left" % f, want[f](v), rel(e.span), sig(v, an)[:160])
        v = field(st, "state_root")
        c.ob("X01.state", an, "the next block is executed on the state the newest block left", left("state_root")(v), rel(e.span), sig(v, an)[:160])
        v = field(st, "receipt_root")
        c.ob("X01.receipts", an, "the next block names the receipts of the newest block", single(an, v, lambda t: t.op == "ok" and is_call(t.a[0], r"get_root_hash$")),
             rel(e.span), sig(v, an)[:160])

        def entry(y):
            w = field(y, "address") if y.op == "agg" and shape_of(y) == "Validator" else None
            lst = cfg("consensus", "verifier_list")
            return w is not None and answer0(w, r"UserAddress::from_hex$", lambda t: t.op == "elem" and lst(iter_sources(t.a[0]) or t.a[0]))
        seqmap(c, rule, an, "the validators are those of the configuration", field(st, "validators"), cfg("consensus", "verifier_list"), entry)
    checked(c, rule, an, an.calls_to(r"Storage::get_latest_(epoch|proof)$"))


def genesis(c):
    rule = "X01.genesis"
    an = c.an(one(c, r"^huobi_chain::handle_init$", CR), stop=PATHS)
    located(c, an)
    cfg, key, addr, chain = identity(an)
    stores = {e.term for e in built(an, "storage")}
    tries = {e.term for e in built(an, "trie")}
    store = lambda t: t in stores
    newest = lambda t: is_call(t, r"Storage::get_latest_epoch$") and store(t.a[2][0])
    writes = an.calls_to(r"Storage::(insert_\w+|update_\w+)$") + an.calls_to(r"Executor::create_genesis$")
    looks = [e for e in an.calls_to(r"Storage::get_latest_epoch$") if newest(e.term)]
    c.floor(rule, an, "place where the newest block is looked up", len(looks), 1)
    c.nopath(rule, an, "a chain that has blocks is left alone", an.guarded(writes, lambda t, v: v == ERR and newest(t)), "its genesis can be written again")

    def none(t, v):
        return v is True and is_call(t, r"contains$") and text(t.a[2][1]) == "GetNone" and is_call(t.a[2][0], r"to_string$|::fmt|format") and \
            an.has(t.a[2][0], lambda x: x.op == "err" and newest(x.a[0]))
    c.nopath(rule, an, "a chain is begun only if there is none", an.guarded(writes, none), "a failure to read it is taken for its absence")
    eps, prs = an.calls_to(r"Storage::insert_epoch$"), an.calls_to(r"Storage::update_latest_proof$")
    gen = an.calls_to(r"Executor::create_genesis$")
    for what, es in (("block", eps), ("proof", prs), ("state", gen)):
        c.floor(rule, an, "place where the first %s is made" % what, len(es), 1)
        done = {e.term for e in es}
        c.nopath(rule, an, "success without a chain before means its first %s is there" % what, an.reach(
            [an.start], an.ok_exits(), edge_ok=lambda n, m, k: not any(v == OK and (t in done or newest(t)) for t, v in k)), "it can be missing")
    ids = {e.term for e in prs} | {e.term for e in gen}
    for e0 in (prs, gen):
        ts = {e.term for e in e0}
        c.nopath(rule, an, "the first block is what is written last", an.guarded(eps, lambda t, v: v == OK and t in ts), "a crash can leave it alone")
    for e in eps:
        b = e.args[1]
        h = field(b, "header") if b.op == "agg" else None
        ok = h is not None and h.op == "agg"
        c.ob(rule, an, "the first block is made here", ok and store(e.args[0]), rel(e.span), sig(b, an)[:80])
        if not ok:
            continue
        for f, p in (("chain_id", chain), ("epoch_id", lambda t: t.op == "int" and t.a[0] == 0), ("state_root", lambda t: t.op == "ok" and
                      is_call(t.a[0], r"Executor::create_genesis$")), ("timestamp", lambda t: fld_of(t, "timestamp", lambda y: any(y is g.args[1] for g in gen)))):
            c.ob(rule, an, "the first block has the right %s" % f, p(field(h, f)), rel(e.span), sig(field(h, f), an)[:160])
        for q in prs:
            c.ob(rule, an, "the first proof is that of the first block", q.args[1] is field(h, "proof") and store(q.args[0]), rel(q.span), sig(q.args[1], an)[:100])
    for e in gen:
        f = e.args[0]
        ok = f.op == "ok" and is_call(f.a[0], r"ExecutorFactory::from_root$")
        c.ob(rule, an, "the genesis is executed by a new executor", ok, rel(e.span), sig(f, an)[:100])
        if ok:
            a = f.a[0].a[2]
            for what, good, x in (("chain of the configuration", chain(a[0]), a[0]), ("empty state", is_call(a[1], r"Hash::from_empty$"), a[1]),
                                  ("state of this node", a[2].op == "ok" and a[2].a[0] in tries or a[2] in tries, a[2])):
                c.ob(rule, an, "the genesis is executed for the %s" % what, good, rel(e.span), sig(x, an)[:100])
    for b in c.db.find(r"^huobi_chain::main(::main)*$", CR):
        m = c.an(b, stop=[r"huobi_chain::handle_init$", r"huobi_chain::start$"])
        init, go = m.calls_to(r"huobi_chain::handle_init$"), m.calls_to(r"huobi_chain::start$")
        if go:
            break
    c.floor(rule, m, "place where the node starts", len(go), 1)
    ts = {e.term for e in init}
    c.nopath(rule, m, "a node starts only when its chain has begun", m.guarded(go, lambda t, v: v == OK and t in ts), "it can start without")
    # the two databases
    paths = {}
    for n in ("data_path_for_block", "data_path_for_state"):
        d = c.an(one(c, r"Config::%s$" % n, CR))
        paths[n] = [text(x) for e in d.events if e.kind == "call" and re.search(r"::(push|join)$", e.q) for x in e.args[1:]]
    c.ob(rule, an, "blocks and state are kept apart", len({tuple(x) for x in paths.values()}) == 2, "", str(paths))


def x01(c):
    an = c.an(one(c, r"^huobi_chain::start$", CR), stop=PATHS)
    located(c, an)
    made = wired(c, an)
    if made:
        resumed(c, an, made)
    genesis(c)


CHECKS = {
    "X01": ("how a node is put together", CRATES, x01),
}
