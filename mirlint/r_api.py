"""What a user sends and sees: the transactions the API makes of its input, the blocks and balances it shows."""
from .rules import checked, field, is_call, rel, seqmap, sig
from .r_mempool import NONE, OK, arg, is_path, one, shape_of

CR = "core_api"
CRATES = {"core_api", "protocol"}


def text(an, t, seen=None):
    """the strings a text is made of, whatever its case and without the leading 0x"""
    seen = set() if seen is None else seen
    if t in seen:
        return set()
    seen.add(t)
    if t.op == "phi":
        return set().union(*[text(an, x, seen) for x in an.alts(t)])
    if t.op == "ref":
        return text(an, t.a[0][1], seen) if t.a[0][0] == "o" and not t.a[1] else set()
    if is_call(t, r"str::to_(uppercase|lowercase)$|::trim_start_matches$"):
        return text(an, t.a[2][0], seen)
    if is_call(t, r"Index::index$") and t.a[2][1].op == "agg" and shape_of(t.a[2][1]) == "RangeFrom":
        n = field(t.a[2][1], "start")
        return text(an, t.a[2][0], seen) if n.op == "int" and n.a[0] == 2 else {t}
    return {t}


def reads(an, t, p):
    """the text t is exactly what p accepts"""
    got = text(an, t)
    return bool(got) and all(p(x) for x in got)


def told(i, *names):
    """the text of a field of the i-th argument"""
    return lambda an: (lambda t: is_path(t, lambda x: x is arg(an, i), *(names + ("0",))))


def parsed(an, t, rx, p):
    return t.op == "ok" and is_call(t.a[0], rx) and reads(an, t.a[0].a[2][0], p)


def number(an, t, p):
    return parsed(an, t, r"u64::from_str_radix$", p) and t.a[0].a[2][1].op == "int" and t.a[0].a[2][1].a[0] == 16


def octets(an, t, p):
    return parsed(an, t, r"hex::decode$", p)


HASH = r"Hash::from_hex$"


def prefixes(c, rule, an):
    """only a leading 0x is cut off"""
    cut = [e for e in an.calls_to(r"Index::index$") if e.args[1].op == "agg" and shape_of(e.args[1]) == "RangeFrom"]
    for e in cut:
        x = e.args[0]
        c.nopath(rule, an, "only a leading 0x is taken off", an.guarded([e], lambda t, v: v is True and is_call(t, r"str::starts_with$") and
                 t.a[2][0] is x and t.a[2][1].op == "str" and t.a[2][1].a[0] == "0x"), "two other characters can be", rel(e.span))


def raw(c, rule, an, t, action, at):
    """every field of the transaction is the one the user gave"""
    ok = t.op == "agg" and shape_of(t) == "RawTransaction"
    if not c.ob(rule, an, "the transaction is made here", ok, at, sig(t, an)[:80]):
        return
    fee = field(t, "fee")
    for what, v, good in (
            ("chain", field(t, "chain_id"), lambda v: parsed(an, v, HASH, told(1, "chain_id")(an))),
            ("nonce", field(t, "nonce"), lambda v: parsed(an, v, HASH, told(1, "nonce")(an))),
            ("timeout", field(t, "timeout"), lambda v: number(an, v, told(1, "timeout")(an))),
            ("fee asset", field(fee, "asset_id"), lambda v: parsed(an, v, HASH, told(1, "fee_asset_id")(an))),
            ("fee limit", field(fee, "cycle"), lambda v: number(an, v, told(1, "fee_cycle")(an)))):
        c.ob(rule, an, "the transaction has the %s the user gave" % what, good(v), at, sig(v, an)[:120])
    a = field(t, "action")
    if not c.ob(rule, an, "the transaction does what was asked", a.op == "agg" and shape_of(a) == action, at, sig(a, an)[:80]):
        return
    if action == "Transfer":
        asset = field(a, "carrying_asset")
        amount = field(asset, "amount")
        for what, v, good in (
                ("receiver", field(a, "receiver"), lambda v: parsed(an, v, r"UserAddress::from_hex$", told(2, "receiver")(an))),
                ("asset", field(asset, "asset_id"), lambda v: parsed(an, v, HASH, told(2, "carrying_asset_id")(an))),
                ("amount", amount, lambda v: is_call(v, r"from_bytes_be$") and octets(an, v.a[2][0], told(2, "carrying_amount")(an)))):
            c.ob(rule, an, "the transfer has the %s the user gave" % what, good(v), at, sig(v, an)[:120])
    else:
        v = field(a, "code")
        c.ob(rule, an, "the contract has the code the user gave", octets(an, v, told(2, "code")(an)), at, sig(v, an)[:120])
        return shape_of(field(a, "contract_type"))


def digest(an, t, good):
    """the hash of the encoding of a transaction good accepts"""
    if not is_call(t, r"Hash::digest$"):
        return False
    e = t.a[2][0]
    return e.op == "ok" and is_call(e.a[0], r"encode_fixed$") and all(good(x) for x in an.alts(e.a[0].a[2][0]))


def hexed(an, t, p):
    return all(is_call(x, r"hex::encode$") and p(x.a[2][0]) for x in an.alts(t))


def send(c, m, action, safe):
    rule = "A01.sent"
    an = c.an(one(c, r"^core_api::Mutation::%s$" % m, CR))
    prefixes(c, rule, an)
    ins = an.calls_to(r"MemPool::insert$")
    c.floor(rule, an, "place where the transaction is sent", len(ins), 1)
    c.nopath(rule, an, "the transaction is sent once", an.reach(ins, ins), "it can be sent twice")
    done = {e.term for e in ins}
    c.nopath(rule, an, "success means the pool took the transaction", an.guarded(an.ok_exits(), lambda t, v: v == OK and (
        t in done or t.op == "phi" and an.alts(t) <= done)), "it can be told without")
    state = lambda t: is_path(t, lambda x: x is arg(an, 0), "adapter", "mempool")

    def typed(e, kind):
        good = lambda t, v: isinstance(v, frozenset) and {x.split("::")[-1] for x in v} == {kind} and is_path(t, lambda x: x is arg(an, 2), "contract_type")
        if kind:
            c.nopath(rule, an, "the contract is of the type the user gave: %s" % kind, an.guarded([e], good), "it can be of another", rel(e.span))
    key = lambda t: t.op == "ok" and is_call(t.a[0], r"::try_from$") and octets(an, t.a[0].a[2][0], told(3)(an))

    hash_ok = lambda t: digest(an, t, lambda x: x.op == "agg" and shape_of(x) == "RawTransaction")
    shown = lambda t: is_call(t, r"Hash::as_hex$") and all(hash_ok(x) for x in an.alts(t.a[2][0]))
    for e in ins:
        at = rel(e.span)
        c.ob(rule, an, "it goes to the pool of this node", state(e.args[0]), at, sig(e.args[0], an)[:80])
        for s in an.alts(e.args[2]):
            ok = s.op == "agg" and shape_of(s) == "SignedTransaction"
            if not c.ob(rule, an, "the signed transaction is made here", ok, at, sig(s, an)[:80]):
                continue
            for r in an.alts(field(s, "raw")):
                typed(e, raw(c, rule, an, r, action, at))
            h, pk, sg = field(s, "tx_hash"), field(s, "pubkey"), field(s, "signature")
            if safe:
                for what, good, v in (("hash", parsed(an, h, HASH, told(3, "tx_hash")(an)), h), ("public key", octets(an, pk, told(3, "pubkey")(an)), pk),
                                      ("signature", octets(an, sg, told(3, "signature")(an)), sg)):
                    c.ob(rule, an, "the transaction has the %s the user gave" % what, good, at, sig(v, an)[:120])
                continue
            c.ob(rule, an, "the transaction has the hash of its content", parsed(an, h, HASH, shown), at, sig(h, an)[:200])
            pub = lambda t: is_call(t, r"to_bytes$") and is_call(t.a[2][0], r"pub_key$") and key(t.a[2][0].a[2][0])
            c.ob(rule, an, "the transaction has the public key of the key the user gave", octets(an, pk, lambda x: hexed(an, x, pub)), at, sig(pk, an)[:160])

            def signs(t):
                if not (is_call(t, r"to_bytes$") and is_call(t.a[2][0], r"sign_message$")):
                    return False
                k, v = t.a[2][0].a[2][:2]
                return key(k) and v.op == "ok" and is_call(v.a[0], r"::try_from$") and octets(an, v.a[0].a[2][0], shown)
            c.ob(rule, an, "the transaction is signed with the key the user gave", octets(an, sg, lambda x: hexed(an, x, signs)), at, sig(sg, an)[:160])
    if not safe:
        # what is hashed is made of the same input as what is sent
        for e in an.calls_to(r"encode_fixed$"):
            for x in an.alts(e.args[0]):
                typed(e, raw(c, rule, an, x, action, rel(e.span)))
    given = lambda t: told(3, "tx_hash")(an)(t) if safe else all(shown(x) for x in an.alts(t))
    for e in an.ok_exits():
        v = e.val
        for x in an.alts(v):
            ok = x.op == "agg" and len(x.a[1]) == 1
            y = x.a[1][0][1] if ok else x
            ok = ok and (is_path(y, lambda z: z is arg(an, 3), "tx_hash") if safe else y.op == "agg" and given(field(y, "0")))
            c.ob(rule, an, "the user is told the hash of the transaction", ok, rel(e.span), sig(y, an)[:160])
    checked(c, rule, an, ins)


def asked(c, rule, an, i):
    """the block the user asked for, or the newest one: terms of both"""
    store = lambda t: is_path(t, lambda x: x is arg(an, 0), "adapter", "storage")
    num = lambda t: number(an, t, lambda x: is_path(x, lambda y: y.op in ("ok", "pay") and y.a[0] is arg(an, i), "0"))
    by, newest = an.calls_to(r"Storage::get_epoch_by_epoch_id$"), an.calls_to(r"Storage::get_latest_epoch$")
    c.floor(rule, an, "place where the block is looked up", len(by), 1)
    c.floor(rule, an, "place where the newest block is looked up", len(newest), 1)
    for e in by:
        c.ob(rule, an, "the block looked up is the one asked for", store(e.args[0]) and num(e.args[1]), rel(e.span), sig(e.args[1], an)[:120])
    for e in newest:
        c.ob(rule, an, "the newest block is that of this node", store(e.args[0]), rel(e.span), sig(e.args[0], an)[:80])
        c.nopath(rule, an, "the newest block is shown only if none was asked for", an.guarded([e], lambda t, v: v == NONE and t is arg(an, i)),
                 "it can be taken for another", rel(e.span))
    terms = {e.term for e in by + newest}
    return lambda t: t.op == "ok" and all(x in terms for x in an.alts(t.a[0]))


def blocks(c):
    rule = "A01.block"
    an = c.an(one(c, r"^core_api::Query::get_latest_epoch$", CR))
    prefixes(c, rule, an)
    block = asked(c, rule, an, 1)
    head = lambda *n: (lambda t: is_path(t, block, "header", *n))
    hashed = lambda p: (lambda t: all(is_call(x, r"Hash::as_hex$") and p(x.a[2][0]) for x in an.alts(t)))
    num = lambda p: (lambda t: hexed(an, t, lambda x: is_call(x, r"u64::to_be_bytes$") and p(x.a[2][0])))
    user = lambda p: (lambda t: all(is_call(x, r"UserAddress::as_hex$") and p(x.a[2][0]) or is_call(x, r"Address::as_hex$") and x.a[2][0].op == "agg" and
                                    shape_of(x.a[2][0]) == "User" and p(x.a[2][0].a[1][0][1]) for x in an.alts(t)))
    outs = [x for e in an.ok_exits() for x in an.alts(e.val)]
    c.floor(rule, an, "answer with a block", len(outs), 1)
    for e in an.ok_exits():
        for v in an.alts(e.val):
            b = v.a[1][0][1] if v.op == "agg" and v.a[1] else v
            h = field(b, "header") if b.op == "agg" else None
            if not c.ob(rule, an, "the block shown is made here", h is not None and h.op == "agg", rel(e.span), sig(b, an)[:80]):
                continue
            names = {n for n, _ in h.a[1]}
            for n, kind in (("chain_id", hashed), ("epoch_id", num), ("pre_hash", hashed), ("timestamp", num), ("order_root", hashed), ("state_root", hashed),
                            ("cycles_used", num), ("proposer", user), ("validator_version", num)):
                w = field(field(h, n), "0") if n in names and field(h, n).op == "agg" else None
                c.ob(rule, an, "the block shown has the %s of the block" % n, w is not None and kind(head(n))(w), rel(e.span), sig(w, an)[:160] if w is not None else "")

            def entry(y):
                w = field(y, "0") if y.op == "agg" and y.a[1] else y
                return all(is_call(x, r"Hash::as_hex$") and x.a[2][0].op == "elem" for x in an.alts(w))
            for n, coll, src in (("confirm_root", field(h, "confirm_root"), head("confirm_root")), ("receipt_root", field(h, "receipt_root"), head("receipt_root")),
                                 ("ordered_tx_hashes", field(b, "ordered_tx_hashes"), lambda t: is_path(t, block, "ordered_tx_hashes"))):
                seqmap(c, rule, an, "the block shown has the %s of the block" % n, coll, lambda t, src=src: all(src(x) for x in an.alts(t)), entry)
    checked(c, rule, an, an.calls_to(r"Storage::get_\w+$") + an.calls_to(r"from_str_radix$"))


def balances(c):
    rule = "A01.balance"
    an = c.an(one(c, r"^core_api::Query::get_balance$", CR))
    prefixes(c, rule, an)
    block = asked(c, rule, an, 3)
    head = lambda *n: (lambda t: is_path(t, block, "header", *n))
    made = an.calls_to(r"ExecutorFactory::from_root$")
    c.floor(rule, an, "place where the state is opened", len(made), 1)
    for e in made:
        for what, good, x in (("chain", head("chain_id"), e.args[0]), ("state", head("state_root"), e.args[1]), ("block", head("epoch_id"), e.args[3]),
                              ("database", lambda t: is_path(t, lambda y: y is arg(an, 0), "adapter", "trie_db"), e.args[2])):
            c.ob(rule, an, "a balance is read from the %s of the block" % what, good(x), rel(e.span), sig(x, an)[:160])
    ex = {e.term for e in made}
    got = an.calls_to(r"Executor::get_balance$")
    c.floor(rule, an, "place where the balance is read", len(got), 1)
    for e in got:
        c.ob(rule, an, "it is read from that state", e.args[0].op == "ok" and e.args[0].a[0] in ex, rel(e.span), sig(e.args[0], an)[:80])
        c.ob(rule, an, "it is that of the account asked for", parsed(an, e.args[1], r"Address::from_hex$", told(1)(an)), rel(e.span), sig(e.args[1], an)[:100])
        c.ob(rule, an, "it is that of the asset asked for", parsed(an, e.args[2], HASH, told(2)(an)), rel(e.span), sig(e.args[2], an)[:100])
    done = {e.term for e in got}
    right = lambda t: is_call(t, r"to_bytes_be$") and t.a[2][0].op == "ok" and t.a[2][0].a[0] in done
    zero = lambda t: is_call(t, r"to_bytes_be$") and is_call(t.a[2][0], r"from_bytes_be$") and t.a[2][0].a[2][0].op in ("bytes", "str") and not t.a[2][0].a[2][0].a[0]
    n = 0
    for e in an.ok_exits():
        for v in an.alts(e.val):
            b = v.a[1][0][1] if v.op == "agg" and v.a[1] else v
            w = field(b, "0") if b.op == "agg" else b
            for x in an.alts(w):
                n += hexed(an, x, right)
                c.ob(rule, an, "the balance shown is the one read, or zero for none", hexed(an, x, lambda y: right(y) or zero(y)), rel(e.span), sig(x, an)[:200])
                if hexed(an, x, zero):
                    # it may stand only for what could not be read
                    bad = an.chosen(w, x, [m for _, m, cs in an.edges_where(lambda t, k: k == OK and t in done)], [e]) if w.op == "phi" else None
                    c.nopath(rule, an, "zero is shown only if there is no balance", bad, "a balance that was read is shown as zero", rel(e.span))
    c.floor(rule, an, "answer with the balance that was read", n, 1)
    checked(c, rule, an, an.calls_to(r"(Address|Hash)::from_hex$|from_str_radix$"))


def a01(c):
    send(c, "send_transfer_transaction", "Transfer", True)
    send(c, "send_deploy_transaction", "Deploy", True)
    send(c, "send_unsafe_transfer_transaction", "Transfer", False)
    send(c, "send_unsafe_deploy_transaction", "Deploy", False)
    blocks(c)
    balances(c)


CHECKS = {
    "A01": ("what a user sends and sees", CRATES, a01),
}
