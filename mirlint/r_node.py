"""Network, the rest: what the connection service, the ping, discovery and identify protocols report to the peer manager."""
import re

from .core import mk
from .rules import (P, RESHAPERS, SELF, additions, checked, expand, field, fld, forall, is_call, rel, root_of, seqmap, short, sig, tampered,
                    uncall, unfinished, uses_after)
from .r_network import CR, CRATES, OPEN, in_table, one, path_is, tab, variant

EV = "PeerManagerEvent::"


class Atom:
    """a fact about the input: subject(term) holds one of the variants `names`"""
    def __init__(self, subject, *names, no=False):
        self.subject, self.names, self.no = subject, set(names), no

    def about(self, t, v, others):
        """True / False / None: the condition (t, v) says the fact holds / does not / nothing"""
        if isinstance(v, frozenset) and self.subject(t):
            got = set(v)
            if "#other" in got:
                got.discard("#other")
                # every variant that has an arm of its own at this branch is excluded
                yes = self.names & got
                if not yes and self.names <= others:
                    return False
                return None
            if got <= self.names:
                return True
            return None if got & self.names else False
        if isinstance(v, bool) and (is_call(t, r"::(eq|ne)$") or t.op == "bin" and t.a[0] in ("Eq", "Ne")):
            op, a, b = (t.a[0], *t.a[1:3]) if t.op == "bin" else (t.a[0], *t.a[2][:2])
            ne = op.endswith(("ne", "Ne"))
            for x, y in ((a, b), (b, a)):
                if self.subject(x) and y.op == "agg":
                    n = y.a[0].rsplit("::", 1)[-1]
                    same = v != ne
                    if same:
                        return n in self.names
                    return False if self.names == {n} else None
        return None


def case_paths(an, atoms):
    """edges that a run of this case can take"""
    def ok(n, m, cs):
        for t, v in cs:
            for a in atoms:
                others = set()
                if isinstance(v, frozenset) and "#other" in v:
                    for _, cs2 in an.succ.get(n, ()):
                        for t2, v2 in cs2:
                            if t2 is t and isinstance(v2, frozenset):
                                others |= set(v2)
                    others.discard("#other")
                r = a.about(t, v, others)
                if r is (True if a.no else False):
                    return False
        return True
    return ok


def same_path(t, *names):
    """t is the place names[0].names[1]... ; a name with @ is the payload of that variant"""
    ns = list(names[1:])
    while ns:
        f = ns.pop()
        v = ns.pop()[1:] if ns and ns[-1].startswith("@") else None
        if v is None and (t.op != "fld" or t.a[1] != f) or \
                v is not None and (t.op != "pay" or t.a[1].split("::")[-1] != v or t.a[2] != f):
            return False
        t = t.a[0]
    return t.op == "param" and (names[0] is None or t.a[0] == names[0])


def reports(c, rule, an, what, atoms, send_rx, sink, want, keyed=None):
    """in this case exactly one event is sent to `sink`, and `want` holds of it; `keyed`: (term, value) of the way out without a report"""
    ss = [e for e in an.calls_to(send_rx) if sink(e)]
    base = case_paths(an, atoms)

    def ok(n, m, cs):
        return base(n, m, cs) and not (keyed and any(keyed(t, v) for t, v in cs))
    good, n = [], 0
    for e in ss:
        all_good = True
        for x in an.alts(e.args[1]):
            p = an.chosen(e.args[1], x, [an.start], [e], edge_ok=base)
            if p is None:
                continue
            n += 1
            g = want(x)
            all_good &= g
            if not g:
                c.ob(rule, an, what, False, rel(e.span), sig(x, an), an.fmt_path(p))
        if all_good:
            good.append(e)
    c.nopath(rule, an, what, an.reach([an.start], an.exits(), avoid=good, edge_ok=ok), "it happens and the peer manager is not told")
    c.nopath(rule, an, what + ", once", an.reach(ss, ss, edge_ok=base), "it is reported twice")
    c.floor(rule, an, what, n, 1)


def is_event(x, name, **want):
    if not (variant(x) or "").endswith(EV + name):
        return False
    return all(field(x, k) is not None and w(field(x, k)) for k, w in want.items())


def mgr(an):
    """sends of events to the peer manager"""
    return lambda e: len(e.args) > 1 and any(EV in (variant(x) or "") for x in an.alts(e.args[1]))


def par(an, i):
    return P(an.root.locals[i][1])


SEND = r"unbounded_send$"


def n09(c):
    keeper(c)
    ping(c)
    for owner, m, what, want in (
        ("DiscoveryAddrManager", "add_new_addr", "a discovered address is handed on",
         lambda x: is_event(x, "DiscoverAddr", addr=lambda t: t is par(an, 3))),
        ("DiscoveryAddrManager", "add_new_addrs", "all discovered addresses are handed on",
         lambda x: is_event(x, "DiscoverMultiAddrs", addrs=lambda t: whole(an, t, par(an, 3)))),
        ("DiscoveryAddrManager", "misbehave", "a misbehaving session is removed",
         lambda x: is_event(x, "RemovePeerBySession", sid=lambda t: t is par(an, 2))),
        ("IdentifyCallback", "add_remote_listen_addrs", "the addresses a peer listens at are handed on under its id",
         lambda x: is_event(x, "IdentifiedAddrs", pid=lambda t: t is par(an, 2), addrs=lambda t: whole(an, t, par(an, 3)))),
    ):
        an = c.an(one(c, r"%s as .*>::%s$" % (owner, m)), stop=OPEN)
        reports(c, "handed", an, what, [], SEND, mgr(an), want, keyed=down)
        latched(c, "handed", an)
        if m == "misbehave":
            for r in an.exits():
                c.ob("handed", an, "a misbehaving session is disconnected", all((variant(x) or "").endswith("::Disconnect") for x in an.alts(r.val)),
                     rel(r.span), sig(r.val, an))
    an = c.an(one(c, r"IdentifyCallback as .*>::misbehave$"), stop=OPEN)
    for r in an.exits():
        c.ob("handed", an, "a peer that misbehaves while identifying is disconnected", all((variant(x) or "").endswith("::Disconnect") for x in an.alts(r.val)),
             rel(r.span), sig(r.val, an))
    n = 0
    for owner in ("disc::AddrReporter", "ident::AddrReporter", "PingEventReporter", "ConnectionServiceKeeper"):
        an = c.an(one(c, r"%s::new$" % owner), stop=OPEN)
        for r in an.exits():
            for x in an.alts(r.val):
                for f in flags(x):
                    n += 1
                    c.ob("handed", an, "a new reporter reports", f.op == "int" and f.a[0] == 0, rel(r.span), sig(x, an))
    c.floor("handed", an, "reporter", n, 0)


def whole(an, t, src):
    """the list t has every entry of src: src itself, or a list filled in one pass over it"""
    if t is src:
        return not [e for e in an.events if e.kind == "call" and e.args and e.args[0] is src and RESHAPERS.search(e.q or "")]
    adds = additions(an, t)
    if t.op != "new" or not adds or tampered(an, t, adds):
        return False
    done, _ = forall(an, lambda x: x is src, adds)
    return bool(done) and all(y.op == "elem" and y.a[0] is src for e in adds for y in expand(an, e.args[-1])) and \
        unfinished(an, done, [an.start], uses_after(an, t, adds)) is None


def flags(t):
    """the booleans a new value starts with"""
    if t.op == "agg":
        return [f for _, x in t.a[1] for f in flags(x)]
    if is_call(t, r"AtomicBool::new$") or is_call(t, r"Arc(<.*>)?::new$"):
        return [t.a[2][0]] if t.a[2][0].op == "int" else flags(t.a[2][0])
    return [t] if t.op == "int" else []


def down(t, v):
    """a flag of the reporter says that its receiver is gone"""
    if v is not True and v != 1:
        return False
    x = t.a[2][0] if is_call(t, r"AtomicBool::load$") else t
    return x.op == "fld" and root_of(x) is SELF


def latched(c, rule, an, mine=lambda t: True):
    """a reporter is silenced only after its receiver is gone"""
    sets = [e for e in an.calls_to(r"AtomicBool::(store|swap|compare_and_swap|compare_exchange|fetch_\w+)$") if root_of(e.args[0]) is SELF] + \
           [e for e in an.writes() if root_of(e.term) is SELF]

    def failed(t, v):
        return is_call(t, SEND) and v == frozenset(["Err"]) and mine(t) or is_call(t, r"TrySendError(<.*>)?::is_full$") and v is False or \
            is_call(t, r"TrySendError(<.*>)?::is_disconnected$") and v is True
    c.nopath(rule, an, "a reporter is silenced only after its receiver is gone", an.guarded(sets, failed) if sets else None, "the reporter is silenced")


def keeper(c):
    an = c.an(one(c, r"ConnectionServiceKeeper as .*>::handle_error$"), stop=OPEN)
    arg = par(an, 3).a[0]
    is_arg = lambda t: t is P(arg)
    at = lambda *p: (lambda t: same_path(t, arg, *p))
    pid = lambda v: (lambda t: is_call(t, r"PublicKey::peer_id$") and key(v)(t.a[2][0]))
    key = lambda v: (lambda t: t.op == "ok" and at("@" + v, "session_context", "remote_pubkey")(t.a[0]))
    nokey = lambda v: (lambda t, x: at("@" + v, "session_context", "remote_pubkey")(t) and x == frozenset(["None"]))
    for v, ty in (("DialerError", "Dialer"), ("ListenError", "Listen")):
        err, kind = at("@" + v, "error"), (lambda t, v=v: is_call(t, r"io::.*Error::kind$|Error::kind$") and same_path(t.a[2][0], arg, "@" + v, "error", "@IoError", "0"))
        addr = at("@" + v, "address")
        here = Atom(is_arg, v)
        reports(c, "dial-failed", an, "%s: the own address is recognized" % v, [here, Atom(err, "ConnectSelf")], SEND, mgr(an),
                lambda x: is_event(x, "AddListenAddr", addr=addr))
        reports(c, "dial-failed", an, "%s: a repeated connection is reported with its session, address and side" % v,
                [here, Atom(err, "RepeatedConnection")], SEND, mgr(an),
                lambda x: is_event(x, "RepeatedConnection", sid=at("@" + v, "error", "@RepeatedConnection", "0"), addr=addr,
                                   ty=lambda t: (variant(t) or "").endswith("ConnectionType::" + ty)))
        for k in ("TimedOut", "Interrupted"):
            reports(c, "dial-failed", an, "%s: an address is tried again after %s" % (v, k), [here, Atom(err, "IoError"), Atom(kind, k)], SEND, mgr(an),
                    lambda x: is_event(x, "ReconnectLater", addr=addr))
        reports(c, "dial-failed", an, "%s: any other failure marks the address" % v,
                [here, Atom(err, "ConnectSelf", no=True), Atom(err, "RepeatedConnection", no=True), Atom(kind, "TimedOut", no=True),
                 Atom(kind, "Interrupted", no=True)], SEND, mgr(an), lambda x: is_event(x, "UnconnectableAddress", addr=addr))
    v = "ProtocolSelectError"
    name = at("@" + v, "proto_name")
    reports(c, "protocol", an, "a peer without a common protocol is removed", [Atom(is_arg, v), Atom(name, "Some")], SEND, mgr(an),
            lambda x: is_event(x, "RemovePeer", pid=pid(v)), nokey(v))
    reports(c, "protocol", an, "a peer whose protocol selection broke off is retried", [Atom(is_arg, v), Atom(name, "None")], SEND, mgr(an),
            lambda x: is_event(x, "RetryPeerLater", pid=pid(v)), nokey(v))
    v = "ProtocolError"
    reports(c, "protocol", an, "a session with a broken protocol is removed", [Atom(is_arg, v)], SEND, mgr(an),
            lambda x: is_event(x, "RemovePeerBySession", sid=at("@ProtocolError", "id")))
    for v in ("SessionTimeout", "MuxerError"):
        reports(c, "protocol", an, "%s: the peer is retried later" % v, [Atom(is_arg, v)], SEND, mgr(an),
                lambda x: is_event(x, "RetryPeerLater", pid=pid(v)), nokey(v))
    v = "SessionBlocked"
    reports(c, "protocol", an, "a blocked session is removed", [Atom(is_arg, v)], SEND, mgr(an),
            lambda x: is_event(x, "RemovePeerBySession", sid=at("@SessionBlocked", "session_context", "id")), nokey(v))
    sys = [e for e in an.calls_to(SEND) if not mgr(an)(e)]
    for v, kind in (("ProtocolHandleError", "BadProtocolHandle"), ("SessionBlocked", "SessionBlocked")):
        base = case_paths(an, [Atom(is_arg, v)])
        good = [e for e in sys if kind in sig(e.args[1], an)]
        c.nopath("protocol", an, "%s: the node is told" % v,
                 an.reach([an.start], an.exits(), avoid=good,
                          edge_ok=lambda n, m, cs: base(n, m, cs) and not any(nokey(v)(t, x) or down(t, x) for t, x in cs)),
                 "the failure is not reported to the node")
    latched(c, "protocol", an, lambda t: not any(EV in (variant(x) or "") for x in an.alts(t.a[2][1])))

    an = c.an(one(c, r"ConnectionServiceKeeper as .*>::handle_event$"), stop=OPEN)
    arg = par(an, 3).a[0]
    sess = lambda f: at("@SessionOpen", "session_context", f)
    reports(c, "session", an, "an opened session is attached with its key, id, address and side", [Atom(is_arg, "SessionOpen")], SEND, mgr(an),
            lambda x: is_event(x, "AttachPeerSession", pubkey=key("SessionOpen"),
                               session=lambda s: all(field(s, k) is not None and sess(f)(field(s, k)) for k, f in (("sid", "id"), ("addr", "address"), ("ty", "ty")))),
            nokey("SessionOpen"))
    v = "SessionClose"
    reports(c, "session", an, "a closed session is detached from its peer", [Atom(is_arg, v)], SEND, mgr(an),
            lambda x: is_event(x, "DetachPeerSession", pid=pid(v), sid=at("@SessionClose", "session_context", "id"),
                               ty=at("@SessionClose", "session_context", "ty")), nokey(v))
    for v, ev in (("ListenStarted", "AddListenAddr"), ("ListenClose", "RemoveListenAddr")):
        reports(c, "session", an, "%s: the listen address is reported" % v, [Atom(is_arg, v)], SEND, mgr(an),
                lambda x: is_event(x, ev, addr=at("@" + v, "address")))
    latched(c, "protocol", an, lambda t: not any(EV in (variant(x) or "") for x in an.alts(t.a[2][1])))


def ping(c):
    an = c.an(one(c, r"PingEventReporter as .*>::try_send$"), stop=OPEN)
    arg = par(an, 2).a[0]
    for v, ev in (("Ping", "PeerAlive"), ("Pong", "PeerAlive"), ("Timeout", "RetryPeerLater"), ("UnexpectedError", "RetryPeerLater")):
        reports(c, "ping", an, "%s: the peer is reported" % v, [Atom(lambda t: t is P(arg), v)], SEND, mgr(an),
                lambda x: is_event(x, ev, pid=lambda t: same_path(t, arg, "@" + v, "0")), keyed=down)
    latched(c, "ping", an)


# ---------------------------------------------------------------- N10 peers survive a restart

def ret_ok(an):
    return [(r, x) for r in an.exits() for x in an.alts(r.val) if an.retshape(r) != "err"]


def payload(x):
    """the value of Ok(value), or what a call returned if its Ok is"""
    if x.op == "agg" and x.a[0].endswith("Result::Ok"):
        return x.a[1][0][1]
    return mk("ok", x)


def steps(c, rule, an, what, evs):
    """every successful run passes the events, in this order"""
    exits = an.ok_exits()
    for i, e in enumerate(evs):
        c.nopath(rule, an, what + ": always", an.reach([an.start], exits, avoid=[e]), "a run succeeds without %s" % short(e.q or ""), rel(e.span))
        if i:
            c.nopath(rule, an, what + ": in order", an.reach([an.start], [e], avoid=[evs[i - 1]]), "out of order", rel(e.span))


def n10(c):
    configured(c)
    saved(c)
    loaded(c)
    pubkeys(c)
    st = lasting(c)
    for ty, need in ((r"PeerState", st), (r"PeerData", {"0"})):
        derived(c, "encoded", ty, need)


def saved(c):
    an = c.an(one(c, r"PeerManager as .*Drop>::drop$"), stop=OPEN)
    ss = an.calls_to(r"Persistence::save$|PeerPersistence.*::save$")
    c.floor("saved", an, "save", len(ss), 1)
    c.nopath("saved", an, "the peers are saved when the node stops", an.reach([an.start], an.exits(), avoid=ss), "a way out without saving")
    in_pool = lambda t: in_table(strip(t), "pool")

    def entry(y):
        if y.op != "agg" or len(y.a[1]) != 2:
            return False
        k, v = field(y, "0"), field(y, "1")
        if not (k.op == "fld" and v.op == "fld" and k.a[1] == "pubkey" and v.a[1] == "state" and k.a[0] is v.a[0]):
            return False
        p = k.a[0]
        return p.op == "elem" and p.a[0].op == "it" and p.a[0].a[0] in ("values", "values_mut") and in_pool(p.a[0]) or \
            p.op == "fld" and p.a[1] == "1" and p.a[0].op == "elem" and p.a[0].a[0].op != "it" and in_pool(p.a[0].a[0])
    for e in ss:
        seqmap(c, "saved", an, "every peer of the pool is saved with its key and state", e.args[1], in_pool, entry, ordered=False)
    an = c.an(one(c, r"PeerPersistence as .*>::save$"), stop=OPEN)
    data = par(an, 2)
    fs, sers, ws = (an.calls_to(r) for r in (r"fs::File::create$|OpenOptions::open$|fs::write$", r"bincode::serialize$", r"Write::write_all$|fs::write$"))
    for what, l in (("file", fs), ("encoding", sers), ("write", ws)):
        c.floor("saved", an, what, len(l), 1)
    for e in fs:
        x = e.args[0] if e.q.endswith("fs::write") else e.args[-1]
        c.ob("saved", an, "the file written is the configured one", path_is(x, SELF, "path"), rel(e.span), sig(x, an))
    for e in sers:
        x = e.args[0]
        good = x.op == "agg" and x.a[0].split("::")[-2:][0].endswith("PeerData") or x.op == "agg" and "PeerData" in x.a[0]
        c.ob("saved", an, "what is written are the peers", good, rel(e.span), sig(x, an))
        if good:
            boxes(c, "saved", an, "every peer given is written, key and state", field(x, "0"), lambda t: t is data, wrapped)
    for e in ws:
        c.ob("saved", an, "the encoded peers are written to the file", any(uncall(e.args[1]) is s.term for s in sers) and
             (e in fs or any(uncall(e.args[0]) is f.term for f in fs)), rel(e.span), sig(e.args[1], an))
    steps(c, "saved", an, "saving", ws[:1] if fs == ws else (fs[:1] + ws[:1]) if len(fs) == len(ws) == 1 else [])
    checked(c, "saved", an, list(dict.fromkeys(fs + sers + ws)))


def configured(c):
    """once persistence is switched on, the peers are kept in the file the manager is configured with"""
    an = c.an(one(c, r"PeerManager::enable_persistence$"), stop=OPEN)
    ws = [e for e in an.writes() if path_is(e.term, SELF, "persistence")]
    c.floor("configured", an, "persistence set", len(ws), 1)
    c.nopath("configured", an, "persistence is switched on", an.reach([an.start], an.exits(), avoid=ws), "a way out without it")
    for e in ws:
        for v in an.alts(e.val):
            c.ob("configured", an, "the peers are kept in the configured file", v.op == "agg" and "PeerPersistence" in v.a[0] and
                 path_is(field(v, "path"), SELF, "config", "persistence_path"), rel(e.span), sig(v, an))


def strip(t):
    while t.op == "it":
        t = t.a[1]
    return t


def part(t, src, *names):
    """t is the part names... of an element of a collection"""
    for n in reversed(names):
        if t is None or t.op != "fld" or t.a[1] != n:
            return False
        t = t.a[0]
    return t.op == "elem" and src(strip(t.a[0]))


def wrapped(an, y, src):
    k, v = field(y, "0"), field(y, "1")
    return k is not None and k.op == "agg" and k.a[0].endswith("PeerPubKey") and part(field(k, "0"), src, "0") and part(v, src, "1")


def unwrapped(an, y, src):
    return part(field(y, "0"), src, "0", "0") and part(field(y, "1"), src, "1")


def boxes(c, rule, an, what, coll, is_src, entry):
    seqmap(c, rule, an, what, coll, is_src, lambda y: y.op == "agg" and entry(an, y, is_src), ordered=False)


def loaded(c):
    an = c.an(one(c, r"PeerPersistence as .*>::load$"), stop=OPEN)
    fs, rs, ds = (an.calls_to(r) for r in (r"fs::File::open$|OpenOptions::open$|fs::read$", r"Read::read_to_end$|fs::read$", r"bincode::deserialize(_from)?$"))
    for what, l in (("file", fs), ("read", rs), ("decoding", ds)):
        c.floor("loaded", an, what, len(l), 0 if what == "read" else 1)
    for e in fs:
        c.ob("loaded", an, "the file read is the configured one", path_is(e.args[-1], SELF, "path"), rel(e.span), sig(e.args[-1], an))
    for e in rs:
        if len(e.args) > 1:
            x = e.args[0]
            while x.op == "call" and re.search(r"BufReader(<.*>)?::(new|with_capacity)$", x.a[0]):
                x = x.a[2][-1]
            c.ob("loaded", an, "the whole file is read", any(uncall(x) is f.term for f in fs), rel(e.span), sig(e.args[0], an))
    for e in ds:
        src = [r for r in rs if len(r.args) > 1 and e.args[0] is r.args[1] or uncall(e.args[0]) is r.term]
        src += [f for f in fs if an.has(e.args[0], lambda y: y is f.term)]
        c.ob("loaded", an, "what is decoded is what was read", bool(src), rel(e.span), sig(e.args[0], an))
        if rs and src:
            c.nopath("loaded", an, "what is decoded was read before", an.before(src, [e]), "decoded before it is read", rel(e.span))
    for r, x in ret_ok(an):
        boxes(c, "loaded", an, "every peer of the file is given back, key and state", payload(x),
              lambda t: any(t is fld(mk("ok", d.term), "0") for d in ds), unwrapped)
    checked(c, "loaded", an, fs + rs + ds)

    an = c.an(one(c, r"PeerManager::load_peers$"), stop=OPEN)
    ls = an.calls_to(r"Persistence::load$|PeerPersistence.*::load$")
    c.floor("loaded", an, "load", len(ls), 1)
    checked(c, "loaded", an, ls)
    for l in ls:
        src = mk("ok", l.term)
        here = lambda t: t is src
        key = lambda k: is_call(k, r"PublicKey::peer_id$") and part(k.a[2][0], here, "0")

        def state_of(v):
            return part(v, here, "1") or v.op == "agg" and v.a[0].endswith("peer::Peer") and part(field(v, "state"), here, "1")
        mine = lambda t: any(is_call(x, r"HashMap(<.*>)?::(entry|get_mut)$") and in_table(x.a[2][0], "pool") and key(x.a[2][1]) for x in an.subterms(t))
        evs = [e for e in an.writes() if e.val is not None and state_of(e.val) and mine(e.term)] + \
              [e for e in tab(an, "pool", "insert") if len(e.args) > 2 and key(e.args[1]) and state_of(e.args[2]) and e.args[2].op == "agg"]
        done, bad = forall(an, lambda t: t is src, evs)
        c.ob("loaded", an, "every loaded peer enters the pool with its state", bool(done), rel(l.span), ", ".join(map(str, bad))[:200])
        c.nopath("loaded", an, "all peers are loaded before it succeeds", unfinished(an, done, [an.start], an.ok_exits()), "loading ends early")
        # a state once loaded is not replaced by another value
        for e in an.writes():
            if mine(e.term) and e not in evs and e.term.op == "fld" and e.term.a[1] == "state":
                c.nopath("loaded", an, "a loaded state is kept", an.reach(evs, [e], avoid=[x for x in an.events if x.kind == "next" and strip(x.args[0]) is src]),
                         "a loaded state is replaced", rel(e.span))


def pubkeys(c):
    """a public key is written as its encoding and read back by the decoder of exactly these bytes"""
    an = c.an(one(c, r"PeerPubKey as .*Serialize>::serialize$"), stop=OPEN)
    ss = an.calls_to(r"Serializer::serialize_(bytes|\w+)$")
    c.floor("encoded", an, "key written", len(ss), 1)
    for e in ss:
        x = e.args[-1]
        c.ob("encoded", an, "a key is written as its whole encoding", e.q.endswith("serialize_bytes") and is_call(x, r"PublicKey::encode$") and
             path_is(x.a[2][0], SELF, "0"), rel(e.span), sig(x, an))
    for r, x in ret_ok(an):
        c.ob("encoded", an, "writing a key succeeds only as the writer does", any(x is e.term for e in ss), rel(r.span), sig(x, an))
    an = c.an(one(c, r"PeerPubKey as .*Deserialize>::deserialize$"), stop=OPEN)
    for r, x in ret_ok(an):
        c.ob("encoded", an, "a key is read as bytes", is_call(x, r"Deserializer::deserialize_(bytes|byte_buf)$") or is_call(uncall(payload(x)), r"Deserializer::deserialize_(bytes|byte_buf)$"),
             rel(r.span), sig(x, an))
    V = r"PeerPubKey as .*Deserialize>::deserialize::Visitor as .*Visitor>::%s$"
    seen = 0
    for m, i in (("visit_bytes", 2), ("visit_byte_buf", 2), ("visit_borrowed_bytes", 2), ("visit_seq", 2)):
        bs = c.db.find(V % m, CR)
        if not bs:
            continue
        seen += m != "visit_seq"
        an = c.an(bs[0], stop=OPEN + [r"Visitor(<.*>)?>?::visit_\w+$"])
        src = par(an, i)
        for r, x in ret_ok(an):
            if is_call(x, r"::visit_(bytes|byte_buf|borrowed_bytes)$"):
                v = x.a[2][1]
                ok = v is src
                if m == "visit_seq":
                    seqmap_reads(c, an, v, src)
                    ok = True
            else:
                v = payload(x)
                k = field(v, "0") if v.op == "agg" else None
                ok = k is not None and k.op == "ok" and is_call(k.a[0], r"PublicKey::decode$") and k.a[0].a[2][0] is src
            c.ob("encoded", an, "a key is decoded from exactly the bytes read", ok, rel(r.span), sig(x, an))
    c.floor("encoded", "PeerPubKey", "reader of a key", seen, 1)


def seqmap_reads(c, an, v, seq):
    """v holds every element read from the sequence, in order, until it is exhausted"""
    adds = additions(an, v)
    nx = an.calls_to(r"SeqAccess::next_element$")
    c.floor("encoded", an, "byte read", len(adds), 1)
    for e in adds:
        x = e.args[-1]
        c.ob("encoded", an, "each byte read is kept", x.op == "ok" and x.a[0].op == "ok" and any(x.a[0].a[0] is n.term for n in nx), rel(e.span), sig(x, an))
    c.ob("encoded", an, "the bytes read are kept as they came", not tampered(an, v, adds, True), "")
    c.nopath("encoded", an, "no byte is read and dropped", an.reach(nx, nx, avoid=adds), "a byte is dropped")
    c.nopath("encoded", an, "no byte is kept twice", an.reach(adds, adds, avoid=nx), "a byte is kept twice")

    def end(t, v):
        return v == frozenset(["None"]) and t.op == "ok" and any(t.a[0] is n.term for n in nx)
    uses = [e for e in an.events if e.kind == "call" and e.args and any(a is v for a in e.args) and e not in adds]
    c.nopath("encoded", an, "the bytes are read to their end", an.guarded(uses, end), "it stops before the end")


def lasting(c):
    """the parts of a peer's state that are meant to last: what connecting, disconnecting, being alive and knowing an address change"""
    out = set()
    for m in ("update_connect", "update_disconnect", "update_alive", "set_connection_ip", "add_addr"):
        an = c.an(one(c, r"peer::Peer::%s$" % m), stop=OPEN)
        fs = [e.term for e in an.writes() if root_of(e.term) is SELF] + \
             [e.args[0] for e in an.events if e.kind == "call" and re.search(r"::(insert|push|extend)$", e.q or "") and e.args and root_of(e.args[0]) is SELF]
        got = {t.a[1] for t in fs if t.op == "fld" and path_is(t, SELF, "state", t.a[1])}
        c.floor("encoded", an, "part of the state that lasts", len(got), 1)
        out |= got
    return out


def derived(c, rule, ty, need):
    """what is derived for ty writes its fields one after the other, always, and reads them back in the same order"""
    an = c.an(one(c, r"::%s(<\w+>)? as [^>]*Serialize>::serialize$" % ty), stop=OPEN)
    opens = an.calls_to(r"Serializer::serialize_(struct|tuple_struct|newtype_struct)$")
    c.floor(rule, an, "%s written" % ty, len(opens), 1)
    names = []
    for o in opens:
        if o.q.endswith("newtype_struct"):
            c.ob(rule, an, "%s: the value written is its own" % ty, path_is(o.args[-1], SELF, "0"), rel(o.span), sig(o.args[-1], an))
            names = ["0"]
            steps(c, rule, an, ty, [o])
        else:
            fs = an.calls_to(r"Serialize(Tuple)?Struct::(serialize_field|skip_field)$")
            order = sorted(fs, key=lambda e: sum(an.reach([f], [e]) is not None for f in fs))
            names = []
            for e in order:
                x = e.args[-1]
                w = x
                if w.op == "agg" and w.a[0].endswith("__SerializeWith"):
                    w = field(field(w, "values"), "0")
                ok = e.q.endswith("serialize_field") and w.op == "fld" and w.a[0] is SELF
                c.ob(rule, an, "%s: each value written is a field" % ty, ok, rel(e.span), sig(x, an))
                names.append(w.a[1] if ok else None)
            n = o.args[-1]
            c.ob(rule, an, "%s: as many fields are written as announced" % ty, n.op == "int" and n.a[0] == len(names), rel(o.span), sig(n, an))
            steps(c, rule, an, ty, order)
    c.ob(rule, an, "%s: what lasts is written" % ty, set(need) <= set(names), "", "missing: %s" % sorted(set(need) - set(names)))
    D = r"::%s(<\w+>)? as .*Deserialize>::deserialize::__Visitor(<\w+>)? as .*Visitor>::%%s$" % ty
    an = c.an(one(c, D % "visit_seq"), stop=OPEN)
    nx = an.calls_to(r"SeqAccess::next_element$")
    order = sorted(nx, key=lambda e: sum(an.reach([f], [e]) is not None for f in nx))
    c.ob(rule, an, "%s: as many fields are read as written" % ty, len(order) == len(names), "", "%d read, %d written" % (len(order), len(names)))
    for r, x in ret_ok(an):
        v = payload(x)
        for i, (n, e) in enumerate(zip(names, order)):
            y = field(v, n) if v.op == "agg" and n else None
            if y is not None and y.op == "fld" and y.a[1] == "value":
                y = y.a[0]
            c.ob(rule, an, "%s: field %d read is field %d written" % (ty, i, i), y is not None and y.op == "ok" and y.a[0].op == "ok" and y.a[0].a[0] is e.term,
                 rel(r.span), sig(y, an) if y is not None else "")
    steps(c, rule, an, ty, order)
    bs = c.db.find(D % "visit_newtype_struct", CR)
    if bs:
        an = c.an(bs[0], stop=OPEN)
        for r, x in ret_ok(an):
            v = payload(x)
            y = field(v, "0") if v.op == "agg" else None
            c.ob(rule, an, "%s: the value read is the one written" % ty, y is not None and y.op == "ok" and is_call(y.a[0], r"Deserialize::deserialize$|deserialize$"), rel(r.span), sig(x, an))


# ---------------------------------------------------------------- N11 wrapped values survive the wire

ENC, DEC = r"ProtocolCodecSync(<.*>)?::encode_sync$", r"ProtocolCodecSync(<.*>)?::decode_sync$"
READS = {"deserialize_byte_buf": ("visit_byte_buf", "visit_bytes"), "deserialize_bytes": ("visit_borrowed_bytes", "visit_bytes")}
PR = "protocol"


def n11(c):
    codec(c)
    M = r"core_network::message::serde%s$"
    value_written(c, one(c, M % "::serialize"), lambda an, t: t is par(an, 1))
    value_read(c, one(c, M % "::deserialize"), lambda v: v)
    many_written(c, one(c, M % "_multi::serialize"))
    many_read(c, one(c, M % "_multi::deserialize"))


def codec(c):
    """a message is what its serialisation is, whole"""
    B = r"<T as protocol::traits::network::MessageCodec>::%s$"
    for m, rx in (("encode", r"bincode::serialize$"), ("decode", r"bincode::deserialize$")):
        an = c.an(one(c, B % m, PR), stop=OPEN)
        es = an.calls_to(rx)
        c.floor("message", an, m, len(es), 1)
        for e in es:
            c.ob("message", an, "the whole message is %sd" % m, e.args[-1] is par(an, 1), rel(e.span), sig(e.args[-1], an))
        for r, x in ret_ok(an):
            c.ob("message", an, "%s gives what was %sd" % (m, m), any(uncall(payload(x)) is e.term for e in es), rel(r.span), sig(x, an))
        checked(c, "message", an, es)


def value_written(c, body, mine):
    an = c.an(body, stop=OPEN)
    es = [e for e in an.calls_to(ENC) if mine(an, e.args[0])]
    c.floor("wrapped", an, "encoding of the value", len(es), 1)
    ws = an.calls_to(r"Serializer::serialize_\w+$")
    c.floor("wrapped", an, "bytes written", len(ws), 1)
    for w in ws:
        c.ob("wrapped", an, "the whole encoding is written as bytes", w.q.endswith("::serialize_bytes") and any(uncall(w.args[-1]) is e.term for e in es),
             rel(w.span), sig(w.args[-1], an))
    for r, x in ret_ok(an):
        c.ob("wrapped", an, "writing succeeds only as the writer does", any(uncall(payload(x)) is w.term or x is w.term for w in ws), rel(r.span), sig(x, an))
    checked(c, "wrapped", an, es)


def value_read(c, body, inner):
    """the value is decoded from exactly the bytes read"""
    an = c.an(body, stop=OPEN)
    rs = an.calls_to(r"Deserializer(<.*>)?::deserialize_\w+$")
    c.floor("wrapped", an, "bytes read", len(rs), 1)
    for e in rs:
        m = e.q.rsplit("::", 1)[-1]
        c.ob("wrapped", an, "bytes are read", m in READS, rel(e.span), m)
        v = e.args[-1]
        if m in READS and v.op == "agg":
            name = re.sub(r"<.*", "", v.a[0]).rsplit("::", 1)[-1]
            bytes_kept(c, an, e, name, READS[m])
    ds = an.calls_to(DEC)
    c.floor("wrapped", an, "decoding", len(ds), 1)
    for e in ds:
        c.ob("wrapped", an, "the value is decoded from the bytes read", any(uncall(e.args[0]) is r.term for r in rs), rel(e.span), sig(e.args[0], an))
    for r, x in ret_ok(an):
        v = inner(payload(x))
        c.ob("wrapped", an, "the value read is the one decoded", v is not None and any(uncall(v) is e.term for e in ds), rel(r.span), sig(x, an))
    checked(c, "wrapped", an, rs + ds)


def bytes_kept(c, an, e, name, needed):
    bs = {}
    for m in ("visit_bytes", "visit_byte_buf", "visit_borrowed_bytes"):
        for b in c.db.find(r"::%s(<.*>)? as .*Visitor>::%s$" % (name, m), CR):
            bs[m] = b
    c.ob("wrapped", an, "the bytes read have a reader", any(m in bs for m in needed), rel(e.span), "none of %s" % (needed,))
    for m, b in bs.items():
        a = c.an(b, stop=OPEN)
        c.floor("wrapped", a, "bytes kept", len(list(ret_ok(a))), 1)
        for r, x in ret_ok(a):
            c.ob("wrapped", a, "the bytes are kept as they are", payload(x) is par(a, 2), rel(r.span), sig(x, a))
        c.ob("wrapped", a, "every bytes are accepted", not a.err_exits(), "", "some bytes are refused")


def many_written(c, body):
    an = c.an(body, stop=OPEN)
    src = par(an, 1)
    ss = an.calls_to(r"Serializer::serialize_(struct|tuple_struct|tuple|seq)$")
    fs = an.calls_to(r"Serialize(Struct|TupleStruct|Tuple|Seq)::serialize_(field|element)$")
    c.floor("list", an, "list written", len(fs), 1)
    wraps = set()

    def entry(y):
        if y.op == "agg" and len(y.a[1]) == 1 and part(y.a[1][0][1], lambda t: t is src):
            wraps.add(y.a[0])
            return True
        return False
    for e in fs:
        seqmap(c, "list", an, "every value is written, in order", e.args[-1], lambda t: t is src, entry)
    for e in ss:
        n = e.args[-1]
        c.ob("list", an, "as much is written as announced", n.op == "int" and n.a[0] == len(fs), rel(e.span), sig(n, an))
    ends = an.calls_to(r"Serialize(Struct|TupleStruct|Tuple|Seq)::end$")
    for r, x in ret_ok(an):
        c.ob("list", an, "writing succeeds only as the writer does", any(uncall(payload(x)) is e.term or x is e.term for e in ends), rel(r.span), sig(x, an))
        c.nopath("list", an, "a list is written", an.before(fs, [r]), "it succeeds without writing", rel(r.span))
    checked(c, "list", an, ss + fs)
    for w in sorted(wraps):
        name = re.sub(r"<.*", "", w).rsplit("::", 1)[-1]
        if name in ("Some", "Ok"):
            continue
        derived(c, "list", name, {c.db.adts[re.sub(r"<.*", "", w)]["variants"][0]["fields"][0][0]} if re.sub(r"<.*", "", w) in c.db.adts else set())
        for b in c.db.find(r"::%s(<\w+>)? as .*Serialize>::serialize::__SerializeWith(<.*>)? as .*>::serialize$" % name, CR):
            value_written(c, b, lambda an, t: path_is(t, SELF, "values", "0"))
        for b in c.db.find(r"::%s(<\w+>)? as .*Deserialize>::deserialize::__Visitor(<\w+>)? as .*::visit_seq::__DeserializeWith(<.*>)? as .*>::deserialize$" % name, CR):
            value_read(c, b, lambda v: field(v, "value") if v.op == "agg" else None)


def many_read(c, body):
    an = c.an(body, stop=OPEN)
    rs = an.calls_to(r"Deserializer(<.*>)?::deserialize_(struct|tuple_struct|tuple|seq)$|Deserialize(<.*>)?::deserialize$")
    c.floor("list", an, "list read", len(rs), 1)
    vis = set()
    for e in rs:
        for x in e.args:
            if x.op == "agg" and "Visitor" in x.a[0]:
                vis.add(re.sub(r"<.*", "", x.a[0]).rsplit("::", 1)[-1])

    def src(t):
        while t.op == "fld":
            t = t.a[0]
        return t.op == "ok" and any(t.a[0] is e.term for e in rs)
    for r, x in ret_ok(an):
        seqmap(c, "list", an, "every value read is given back, in order", payload(x), src,
               lambda y: y.op == "fld" and y.a[0].op == "elem" and src(strip(y.a[0].a[0])))
    checked(c, "list", an, rs)
    for v in sorted(vis):
        seen = 0
        for m, rx in (("visit_seq", r"SeqAccess(<.*>)?::next_element$"), ("visit_map", r"MapAccess(<.*>)?::(next_value|next_entry)$")):
            for b in c.db.find(r"::%s(<.*>)? as .*Visitor>::%s$" % (v, m), CR):
                if "deserialize::%s" % v not in b.q:
                    continue
                seen += m == "visit_seq"
                a = c.an(b, stop=OPEN)
                nx = a.calls_to(rx)
                c.floor("list", a, "list read", len(nx), 1)
                for r, x in ret_ok(a):
                    y = payload(x)
                    while y.op == "agg" and len(y.a[1]) == 1:
                        y = y.a[1][0][1]
                    while y.op in ("ok", "fld"):
                        y = y.a[0]
                    c.ob("list", a, "the list given back is the one read", any(y is e.term for e in nx), rel(r.span), sig(x, a))
                checked(c, "list", a, nx)
        c.floor("list", v, "reader of a list", seen, 1)


# ---------------------------------------------------------------- N12 the node runs as configured

CHAN = r"channel::mpsc::unbounded$"


def n12(c):
    settings(c)
    handed_config(c)
    wired(c)
    listening(c)
    started(c)
    beats(c)


def address(c, rule, an, t, is_src, uses):
    """t is the multiaddress of the socket address: its ip, and then its port"""
    ok = True
    for x in an.alts(t):
        ip = is_call(x, r"SocketAddr::ip$") and is_src(x.a[2][0])
        ps = [e for e in an.calls_to(r"Multiaddr::push$") if e.args[0] is x or e.args[0].op == "call" and x.op == "call" and e.args[0].a[:2] == x.a[:2]]
        tcp = bool(ps) and all(variant(y) and variant(y).endswith("Protocol::Tcp") and is_call(field(y, "0"), r"SocketAddr::port$") and is_src(field(y, "0").a[2][0])
                               for e in ps for y in an.alts(e.args[1]))
        ok = c.ob(rule, an, "an address is its ip and its port", ip and tcp, "", sig(x, an)) and ok
        if ps:
            c.nopath(rule, an, "an address has its port", an.before(ps, uses), "an address is used without its port")
            c.nopath(rule, an, "an address has one port", an.reach(ps, ps, avoid=[e for e in an.events if e.kind == "next"]), "a port is added twice")
    return ok


def settings(c):
    """every setting changes what it names to the value given, and nothing else"""
    fs = [f[0] for f in c.db.adts["core_network::config::NetworkConfig"]["variants"][0]["fields"]]

    def setter(m, value):
        an = c.an(one(c, r"config::NetworkConfig::%s$" % m), stop=OPEN)
        rs = list(ret_ok(an))
        c.floor("settings", an, m, len(rs), 1)
        for r, x in rs:
            if x.op == "agg" and x.a[0].endswith("Result::Ok"):
                x = payload(x)
            c.ob("settings", an, "%s is set to what is given" % m, field(x, m) is not None and value(an, field(x, m), r), rel(r.span), sig(field(x, m), an) if field(x, m) is not None else "")
            for f in fs:
                if f != m:
                    y = field(x, f)
                    c.ob("settings", an, "%s leaves %s alone" % (m, f), y is not None and path_is(y, SELF, f), rel(r.span), sig(y, an) if y is not None else "")
        return an
    for m in ("max_connections", "max_frame_length"):
        setter(m, lambda an, t, r: t is par(an, 2))
    for m in ("ping_interval", "ping_timeout", "discovery_sync_interval", "peer_manager_heart_beat_interval", "heart_beat_interval"):
        setter(m, lambda an, t, r: is_call(t, r"Duration::from_secs$") and t.a[2][0] is par(an, 2))

    def path(an, t, r):
        """a name under the directory given: only fixed parts are added to it"""
        fixed = lambda x: x.op == "const" or x.op == "str" and not str(x.a[0]).startswith("/")
        t = uncall(t)
        while t.op == "call" and re.search(r"Path(Buf)?::(join|with_extension|with_file_name)$", t.a[0]) and all(map(fixed, t.a[2][1:])):
            t = uncall(t.a[2][0])
        return t is par(an, 2) and all(fixed(e.args[-1]) for e in an.calls_to(r"PathBuf::(push|set_extension|set_file_name|pop)$") if root_of(uncall(e.args[0])) is t)
    setter("persistence_path", path)
    an = setter("secio_keypair", lambda an, t, r: is_ok(t, r"SecioKeyPair::secp256k1_raw_key$") and decoded(t.a[0].a[2][0], par(an, 2)))
    checked(c, "settings", an, an.calls_to(r"hex::decode$|SecioKeyPair::secp256k1_raw_key$"))

    def peers(an, t, r):
        src = par(an, 2)
        here = lambda x: x is src

        def peer(y):
            key = field(y, "pubkey")
            key = key if key is not None else mk("unk", "key")
            while key.op == "call" and re.search(r"PublicKey::(clone|secp256k1_raw_key|Secp256k1)$", key.a[0]) or key.op == "agg" and variant(key).endswith("PublicKey::Secp256k1"):
                key = key.a[2][0] if key.op == "call" else field(key, "0")
            return y.op == "agg" and y.a[0].endswith("peer::Peer") and key.op == "ok" and is_call(key.a[0], r"hex::decode$") and part(key.a[0].a[2][0], here, "0")
        seqmap(c, "settings", an, "every bootstrap peer given is configured", t, here, peer, ordered=False)
        # its address
        for x in an.alts(t):
            for e in additions(an, x):
                for y in expand(an, e.args[-1]):
                    a = [z for z in inserted(an, y) if z.op == "call" and is_call(z, r"SocketAddr::ip$")]
                    c.ob("settings", an, "a bootstrap peer has its address", len(a) > 0, rel(e.span), sig(y, an))
                    for z in a:
                        c.ob("settings", an, "a bootstrap peer has the address given with it", part(z.a[2][0], here, "1"), rel(e.span), sig(z, an))
                        address(c, "settings", an, z, lambda q: part(q, here, "1"), [e])
        return True
    an = setter("bootstraps", peers)
    checked(c, "settings", an, an.calls_to(r"hex::decode$"))


def inserted(an, peer):
    """what is in the address set of a new peer"""
    out = []
    for s in an.subterms(peer):
        if s.op == "new":
            for e in additions(an, s):
                for y in expand(an, e.args[-1]):
                    if y.op == "elem":
                        src = strip(y.a[0])
                        for e2 in additions(an, src) if src.op == "new" else []:
                            out += expand(an, e2.args[-1])
                        out += list(an.subterms(src))
                    out += list(an.subterms(y))
    return out


def is_ok(t, rx):
    return t.op == "ok" and is_call(t.a[0], rx)


def decoded(t, src):
    return is_ok(t, r"hex::decode$") and t.a[0].a[2][0] is src


def handed_config(c):
    for owner, want in (
        ("connection::ConnectionConfig", {"secio_keypair": "secio_keypair", "max_frame_length": ("Some", "max_frame_length")}),
        ("peer_manager::PeerManagerConfig", {"our_id": ("to_peer_id", "secio_keypair"), "pubkey": ("to_public_key", "secio_keypair"), "bootstraps": "bootstraps",
                                             "max_connections": "max_connections", "routine_interval": "peer_manager_heart_beat_interval",
                                             "persistence_path": "persistence_path"}),
    ):
        an = c.an(one(c, r"<core_network::%s as .*From<&.*NetworkConfig>>::from$" % owner), stop=OPEN)
        for r, x in ret_ok(an):
            for f, w in want.items():
                t = field(x, f)
                good = t is not None
                if good and isinstance(w, tuple):
                    if w[0] == "Some":
                        good, t = t.op == "agg" and t.a[0].endswith("::Some"), t.a[1][0][1] if t.op == "agg" and t.a[1] else t
                    else:
                        good, t = is_call(t, r"::%s$" % w[0]), t.a[2][0] if t.op == "call" and t.a[2] else t
                    w = w[1]
                c.ob("config", an, "%s is the configured one" % f, good and path_is(t, par(an, 1), w), rel(r.span), sig(t, an) if t is not None else "")


def nested(an, t):
    """the structures inside a value"""
    return [x for x in an.subterms(t) if x.op == "agg"]


def kinds(c, x, rx):
    """fields of a structure whose type matches, with the type of what goes through the channel"""
    ad = c.db.adts.get(re.sub(r"<.*", "", x.a[0]))
    for v in ad["variants"] if ad else []:
        for f in v["fields"]:
            m = re.search(rx, f[1])
            if m and f[1].startswith(m.group(0)[:8]) and field(x, f[0]) is not None:
                yield f[0], m.group(1), field(x, f[0])


def wired(c):
    an = c.an(one(c, r"NetworkService::new$"), stop=OPEN)
    cfg = par(an, 1)
    conf = lambda t, f: path_is(t, cfg, f)
    srv = [(r, x) for r, x in ret_ok(an)]
    c.floor("wired", an, "service", len(srv), 1)
    given = an.calls_to(r"tentacle_ping::PingHandler::new$|tentacle_identify::IdentifyProtocol::new$|tentacle_discovery::Discovery::new$|ServiceBuilder::build$|"
                        r"MetaBuilder::service_handle$")
    for r, x in srv:
        mine = [e for e in given if an.reach([e], [r]) is not None]
        parts = nested(an, x) + [y for e in mine for a in e.args for y in nested(an, a)]
        # what is sent arrives: all senders of a kind of event belong to the channel of its receiver
        rx = {}
        for y in parts:
            for f, ty, t in kinds(c, y, r"^futures_channel::mpsc::UnboundedReceiver<(.*)>$"):
                rx.setdefault(ty, set()).add(t)
        c.floor("wired", an, "receivers", len(rx), 4)
        for ty, ts in rx.items():
            t = next(iter(ts))
            c.ob("wired", an, "%s: one receiver" % short(ty), len(ts) == 1 and t.op == "fld" and t.a[1] == "1" and is_call(t.a[0], CHAN), rel(r.span), ", ".join(sig(t, an) for t in ts))
        n = 0
        for y in parts:
            for f, ty, t in kinds(c, y, r"^futures_channel::mpsc::UnboundedSender<(.*)>$"):
                n += 1
                c.ob("wired", an, "%s.%s reaches the receiver of %s" % (short(y.a[0]), f, short(ty)), t.op == "fld" and t.a[1] == "0" and
                     fld(t.a[0], "1") in rx.get(ty, ()), rel(r.span), sig(t, an))
        c.floor("wired", an, "senders", n, 10)
        # one peer manager, one table of calls, one connection service
        for what, rx_, least in (("state of peers", r"peer_manager::Inner$", 3), ("table of calls", r"rpc_map::RpcMap$", 2)):
            ys = [y for y in parts if re.search(rx_, re.sub(r"<.*", "", y.a[0]))]
            c.ob("wired", an, "all parts share one %s" % what, len(set(ys)) == 1, rel(r.span), "%d of them" % len(set(ys)))
        bs = {e.term for e in mine if e.q.endswith("ServiceBuilder::build")}
        used = {y for y in an.subterms(x) if is_call(y, r"ServiceBuilder::build$")}
        c.ob("wired", an, "messages are sent over the service that connects", len(used) == 1 and used <= bs, rel(r.span), "%d services" % len(used))
        for f in ("gossip", "rpc", "net_conn_srv"):
            c.ob("wired", an, "%s uses the connection service" % f, any(y in used for y in an.subterms(field(x, f))), rel(r.span), "")
        for f in ("rpc", "rpc_map"):
            c.ob("wired", an, "%s uses the table of calls" % f, any(re.search(r"RpcMap$", y.a[0]) for y in nested(an, field(x, f))), rel(r.span), "")
        c.ob("wired", an, "the configuration is kept", field(x, "config") is cfg, rel(r.span), sig(field(x, "config"), an))
        # heart beats
        for y in parts:
            if re.search(r"common::HeartBeat$", y.a[0]):
                d = field(y, "delay")
                c.ob("wired", an, "a heart beat waits its interval", is_call(d, r"Delay::new$") and d.a[2][0] is field(y, "interval"), rel(r.span), sig(d, an))
        for owner, f in ((x, "heart_beat_interval"), *((y, "peer_manager_heart_beat_interval") for y in parts if re.search(r"peer_manager::PeerManager$", y.a[0]))):
            hb = field(owner, "heart_beat")
            hb = field(hb, "0") if hb is not None and hb.op == "agg" and hb.a[0].endswith("::Some") else hb
            if hb is None or hb.op != "agg":
                c.ob("wired", an, "the heart beat is there", False, rel(r.span), "")
                continue
            c.ob("wired", an, "%s: the heart beat is as configured" % short(owner.a[0]), conf(field(hb, "interval"), f), rel(r.span), sig(hb, an))
            c.ob("wired", an, "%s: the heart beat wakes it" % short(owner.a[0]), field(hb, "waker") is field(owner, "hb_waker"), rel(r.span), sig(hb, an))
        # the connection service
        builds = [e for e in mine if e.q.endswith("ServiceBuilder::build")]
        for m, good in (("key_pair", lambda t: conf(t, "secio_keypair")), ("max_frame_length", lambda t: conf(t, "max_frame_length")),
                        ("forever", lambda t: t.op == "int" and t.a[0] == 1)):
            es = [e for e in an.calls_to(r"ServiceBuilder::%s$" % m) if an.reach([e], [r]) is not None]
            for e in es:
                c.ob("wired", an, "%s is as configured" % m, good(e.args[-1]), rel(e.span), sig(e.args[-1], an))
            for b in builds:
                c.nopath("wired", an, "%s is given to the connection service" % m, an.reach([an.start], [b], avoid=es), "the connection service is built without it", rel(b.span))
                c.ob("wired", an, "%s is kept by the connection service" % m, any(e.term is y for e in es for y in an.subterms(b.args[0])), rel(b.span), "")
    for e in given:
        if e.q.endswith("PingHandler::new"):
            c.ob("wired", an, "pings are sent as often as configured", conf(e.args[0], "ping_interval"), rel(e.span), sig(e.args[0], an))
            c.ob("wired", an, "a ping times out as configured", conf(e.args[1], "ping_timeout"), rel(e.span), sig(e.args[1], an))
        elif e.q.endswith("tentacle_discovery::Discovery::new"):
            t = e.args[1]
            c.ob("wired", an, "discovery is as often as configured", t.op == "agg" and t.a[0].endswith("::Some") and conf(t.a[1][0][1], "discovery_sync_interval"),
                 rel(e.span), sig(t, an))
    # persistence as configured, peers loaded, bootstrap peers connected
    loads = an.calls_to(r"Persistence::load$|PeerPersistence.*::load$")
    exits = an.ok_exits()
    c.nopath("wired", an, "known peers are loaded", an.reach([an.start], exits, avoid=loads), "the service is made without loading")
    on = lambda v: (lambda n, m, cs: not any(conf(t, "enable_persistence") and b is v for t, b in cs))
    uses = [(e.args[0], [e]) for e in loads] + [(field(y, "persistence"), [r]) for r, x in srv for y in nested(an, x) if re.search(r"peer_manager::PeerManager$", y.a[0])]
    c.floor("wired", an, "persistence", len(uses), 2)
    for t, at in uses:
        for alt in an.alts(t):
            keep = alt.op == "agg" and "PeerPersistence" in alt.a[0]
            c.ob("wired", an, "persistence is of a known kind", keep or alt.op == "agg" and "NoopPersistence" in alt.a[0], rel(at[0].span), sig(alt, an))
            c.nopath("wired", an, "persistence is on" if not keep else "persistence is off", an.chosen(t, alt, [an.start], at, edge_ok=on(keep)),
                     "persistence is not as configured", rel(at[0].span))
    dial = [e for e in an.calls_to(SEND) if any((variant(y) or "").endswith("ConnectionEvent::Connect") for y in an.alts(e.args[1]))]
    c.floor("wired", an, "bootstrap", len(dial), 1)

    def some(n, m, cs):
        for t, v in cs:
            if is_call(t, r"::is_empty$") and conf(t.a[2][0], "bootstraps") and v is True:
                return False
            if t.op == "bin" and any(is_call(y, r"::len$") and conf(y.a[2][0], "bootstraps") for y in an.subterms(t)):
                return False
        return True
    c.nopath("wired", an, "bootstrap peers are connected", an.reach([an.start], exits, avoid=dial, edge_ok=some), "bootstrap peers are not connected")


def given_by(an, field_name):
    """edges taken when an optional part of self is there"""
    return lambda n, m, cs: not any(path_is(t, SELF, field_name) and v == frozenset(["None"]) for t, v in cs)


def listening(c):
    an = c.an(one(c, r"NetworkService::listen$"), stop=OPEN)
    ls = an.calls_to(r"service::Service::listen$")
    c.floor("listen", an, "listen", len(ls), 1)
    waiting = lambda n, m, cs: not any(path_is(t, SELF, "net_conn_srv") and v == frozenset(["None"]) or
                                       t.op == "ok" and path_is(t.a[0], SELF, "net_conn_srv") and isinstance(v, frozenset) and "NoListen" not in v for t, v in cs)
    oks = an.ok_exits()
    c.nopath("listen", an, "a service that waits to listen listens", an.reach([an.start], oks, avoid=ls, edge_ok=waiting), "it succeeds without listening")
    checked(c, "listen", an, ls)
    ws = [e for e in an.writes() if root_of(e.term) is SELF]
    for e in ls:
        address(c, "listen", an, e.args[1], lambda q: q is par(an, 2), [e])
    c.nopath("listen", an, "a failure to listen changes nothing", an.reach(ws, an.err_exits()), "the service is changed")
    c.nopath("listen", an, "nothing is changed before it listens", an.before(ls, ws), "the service is changed before")
    of = lambda f: [e for e in ws if path_is(e.term, SELF, f)]
    srv = [e for e in of("net_conn_srv") if any((variant(field(v, "0")) or "").endswith("::Ready") and any(field(field(v, "0"), "0") is l.args[0].a[0] for l in ls)
                                               for v in an.alts(e.val) if v.op == "agg" and v.a[0].endswith("::Some"))]
    c.nopath("listen", an, "a service that listens is ready", an.reach(ls, oks, avoid=srv, edge_ok=lambda n, m, cs: waiting(n, m, cs) and not failed(ls, cs)), "the service still waits to listen")
    c.nopath("listen", an, "a service that listens stays ready", an.reach(srv, [e for e in of("net_conn_srv") if e not in srv]), "the service is dropped")
    # the peer manager
    mgr_ = mk("ok", fld(SELF, "peer_mgr"))
    gone = [e for e in of("peer_mgr") if not any(v.op == "agg" and v.a[0].endswith("::Some") and v.a[1][0][1] is mgr_ for v in an.alts(e.val))]
    back = [e for e in of("peer_mgr") if e not in gone]
    there = given_by(an, "peer_mgr")
    c.nopath("listen", an, "the peer manager is kept", an.reach(gone, oks, avoid=back, edge_ok=there), "the peer manager is dropped")
    c.nopath("listen", an, "the peer manager stays", an.reach(back, gone), "the peer manager is dropped")
    told = [e for e in ws if path_is(e.term, mgr_, "inner", "listen")]
    for e in told:
        for v in an.alts(e.val):
            c.ob("listen", an, "the peer manager knows the address listened on", v.op == "agg" and v.a[0].endswith("::Some") and any(v.a[1][0][1] is l.args[1] for l in ls),
                 rel(e.span), sig(v, an))
    c.nopath("listen", an, "the peer manager is told the address", an.reach(ls, oks, avoid=told, edge_ok=lambda n, m, cs: there(n, m, cs) and not failed(ls, cs)),
             "the peer manager is not told")


def failed(calls, cs):
    return any(t is e.term and v == frozenset(["Err"]) for t, v in cs for e in calls)


def started(c):
    an = c.an(one(c, r"NetworkService as .*Future>::poll$"), stop=OPEN)
    exits = an.exits()
    sp = [e for e in an.events if e.kind == "spawn"]
    default = fld(SELF, "config", "default_listen")
    of = {}
    for f in ("net_conn_srv", "peer_mgr", "router", "heart_beat"):
        part_ = mk("ok", fld(SELF, f))
        of[f] = [e for e in sp if any(an.has(x, lambda y: y is part_) for x in e.args)]
        c.floor("started", an, f, len(of[f]), 1)
        c.nopath("started", an, "%s is started" % f, an.reach([an.start], exits, avoid=of[f], edge_ok=given_by(an, f)), "it is not started")
    ls = an.calls_to(r"service::Service::listen$")
    for e in ls:
        c.ob("started", an, "it listens on the configured address", e.args[1] is default, rel(e.span), sig(e.args[1], an))
    late = lambda n, m, cs: not any(isinstance(v, frozenset) and "NoListen" not in v and t.op == "ok" and path_is(t.a[0], SELF, "net_conn_srv") for t, v in cs)
    c.nopath("started", an, "it listens before it starts", an.reach([an.start], of["net_conn_srv"], avoid=ls, edge_ok=late), "it starts without listening")
    c.nopath("started", an, "it starts only if it listens", an.reach([m for n in an.succ for m, cs in an.succ[n] if failed(ls, cs)], of["net_conn_srv"]), "it starts though it does not listen")
    told = [e for e in an.writes() if path_is(e.term, mk("ok", fld(SELF, "peer_mgr")), "inner", "listen")]
    unknown = lambda n, m, cs: given_by(an, "peer_mgr")(n, m, cs) and not any(
        path_is(t, mk("ok", fld(SELF, "peer_mgr")), "inner", "listen") and v == frozenset(["Some"]) for t, v in cs)
    c.nopath("started", an, "the peer manager knows the address listened on", an.reach([an.start], of["peer_mgr"], avoid=told, edge_ok=unknown), "it starts without it")
    for e in told:
        for v in an.alts(e.val):
            c.ob("started", an, "the peer manager knows the configured address", v.op == "agg" and v.a[0].endswith("::Some") and v.a[1][0][1] is default, rel(e.span), sig(v, an))
    c.nopath("started", an, "an address set before is kept", an.guarded(told, lambda t, v: path_is(t, mk("ok", fld(SELF, "peer_mgr")), "inner", "listen") and v == frozenset(["None"])),
             "it is replaced")
    rx = an.calls_to(r"Stream::poll_next$")
    for r in exits:
        for v in an.alts(r.val):
            if v.op == "agg" and v.a[0].endswith("Poll::Ready"):
                c.nopath("started", an, "the service ends only after all its parts", an.guarded([r], lambda t, v: v == frozenset(["None"]) and any(
                    an.has(t, lambda y: y is e.term) for e in rx)), "the service ends early", rel(r.span))


def beats(c):
    for owner in ("NetworkService", "PeerManager"):
        an = c.an(one(c, r"%s as .*Future>::poll$" % owner), stop=[r"PeerManager::\w+$", r"Inner::\w+$"] if owner == "PeerManager" else OPEN)
        regs = [e for e in an.calls_to(r"AtomicWaker::register$") if path_is(e.args[0], SELF, "hb_waker") and is_call(e.args[1], r"Context::waker$") and e.args[1].a[2][0] is par(an, 2)]
        c.nopath("beats", an, "the heart beat can wake it", an.reach([an.start], an.exits(), avoid=regs), "its waker is not registered")
        part_ = mk("ok", fld(SELF, "heart_beat"))
        sp = [e for e in an.events if e.kind == "spawn" and any(an.has(x, lambda y: y is part_) for x in e.args)]
        c.nopath("beats", an, "the heart beat is started", an.reach([an.start], an.exits(), avoid=sp, edge_ok=given_by(an, "heart_beat")), "it is not started")
    an = c.an(one(c, r"HeartBeat as .*Future>::poll$"), stop=OPEN)
    ps = [e for e in an.calls_to(r"Future::poll$") if path_is(e.args[0], SELF, "delay")]
    rs = an.calls_to(r"Delay::reset$")
    ks = [e for e in an.calls_to(r"AtomicWaker::wake$") if path_is(e.args[0], SELF, "waker")]
    for what, l in (("wait", ps), ("reset", rs), ("wake", ks)):
        c.floor("beats", an, what, len(l), 1)
    for e in rs:
        c.ob("beats", an, "the next beat is after the interval", path_is(e.args[0], SELF, "delay") and path_is(e.args[1], SELF, "interval"), rel(e.span), sig(e.args[1], an))
    over = lambda n, m, cs: not any(any(t is e.term for e in ps) and v == frozenset(["Pending"]) for t, v in cs)
    ends = [r for r in an.exits() if an.retshape(r) != "err" and not all(x.op == "agg" and x.a[0].endswith("::Err") or an.has(x, lambda y: y.op == "err") for x in an.alts(r.val))]
    for what, l in (("a beat wakes the service", ks), ("after a beat the next is awaited", rs)):
        c.nopath("beats", an, what, an.reach(ps, ps + ends, avoid=l, edge_ok=over), "a beat is lost")
    c.nopath("beats", an, "it waits only while the delay runs", an.reach([an.start], ends, edge_ok=over) or an.reach(rs, ends, avoid=ps), "it waits without a delay")


CHECKS = {
    "N12": ("The network node runs as configured", CRATES, n12),
    "N11": ("Values carried in messages come back unchanged", CRATES, n11),
    "N10": ("The peers a node knows survive its restart", CRATES, n10),
    "N09": ("Connection events are reported to the peer manager as they happened", CRATES, n09),
}
