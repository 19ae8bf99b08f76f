"""Network: request/response correlation, inbound isolation, routing, outbound path, peer tables, dialing, locks."""
import re

from .core import Anchor, agg, mk, OK, ERR, SOME, NONE
from .rules import (P, SELF, aborts, additions, at_least, checked, field, fld, forall, has_field, is_call, iter_sources, root_of, rel, seqmap, short, sig, tampered, without_edges,
                    uncall, unfinished)

CR = "core_network"
CRATES = {"core_network", "protocol"}
NET = "protocol::traits::network::"
PRIO = NET + "Priority"


def one(c, rx, crate=CR):
    b = c.db.find(rx, crate)
    if len(b) != 1:
        raise Anchor("%s: %d found" % (rx, len(b)))
    return b[0]


OPEN = [r"MessageHandler::process$", r"MessageHandler>::process$"]      # implemented by users of the crate


def meth(c, owner, m):
    """the body of an (async) method: generator body of an async fn where there is one"""
    g = c.db.find(r"%s.*::%s::__%s::\{c0\}$" % (owner, m, m), CR) or c.db.find(r"%s(<[^>]*>)?::%s::\{c0\}$" % (owner, m), CR)
    g = [b for b in g if b.locals[1][0].startswith("generator:")] or g
    if g and "generator:" in g[0].locals[1][0]:
        return g[0]
    return one(c, r"%s.*::%s$" % (owner, m))


# ---------------------------------------------------------------- values

def unwrap(t):
    """drop conversions that keep the value: parse of an endpoint, newtype fields, to_owned, copies"""
    while True:
        if t.op in ("ok",):
            t = t.a[0]
        elif t.op == "fld" and t.a[1] == "0":
            t = t.a[0]
        elif is_call(t, r"str::parse$|FromStr::from_str$"):
            t = t.a[2][0]
        elif t.op == "agg" and t.a[0].endswith("endpoint::Endpoint"):
            t = t.a[1][0][1]
        elif is_call(t, r"::(to_owned|into|clone|to_string|from|as_str|as_ref|deref)$") and len(t.a[2]) == 1:
            t = t.a[2][0]
        else:
            return t


def text(an, t, d=0):
    """pieces of a formatted text: strings and the terms printed with Display"""
    t0 = t
    while t.op in ("ok",) or is_call(t, r"str::parse$|FromStr::from_str$") or t.op == "fld" and t.a[1] == "0" or \
            t.op == "agg" and t.a[0].endswith("endpoint::Endpoint"):
        t = t.a[2][0] if t.op == "call" else t.a[1][0][1] if t.op == "agg" else t.a[0]
    if t.op == "str":
        return [t.a[0]]
    if is_call(t, r"fmt::format$") and is_call(t.a[2][0], r"Arguments::new_v1$"):
        ps, xs = t.a[2][0].a[2]
        if ps.op == "agg" and xs.op == "agg":
            out = []
            pieces = [x for _, x in ps.a[1]]
            args = [x for _, x in xs.a[1]]
            for i in range(max(len(pieces), len(args))):
                if i < len(pieces) and pieces[i].op == "str":
                    out.append(pieces[i].a[0])
                if i < len(args):
                    x = args[i]
                    x = x.a[2][0] if is_call(x, r"ArgumentV1::new") else x
                    out += text(an, x, d + 1) if d < 6 else [x]
            return glue(out)
    if is_call(t, r"trim_start_matches$|ToString::to_string$|::to_owned$|::clone$|::full_url$") and d < 8:
        return text(an, t.a[2][0], d + 1)
    return [t0 if t.op in ("fld",) else t]


def glue(xs):
    out = []
    for x in xs:
        if isinstance(x, str):
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
                continue
        out.append(x)
    return out


# ---------------------------------------------------------------- outbound messages

BC = r"ServiceControl::(quick_)?filter_broadcast$|ServiceControl::(quick_)?(send_message|broadcast)"


def sends(an):
    return an.calls_to(BC) + [e for e in an.calls_to(r"unbounded_send$") if len(e.args) > 1 and
                              (variant(e.args[1]) or "").endswith("ConnectionEvent::SendMsg")]


def variant(t):
    return t.a[0] if t.op == "agg" else None


def packaged(an, b, ev):
    """(NetworkMessage term, [(what, event)]) of wire bytes b: protobuf of a NetworkMessage, compressed once"""
    cps = [e for e in an.calls_to(r"io::(util::)?copy$|util::copy$") if is_call(uncall_w(an, e.args[1]), r"snap::.*Writer.*::new$|Writer::new$")
           and same_vec(an, uncall_w(an, e.args[1]).a[2][0], b)]
    if len(cps) != 1:
        return None, "the bytes sent come from %d compressions" % len(cps)
    enc = [e for e in an.calls_to(r"prost::.*Message::encode$|Message::encode$") if same_vec(an, e.args[1], cps[0].args[0])]
    if len(enc) != 1:
        return None, "the compressed bytes come from %d message encodings" % len(enc)
    return enc[0].args[0], (cps[0], enc[0])


def uncall_w(an, t):
    for x in an.alts(t):
        if x.op == "call":
            return x
    return t


def same_vec(an, a, b):
    return a is b or sig(a, an) == sig(b, an) and root_of(a) is root_of(b)


def url_is(an, url, base, rid):
    """url = parsed(base) [ "/" decimal(rid) ]"""
    ps = text(an, url)
    if rid is None:
        return len(ps) == 1 and not isinstance(ps[0], str) and unwrap(ps[0]) is base
    return len(ps) == 3 and unwrap_t(ps[0]) is base and ps[1] == "/" and unwrap_t(ps[2]) is rid


def unwrap_t(x):
    return x if isinstance(x, str) else unwrap(x) if not is_plain_num(x) else x


def is_plain_num(x):
    return x.op == "call" and x.a[0].endswith("fetch_add")


def ctx_value(an, key_rx, cx):
    """terms read from the context under a key"""
    return [e for e in an.calls_to(r"Context::get$") if e.args[0] is cx and e.args[1].op == "str" and re.search(key_rx, e.args[1].a[0])]


def wire(c, rule, an, base, rid, what):
    """every message that leaves carries NetworkMessage{url: base[/rid], content: encode(msg)} compressed once; its failure is reported"""
    ss = sends(an)
    c.floor(rule, an, "%s: message sent" % what, len(ss), 1)
    encs = [e for e in an.calls_to(r"MessageCodec::encode$")]
    c.ob(rule, an, "%s: the message is encoded once" % what, len(encs) == 1 and root_of(encs[0].args[0]).op == "param", rel(an.root.span))
    for s in ss:
        b = s.args[3] if not s.q.endswith("unbounded_send") else field(s.args[1], "msg")
        nm, why = packaged(an, b, s)
        ok = nm is not None and nm.op == "agg"
        c.ob(rule, an, "%s: %s carries one compressed network message" % (what, sname(s)), ok, rel(s.span), why if nm is None else "")
        if not ok:
            continue
        cp, en = why
        url, content = field(nm, "url"), field(nm, "content")
        c.ob(rule, an, "%s: url of %s" % (what, sname(s)), url_is(an, url, base, rid), rel(s.span),
             "the url is %s" % [x if isinstance(x, str) else sig(x, an) for x in text(an, url)])
        good = content is not None and all(x.op == "ok" and is_call(x.a[0], r"MessageCodec::encode$") for x in an.alts(strip_vec(content)))
        c.ob(rule, an, "%s: content of %s" % (what, sname(s)), good, rel(s.span), "the content is %s" % sig(content, an)[:200])
        c.nopath(rule, an, "%s: encoding precedes %s" % (what, sname(s)), an.before([en], [cp]), "a message leaves before it is encoded", rel(s.span))
        c.nopath(rule, an, "%s: compression precedes %s" % (what, sname(s)), an.before([cp], [s]), "a message leaves uncompressed", rel(s.span))
        for x in (cp, en):
            checked(c, rule, an, [x], "%s: failure of %s" % (what, x.q.rsplit("::", 1)[-1]))
    prio(c, rule, an, ss, what)
    return ss


def sname(s):
    return s.q.rsplit("::", 1)[-1]


def strip_vec(t):
    while is_call(t, r"::(to_vec|into|from|clone|to_owned)$"):
        t = t.a[2][0]
    return t


def prio(c, rule, an, ss, what):
    for s in ss:
        n = sname(s)
        if n == "unbounded_send":
            continue
        want = "High" if n.startswith("quick") else "Normal"
        c.nopath(rule, an, "%s: %s only at priority %s" % (what, n, want),
                 an.guarded([s], lambda t, v: v == frozenset([want]) and not isinstance(v, bool)), "sent at another priority", rel(s.span))


# ---------------------------------------------------------------- N01

def n01(c):
    db = c.db
    # ids
    ids = []
    for b in db.bodies.values():
        if b.crate != CR or not b.q.startswith("core_network::") and "core_network" not in b.q:
            continue
        for blk in b.blocks:
            pass
    an = c.an(one(c, r"RpcMap::next_rpc_id$"))
    for e in an.exits():
        fa = [x for x in an.alts(e.val)]
        c.ob("fresh-id", an, "the id is taken by one atomic increment",
             all(is_call(x, r"Atomic\w+::fetch_add$") and x.a[2][1].op == "int" and x.a[2][1].a[0] >= 1 and
                 has_field(x.a[2][0], "next_id") for x in fa), rel(e.span), sig(e.val, an))
    for b in db.find(r"rpc_map::", CR):
        if b.kind != "fn" and b.kind != "closure":
            continue
        ia = c.an(b)
        for e in ia.events:
            if e.kind == "call" and re.search(r"Atomic\w+::", e.q) and not e.q.endswith(("::new", "::load")) and e.args:
                c.ob("fresh-id", ia, "the counter only grows", e.q.endswith("fetch_add") and e.args[1].op == "int" and
                     1 <= e.args[1].a[0] < 1 << 32, rel(e.span), "%s" % sig(e.term, ia))

    # the table
    an = c.an(one(c, r"RpcMap::insert$"))
    ins = an.calls_to(r"(HashMap|BTreeMap)\S*::insert$")
    c.floor("table", an, "entry inserted", len(ins), 1)
    ch = an.calls_to(r"oneshot::channel$")
    for e in ins:
        k, v = e.args[1], e.args[2]
        c.ob("table", an, "the entry is filed under the session and the id", key_ok(k), rel(e.span), sig(k, an))
        tx = [x for x in an.subterms(v) if x.op == "fld" and x.a[1] == "0" and is_call(x.a[0], r"oneshot::channel$")]
        for r in an.exits():
            good = tx and all(y.op == "fld" and y.a[1] == "1" and y.a[0] is tx[0].a[0] for y in an.alts(r.val))
            c.ob("table", an, "the entry holds the sender of the returned receiver", bool(good), rel(e.span))
    c.nopath("table", an, "the receiver is returned after its sender was filed", an.before(ins, an.exits()),
             "a receiver whose sender is not in the table", rel(an.root.span))
    an = c.an(one(c, r"RpcMap::take$"))
    rem = [e for e in an.calls_to(r"(HashMap|BTreeMap)\S*::remove(_entry)?$")]
    c.floor("table", an, "entry removed", len(rem), 1)
    for e in rem:
        c.ob("table", an, "the removed entry is the one of the session and the id", key_ok(e.args[1]), rel(e.span), sig(e.args[1], an))
    for r in an.ok_exits():
        good = all(any(x is e.term for e in rem for x in an.subterms(v)) for v in an.alts(r.val))
        c.ob("table", an, "a sender handed out has left the table", good, rel(r.span), sig(r.val, an)[:200])
    keq(c)

    # one table
    an = c.an(one(c, r"NetworkService::new$"))
    for r in an.exits():
        for v in an.alts(r.val):
            m, rp = field(v, "rpc_map"), field(v, "rpc")
            c.ob("one-table", an, "requests and responses use the same table",
                 m is not None and rp is not None and field(rp, "map") is not None and sig(field(rp, "map"), an) == sig(m, an) and
                 root_of(field(rp, "map")) is root_of(m), rel(r.span), "%s / %s" % (sig(m, an)[:80], sig(field(rp, "map"), an)[:80]))
    n = 0
    for m in ("register_endpoint_handler", "register_rpc_response"):
        an = c.an(one(c, r"NetworkService::%s$" % m))
        for e in [e for e in an.events if e.kind == "spawn"]:
            n += 1
            for v in an.alts(e.args[0]):
                mp = field(v, "rpc_map")
                c.ob("one-table", an, "the reactor answers from the service's table", mp is not None and path_is(mp, SELF, "rpc_map"),
                     rel(e.span), sig(v, an)[:200])
    c.floor("one-table", "core_network", "reactors started", n, 2)

    # call
    an = c.an(meth(c, "NetworkRpc", "call"))
    cx, end = P("cx"), P("end")
    sid = [fld(mk("ok", e.term), "0") for e in ctx_value(an, "session", cx)]
    fa = an.calls_to(r"Atomic\w+::fetch_add$")
    c.ob("request", an, "one fresh id per request", len(fa) == 1, rel(an.root.span))
    if len(fa) == 1 and sid:
        rid = fa[0].term
        ss = wire(c, "request", an, end, rid, "request")
        ins = an.calls_to(r"(HashMap|BTreeMap)\S*::insert$")
        c.floor("request", an, "pending entry", len(ins), 1)
        for e in ins:
            c.ob("request", an, "the pending entry is filed under the peer and the fresh id",
                 kget(e.args[1], "sid") in sid and kget(e.args[1], "rid") is rid, rel(e.span), sig(e.args[1], an))
        for s in ss:
            t = s.args[1]
            c.ob("request", an, "the request goes to the peer of the pending entry (%s)" % sname(s), single(t) in sid, rel(s.span), sig(t, an))
            c.nopath("request", an, "the entry is pending before the request leaves (%s)" % sname(s), an.before(ins, [s]),
                     "a request leaves without pending entry", rel(s.span))
        chans = {x for e in ins for x in an.subterms(e.args[2]) if is_call(x, r"oneshot::channel$")}
        for r in an.ok_exits():
            good = all(any(x.op == "fld" and x.a[1] == "1" and x.a[0] in chans for x in an.subterms(v)) for v in an.alts(r.val))
            c.ob("request", an, "the answer comes from the pending entry", good, rel(r.span), sig(r.val, an)[:160])
            c.nopath("request", an, "an answer only after the request left", an.before(ss, [r]), "no request was sent", rel(r.span))
        # no leak
        rem = [e for e in an.calls_to(r"(HashMap|BTreeMap)\S*::remove(_entry)?$") if kget(e.args[1], "sid") in sid and kget(e.args[1], "rid") is rid]
        aw = [e for e in an.events if e.kind == "await" and any(is_call(x, r"oneshot::channel$") for a in e.args for x in an.subterms(a))]
        aw += [e for e in an.events if e.kind == "await" and e.id not in {a.id for a in aw} and not any(
            is_call(x, r"MessageCodec::encode$|Compression|Message::") for a in e.args for x in an.subterms(a))]
        gone = {e.term for e in an.calls_to(r"(HashMap|BTreeMap)\S*::contains_key$")}
        p = an.reach(ins, an.err_exits(), avoid=rem + aw, edge_ok=lambda n, m, cs: not any(t in gone and v is False for t, v in cs))
        c.nopath("request", an, "a request that fails to leave keeps no pending entry", p, "the entry stays pending for ever", rel(an.root.span))

    # response
    an = c.an(meth(c, "NetworkRpc", "response"))
    sid = [fld(mk("ok", e.term), "0") for e in ctx_value(an, "session", cx)]
    rids = [fld(mk("ok", e.term), "0") for e in ctx_value(an, "rpc", cx)]
    c.floor("response", an, "session and id of the request", min(len(sid), len(rids)), 1)
    if sid and rids:
        ss = wire(c, "response", an, end, unwrap(rids[0]), "response")
        for s in ss:
            c.ob("response", an, "the response goes to the peer that asked (%s)" % sname(s), single(s.args[1]) in sid, rel(s.span), sig(s.args[1], an))
        for r in an.ok_exits():
            c.nopath("response", an, "success only after the response left", an.before(ss, [r]), "nothing was sent", rel(r.span))
        for s in ss:
            checked(c, "response", an, [s], "failure of %s is reported" % sname(s))

    # context
    ks = {}
    for k in ("session_id", "rpc_id"):
        g = c.an(one(c, r"NetworkContext>::%s$" % k))
        s = c.an(one(c, r"NetworkContext>::set_%s$" % k))
        ge, se = g.calls_to(r"Context::get$"), s.calls_to(r"Context::with_value$")
        c.ob("context", g, "%s is read where it was stored" % k, len(ge) == 1 and len(se) == 1 and ge[0].args[1].op == "str" and
             ge[0].args[1] is se[0].args[1], rel(g.root.span))
        for r in s.exits():
            c.ob("context", s, "set_%s keeps the rest of the context" % k, len(se) == 1 and all(v is se[0].term for v in s.alts(r.val)) and
                 se[0].args[0] is SELF, rel(r.span))
            v = se[0].args[2] if se else None
            c.ob("context", s, "set_%s stores its argument" % k, v is not None and v.op == "agg" and v.a[1] and
                 all(x.op == "param" and x is not SELF for _, x in v.a[1]), rel(r.span))
        for r in g.ok_exits():
            c.ob("context", g, "%s is the stored value" % k, len(ge) == 1 and all(any(x is ge[0].term for x in g.subterms(v)) for v in g.alts(r.val)),
                 rel(r.span))
        if ge:
            ks[k] = ge[0].args[1]
    c.ob("context", "NetworkContext", "session and request id have keys of their own", len(set(ks.values())) == 2)

    # inbound path of the session id
    an = c.an(one(c, r"Transmitter as .*::received$"))
    us = an.calls_to(r"unbounded_send$")
    c.floor("inbound", an, "message delivered", len(us), 1)
    for e in us:
        v = e.args[1]
        s, m = field(v, "sid"), field(v, "msg")
        c.ob("inbound", an, "a received message keeps its session and bytes", s is not None and path_end(s, "session", "id") and
             root_of(s).op == "param" and m is not None and m.op == "param" and m is not root_of(s), rel(e.span), sig(v, an))
    an = router(c)
    for e in an.calls_to(r"unbounded_send$"):
        v = e.args[1]
        if v.op == "agg" and v.a[0].endswith("SessionMessage"):
            c.ob("inbound", an, "the router keeps the session", path_end(field(v, "sid"), "sid"), rel(e.span), sig(v, an))

    # reactor
    rf = one(c, r"Reactor::react$")
    an = c.an(rf)
    sm = an.root.locals[2][1] or "arg2"
    for r in an.exits():
        for v in an.alts(r.val):
            cl = [x for x in an.subterms(v) if x.op == "agg" and "{c" in x.a[0] and any(is_call(y, r"Context::with_value$") for _, y in x.a[1])]
            c.ob("reactor", an, "messages are handled by the reactor task", len(cl) == 1, rel(r.span), sig(v, an)[:160])
            for x in cl:
                vals = [y for _, y in x.a[1]]
                cxs = [y for y in vals if is_call(y, r"Context::with_value$")]
                good = all(is_call(y.a[2][0], r"Context::(new|default)$") and y.a[2][1] is ks.get("session_id") and
                           agg1(y.a[2][2]) is fld(P(sm), "sid") for y in cxs)
                c.ob("reactor", an, "the handler's context names the sender's session", bool(cxs) and good, rel(r.span), sig(cxs[0], an) if cxs else "")
                c.ob("reactor", an, "the reactor looks answers up for the sender's session", fld(P(sm), "sid") in vals, rel(r.span))
                c.ob("reactor", an, "the reactor works on the received message", fld(P(sm), "msg") in vals or
                     any(y.op == "agg" and y.a[0].endswith("NetworkMessage") for y in vals), rel(r.span))
    an = reactor(c)
    caps = [n for n in names(an)]
    dec = an.calls_to(r"MessageCodec::decode$")
    procs = an.calls_to(r"MessageHandler::process$")
    rem = an.calls_to(r"(HashMap|BTreeMap)\S*::remove(_entry)?$")
    c.floor("reactor", an, "handler called", len(procs), 2)
    c.floor("reactor", an, "pending entry taken", len(rem), 1)
    c.ob("reactor", an, "the content is decoded once", len(dec) == 1 and has_field(strip_vec(dec[0].args[0]), "content"), rel(an.root.span))
    for d in dec:
        checked(c, "reactor", an, [d], "a message that does not decode is an error")
    content = mk("ok", dec[0].term) if dec else None
    for e in procs:
        c.ob("reactor", an, "the handler gets the decoded content", e.args[2] is content, rel(e.span), sig(e.args[2], an))
        cxv = e.args[1]
        wv = is_call(cxv, r"Context::with_value$")
        if wv:
            c.ob("reactor", an, "the handler of a request gets its id", cxv.a[2][1] is ks.get("rpc_id") and
                 rid_of(an, agg1(cxv.a[2][2])), rel(e.span), sig(cxv, an)[:200])
            c.ob("reactor", an, "the session stays in the context of a request", cxv.a[2][0].op == "param", rel(e.span))
            c.nopath("reactor", an, "handler called with an id only for requests", an.guarded([e], scheme_is("/rpc_call")), "", rel(e.span))
        else:
            c.ob("reactor", an, "the context of a gossip message is the sender's", cxv.op == "param", rel(e.span))
            c.nopath("reactor", an, "handler called without an id only for gossip", an.guarded([e], scheme_is("/gossip")), "", rel(e.span))
        checked(c, "reactor", an, [e], "failure of the handler is reported")
    for e in rem:
        k = e.args[1]
        c.ob("reactor", an, "the entry taken is that of the sender and the id in the url", kget(k, "sid") is not None and
             (kget(k, "sid").op == "param" or path_end(kget(k, "sid"), "sid") and root_of(kget(k, "sid")).op == "param") and
             rid_of(an, kget(k, "rid")), rel(e.span), sig(k, an)[:200])
        c.nopath("reactor", an, "entries are taken by responses only", an.guarded([e], scheme_is("/rpc_resp")), "a message that is no response takes an entry", rel(e.span))
    snd = an.calls_to(r"oneshot::Sender\S*::send$")
    c.floor("reactor", an, "answer handed over", len(snd), 1)
    for e in snd:
        c.ob("reactor", an, "the answer is the decoded content", e.args[1] is content, rel(e.span), sig(e.args[1], an))
        c.ob("reactor", an, "the answer goes to the entry taken", any(x is r.term for r in rem for x in an.subterms(e.args[0])), rel(e.span))
    # every scheme is served
    for r in an.ok_exits():
        c.nopath("reactor", an, "success only after the handler ran or the answer was handed over", an.before(procs + snd, [r]),
                 "a message is dropped silently", rel(r.span))
    # the id in the url
    an = c.an(one(c, r"RpcEndpoint::extract_rpc_id_from$"))
    for r in an.ok_exits():
        c.ob("id-in-url", an, "the id is the last component of the url", all(rid_of(an, unwrap_ok(an, v)) for v in an.alts(r.val)), rel(r.span), sig(r.val, an)[:200])


def unwrap_ok(an, v):
    while v.op == "agg" and len(v.a[1]) == 1:
        v = v.a[1][0][1]
    return v


def agg1(v):
    return v.a[1][0][1] if v.op == "agg" and len(v.a[1]) == 1 else v


def kget(k, f):
    return field(k, f) if k.op == "agg" else None


def key_ok(k):
    if k.op != "agg":
        return False
    return {x for _, x in k.a[1]} == {P("sid"), P("rid")} and len(k.a[1]) == 2


def single(t):
    return t.a[1][0][1] if t.op == "agg" and t.a[0].endswith("TargetSession::Single") else None


def path_is(t, root, *fs):
    for f in reversed(fs):
        if t.op != "fld" or t.a[1] != f:
            return False
        t = t.a[0]
    return t is root


def path_end(t, *fs):
    if t is None:
        return False
    for f in reversed(fs):
        if t.op != "fld" or t.a[1] != f:
            return False
        t = t.a[0]
    return True


def names(an):
    return [n for _, n, *_ in an.root.locals if n]


def inner_async(c, rx, **kw):
    """the async block a plain function returns; what it captures is named after where
    the function takes it from"""
    f = one(c, rx + "$")
    an = c.an(f, **kw)
    gs = {}
    for r in an.exits():
        for t in an.subterms(r.val):
            if t.op == "agg" and t.a[0].startswith("closure:"):
                b = c.db.bodies.get(t.a[0][8:])
                if b is not None and len(b.locals) > 1 and b.locals[1][0].startswith("generator:"):
                    gs[b.q] = (b, t)
    if len(gs) != 1:
        return c.an(one(c, rx + r"::\{c0\}$"), **kw)
    (b, t), = gs.values()
    ps = {}
    for k, v in t.a[1]:
        w = v
        while w.op == "fld":
            w = w.a[0]
        if w is not v and w.op == "param":
            ps["^" + k] = v
    return c.an(b, params=ps, **kw)


def router(c):
    return inner_async(c, r"MessageRouter(<[^>]*>)?::route_raw_message")


def reactor(c):
    return inner_async(c, r"Reactor(<[^>]*>)?::react", stop=OPEN)


def scheme_is(pre):
    def cond(t, v):
        return v is True and is_call(t, r"starts_with$") and len(t.a[2]) == 2 and t.a[2][1].op == "str" and t.a[2][1].a[0] == pre
    return cond


def rid_of(an, t):
    """decimal value of the last component of the url"""
    if t is None:
        return False
    for x in an.alts(t):
        while x.op in ("ok",) or x.op == "fld" and x.a[1] == "0" or x.op == "agg" and len(x.a[1]) == 1:
            x = x.a[1][0][1] if x.op == "agg" else x.a[0]
        if not is_call(x, r"str::parse$|from_str$"):
            return False
        y = x.a[2][0]
        if is_call(y, r"Index::index$|str::get$|get_unchecked$|::index$"):
            s, r = y.a[2]
            if not (r.op == "agg" and "RangeFrom" in r.a[0]):
                return False
            st = r.a[1][0][1]
            if not (st.op == "bin" and st.a[0] == "Add" and any(z.op == "int" and z.a[0] == 1 for z in st.a[1:]) and
                    any(z.op == "ok" and is_call(z.a[0], r"str::rfind$") and z.a[0].a[2][1].op == "int" and z.a[0].a[2][1].a[0] == 47 and
                        z.a[0].a[2][0] is s for z in st.a[1:])):
                return False
        elif y.op == "ok" or y.op == "elem" or y.op == "next":
            if not any(is_call(z, r"str::(rsplit|rsplitn|split)$") for z in an.subterms(y)):
                return False
        else:
            return False
    return True


def keq(c):
    """equal keys have equal sessions and ids"""
    an = c.an(one(c, r"<core_network::rpc_map::Key as core::cmp::PartialEq\S*>::eq$"))
    o = P(an.root.locals[2][1] or "arg2")
    for r in an.exits():
        for v in an.alts(r.val):
            if v.op == "int" and v.a[0] == 0:
                continue
            for f in ("sid", "rid"):
                def cond(t, b, f=f):
                    return b is True and is_eq(t, fld(SELF, f), fld(o, f)) or b is False and is_ne(t, fld(SELF, f), fld(o, f))
                if is_eq(v, fld(SELF, f), fld(o, f)):
                    c.ob("table", an, "keys differ in %s" % f, True, rel(r.span))
                else:
                    # the exits whose value can be true
                    c.nopath("table", an, "keys differ in %s" % f, an.guarded([r], cond) if v.op == "int" else
                             (None if any(is_eq(x, fld(SELF, f), fld(o, f)) for x in an.subterms(v)) else an.guarded([r], cond)),
                             "keys of different requests are equal", rel(r.span))


def is_eq(t, a, b):
    if t.op == "bin" and t.a[0] == "Eq" and {t.a[1], t.a[2]} == {a, b}:
        return True
    return is_call(t, r"PartialEq\S*::eq$") and {x for x in t.a[2]} == {a, b}


def is_ne(t, a, b):
    if t.op == "bin" and t.a[0] == "Ne" and {t.a[1], t.a[2]} == {a, b}:
        return True
    return is_call(t, r"PartialEq\S*::ne$") and {x for x in t.a[2]} == {a, b}


# ---------------------------------------------------------------- endpoints

SCHEMES = {"/gossip": "Gossip", "/rpc_call": "RpcCall", "/rpc_resp": "RpcResponse"}


def comps_of(an, v):
    """the text whose non-empty '/' components the list v holds, in order"""
    adds = additions(an, v)
    src = set()
    for e in adds:
        x = e.args[-1]
        if not (x.op == "elem" and is_call(x.a[0], r"str::split$") and is_slash(x.a[0].a[2][1])):
            return None
        if an.guarded([e], lambda t, b, x=x: b is False and is_call(t, r"str::is_empty$") and t.a[2][0] is x) is not None:
            return None
        # nothing but empty components is left out
        nx = [n for n in an.events if n.kind == "next" and n.args and n.args[0] is x.a[0]]
        src.add(x.a[0].a[2][0])
        for n in nx:
            p = an.reach([n], [n] + an.exits(), avoid=[e], edge_ok=lambda a, b, cs, x=x: not any(
                t.op == "next" and b2 == frozenset(["None"]) or b2 is True and is_call(t, r"str::is_empty$") and t.a[2][0] is x for t, b2 in cs))
            if p is not None:
                return None
    return src.pop() if len(src) == 1 else None


def is_slash(t):
    return t.op == "int" and t.a[0] == 47 or t.op == "str" and t.a[0] == "/"


def root_text(an, t):
    """the endpoint text of which t is the root (the first three components), or None"""
    ps = text(an, t)
    if len(ps) == 6 and ps[0::2] == ["/", "/", "/"]:
        src = set()
        for k, x in enumerate(ps[1::2]):
            if isinstance(x, str):
                return None
            y = an.look(x) if x.op == "phi" else x
            if y.op == "elem":
                y = y
            if is_call(y, r"Index::index$") and y.a[2][1].op == "int" and y.a[2][1].a[0] == k:
                src.add(comps_of(an, y.a[2][0]))
            else:
                return None
        return src.pop() if len(src) == 1 else None
    if len(ps) == 2 and ps[0] == "/" and is_call(ps[1], r"::join$") and ps[1].a[2][1].op == "str" and ps[1].a[2][1].a[0] == "/":
        y = ps[1].a[2][0]
        if is_call(y, r"Index::index$") and y.a[2][1].op == "agg" and "Range" in y.a[2][1].a[0]:
            f = dict(y.a[2][1].a[1])
            if f.get("end") is not None and f["end"].op == "int" and f["end"].a[0] == 3 and (f.get("start") is None or f["start"].a[0] == 0):
                return comps_of(an, y.a[2][0])
    return None


def valid(c, rule):
    """every endpoint is built from a text with a known scheme and at least three components"""
    db = c.db
    n = 0
    for b in db.find(r"", CR):
        if "::tests::" in b.q or not any(st[0] == "=" and st[2][0] == "agg" and str(st[2][2]).endswith("endpoint::Endpoint")
                                         for blk in b.blocks for st in blk["s"]):
            continue
        an = c.an(b, stop=OPEN)
        for e in an.exits():
            for v in an.subterms(e.val):
                if v.op != "agg" or not v.a[0].endswith("endpoint::Endpoint"):
                    continue
                x = v.a[1][0][1]
                if x.op == "fld" and x.a[1] == "0" and an.root.q.endswith("Clone>::clone"):
                    continue
                n += 1
                c.nopath(rule, an, "an endpoint has a known scheme", an.guarded([e], lambda t, b2, x=x: b2 is True and is_call(t, r"starts_with$") and
                         t.a[2][0] is x and members(an, t.a[2][1]) and all(y.op == "str" and y.a[0] in SCHEMES for y in members(an, t.a[2][1]))), "a text of unknown scheme becomes an endpoint", rel(e.span))
                cv = [y for z in an.events for y in z.args if y.op in ("new", "call") and z.kind == "call" and
                      re.search(r"::len$", z.q) and comps_of(an, y) is x]
                cv += [y.a[0] for _, _, cs in an.edges_where(lambda t, v: True) for t, _ in cs for y in an.subterms(t)
                       if y.op == "len" and y.a[0] not in cv and comps_of(an, y.a[0]) is x]
                p = an.reach([an.start], [e])
                for y in cv:
                    p = an.guarded([e], at_least(y, 3))
                    if p is None:
                        break
                c.nopath(rule, an, "an endpoint has three components", p, "a text of fewer components becomes an endpoint", rel(e.span))
    c.floor(rule, CR, "endpoint construction", n, 1)


def members(an, t):
    """what t, an element of a constant array, can be"""
    out = set()
    for x in an.alts(t):
        out |= {y for _, y in x.a[0].a[1]} if x.op == "elem" and x.a[0].op == "agg" and x.a[0].a[0] == "array" else {x}
    return out


def find_partial(e):
    """slices at a position found in the same text are in range"""
    if e.kind == "call" and re.search(r"::index$", e.q) and len(e.args) == 2 and e.args[1].op == "agg" and "Range" in e.args[1].a[0]:
        for _, x in e.args[1].a[1]:
            ys = x.a[1:] if x.op == "bin" and x.a[0] == "Add" else (x,)
            f = [y for y in ys if y.op == "ok" and is_call(y.a[0], r"str::r?find$") and y.a[0].a[2][0] is e.args[0] and ascii1(y.a[0].a[2][1])]
            k = [y for y in ys if y.op == "int" and y.a[0] <= 1]
            if not (f and len(f) + len(k) == len(ys)):
                return False
        return True
    return False


def ascii1(t):
    return t.op == "int" and t.a[0] < 128 or t.op == "str" and len(t.a[0]) == 1 and ord(t.a[0]) < 128


def n02(c):
    db = c.db
    valid(c, "endpoint")
    roots = [one(c, r"Transmitter as .*::received$"), one(c, r"endpoint::Endpoint as core::str::FromStr>::from_str$"),
             one(c, r"RpcEndpoint as core::str::FromStr>::from_str$"), one(c, r"RpcEndpoint as .*::try_from$"),
             one(c, r"Reactor<M> as .*Future>::poll$"), one(c, r"MessageRouter<C> as .*Future>::poll$"),
             one(c, r"PeerManager::process_event$"),
             one(c, r"ConnectionServiceKeeper as .*::handle_error$"), one(c, r"ConnectionServiceKeeper as .*::handle_event$"),
             one(c, r"common::multi_addr_ip$")]
    roots += db.find(r"Snappy as .*::decompress$", CR) + db.find(r"message::serde\S*.* as serde::de::Visitor>::visit_\w+$", CR)
    roots += db.find(r"message::serde(_multi)?::deserialize$", CR)
    roots += db.find(r"(DiscoveryAddrManager|IdentifyCallback) as tentacle_\w+::\S+>::\w+$", CR)
    roots += db.find(r"PingEventReporter as .*try_send$", CR)
    n = 0
    for b in roots:
        an = c.an(b, stop=OPEN)
        n += 1

        def skip(e):
            q = e.fn
            if re.search(r"Endpoint::(scheme|root)(::|$)", q):
                return True                 # decided by the rule on endpoint construction and by `shape` below
            return "pubkey_to_addr" in q    # the key was proven by the handshake, or comes from the operator
        c.ob("no-abort", an, "analysed", True, rel(b.span))
        for e, what, p in aborts(an, skip=skip):
            if p is not None and find_partial(e):
                p = None
            c.nopath("no-abort", an, "%s in %s" % (what, fshort(e.fn)), p, "bytes of a peer can abort the task", rel(e.span))
    c.floor("no-abort", CR, "entry points of peer data", n, 18)
    shape(c, "endpoint")

    # one task per message; the loop ends with its channel only
    for rx in (r"Reactor<M> as .*Future>::poll$", r"MessageRouter<C> as .*Future>::poll$"):
        b = one(c, rx)
        an = c.an(b, stop=OPEN)
        sp = [e for e in an.events if e.kind == "spawn"]
        c.floor("own-task", an, "task started per message", len(sp), 1)
        polls = [e for e in an.calls_to(r"poll_next$")]
        for e in an.events:
            if e.kind == "call" and re.search(r"MessageHandler::process$|decompress|MessageCodec::decode$", e.q):
                c.nopath("own-task", an, "%s runs in the task of its message" % e.q.rsplit("::", 1)[-1], an.before(sp, [e]),
                         "a message is handled in the loop that serves all of them", rel(e.span))
        c.floor("own-task", an, "channel polled", len(polls), 1)
        for e in polls:
            got = an.edges_where(lambda t, v: v == frozenset(["Some"]) and t.op == "ok" and t.a[0] is e.term)
            c.floor("own-task", an, "message taken", len(got), 1)
            p = an.reach([m for _, m, _ in got], polls + an.exits(), avoid=sp)
            c.nopath("own-task", an, "every message gets its task", p, "a message is taken from the channel and dropped", rel(e.span))
        for r in an.exits():
            for v in an.alts(r.val):
                if variant(v) and variant(v).endswith("Poll::Ready"):
                    c.nopath("own-task", an, "the loop ends with its channel only",
                             an.guarded([r], lambda t, x: x == frozenset(["None"]) and any(is_call(y, r"poll_next$") for y in an.subterms(t))),
                             "a message can end the loop", rel(r.span))
                else:
                    c.nopath("own-task", an, "waiting only when the channel is empty",
                             an.guarded([r], lambda t, x: x == frozenset(["Pending"])), "the loop stops with messages waiting", rel(r.span))
        # errors stay in the task
    for b in (one(c, r"Reactor::react$"), one(c, r"MessageRouter::route_raw_message$")):
        out = ret_type(b)
        c.ob("own-task", b, "a failed message is not an error of the loop", "Output = ()" in out or "Output=()" in out or "Result" not in out, rel(b.span), out[:120])


def fshort(q):
    return re.sub(r"<[^<>]*>", "", q).rsplit("::", 2)[-2] + "::" + q.rsplit("::", 1)[-1] if "::" in q else q


def ret_type(b):
    return str(b.locals[0][0])


def shape(c, rule):
    """scheme() tells the three schemes apart, root() takes three components: total on valid endpoints"""
    an = c.an(one(c, r"endpoint::Endpoint::scheme$"))
    seen = set()
    for r in an.exits():
        for v in an.alts(r.val):
            n = (variant(v) or "").rsplit("::", 1)[-1]
            pre = [k for k, x in SCHEMES.items() if x == n]
            c.ob(rule, an, "scheme %s" % n, len(pre) == 1, rel(r.span), sig(v, an))
            seen |= set(pre)
            if pre:
                # the variant is returned only under its prefix
                p = an.guarded([r], scheme_is(pre[0])) if len(an.alts(r.val)) == 1 else None
                c.nopath(rule, an, "scheme %s is that of its prefix" % n, p, "another text has scheme %s" % n, rel(r.span))
    c.ob(rule, an, "the three schemes", seen == set(SCHEMES), rel(an.root.span), str(sorted(seen)))
    for e in an.events:
        if e.kind == "panic":
            for k in SCHEMES:
                c.nopath(rule, an, "scheme() is total on %s" % k, an.guarded([e], lambda t, v, k=k: v is False and is_call(t, r"starts_with$") and
                         t.a[2][1].op == "str" and t.a[2][1].a[0] == k), "aborts on a valid endpoint", rel(e.span))
    an = c.an(one(c, r"endpoint::Endpoint::root$"))
    for e, what, p in aborts(an):
        ok = is_call(e.term, r"Index::index$") if e.term is not None else False
        if ok:
            i = e.args[1]
            hi = i.a[0] if i.op == "int" else dict(i.a[1]).get("end").a[0] - 1 if i.op == "agg" and dict(i.a[1]).get("end") is not None and \
                dict(i.a[1])["end"].op == "int" else 99
            ok = hi <= 2 and comps_of(an, e.args[0]) is fld(SELF, "0")
        c.ob(rule, an, "root() is total on valid endpoints", ok, rel(e.span), what)


# ---------------------------------------------------------------- N03

def n03(c):
    valid(c, "endpoint")
    shape(c, "endpoint")
    an = c.an(one(c, r"endpoint::Endpoint as core::str::FromStr>::from_str$"))
    arg = P(an.root.locals[1][1] or "arg1")
    for r in an.ok_exits():
        for v in an.alts(r.val):
            x = [y for y in an.subterms(v) if y.op == "agg" and y.a[0].endswith("endpoint::Endpoint")]
            c.ob("identity", an, "an endpoint is the text it was parsed from", len(x) == 1 and strip_vec(x[0].a[1][0][1]) is arg, rel(r.span), sig(v, an))
    an = c.an(one(c, r"endpoint::Endpoint::full_url$"))
    for r in an.exits():
        c.ob("identity", an, "full_url is that text", all(v is fld(SELF, "0") for v in an.alts(r.val)), rel(r.span), sig(r.val, an))
    an = c.an(one(c, r"endpoint::Endpoint::root$"))
    for r in an.exits():
        c.ob("identity", an, "the root is the first three components", root_text(an, r.val) is fld(SELF, "0"), rel(r.span), sig(r.val, an)[:200])
    an = c.an(one(c, r"endpoint::Endpoint as core::cmp::PartialEq\S*>::eq$"))
    o = P(an.root.locals[2][1] or "arg2")
    for r in an.exits():
        for v in an.alts(r.val):
            xs = v.a[2] if v.op == "call" else v.a[1:] if v.op == "bin" and v.a[0] == "Eq" else ()
            c.ob("identity", an, "endpoints are equal when their roots are", len(xs) == 2 and (v.op == "bin" or v.a[0].endswith("::eq")) and
                 {root_text(an, x) for x in xs} == {fld(SELF, "0"), fld(o, "0")}, rel(r.span), sig(v, an)[:200])
    an = c.an(one(c, r"endpoint::Endpoint as core::hash::Hash>::hash$"))
    hs = an.calls_to(r"Hash::hash$|::hash$|Hasher::write")
    c.floor("identity", an, "root hashed", len(hs), 1)
    for e in hs:
        c.ob("identity", an, "the hash depends on the root only", root_text(an, e.args[0] if not e.q.endswith("write") else e.args[1]) is fld(SELF, "0"), rel(e.span))
    an = c.an(one(c, r"endpoint::Endpoint::extend$"))
    for r in an.ok_exits():
        ps = text(an, mk("ok", r.val)) if r.val.op == "call" else text(an, r.val)
        a2 = P(an.root.locals[2][1] or "arg2")
        c.ob("identity", an, "extend appends a component", len(ps) == 3 and unwrap(ps[0]) in (SELF, fld(SELF, "0")) and ps[1] == "/" and ps[2] is a2,
             rel(r.span), str([x if isinstance(x, str) else sig(x, an) for x in ps])[:200])

    # registration
    an = c.an(one(c, r"MessageRouter(<[^>]*>)?::register_reactor$"))
    ins = an.calls_to(r"(HashMap|BTreeMap)\S*::insert$")
    c.floor("register", an, "reactor registered", len(ins), 1)
    for e in ins:
        c.ob("register", an, "the channel is filed under its endpoint", path_end(e.args[0], "reactor_map") and e.args[1] is P(an.root.locals[2][1]) and
             e.args[2] is P(an.root.locals[3][1]), rel(e.span), sig(e.term, an))
    for m, resp in (("register_endpoint_handler", False), ("register_rpc_response", True)):
        an = c.an(one(c, r"NetworkService::%s$" % m), stop=OPEN)
        ins = [e for e in an.calls_to(r"(HashMap|BTreeMap)\S*::insert$") if path_end(e.args[0], "reactor_map")]
        sp = [e for e in an.events if e.kind == "spawn"]
        end = P(an.root.locals[2][1])
        c.floor("register", an, "endpoint registered", len(ins), 1)
        c.floor("register", an, "reactor started", len(sp), 1)
        for e in ins:
            c.ob("register", an, "registered under the endpoint given", unwrap(e.args[1]) is end, rel(e.span), sig(e.args[1], an))
            tx = e.args[2]
            good = tx.op == "fld" and tx.a[1] == "0" and is_call(tx.a[0], r"mpsc::unbounded$")
            for s in sp:
                for v in an.alts(s.args[0]):
                    rx = field(v, "smsg_rx")
                    c.ob("register", an, "the reactor serves the registered channel", good and rx is fld(tx.a[0], "1"), rel(s.span))
                    h = field(v, "handler")
                    if not resp:
                        c.ob("register", an, "the reactor calls the handler given", h is not None and h.op == "param", rel(s.span), sig(h, an) if h is not None else "")
            if resp:
                c.nopath("register", an, "only response endpoints", an.guarded([e], scheme_is("/rpc_resp")), "another endpoint is registered as response", rel(e.span))
            else:
                p = an.guarded([e], lambda t, v: v is False and is_call(t, r"starts_with$") and t.a[2][1].op == "str" and t.a[2][1].a[0] == "/rpc_resp" or
                               v is True and is_call(t, r"starts_with$") and t.a[2][1].op == "str" and t.a[2][1].a[0] in ("/gossip", "/rpc_call"))
                c.nopath("register", an, "no response endpoints", p, "a response endpoint gets a handler", rel(e.span))
            c.nopath("register", an, "a registered endpoint has a reactor", an.after([e], sp, an.ok_exits()), "messages pile up unserved", rel(e.span))
        for r in an.ok_exits():
            p = an.reach([an.start], [r], avoid=ins, edge_ok=lambda n, m2, cs: not any(v == frozenset(["None"]) and path_end(t, "router") for t, v in cs))
            c.nopath("register", an, "success only when registered", p, "a handler is dropped silently", rel(r.span))

    # routing
    an = router(c)
    gets = [e for e in an.calls_to(r"(HashMap|BTreeMap)\S*::get$") if path_end(e.args[0], "reactor_map") or root_of(e.args[0]).op == "param"]
    us = [e for e in an.calls_to(r"unbounded_send$") if (variant(e.args[1]) or "").endswith("SessionMessage")]
    c.floor("route", an, "reactor looked up", len(gets), 1)
    c.floor("route", an, "message delivered", len(us), 1)
    for e in us:
        m = field(e.args[1], "msg")
        g = [x for x in gets if any(y is x.term for y in an.subterms(e.args[0]))]
        c.ob("route", an, "delivered to the reactor looked up", len(g) == 1, rel(e.span), sig(e.args[0], an)[:200])
        for x in g:
            k = x.args[1]
            c.ob("route", an, "looked up under the endpoint of the message", any(is_call(y, r"str::parse$") and y.a[2][0] is fld(m, "url") for y in an.subterms(k)) and
                 k.op == "ok", rel(x.span), sig(k, an)[:200])
    for r in an.ok_exits():
        c.nopath("route", an, "success only after delivery", an.before(us, [r]), "a message is dropped silently", rel(r.span))
    inbound_decode(c, "route", an, us)


def inbound_decode(c, rule, an, us):
    """what is delivered is the decoding of the decompression of the bytes received"""
    for e in us:
        m = field(e.args[1], "msg")
        d = [x for x in an.subterms(m) if is_call(x, r"Message::decode$")]
        c.ob(rule, an, "what is delivered was decoded from the bytes received", len(d) == 1 and m.op == "ok", rel(e.span), sig(m, an)[:160])
        if len(d) != 1:
            continue
        buf = strip_vec(d[0].a[2][0])
        cp = [x for x in an.calls_to(r"io::(util::)?copy$|util::copy$") if same_vec(an, x.args[1], buf)]
        c.ob(rule, an, "the bytes are decompressed once", len(cp) == 1 and is_call(uncall_w(an, cp[0].args[0]), r"snap::.*Reader.*::new$|Reader::new$"), rel(e.span))
        for x in cp:
            w = uncall_w(an, x.args[0])
            c.ob(rule, an, "the bytes decompressed are those received", w.op == "call" and path_end(w.a[2][0], "msg"), rel(x.span), sig(w, an)[:160])
            checked(c, rule, an, [x], "failure to decompress is reported")
            de = [y for y in an.calls_to(r"Message::decode$") if y.term is d[0]]
            c.nopath(rule, an, "decompressed before decoded", an.before([x], de), "", rel(x.span))


# ---------------------------------------------------------------- N04

TABLES = ("peer_session", "session_peer", "connected", "connecting", "pool", "addr_pid", "user_pid")
MUT = r"(Hash|BTree)(Map|Set)\S*::(%s)$"


def tab(an, name, ops):
    return [e for e in an.calls_to(MUT % ops) if e.args and in_table(e.args[0], name)]


def in_table(t, name):
    return path_end(t, name)


def same(an, a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if sig(a, an) == sig(b, an):
        return True
    x, y = {sig(z, an) for z in an.alts(a)}, {sig(z, an) for z in an.alts(b)}
    if x <= y or y <= x:
        return True
    if an.has(a, lambda z: z.op == "phi") or an.has(b, lambda z: z.op == "phi"):
        x, y = {sig(z, an) for z in spread(an, a)}, {sig(z, an) for z in spread(an, b)}
    return x <= y or y <= x


def spread(an, t):
    """the alternatives of a field of t"""
    if t.op in ("fld", "ok") and len(an.alts(t)) == 1:
        return {fld(x, t.a[1]) if t.op == "fld" else mk("ok", x) for x in spread(an, t.a[0])}
    return an.alts(t)


def paired(an, e, partners, edge_ok=None):
    """None if every run through e also passes one of partners (before or after it)"""
    ps = [p for p in partners if p.id != e.id]
    p = an.reach([an.start], [e], avoid=ps, edge_ok=edge_ok)
    if p is None:
        return None
    q = an.reach([e], an.exits(), avoid=ps, edge_ok=edge_ok)
    return None if q is None else p + q


def peer_of(an, place):
    """key of the pool entry the place is in"""
    t = place
    while t.op == "fld":
        t = t.a[0]
    if t.op == "ok" and is_call(t.a[0], MUT % "get_mut|get") and in_table(t.a[0].a[2][0], "pool"):
        return t.a[0].a[2][1]
    if t.op == "slot" and is_call(t.a[0], r"::entry$") and in_table(t.a[0].a[2][0], "pool"):
        return t.a[0].a[2][1]
    if t.op == "phi":
        ks = {peer_of(an, x) for x in an.alts(t)}
        if ks and None not in ks:
            p = mk("phi", ("peer_of", t))
            an.phi[p] = ks
            return p
    return None


def absent(an, es):
    """edges on which the lookup of one of es found nothing are no obligation"""
    ts = {e.term for e in es}

    def ok(n, m, cs):
        return not any(t in ts and (v is False or v == frozenset(["None"])) for t, v in cs)
    return ok


def table_roots(c):
    out = [one(c, r"PeerManager::process_event$"), one(c, r"PeerManager::bootstrap$"), one(c, r"PeerManager::load_peers$"),
           one(c, r"PeerManager::new$")]
    return [c.an(b, stop=OPEN) for b in out]


def n04(c):
    add = rem = 0
    for an in table_roots(c):
        ini = an.root.q.endswith("PeerManager::new")
        if ini:
            own(c, an)
            continue
        # nothing but single insertions and removals
        for e in an.events:
            if e.kind == "call" and e.args and re.search(MUT % "clear|drain|retain|drain_filter|extract_if|extend|append|split_off|replace", e.q) and \
                    any(in_table(e.args[0], t) for t in TABLES):
                c.ob("tables", an, "%s of %s" % (e.q.rsplit("::", 1)[-1], e.args[0].a[1]), False, rel(e.span), "entries of one table change without the others")
        add += peers_added(c, an)
        rem += peers_removed(c, an)
        addresses(c, an)
        sessions(c, an)
    c.floor("peer-added", "PeerManager", "peers added", add, 4)
    c.floor("peer-removed", "PeerManager", "peers removed", rem, 3)
    lookups(c)
    peer_values(c)


def own(c, an):
    """we are in the pool, connected, and no dial candidate"""
    for r in an.exits():
        for v in an.alts(r.val):
            inner = field(v, "inner")
            for name in ("pool", "user_pid", "connected"):
                t = field(inner, name) if inner is not None else None
                es = [e for e in an.calls_to(MUT % "insert") if t is not None and root_of(e.args[0]) is root_of(t) and same(an, e.args[0], t)]
                c.nopath("own", an, "the new manager has ourselves in %s" % name, an.before(es, [r]), "our own entry is missing", rel(r.span))
                for e in es:
                    k = e.args[2] if name == "user_pid" else e.args[1]
                    c.ob("own", an, "the entry in %s is under our id" % name, path_end(k, "our_id"), rel(e.span), sig(k, an))
                    if name == "pool":
                        c.ob("own", an, "our entry has our id", same(an, field(e.args[2], "id"), k), rel(e.span), sig(e.args[2], an)[:120])


def peers_added(c, an):
    n = 0
    news = [(e, e.args[1], e.args[2], e) for e in tab(an, "pool", "insert")]
    for e in an.writes():
        t = e.term
        if t.op == "slot" and peer_of(an, t) is not None:
            news.append((e, peer_of(an, t), e.val, e))
    users = tab(an, "user_pid", "insert")
    addrs = tab(an, "addr_pid", "insert")
    for e, k, p, ev in news:
        n += 1
        for x in an.alts(p):
            pid = field(x, "id") if x.op == "agg" else fld(x, "id")
            ua = field(x, "user_addr") if x.op == "agg" else fld(x, "user_addr")
            st = field(x, "state") if x.op == "agg" else fld(x, "state")
            c.ob("peer-added", an, "a peer is filed under its id", same(an, pid, k), rel(e.span), "%s under %s" % (sig(pid, an), sig(k, an)))
            mine = [u for u in users if same(an, u.args[2], k) and same(an, u.args[1], ua)]
            c.nopath("peer-added", an, "its user address leads to it", paired(an, e, mine), "a peer that cannot be found by its user address", rel(e.span))
            a = field(st, "addr_set") if st.op in ("agg", "upd") else fld(st, "addr_set")
            states = [w.val for w in an.writes() if path_end(place(w), "state") and peer_of(an, place(w)) is not None and same(an, peer_of(an, place(w)), k)]
            for s in [a] + [fld(v, "addr_set") for v in states]:
                if s is None or empty_set(an, s):
                    continue
                es = [u for u in addrs if same(an, u.args[2], k)]
                done, bad = forall(an, lambda y, s=s: same(an, y, s), es)
                # every run through the addition completes the loop over its addresses
                p1 = unfinished(an, done, [an.start], [e])
                p2 = unfinished(an, done, [e], an.exits()) if p1 is not None else None
                c.nopath("peer-added", an, "its addresses lead to it", None if p1 is None or p2 is None else p1 + p2,
                         "an address of a peer that is not known to be its", rel(e.span))
    # states replaced outside
    return n


def place(w):
    return w.term


def empty_set(an, s):
    return s.op == "new" and not additions(an, s)


def peers_removed(c, an):
    n = 0
    gone = [fld(fld(mk("ok", e.term), "state"), "addr_set") for e in tab(an, "pool", "remove|remove_entry")]
    es = tab(an, "addr_pid", "remove")
    done, bad = forall(an, lambda y: any(same(an, y, s) for s in gone), es)
    for e in tab(an, "pool", "remove|remove_entry"):
        n += 1
        k, p = e.args[1], mk("ok", e.term)
        ok = absent(an, [e])
        us = [u for u in tab(an, "user_pid", "remove") if same(an, u.args[1], fld(p, "user_addr"))]
        c.nopath("peer-removed", an, "its user address leads nowhere", paired(an, e, us, ok), "a user address leads to a removed peer", rel(e.span))
        if done:
            es2 = done

            def edge(n, m, cs):
                return ok(n, m, cs) and (n, m) not in es2
            q = an.reach([e], an.exits(), edge_ok=edge)
        else:
            q = an.reach([an.start], [e])
        c.nopath("peer-removed", an, "its addresses lead nowhere", q, "an address leads to a removed peer", rel(e.span))
        for t in ("connected", "connecting", "peer_session"):
            rs = [r for r in tab(an, t, "remove|take") if same(an, r.args[1], k)]
            c.nopath("peer-removed", an, "it leaves %s" % t, paired(an, e, rs), "a removed peer stays in %s" % t, rel(e.span))
    return n


def in_pool(an, e, k):
    """where e happens only with k in the pool, the entry of k is occupied"""
    look = {g.term for g in an.calls_to(MUT % "contains_key|get|get_mut") if in_table(g.args[0], "pool") and same(an, g.args[1], k)}
    if an.guarded([e], lambda t, v: t in look and (v is True or v == frozenset(["Some"]))) is not None:
        return None

    def ok(n, m, cs):
        return not any(t.op == "occupied" and v is False and is_call(t.a[0], r"::entry$") and in_table(t.a[0].a[2][0], "pool") and
                       same(an, t.a[0].a[2][1], k) for t, v in cs)
    return ok


def addresses(c, an):
    sets = [e for e in an.calls_to(MUT % "insert|remove") if path_end(e.args[0], "addr_set") and peer_of(an, e.args[0]) is not None]
    added = [e for e in sets if e.q.endswith("insert")]
    taken = [e for e in sets if e.q.endswith("remove")]
    news = [k for _, k in [(e, e.args[1]) for e in tab(an, "pool", "insert")]] + \
        [peer_of(an, place(w)) for w in an.writes() if place(w).op == "slot" and peer_of(an, place(w)) is not None]
    for e in tab(an, "addr_pid", "insert"):
        a, k = e.args[1], e.args[2]
        if any(same(an, k, x) for x in news) and a.op == "elem":
            continue                            # part of the addition of a peer
        mine = [s for s in added if same(an, s.args[1], a) and same(an, peer_of(an, s.args[0]), k)]
        p = paired(an, e, mine, in_pool(an, e, k))
        c.nopath("address", an, "an address is filed for a peer that has it", p, "an address leads to a peer that does not have it", rel(e.span))
    for s in added:
        k = peer_of(an, s.args[0])
        mine = [e for e in tab(an, "addr_pid", "insert") if same(an, e.args[1], s.args[1]) and same(an, e.args[2], k)]
        c.nopath("address", an, "an address of a peer leads to it", paired(an, s, mine), "an address of a peer is not filed", rel(s.span))
    for e in tab(an, "addr_pid", "remove"):
        a = e.args[1]
        if a.op == "elem":
            continue                            # part of the removal of a peer
        mine = [s for s in taken if same(an, s.args[1], a)]
        look = [g for g in an.calls_to(MUT % "get_mut|get|contains_key") if in_table(g.args[0], "pool")]
        c.nopath("address", an, "an address that leads nowhere is no peer's", paired(an, e, mine, absent(an, look)),
                 "a peer keeps an address that no longer leads to it", rel(e.span))
        for s in mine:
            k = peer_of(an, s.args[0])
            good = path_end(k, "our_id") or k.op == "ok" and is_call(k.a[0], MUT % "get|remove") and in_table(k.a[0].a[2][0], "addr_pid") and \
                same(an, k.a[0].a[2][1], a)
            c.ob("address", an, "the address is taken from the peer it led to", good, rel(s.span), sig(k, an))
    for s in taken:
        mine = [e for e in tab(an, "addr_pid", "remove") if same(an, e.args[1], s.args[1])]
        c.nopath("address", an, "an address taken from a peer leads nowhere", paired(an, s, mine), "the address still leads to the peer", rel(s.span))


def sessions(c, an):
    ps, sp = tab(an, "peer_session", "insert"), tab(an, "session_peer", "insert")
    con = tab(an, "connected", "insert")
    for e in ps:
        k, s = e.args[1], e.args[2]
        c.nopath("session", an, "the session leads back to the peer",
                 paired(an, e, [x for x in sp if same(an, x.args[1], s) and same(an, x.args[2], k)]), "a session known in one direction", rel(e.span))
        c.nopath("session", an, "a peer with a session is connected", paired(an, e, [x for x in con if same(an, x.args[1], k)]), "", rel(e.span))
        c.nopath("session", an, "a peer with a session is no longer being dialed",
                 paired(an, e, [x for x in tab(an, "connecting", "remove|take") if same(an, x.args[1], k)]), "the dial never ends", rel(e.span))
        look = [g for g in an.calls_to(MUT % "contains_key|get") if in_table(g.args[0], "pool") and same(an, g.args[1], k)]
        adds = [x for x in tab(an, "pool", "insert") if same(an, x.args[1], k)]
        there = {g.term for g in look}
        p = an.reach([an.start], [e], avoid=adds, edge_ok=lambda n, m, cs: not any(
            t in there and (v is True or v == frozenset(["Some"])) for t, v in cs))
        c.nopath("session", an, "a peer with a session is in the pool", p, "a connected peer is unknown", rel(e.span))
    for e in sp:
        c.nopath("session", an, "the peer leads back to the session",
                 paired(an, e, [x for x in ps if same(an, x.args[2], e.args[1]) and same(an, x.args[1], e.args[2])]),
                 "a session known in one direction", rel(e.span))
    for e in con:
        c.nopath("session", an, "a connected peer has a session", paired(an, e, [x for x in ps if same(an, x.args[1], e.args[1])]),
                 "a peer is marked connected without session", rel(e.span))
    rp, rs, rc = tab(an, "peer_session", "remove|remove_entry"), tab(an, "session_peer", "remove|remove_entry"), tab(an, "connected", "remove|take")
    for e in rp:
        k, s = e.args[1], mk("ok", e.term)
        # the session that went with it
        mine = [x for x in rs if same(an, x.args[1], s) or same(an, mk("ok", x.term), k) or led(an, x.args[1], k)]
        c.nopath("session", an, "the session of a peer goes with it", paired(an, e, mine, absent(an, [e])), "a session leads to a peer without session", rel(e.span))
        c.nopath("session", an, "a peer without session is not connected", paired(an, e, [x for x in rc if same(an, x.args[1], k)]), "", rel(e.span))
    for e in rs:
        s, k = e.args[1], mk("ok", e.term)
        mine = [x for x in rp if same(an, mk("ok", x.term), s) or same(an, x.args[1], k) or led(an, s, x.args[1])]
        c.nopath("session", an, "the peer of a session loses it", paired(an, e, mine, absent(an, [e])), "a peer keeps a session that is gone", rel(e.span))
    for e in rc:
        k = e.args[1]
        c.nopath("session", an, "a peer that is not connected has no session", paired(an, e, [x for x in rp if same(an, x.args[1], k)]),
                 "a session of a disconnected peer", rel(e.span))
        c.nopath("session", an, "a disconnected peer is not being dialed",
                 paired(an, e, [x for x in tab(an, "connecting", "remove|take") if same(an, x.args[1], k)]), "the dial never ends", rel(e.span))


def led(an, s, k):
    """s is what was found under k, or k what was found under s"""
    for a, b in ((s, k), (k, s)):
        if a.op == "ok" and is_call(a.a[0], MUT % "get|remove") and same(an, a.a[0].a[2][1], b) and \
                (in_table(a.a[0].a[2][0], "peer_session") or in_table(a.a[0].a[2][0], "session_peer")):
            return True
    return False


def lookups(c):
    an = c.an(one(c, r"Inner::user_peer$"))
    u = P(an.root.locals[2][1] or "arg2")
    for r in an.ok_exits():
        for v in an.alts(r.val):
            g = [x for x in an.subterms(v) if is_call(x, MUT % "get") and in_table(x.a[2][0], "pool")]
            good = len(g) == 1 and g[0].a[2][1].op == "ok" and is_call(g[0].a[2][1].a[0], MUT % "get") and \
                in_table(g[0].a[2][1].a[0].a[2][0], "user_pid") and g[0].a[2][1].a[0].a[2][1] is u
            c.ob("lookup", an, "the peer of a user is the one filed under it", good, rel(r.span), sig(v, an)[:160])
    an = c.an(one(c, r"Inner::match_pid$"))
    a = P(an.root.locals[2][1] or "arg2")

    def own(t, b):
        if not (t.op == "bin" and t.a[0] == "Eq" or is_call(t, r"PartialEq\S*::eq$")) or b is not True:
            return False
        xs = t.a[1:] if t.op == "bin" else t.a[2]
        return any(is_call(y, MUT % "get") and in_table(y.a[2][0], "addr_pid") for x in xs for y in an.subterms(x))
    eqs = [m for n, m, cs in an.edges_where(own)]
    c.floor("lookup", an, "address with a peer's own id", len(eqs), 1)
    none = [r for r in an.exits() if not any(is_call(y, MUT % "get") and in_table(y.a[2][0], "addr_pid") for v in an.alts(r.val) for y in an.subterms(v))]
    c.nopath("lookup", an, "an address with a peer's own id leads to it", an.reach(eqs, none) if eqs else None, "the address of a known peer is taken for a stranger's")
    for r in an.ok_exits():
        for v in an.alts(r.val):
            g = [x for x in an.subterms(v) if is_call(x, MUT % "get") and in_table(x.a[2][0], "addr_pid")]
            c.ob("lookup", an, "the peer of an address was filed under it or its root", len(g) == 1 and (g[0].a[2][1] is a or is_root(an, g[0].a[2][1], a)),
                 rel(r.span), sig(v, an)[:160])
            if len(g) == 1 and g[0].a[2][1] is not a:
                # the p2p component, where there is one, names that peer
                def cond(t, b, g=g[0]):
                    if b is True and (t.op == "bin" and t.a[0] == "Eq" or is_call(t, r"PartialEq\S*::eq$")):
                        xs = t.a[1:] if t.op == "bin" else t.a[2]
                        return any(y is g for x in xs for y in an.subterms(x)) and any(y.op == "call" and y.a[0].endswith("::get") and
                                   y.a[2][1].op == "int" and y.a[2][1].a[0] == 2 for x in xs for y in an.subterms(x))
                    return b == frozenset(["None"]) and is_call(t, r"::get$") and t.a[2][1].op == "int" and t.a[2][1].a[0] == 2
                c.nopath("lookup", an, "an address with another peer's id is not its", an.guarded([r], cond), "an address of another peer", rel(r.span))


def is_root(an, t, a):
    k = 1
    while is_call(t, r"Multiaddr::with$"):
        y = t.a[2][1]
        if not (is_call(y, r"Index::index$") and y.a[2][1].op == "int" and y.a[2][1].a[0] == k and k >= 0):
            return False
        adds = additions(an, y.a[2][0])
        if not adds or not all(e.args[-1].op == "elem" and is_call(e.args[-1].a[0], r"Multiaddr::iter$") and e.args[-1].a[0].a[2][0] is a for e in adds):
            return False
        t, k = t.a[2][0], k - 1
    return k == -1 and is_call(t, r"Multiaddr::empty$")


def peer_values(c):
    """id and user address of a peer are those of its key"""
    for m in ("new", "from_pair"):
        an = c.an(one(c, r"peer::Peer::%s$" % m))
        for r in an.exits():
            for v in an.alts(r.val):
                pk, pid, ua = (field(v, f) for f in ("pubkey", "id", "user_addr"))
                c.ob("peer", an, "the user address is that of the key", any(is_call(y, r"from_pubkey_bytes$") for y in an.subterms(ua)) and
                     any(y is pk for y in an.subterms(ua)), rel(r.span), sig(ua, an))
                c.ob("peer", an, "the id is that of the key", pid.op == "param" and m == "new" or is_call(pid, r"PublicKey::peer_id$") and pid.a[2][0] is pk,
                     rel(r.span), sig(pid, an))
    for b in c.db.find(r"", CR):
        if "::tests::" in b.q or b.kind not in ("fn", "closure"):
            continue
        for blk in b.blocks:
            for st in blk["s"]:
                if st[0] == "=" and st[2][0] == "agg" and str(st[2][2]).endswith("peer::Peer"):
                    c.ob("peer", b, "peers are built from their key", bool(re.search(r"Peer::(new|from_pair)$|Peer as core::clone::Clone", b.q)), rel(b.span))

# ---------------------------------------------------------------- N05

def linear(t, sign=1, out=None):
    """integer expression as {term: coefficient, 1: constant}"""
    out = {} if out is None else out
    if t.op == "int":
        out[1] = out.get(1, 0) + sign * t.a[0]
    elif t.op == "bin" and t.a[0] in ("Add", "Sub"):
        linear(t.a[1], sign, out)
        linear(t.a[2], sign if t.a[0] == "Add" else -sign, out)
    elif t.op == "cast":
        linear(t.a[0], sign, out)
    else:
        out[t] = out.get(t, 0) + sign
    return {k: v for k, v in out.items() if v or k == 1}


def slots(an, t):
    """(names of the counted things, constant) of max - connected - connecting - ..., None if t is something else"""
    names, rest = set(), 0
    for k, v in linear(t).items():
        if k == 1:
            rest = v
        elif path_end(k, "max_connections") and v == 1:
            names.add("max")
        elif v == -1 and is_call(k, r"::len$") and (in_table(k.a[2][0], "connected") or in_table(k.a[2][0], "connecting")):
            names.add(k.a[2][0].a[1])
        elif v == -1 and is_call(k, r"::len$"):
            names.add("picked")
        else:
            return None
    return names, rest


def origins(an, x, d=0):
    """the values x stands for, seen through local collections: (base term, push events on the way)"""
    if d > 8:
        return [(x, [])]
    y, tail = x, []
    while y.op == "fld":
        tail.append(y.a[1])
        y = y.a[0]
    if y.op == "elem":
        src = y.a[0]
        while src.op == "it" and src.a[0] == "take":
            src = src.a[1]
        outs = []
        for s in an.alts(src):
            while s.op == "it" and s.a[0] == "take":
                s = s.a[1]
            adds = additions(an, s) if s.op in ("new", "phi") else []
            if not adds:
                outs.append((fld(mk("elem", s, *y.a[1:]), *reversed(tail)), []))
            for e in adds:
                v = e.args[-1]
                for t in reversed(tail):
                    v = fld(v, t)
                outs += [(b, [e] + es) for b, es in origins(an, v, d + 1)]
        return outs
    if y.op == "phi":
        return [r for z in an.alts(y) for r in origins(an, fld(z, *reversed(tail)) if tail else z, d + 1)]
    return [(x, [])]


def n05(c):
    poll = c.an(one(c, r"PeerManager as .*Future>::poll$"), stop=OPEN + [r"PeerManager::process_event$"])
    candidates(c, poll)
    an = c.an(one(c, r"PeerManager::process_event$"), stop=OPEN)
    unknowns(c, an)
    retries(c, an)
    backoff(c)


def candidates(c, an):
    dial = [e for e in an.calls_to(r"unbounded_send$") if (variant(e.args[1]) or "").endswith("ConnectionEvent::Connect")]
    c.floor("dial", an, "dial", len(dial), 1)
    for e in dial:
        c.nopath("dial", an, "dials only below the connection limit",
                 an.guarded([e], lambda t, v: below(t, v)), "dials at the connection limit", rel(e.span))
    ins = tab(an, "connecting", "insert")
    c.floor("dial", an, "peer marked", len(ins), 1)
    for e in ins:
        k = e.args[1]
        for b, via in origins(an, k):
            peer = b
            while peer.op == "fld" and peer.a[1] == "id":
                peer = peer.a[0]
            pids = {k, fld(peer, "id")}
            if peer.op == "fld" and peer.a[1] in ("0", "1") and peer.a[0].op == "elem" and in_table(peer.a[0].a[0], "pool"):
                pids |= {fld(peer.a[0], "0"), fld(fld(peer.a[0], "1"), "id")}        # (id, peer) of the pool
                peer = fld(peer.a[0], "1")
            it = peer.a[0] if peer.op == "fld" else peer
            inpool = it.op == "elem" and it.a[0].op == "it" and it.a[0].a[0] in ("values", "keys", "values_mut") and \
                in_table(it.a[0].a[1], "pool") or it.op == "elem" and in_table(it.a[0], "pool")
            c.ob("dial", an, "only peers of the pool are dialed", inpool, rel(e.span), sig(b, an))
            for what, cond in (
                ("connected", lambda t, v: v is False and is_call(t, MUT % "contains") and in_table(t.a[2][0], "connected") and t.a[2][1] in pids),
                ("being dialed", lambda t, v: v is False and is_call(t, MUT % "contains") and in_table(t.a[2][0], "connecting") and t.a[2][1] in pids),
                ("without address", lambda t, v: v is False and is_call(t, r"::is_empty$") and addrs_of(an, t.a[2][0], peer)),
                ("backing off", lambda t, v: ready(t, v, peer)),
            ):
                p = None
                for x in via + [e]:
                    p = an.guarded([x], cond)
                    if p is None:
                        break
                c.nopath("dial", an, "no peer %s is dialed" % what, p, "a peer %s is dialed" % what, rel(e.span))
        # bounded by the free slots
        c.ob("dial", an, "no more peers are dialed than connections are free", bounded(an, k, ("max", "connected", "connecting")), rel(e.span), sig(k, an))
        gone = [x for x in an.calls_to(r"::is_empty$")]
        p = an.reach([e], an.exits(), avoid=dial, edge_ok=lambda n, m, cs: not any(
            is_call(t, r"::is_empty$") and v is True for t, v in cs))
        c.nopath("dial", an, "a peer marked as being dialed is dialed", p, "a peer is marked and not dialed", rel(e.span))
    marks = [e for e in an.calls_to(r"AtomicBool::store$") if path_end(e.args[0], "connecting") and e.args[1].op == "int" and e.args[1].a[0] == 1]
    c.floor("dial", an, "unknown address marked", len(marks), 1)
    for e in marks:
        u = e.args[0].a[0]
        for b, via in origins(an, u):
            c.ob("dial", an, "only unknown addresses are dialed as such", b.op == "elem" and path_end(b.a[0], "unknown_addrs"), rel(e.span), sig(b, an))
            p = None
            for x in via + [e]:
                p = an.guarded([x], lambda t, v: v is False and is_call(t, r"AtomicBool::load$") and path_end(t.a[2][0], "connecting") and t.a[2][0].a[0] in (b, u))
                if p is None:
                    break
            c.nopath("dial", an, "no unknown address being dialed is dialed again", p, "an address is dialed twice", rel(e.span))
        c.ob("dial", an, "no more unknown addresses are dialed than connections are free", bounded(an, u, ("max", "connected", "connecting"), e),
             rel(e.span), sig(u, an))
    # every address sent was marked
    for d in dial:
        for l in an.alts(field(d.args[1], "addrs")):
            for a in additions(an, l):
                for b, via in origins(an, a.args[-1]):
                    r = root_of_fld(b)
                    if r.op == "elem" and r.a[0].op == "new" and not r.a[0].a[0].startswith("collect"):
                        continue
                    if path_end(b, "addr") and r.op == "elem" and path_end(r.a[0], "unknown_addrs"):
                        mine = [m for m in marks if any(x is r for x, _ in origins(an, m.args[0].a[0]))]
                        ok = lambda n, m, cs: True
                    else:
                        k = owner(an, b)
                        c.ob("dial", an, "addresses dialed are those of a peer or unknown", k is not None, rel(a.span), sig(b, an))
                        if k is None:
                            continue
                        mine = [m for m in ins if same(an, m.args[1], k)]

                        def ok(n, m, cs, k=k):
                            return not any(v is True and is_call(t, MUT % "contains") and in_table(t.a[2][0], "connected") and same(an, t.a[2][1], k) for t, v in cs)
                    p = None
                    for x in [a] + via:
                        p = an.reach([an.start], [x], avoid=mine, edge_ok=ok)
                        if p is None:
                            break
                    c.nopath("dial", an, "what is dialed was marked before", p, "an address is dialed that is not marked", rel(a.span))


def root_of_fld(t):
    while t.op == "fld":
        t = t.a[0]
    return t


def owner(an, b):
    """key of the pool entry whose addresses b is an element of"""
    if b.op == "elem" and path_end(b.a[0], "addr_set"):
        return peer_of(an, b.a[0])
    return None


def below(t, v):
    """connection count < limit"""
    if t.op == "bin" and t.a[0] == "Lt":
        a, b = t.a[1:]
        if v is True and path_end(b, "max_connections"):
            l = linear(a)
            return lens(l) and l.get(1, 0) >= -1
        if v is False and path_end(a, "max_connections"):
            return False
    if t.op == "bin" and t.a[0] == "Lt" and v is False:
        return False
    return False


def lens(l):
    ks = [k for k in l if k != 1]
    return len(ks) == 2 and all(is_call(k, r"::len$") and l[k] == 1 for k in ks) and {k.a[2][0].a[1] for k in ks if k.a[2][0].op == "fld"} == {"connected", "connecting"}


def addrs_of(an, t, peer):
    """t holds the addresses of the peer"""
    if path_end(t, "addr_set"):
        return root_of_fld(t) is root_of_fld(peer) or t.a[0].a[0] is peer
    adds = additions(an, t)
    return bool(adds) and all(b.op == "elem" and path_end(b.a[0], "addr_set") and b.a[0].a[0] is fld(peer, "state")
                              for e in adds for b, _ in origins(an, e.args[-1]))


def ready(t, v, peer):
    if not (t.op == "bin" and t.a[0] == "Lt"):
        return is_call(t, r"PartialOrd\S*::(gt|ge)$") and v is True and is_call(t.a[2][0], r"Instant::now$") and t.a[2][1] is fld(peer, "state", "next_retry")
    a, b = t.a[1:]
    n = fld(peer, "state", "next_retry")
    return a is n and is_call(b, r"Instant::now$") and v is True or b is n and is_call(a, r"Instant::now$") and v is False


def bounded(an, x, want, at=None):
    """x is one of at most (free slots) elements"""
    def lim(t):
        r = slots(an, t)
        return r is not None and r[1] <= 1 and set(want) <= r[0]
    seen = []

    def go(y, d=0):
        y = root_of_fld(y)
        if y.op != "elem" or d > 8:
            return False
        out = []
        for s in an.alts(y.a[0]):
            if s.op == "it" and s.a[0] == "take":
                out.append(all(lim(n) for n in an.alts(s.a[2])))
                continue
            adds = additions(an, s) if s.op == "new" else []
            tk = [e for e in an.calls_to(r"Iterator::take$") if feeds(an, e, adds, s)]
            if tk:
                out.append(all(lim(n) for e in tk for n in an.alts(e.args[1])))
            else:
                out.append(bool(adds) and all(go(e.args[-1], d + 1) for e in adds))
        return bool(out) and all(out)
    return go(x)


def feeds(an, e, adds, s):
    """the collection s is filled from the adapter whose length e bounds, and from nothing else"""
    if not adds:
        return False
    src = e.args[0]
    while src.op == "agg" and src.a[0].startswith("mirmodel::"):
        src = field(src, "i")
    if not all(root_of_fld(a.args[-1]).op == "elem" and root_of_fld(a.args[-1]).a[0] is src for a in adds):
        return False
    return an.before([x for x in an.calls_to(r"Iterator::take$") if x.args[0] is e.args[0]], adds) is None


def unknowns(c, an):
    """unknown addresses: dialed a limited number of times, one dial at a time"""
    ins = [e for e in an.calls_to(MUT % "insert|replace") if path_end(e.args[0], "unknown_addrs")]
    took = [e for e in an.calls_to(MUT % "take|get|remove") if path_end(e.args[0], "unknown_addrs")]
    c.floor("unknown", an, "unknown address kept", len(ins), 2)
    again = 0
    for e in ins:
        u = e.args[1]
        cnt, con = field(u, "retry_count"), field(u, "connecting")
        old = [t for t in took if any(x is t.term for x in an.subterms(cnt))] if cnt is not None else []
        if not old:
            c.ob("unknown", an, "a new unknown address starts with no retry", cnt is not None and cnt.op == "int" and cnt.a[0] == 0 and
                 is_call(con, r"AtomicBool::new$") and con.a[2][0].op == "int" and con.a[2][0].a[0] == 0, rel(e.span), sig(u, an))
            # only addresses that no peer has
            continue
        again += 1
        prev = fld(mk("ok", old[0].term), "retry_count")
        l = linear(cnt)
        c.ob("unknown", an, "each failed dial of an unknown address counts", l.get(prev) == 1 and l.get(1, 0) >= 1 and len(l) == 2, rel(e.span), sig(cnt, an))
        c.nopath("unknown", an, "an unknown address is kept below the retry limit only",
                 an.guarded([e], lambda t, v: v is True and t.op == "bin" and t.a[0] == "Lt" and t.a[2].op == "int" and same(an, t.a[1], cnt) or
                            v is False and t.op == "bin" and t.a[0] == "Lt" and t.a[1].op == "int" and same(an, t.a[2], cnt)),
                 "an address is retried for ever", rel(e.span))
        st = [x for x in an.calls_to(r"AtomicBool::store$") if path_end(x.args[0], "connecting") and x.args[1].op == "int" and x.args[1].a[0] == 0 and
              root_of_fld(x.args[0]) is mk("ok", old[0].term)]
        c.nopath("unknown", an, "an unknown address kept can be dialed again", an.before(st, [e]), "its dial never ends", rel(e.span))
        # and it is kept while below the limit
        lim = an.edges_where(lambda t, v: v is True and t.op == "bin" and t.a[0] == "Lt" and t.a[2].op == "int" and same(an, t.a[1], cnt) or
                             v is False and t.op == "bin" and t.a[0] == "Lt" and t.a[1].op == "int" and same(an, t.a[2], cnt))
        c.nopath("unknown", an, "below the retry limit it is kept", an.reach([m for _, m, _ in lim], an.exits(), avoid=ins), "given up early", rel(e.span))
        bound = {x.a[0] for t in [t for n, m, cs in lim for t, v in cs if t.op == "bin"] for x in t.a[1:] if x.op == "int"}
        c.ob("unknown", an, "the limit is at least one retry", all(b >= 2 for b in bound), rel(e.span), str(bound))
    c.floor("unknown", an, "failed dial of an unknown address", again, 1)


def over(an, t, v, k):
    """the retry count of peer k reached the limit (or the peer is not in the pool)"""
    if t.op == "bin" and t.a[0] == "Lt":
        a, b = t.a[1:]
        if b.op == "int" and v is False and count_of(an, a, k):
            return True
        if a.op == "int" and v is True and count_of(an, b, k):
            return True
    return v == frozenset(["None"]) and is_call(t, MUT % "get|get_mut") and in_table(t.a[2][0], "pool") and same(an, t.a[2][1], k)


def count_of(an, t, k):
    while t.op == "cast":
        t = t.a[0]
    return path_end(t, "state", "retry_count") and peer_of(an, t) is not None and same(an, peer_of(an, t), k)


def retries(c, an):
    ups = [w for w in an.writes() if path_end(w.term, "state", "retry_count") and peer_of(an, w.term) is not None and w.val.op != "int"]
    resets = [w for w in an.writes() if path_end(w.term, "state", "retry_count") and peer_of(an, w.term) is not None and w.val.op == "int"]
    rem = tab(an, "pool", "remove|remove_entry")
    gone = (lambda t, v, vs=("RemovePeer", "RemovePeerBySession"): t.op == "param" and isinstance(v, frozenset) and v <= set(vs))
    c.floor("retry", an, "peers removed", len(rem), 3)
    for e in rem:
        k = e.args[1]
        c.nopath("retry", an, "a peer is given up at the retry limit or on order only",
                 an.guarded([e], lambda t, v: over(an, t, v, k) or gone(t, v)), "a peer is given up before its retries", rel(e.span))
        # bootstrap peers stay
        its = [n for n in an.events if n.kind == "next" and path_end(n.args[0], "bootstraps")]
        c.nopath("retry", an, "a peer is given up after all bootstrap peers were compared",
                 an.guarded([e], lambda t, v: v == frozenset(["None"]) and t.op == "next" and path_end(t.a[0], "bootstraps")),
                 "a bootstrap peer is given up", rel(e.span))
        hit = an.edges_where(lambda t, v: v is True and eq_boot(an, t, k))
        c.floor("retry", an, "comparison with bootstrap peers", len(hit), 1)
        c.nopath("retry", an, "no bootstrap peer is given up", an.reach([m for _, m, _ in hit], [e]), "a bootstrap peer is given up", rel(e.span))
    for e in ups:
        k = peer_of(an, e.term)
        hit = an.edges_where(lambda t, v: t.op == "bin" and over(an, t, v, k))
        mine = [r for r in rem if same(an, r.args[1], k)] + [r for r in resets if same(an, peer_of(an, r.term), k)]
        starts = {m for _, m, _ in hit} & an.reach_set([e])
        if starts:
            c.nopath("retry", an, "a peer at the retry limit is given up", an.reach(starts, an.exits(), avoid=mine, edge_ok=lambda n, m, cs: not any(
                isinstance(v, frozenset) and over(an, t, v, k) for t, v in cs)), "retried beyond the limit", rel(e.span))
        rs = [r for r in resets if same(an, peer_of(an, r.term), k)]
        if an.reach([an.start], [e], avoid=rs, edge_ok=lambda n, m, cs: not any(isinstance(v, frozenset) and over(an, t, v, k) for t, v in cs)) is not None:
            c.nopath("retry", an, "a counted retry is compared with the limit",
                     an.reach([e], an.exits(), avoid=mine, edge_ok=lambda n, m, cs: not any(
                         t.op == "bin" and t.a[0] == "Lt" and any(count_of(an, x, k) for x in t.a[1:]) or
                         isinstance(v, frozenset) and over(an, t, v, k) for t, v in cs)), "retried without limit", rel(e.span))
        for var in ("ReconnectLater", "UnconnectableAddress"):
            starts = [m for n, m, cs in an.edges_where(lambda t, v: t.op == "param" and v == frozenset([var]))]
            c.nopath("retry", an, "a failed dial of a connected peer counts no retry",
                     an.reach(starts, [e], edge_ok=lambda n, m, cs: not any(
                         v is False and is_call(t, MUT % "contains") and in_table(t.a[2][0], "connected") and same(an, t.a[2][1], k) for t, v in cs)),
                     "a connected peer is penalised", rel(e.span))
    # a retry is counted for the peer that failed
    sends = [e for e in an.calls_to(r"unbounded_send$") if (variant(e.args[1]) or "").endswith("ConnectionEvent::Disconnect")]
    ev = [t for t in {t for n, m, cs in an.edges_where(lambda t, v: t.op == "param" and isinstance(v, frozenset)) for t, v in cs if t.op == "param"}]
    for var, kk in (("RetryPeerLater", None), ("ReconnectLater", "addr"), ("UnconnectableAddress", "addr"), ("PeerAlive", None)):
        starts = [m for n, m, cs in an.edges_where(lambda t, v: t.op == "param" and v == frozenset([var]))]
        c.floor("retry", an, "event %s" % var, len(starts), 1)
        reach = an.reach_set(starts)
        if var == "PeerAlive":
            mine = [w for w in resets if w.id in reach and payload(peer_of(an, w.term), var, "pid")]
            c.floor("retry", an, "%s resets the retries of its peer" % var, len(mine), 1)
            p = an.reach(starts, an.exits(), avoid=mine, edge_ok=lambda n, m, cs: not any(
                v == frozenset(["None"]) and is_call(t, MUT % "get_mut") for t, v in cs))
            c.nopath("retry", an, "%s resets the retries of its peer" % var, p, "retries of a live peer are not forgotten")
            continue
        if var == "RetryPeerLater":
            look = [e for e in an.calls_to(MUT % "get") if in_table(e.args[0], "peer_session") and payload(e.args[1], var, "pid")]
            mine = [s for s in sends if any(s.args[1].a[1][0][1] is mk("ok", l.term) for l in look)]
            c.floor("retry", an, "disconnect on RetryPeerLater", len(mine), 1)
            p = an.reach(starts, an.exits(), avoid=mine, edge_ok=lambda n, m, cs: not any(
                v == frozenset(["None"]) and t in {l.term for l in look} for t, v in cs))
            c.nopath("retry", an, "a peer to retry later is disconnected", p, "its session stays open")
            cut = [r for r in tab(an, "peer_session", "remove") if payload(r.args[1], var, "pid")]
            c.nopath("retry", an, "its session is looked up before it is forgotten", an.reach(starts, look, avoid=[]) and
                     first(an, starts, cut, look), "the session is forgotten before it is closed")
            cnt = [w for w in ups if w.id in reach and payload(peer_of(an, w.term), var, "pid")]
            c.floor("retry", an, "RetryPeerLater counts", len(cnt), 1)
            continue
        # dial failures: the peer of the address is no longer being dialed
        ends = [r for r in tab(an, "connecting", "remove|take") if r.id in reach]
        found = [e for e in an.calls_to(MUT % "get") if in_table(e.args[0], "addr_pid") and e.id in reach]
        for f in found:
            k = mk("ok", f.term)
            mine = [r for r in ends if same(an, r.args[1], k)]
            hit = [m for n, m, cs in an.edges_where(lambda t, v: t is f.term and v == frozenset(["Some"]))]

            def ok(n, m, cs):
                return not any(v is True and is_call(t, MUT % "contains") and in_table(t.a[2][0], "connected") and same(an, t.a[2][1], k) or
                               v is False and eq_p2p(an, t, f.term) or v == frozenset(["None"]) and t is f.term for t, v in cs)
            hit = [h for h in hit if h in reach]
            firsts = [g for g in found if g.term is not f.term and same(an, g.args[1], f.args[1])]
            if firsts and an.before(firsts, [f]) is None:
                continue  # looked up again
            c.nopath("retry", an, "a failed dial ends (%s)" % var, an.reach(hit, an.exits(), avoid=mine, edge_ok=lambda n, m, cs: ok(n, m, cs) and other_comp(an, cs)),
                     "the peer is never dialed again", rel(f.span))


def other_comp(an, cs):
    """the address has further components that exclude the peer"""
    return not any(is_call(t, r"::get$") and t.a[2][1].op == "int" and t.a[2][1].a[0] == 2 and v == frozenset(["Some"]) or
                   t.op == "ok" and is_call(t.a[0], r"::get$") and isinstance(v, frozenset) and "P2p" not in v for t, v in cs) or \
        any(t.op == "ok" and v == frozenset(["P2p"]) for t, v in cs)


def eq_p2p(an, t, g):
    return t.op == "bin" and t.a[0] == "Eq" and any(y is g for x in t.a[1:] for y in an.subterms(x))


def first(an, starts, cut, look):
    """a path on which cut comes before look, or None"""
    p = an.reach(starts, cut, avoid=look)
    if p is None:
        return None
    q = an.reach(cut, look)
    return q


def payload(t, var, f):
    return t is not None and t.op == "fld" and t.a[1] == f and t.a[0].op in ("case", "as", "var", "down", "variant") and var in str(t.a[0].a[1:]) or \
        t is not None and repr(t).endswith("@%s.%s" % (var, f))


def eq_boot(an, t, k):
    if t.op == "bin" and t.a[0] == "Eq":
        xs = t.a[1:]
    elif is_call(t, r"PartialEq\S*::eq$"):
        xs = t.a[2]
    else:
        return False
    a = [x for x in xs if path_end(x, "id") and x.a[0].op == "elem" and path_end(x.a[0].a[0], "bootstraps")]
    return len(a) == 1 and any(same(an, x, k) for x in xs if x is not a[0])


def backoff(c):
    """every counted retry doubles (at least) the pause before the next dial"""
    an = c.an(one(c, r"peer::Peer::increase_retry$"))
    n = fld(SELF, "state", "retry_count")
    up = [w for w in an.writes() if w.term is n]
    nx = [w for w in an.writes() if w.term is fld(SELF, "state", "next_retry")]
    at = [w for w in an.writes() if w.term is fld(SELF, "state", "attempt_at")]
    c.floor("backoff", an, "retry counted", len(up), 1)
    for w in up:
        l = linear(w.val)
        c.ob("backoff", an, "a retry counts once", l.get(n) == 1 and l.get(1) == 1 and len(l) == 2, rel(w.span), sig(w.val, an))
        c.nopath("backoff", an, "a counted retry sets the next dial", paired(an, w, nx), "retried at once", rel(w.span))
        c.nopath("backoff", an, "a counted retry is dated", paired(an, w, at), "retries of one attempt count twice", rel(w.span))
        c.nopath("backoff", an, "the failures of one attempt count once",
                 an.guarded([w], lambda t, v: v is False and t.op == "bin" and t.a[0] == "Lt" and t.a[2].op == "int" and 0 < t.a[2].a[0] and
                            any(y is fld(SELF, "state", "attempt_at") for y in an.subterms(t.a[1]))), "every address that fails counts", rel(w.span))
    for w in nx:
        good = False
        for v in an.alts(w.val):
            ds = [x for x in v.a[1:] if v.op == "bin" and v.a[0] == "Add"] if v.op == "bin" else list(v.a[2]) if v.op == "call" else []
            now = [x for x in ds if is_call(x, r"Instant::now$")]
            du = [x for x in ds if is_call(x, r"Duration::from_secs$")]
            if now and du:
                p = du[0].a[2][0]
                while p.op == "cast":
                    p = p.a[0]
                if is_call(p, r"::pow$|::saturating_pow$|::checked_pow$"):
                    b, x = p.a[2]
                    good = b.op == "int" and b.a[0] >= 2 and linear(x).get(n) == 1 and linear(x).get(1, 0) >= 1
                elif p.op == "bin" and p.a[0] in ("Shl",):
                    good = linear(p.a[2]).get(n) == 1
        c.ob("backoff", an, "the pause is now + base ^ retries", good, rel(w.span), sig(w.val, an))
    an = c.an(one(c, r"peer::Peer::retry_ready$"))
    for r in an.exits():
        for v in an.alts(r.val):
            good = v.op == "bin" and v.a[0] == "Lt" and v.a[1] is fld(SELF, "state", "next_retry") and is_call(v.a[2], r"Instant::now$") or \
                v.op == "un" and v.a[1].op == "bin" and v.a[1].a[0] == "Lt" and v.a[1].a[2] is fld(SELF, "state", "next_retry") and is_call(v.a[1].a[1], r"Instant::now$")
            c.ob("backoff", an, "a peer is ready once its pause is over", good, rel(r.span), sig(v, an))


# ---------------------------------------------------------------- N06

CTRL = {"SendMsg": r"ServiceControl::(quick_)?filter_broadcast$", "Connect": r"ServiceControl::dial$", "Disconnect": r"ServiceControl::disconnect$"}
DEQUE = r"VecDeque\S*::(%s)$"


def n06(c):
    gossip(c)
    users_route(c)
    control(c)
    queue(c)
    from . import r_protocol
    n = r_protocol.schema(c, "frame", CR)
    c.floor("frame", CR, "protobuf messages of the transport", n, 1)
    protos(c)


def gossip(c):
    for m in ("broadcast", "users_cast"):
        an = c.an(meth(c, "NetworkServiceHandle", m))
        if m == "broadcast":
            ss = wire(c, m, an, P("end"), None, m)
            for s in ss:
                t = s.args[1] if not s.q.endswith("unbounded_send") else field(s.args[1], "tar")
                c.ob(m, an, "a broadcast goes to all peers (%s)" % sname(s), all((variant(x) or "").endswith("TargetSession::All") for x in an.alts(t)),
                     rel(s.span), sig(t, an))
                message_proto(c, m, an, s)
                checked(c, m, an, [s], "failure of %s" % sname(s))
            for r in an.ok_exits():
                c.nopath(m, an, "a broadcast reports success only after it left", an.before(ss, [r]), "success without a message", rel(r.span))
            continue
        rs = [e for e in an.calls_to(r"unbounded_send$") if (variant(e.args[1]) or "").endswith("PeerManagerEvent::RouteMultiUsersMessage")]
        c.floor(m, an, "routed message", len(rs), 1)
        encs = [e for e in an.calls_to(r"MessageCodec::encode$")]
        c.ob(m, an, "the message is encoded once", len(encs) == 1 and encs[0].args[0] is P("msg"), rel(an.root.span))
        for s in rs:
            um = field(s.args[1], "users_msg")
            nm, why = packaged(an, field(um, "msg"), s)
            ok = nm is not None and nm.op == "agg"
            c.ob(m, an, "carries one compressed network message", ok, rel(s.span), why if nm is None else "")
            if ok:
                url, content = field(nm, "url"), field(nm, "content")
                c.ob(m, an, "url", url_is(an, url, P("end"), None), rel(s.span), sig(url, an))
                c.ob(m, an, "content", all(x.op == "ok" and is_call(x.a[0], r"MessageCodec::encode$") for x in an.alts(strip_vec(content))), rel(s.span))
                cp, en = why
                c.nopath(m, an, "encoding precedes", an.before([en], [cp]), "a message leaves before it is encoded", rel(s.span))
                c.nopath(m, an, "compression precedes", an.before([cp], [s]), "a message leaves uncompressed", rel(s.span))
                for x in (cp, en):
                    checked(c, m, an, [x], "failure of %s" % x.q.rsplit("::", 1)[-1])
            c.ob(m, an, "goes to the users asked for", field(um, "user_addrs") is P("users"), rel(s.span), sig(um, an)[:120])
            c.ob(m, an, "with the priority asked for", field(um, "pri") is P("p"), rel(s.span), sig(um, an)[:120])
            mt = field(s.args[1], "miss_tx")
            ch = mt.a[0] if mt.op == "fld" and mt.a[1] == "0" else None
            ans = mk("ok", fld(ch, "1")) if ch is not None else None
            c.ob(m, an, "waits for the answer to its own request", ch is not None and is_call(ch, r"oneshot::channel$"), rel(s.span), sig(mt, an))
            for r in an.ok_exits():
                c.nopath(m, an, "success means no user was missed", an.guarded([r], lambda t, v: v is True and is_call(t, r"::is_empty$") and t.a[2][0] is ans),
                         "missed users are not reported", rel(r.span))
                c.nopath(m, an, "success means the message was routed", an.before([s], [r]), "success without a message", rel(r.span))
            hit = [x for _, x, _ in an.edges_where(lambda t, v: v is False and is_call(t, r"::is_empty$") and t.a[2][0] is ans)]
            c.floor(m, an, "missed users looked at", len(hit), 1)
            miss = [e for e in an.err_exits() if any(y is ans for v in an.alts(e.val) for y in an.subterms(v))]
            c.nopath(m, an, "missed users are named", an.reach(hit, [e for e in an.exits() if e.id not in {x.id for x in miss}]),
                     "the error does not name the missed users")


def message_proto(c, rule, an, s):
    if s.q.endswith("unbounded_send"):
        return
    t = s.args[2]
    c.ob(rule, an, "messages travel on the transmitter protocol (%s)" % sname(s), is_call(t, r"ProtocolId::new$") and t.a[2][0].op == "int" and
         t.a[2][0].a[0] == transmitter(c), rel(s.span), sig(t, an))


def transmitter(c):
    """the protocol id the transmitter, and only it, is registered under"""
    ids = metas(c)
    x = [k for k, v in ids if v == "transmitter"]
    return x[0] if len(x) == 1 else None


def metas(c):
    """[(protocol id, type of its handler)] registered with the connection service"""
    if hasattr(c, "_metas"):
        return c._metas
    an = c.an(one(c, r"CoreProtocolBuilder\S*::build$"))
    r = []
    for e in an.calls_to(r"MetaBuilder::build$"):
        ids = [y for y in an.subterms(e.term) if is_call(y, r"MetaBuilder::id$")]
        hs = [y for y in an.subterms(e.term) if is_call(y, r"MetaBuilder::service_handle$")]
        k = ids[0].a[2][1] if len(ids) == 1 else None
        if k is not None and is_call(k, r"ProtocolId::new$"):
            k = k.a[2][0]
        h = hs[0].a[2][1] if len(hs) == 1 else None
        of = {y.a[1] for y in an.subterms(h) if y.op == "fld" and y.a[0] is SELF} if h is not None else set()
        r.append((k.a[0] if k is not None and k.op == "int" else None, of.pop() if len(of) == 1 else None))
        kept = [x for x in an.calls_to(r"Vec\S*::push$") if x.args[1] is e.term]
        # or it is an entry of the list the value is built with
        lists = {x for x in an.boxed if e.term in an.pushes.get(x, ())}
        kept2 = bool(lists) and all(field(v, "metas") in lists for o in an.exits() for v in an.alts(o.val))
        c.ob("protocols", an, "a protocol that is set up is registered", kept2 or
             bool(kept) and an.reach([e], an.exits(), avoid=kept) is None, rel(e.span))
        for x in kept:
            for o in an.exits():
                c.ob("protocols", an, "registered protocols are those of the service", all(field(v, "metas") is x.args[0] for v in an.alts(o.val)), rel(x.span))
    c._metas = r
    return r


def protos(c):
    """the protocols dialed are those registered, each under an id of its own"""
    ids = metas(c)
    ks = [k for k, _ in ids]
    an = c.an(one(c, r"CoreProtocolBuilder\S*::build$"))
    c.floor("protocols", an, "protocols registered", len(ks), 2)
    c.ob("protocols", an, "every protocol has an id of its own", None not in ks and len(set(ks)) == len(ks), rel(an.root.span), str(ids))
    c.ob("protocols", an, "the transmitter is registered", transmitter(c) is not None, rel(an.root.span), str(ids))
    an = c.an(one(c, r"CoreProtocol as .*NetworkProtocol>::metas$"))
    for r in an.exits():
        c.ob("protocols", an, "the service opens the registered protocols", all(path_is(v, SELF, "metas") for v in an.alts(r.val)), rel(r.span), sig(r.val, an))
    an = c.an(one(c, r"CoreProtocol as .*NetworkProtocol>::target$"))
    for r in an.exits():
        for v in an.alts(r.val):
            got = {y.a[2][0].a[0] for e in an.calls_to(r"ProtocolId::new$") for y in [e.term] if y.a[2][0].op == "int"}
            alln = (variant(v) or "").endswith("DialProtocol::All")
            c.ob("protocols", an, "a dial opens every registered protocol", alln or got == set(ks), rel(r.span), "%s of %s" % (sorted(got), sorted(map(str, ks))))


def intact(c, rule, an, what, coll, adds):
    """nothing but repeated entries is taken out of a local list before it is used"""
    lost = [e for e in tampered(an, coll, adds) if not re.search(r"::dedup$", e.q)]
    c.ob(rule, an, what, not lost, rel(lost[0].span) if lost else "", ", ".join(short(e.q) for e in lost))


def users_route(c):
    """every user of a multicast is sent to or reported missing"""
    an = c.an(one(c, r"PeerManager::process_event$"), stop=OPEN)
    var = "RouteMultiUsersMessage"
    starts = [m for n, m, cs in an.edges_where(lambda t, v: t.op == "param" and v == frozenset([var]))]
    c.floor("route", an, "event %s" % var, len(starts), 1)
    reach = an.reach_set(starts)
    ss = [e for e in an.calls_to(r"unbounded_send$") if e.id in reach and (variant(e.args[1]) or "").endswith("ConnectionEvent::SendMsg")]
    c.floor("route", an, "message sent", len(ss), 1)
    users = None
    for e in an.events:
        if e.kind == "next" and e.id in reach and repr(e.args[0]).endswith("@%s.users_msg.user_addrs" % var):
            users = e.args[0]
    c.ob("route", an, "every user is looked at", users is not None, rel(an.root.span))
    if users is None:
        return
    um = users.a[0]
    lookup = [e for e in an.calls_to(MUT % "get") if in_table(e.args[0], "user_pid") and e.args[1].op == "elem" and e.args[1].a[0] is users]
    pid = [mk("ok", e.term) for e in lookup]
    peers = [e for e in an.calls_to(MUT % "get") if in_table(e.args[0], "pool") and e.args[1] in pid]
    peer = [mk("ok", e.term) for e in peers]
    sess = [e for e in an.calls_to(MUT % "get") if in_table(e.args[0], "peer_session") and any(e.args[1] is fld(p, "id") or e.args[1] in pid for p in peer)]
    sid = [mk("ok", e.term) for e in sess]
    to, missed = [], []
    tm = [e for e in an.calls_to(r"oneshot::Sender\S*::send$|Sender::send$") if e.id in reach and repr(e.args[0]).endswith("@%s.miss_tx" % var)]
    c.floor("route", an, "answer to the caller", len(tm), 1)
    c.nopath("route", an, "the caller is always answered", an.reach(starts, an.exits(), avoid=tm), "the caller waits for ever")
    c.nopath("route", an, "the message is always routed", an.reach(starts, an.exits(), avoid=ss), "no message is sent")
    for s in ss:
        tar = field(s.args[1], "tar")
        c.ob("route", an, "the message and its priority are those of the caller", field(s.args[1], "msg") is fld(um, "msg") and
             field(s.args[1], "pri") is fld(um, "pri"), rel(s.span), sig(s.args[1], an)[:200])
        for t in an.alts(tar):
            multi = (variant(t) or "").endswith("TargetSession::Multi")
            c.ob("route", an, "only the users' sessions receive it", multi, rel(s.span), sig(t, an))
            if not multi:
                continue
            for l in an.alts(t.a[1][0][1]):
                adds = additions(an, l)
                c.floor("route", an, "session of a user", len(adds), 1)
                intact(c, "route", an, "sessions of the users are kept", l, adds)
                to += adds
                for a in adds:
                    for b, via in origins(an, a.args[-1]):
                        c.ob("route", an, "only sessions of the users asked for receive it", b in sid, rel(a.span), sig(b, an))
    # what is reported missing
    lists = {}

    def leaves(l, d=0):
        """the additions through which a user gets into the list l"""
        out = []
        for x in an.alts(l):
            lists.setdefault(l, set()).add(x)
            intact(c, "route", an, "missed users are kept until they are reported", x, additions(an, x))
            for a in additions(an, x):
                v = a.args[-1]
                r = root_of_fld(v)
                if r.op == "elem" and r.a[0] is not users and r.a[0].op == "new" and d < 4:
                    done, bad = forall(an, lambda t: t is r.a[0], [a])
                    c.ob("route", an, "all of a list of missed users are reported", bool(done), rel(a.span), sig(r.a[0], an))
                    c.nopath("route", an, "missed users are collected before they are reported",
                             an.chosen(l, x, starts, tm, edge_ok=without_edges(done)), "reported too early", rel(a.span))
                    out += leaves(r.a[0], d + 1)
                    lists.setdefault(l, set()).update({r.a[0]} | lists.get(r.a[0], set()))
                    lists.setdefault(x, {x}).update({r.a[0]} | lists.get(r.a[0], set()))
                else:
                    good = v.op == "elem" and v.a[0] is users or r in peer and v is not None
                    c.ob("route", an, "a user reported missing was asked for", good, rel(a.span), sig(v, an))
                    out.append(a)
        return out
    for t in tm:
        missed += leaves(t.args[1])
        for x in an.alts(t.args[1]):
            # one of several lists is reported: nobody was put into those it leaves out
            for l in lists.get(t.args[1], set()) - lists.get(x, {x}):
                empty = lambda y, v, l=l: (is_call(y, r"::is_empty$") and y.a[2][0] is l and v is True) or \
                    (y.op == "bin" and y.a[0] == "Eq" and v is True and any(is_call(z, r"::len$") and z.a[2][0] is l for z in y.a[1:]))
                c.nopath("route", an, "all missed users are reported", an.chosen(t.args[1], x, [e.id for e in additions(an, l)], [t],
                         edge_ok=lambda n, m, cs: not any(empty(y, v) for y, v in cs)), "some users are left out", rel(t.span))
    # the list that is forwarded may hold peers: the user of a peer
    done, bad = forall(an, lambda t: t is users, to + missed)
    c.ob("route", an, "every user is sent to or reported missing", bool(done) and not bad, rel(an.root.span),
         "" if not bad else "some user is neither")
    c.nopath("route", an, "all users are sorted before the message leaves", unfinished(an, done, starts, ss), "sent before all users were looked at")
    for a in to:
        c.nopath("route", an, "a user is sent to only once his session is known", an.guarded([a], lambda t, v: v == frozenset(["Some"]) and any(t is e.term for e in sess)),
                 "sent without session", rel(a.span))
    for a in missed:
        c.nopath("route", an, "a user with a session is not reported missing", an.reach(
            [m for _, m, _ in an.edges_where(lambda t, v: v == frozenset(["Some"]) and any(t is e.term for e in sess))], [a],
            avoid=[e for e in an.events if e.kind == "next" and e.args[0] is users]), "sent to and reported missing", rel(a.span))


def control(c):
    """a message handed to the control leaves once, at its priority"""
    an = c.an(one(c, r"ConnectionServiceControl<P> as .*::send$"))
    ss = an.calls_to(CTRL["SendMsg"])
    c.floor("control", an, "message sent", len(ss), 2)
    for s in ss:
        c.ob("control", an, "%s sends what was given to whom was given" % sname(s), s.args[1] is P("tar") and s.args[3] is P("msg"), rel(s.span), sig(s.term, an))
        message_proto(c, "control", an, s)
        checked(c, "control", an, [s], "failure of %s" % sname(s))
        c.nopath("control", an, "a message leaves once (%s)" % sname(s), an.reach([s], [x for x in ss]), "sent twice", rel(s.span))
    prio(c, "control", an, ss, "control")
    for r in an.ok_exits():
        c.nopath("control", an, "success means the message left", an.before(ss, [r]), "success without a message", rel(r.span))


def queue(c):
    """connection service: every command is carried out or kept, in order"""
    an = c.an(one(c, r"ConnectionService<P> as .*Future>::poll$"), errs=True)
    srcs = {}
    for n, m, cs in an.edges_where(lambda t, v: isinstance(v, frozenset) and v <= set(CTRL)):
        for t, v in cs:
            if isinstance(v, frozenset) and v <= set(CTRL):
                srcs.setdefault(t, []).append((m, v))
    recv = [e for e in an.calls_to(r"Stream::poll_next$") if path_end(e.args[0], "event_rx")]
    pend = [e for e in an.events if e.kind == "next" and path_end(e.args[0], "pending_events")]
    c.floor("queue", an, "commands received", len(recv), 1)
    c.floor("queue", an, "commands kept from the last time", len(pend), 1)
    keep = an.calls_to(DEQUE % "push_back|push_front|extend|append|insert")
    ctl = an.calls_to(r"ServiceControl::(quick_filter_broadcast|filter_broadcast|dial|disconnect|send_message\w*|send_message_to)$")
    rounds = recv + pend + an.exits()
    kinds = {"recv": 0, "pend": 0}
    for t, sts in srcs.items():
        if t.op == "elem" and path_end(t.a[0], "pending_events"):
            kinds["pend"] += 1
        elif any(y is e.term for e in recv for y in an.subterms(t)):
            kinds["recv"] += 1
        for var in CTRL:
            starts = [m for m, v in sts if v == frozenset([var])]
            c.floor("queue", an, "command %s" % var, len(starts), 1)
            mine = [e for e in ctl if re.search(CTRL[var], e.q) and any(of_cmd(x, t, var) for x in e.args[1:])]
            c.floor("queue", an, "%s carried out" % var, len(mine), 1)
            c.nopath("queue", an, "%s is carried out" % var, an.reach(starts, rounds, avoid=mine, edge_ok=lambda n, m, cs: not any(
                v == frozenset(["None"]) and x.op == "next" and of_cmd(x.a[0], t, var) for x, v in cs)), "a command is dropped")
            reach = an.reach_set(starts, avoid=[e for e in rounds if not (e.kind == "next" and of_cmd(e.args[0], t, var))])
            for e in ctl:
                if e.id in reach and e not in mine:
                    c.ob("queue", an, "%s only does what it says" % var, False, rel(e.span), sig(e.term, an))
            for e in mine:
                carry(c, an, e, t, var, keep, rounds)
            if var == "Connect":
                broken = {(n, m) for n, m, _ in an.edges_where(lambda x, v: closed(an, x, v))}
                done, bad = forall(an, lambda x: of_cmd(x, t, var, "addrs"), mine)
                c.ob("queue", an, "every address of a dial is tried", bool(done) and not bad, rel(an.root.span))
                c.nopath("queue", an, "every address of a dial is tried, unless the service is closed", unfinished(an, done | broken, starts, rounds),
                         "an address is not dialed")
    c.ob("queue", an, "kept and received commands are processed", kinds["pend"] >= 1 and kinds["recv"] >= 1, rel(an.root.span), str(kinds))
    done, bad = forall(an, lambda x: path_end(x, "pending_events"), [e for e in an.calls_to(r"Service::control$|ServiceControl::\w+$")])
    c.ob("queue", an, "every kept command is tried", bool(done) and not bad, rel(an.root.span))
    c.nopath("queue", an, "kept commands are tried before received ones", unfinished(an, done, [an.start], recv + an.exits()), "a kept command is lost or overtaken")
    for k in keep:
        q = k.args[0]
        c.ob("queue", an, "a command is kept at the end of the queue", k.q.endswith("::push_back"), rel(k.span), sig(k.term, an)[:160])
        c.nopath("queue", an, "no command is received while others are kept",
                 an.reach([k], recv, edge_ok=lambda n, m, cs: not any(v is True and is_call(x, r"::is_empty$") and x.a[2][0] is q for x, v in cs)),
                 "a later command overtakes an earlier one", rel(k.span))
    # queue kept is the one of the service
    tails = [x for x in an.calls_to(DEQUE % "clear|truncate|pop_front|pop_back|retain|remove|split_off|swap")]
    c.ob("queue", an, "kept commands are only taken by processing them", not tails, rel(an.root.span), " ".join(rel(x.span) for x in tails))


def of_cmd(x, t, var, f=None):
    """x is (an element of) a field of command t of kind var"""
    if x.op == "elem":
        x = x.a[0]
    return x.op == "pay" and x.a[0] is t and x.a[1].endswith("::" + var) and (f is None or x.a[2] == f)


def carry(c, an, e, t, var, keep, rounds):
    name = sname(e)
    if var == "SendMsg":
        good = of_cmd(e.args[1], t, var, "tar") and of_cmd(e.args[3], t, var, "msg")
        c.ob("queue", an, "%s sends the message of the command to its target" % name, good, rel(e.span), sig(e.term, an)[:200])
        message_proto(c, "queue", an, e)
        prio(c, "queue", an, [e], var)
    elif var == "Disconnect":
        c.ob("queue", an, "%s closes the session of the command" % name, of_cmd(e.args[1], t, var), rel(e.span), sig(e.term, an)[:200])
    else:
        c.ob("queue", an, "%s dials an address of the command" % name, e.args[1].op == "elem" and of_cmd(e.args[1], t, var, "addrs"), rel(e.span), sig(e.term, an)[:200])
        adds = [s for s in keep if (variant(s.args[-1]) or "").endswith("ConnectionEvent::Connect")]
        dst = {y for s in adds for y in an.alts(field(s.args[-1], "addrs"))
               if any(a.args[-1] is e.args[1] for a in additions(an, y))}
        keep = [a for y in dst for a in additions(an, y) if a.args[-1] is e.args[1]]
        c.floor("queue", an, "a failed address is kept", len(keep), 1)
        for y in dst:
            for a in additions(an, y):
                c.nopath("queue", an, "an address is kept only when its dial failed", an.guarded([a], lambda x, v: v == frozenset(["Err"]) and x is e.term)
                         if a.args[-1] is e.args[1] else [an.start, a.id], "an address is dialed twice", rel(a.span))
        for y in dst:
            c.nopath("queue", an, "kept addresses are dialed again", an.reach(keep, [x for x in rounds if not (x.kind == "next" and of_cmd(x.args[0], t, var))], avoid=adds,
                     edge_ok=lambda n, m, cs: not any(x.op == "call" and v is True and is_call(x, r"::is_empty$") and x.a[2][0] in dst or closed(an, x, v) for x, v in cs)),
                     "an address is kept and forgotten", rel(e.span))
    same_cmd = [k for k in keep if var == "Connect" or k.args[-1] is t or (variant(k.args[-1]) or "").endswith("ConnectionEvent::" + var) and rebuilt(k.args[-1], t, var)]
    fail = [m for _, m, _ in an.edges_where(lambda x, v: x is e.term and v == frozenset(["Err"]))]
    okk = [m for _, m, _ in an.edges_where(lambda x, v: x is e.term and v == frozenset(["Ok"]))]
    c.floor("queue", an, "outcome of %s looked at" % name, len(fail), 1)
    stop = rounds + [x for x in an.events if x.kind == "next" and of_cmd(x.args[0], t, var)]
    c.nopath("queue", an, "a command that fails (%s) is kept" % name, an.reach(fail, stop, avoid=same_cmd,
             edge_ok=lambda n, m, cs: not any(closed(an, x, v) for x, v in cs)), "a command is dropped while the service is busy", rel(e.span))
    c.nopath("queue", an, "a command carried out (%s) is not repeated" % name, an.reach(okk, same_cmd, avoid=stop), "a command is carried out twice", rel(e.span))


def closed(an, x, v):
    """the service is closed"""
    return isinstance(v, frozenset) and v == frozenset(["BrokenPipe"]) and is_call(x, r"Error::kind$") or \
        v is True and x.op == "bin" and x.a[0] == "Eq" and any((variant(y) or "").endswith("::BrokenPipe") for y in x.a[1:])


def rebuilt(k, t, var):
    """the command kept is the command t"""
    fs = dict(k.a[1])
    return bool(fs) and all(of_cmd(x, t, var, f) for f, x in fs.items())

# ---------------------------------------------------------------- N13

def learned(c):
    """what the peer manager makes of the addresses it is told"""
    rule = "learned"
    an = c.an(one(c, r"PeerManager::process_event$"), stop=OPEN)
    SOME, NONE = frozenset(["Some"]), frozenset(["None"])

    def starts(var):
        ss = [m for n, m, cs in an.edges_where(lambda t, v: t.op == "param" and v == frozenset([var]))]
        c.floor(rule, an, "event %s" % var, len(ss), 1)
        return ss

    def told(var, f):
        rx = re.compile(r"@%s\.%s$" % (var, f))
        return lambda t: rx.search(repr(t)) is not None

    def kept(is_a):
        """the address becomes a candidate of its own"""
        return [e for e in tab(an, "unknown_addrs", "insert|replace|get_or_insert\\w*") if an.has(e.args[1], is_a)]

    def filed(is_a, of=None):
        """the address is added to a peer"""
        out = [e for e in an.calls_to(MUT % "insert|replace") if path_end(e.args[0], "addr_set") and any(is_a(x) for x in an.alts(e.args[1])) and
               (of is None or of(peer_of(an, e.args[0])))]
        return out + [e for e in tab(an, "pool", "insert") if an.has(e.args[2], is_a, pushes=True) and (of is None or of(e.args[1]))]

    def look(t, v, table, yes, key=None):
        """the condition is that an entry is (not) in the table"""
        hit = v is True or v == SOME or (t.op == "occupied" and v is True)
        miss = v is False or v == NONE
        if t.op == "occupied":
            t = t.a[0]
        if not (is_call(t, MUT % "get|get_mut|contains_key|contains|entry|get_key_value|remove|take") and in_table(t.a[2][0], table)):
            return False
        return (hit if yes else miss) and (key is None or key(t.a[2][1]))

    def by(table):
        return lambda k: k is not None and an.has(k, lambda y: is_call(y, MUT % "get|get_key_value|get_mut|entry") and in_table(y.a[2][0], table))

    # discovered
    def known(is_a):
        return lambda t, v: look(t, v, "connected", False) or look(t, v, "addr_pid", True, is_a) or look(t, v, "pool", False)

    def alone(var, f, what, evs, skip, fail):
        """an event with one address"""
        p = an.reach(starts(var), an.exits(), avoid=evs, edge_ok=lambda n, m, cs: not any(skip(t, v) for t, v in cs))
        c.nopath(rule, an, what, p, fail)

    def every(var, f, what, mk_evs, mk_skip, fail):
        """an event with a list of addresses"""
        coll = told(var, f)
        is_a = lambda t: t.op == "elem" and coll(iter_sources(t.a[0]) or t.a[0])
        done, bad = forall(an, coll, mk_evs(is_a), skip=mk_skip(is_a))
        c.nopath(rule, an, what, bad[0][1] if bad and bad[0][1] else None, fail)
        c.ob(rule, an, what + ", to the last", bool(done), "", "no loop over all of them was found" if not done else "")
        if done:
            c.nopath(rule, an, what + ", whenever there are any", unfinished(an, done, starts(var), an.exits()), fail)
    a = told("DiscoverAddr", "addr")
    alone("DiscoverAddr", "addr", "a discovered address is kept", kept(a) + filed(a, by("addr_pid")), known(a), "a discovered address is forgotten")
    every("DiscoverMultiAddrs", "addrs", "all discovered addresses are kept", lambda x: kept(x) + filed(x, by("addr_pid")), known, "a discovered address is forgotten")
    # identified
    pid = told("IdentifiedAddrs", "pid")
    gone = lambda x: lambda t, v: look(t, v, "pool", False)
    every("IdentifiedAddrs", "addrs", "all addresses a peer tells are filed for it", lambda x: filed(x, lambda k: k is not None and an.has(k, pid)), gone,
          "an address a peer told is forgotten")
    # our own
    a = told("AddListenAddr", "addr")
    alone("AddListenAddr", "addr", "an address we listen at is filed for us",
          filed(a, lambda k: k is not None and re.search(r"\.(our_id|peer_id)$", repr(k))), lambda t, v: look(t, v, "pool", False), "peers never learn it")
    a2 = told("RemoveListenAddr", "addr")
    alone("RemoveListenAddr", "addr", "an address we no longer listen at is forgotten", [e for e in tab(an, "addr_pid", "remove|remove_entry") if a2(e.args[1])],
          lambda t, v: look(t, v, "addr_pid", False, a2), "peers are still told it")
    # dialed
    a3 = told("AttachPeerSession", r"session\.addr")
    sty = lambda t: repr(t).endswith("@AttachPeerSession.session.ty")

    def inbound(t, v):
        return sty(t) and v is not None and "Outbound" not in v if isinstance(v, frozenset) else \
            t.op == "bin" and any(sty(x) for x in t.a[1:]) and other(t, v, "Outbound")

    def other(t, v, want):
        n = [(variant(x) or "").rsplit("::", 1)[-1] for x in t.a[1:] if variant(x)]
        if not n or t.a[0] not in ("Eq", "Ne"):
            return False
        eq = (t.a[0] == "Eq") == v
        return eq != (n[0] == want) if n[0] == want or eq else True
    ends, what = filed(a3, lambda k: k is not None and an.has(k, told("AttachPeerSession", "pubkey"))), "the address a peer was reached at is filed for it"
    p = an.reach(starts("AttachPeerSession"), an.exits(), avoid=ends, edge_ok=lambda n, m, cs: not any(inbound(t, v) or look(t, v, "pool", True) for t, v in cs))
    c.nopath(rule, an, what, p, "a peer that was dialed cannot be dialed again")
    # (a peer that is known stays known while its session is attached)
    there = lambda n, m, cs: not any(inbound(t, v) or look(t, v, "pool", False) for t, v in cs)
    hit = [m for n, m, cs in an.edges_where(lambda t, v: look(t, v, "pool", True))]
    hit = [m for m in hit if an.reach(starts("AttachPeerSession"), [m], avoid=ends, edge_ok=there) is not None]
    p = an.reach(hit, an.exits(), avoid=ends, edge_ok=there)
    c.nopath(rule, an, what + ", if it is known", p, "a known peer cannot be dialed at its new address")
    for e in filed(a3):
        p = an.guarded([e], lambda t, v: sty(t) and v == frozenset(["Outbound"]) or t.op == "bin" and any(sty(x) for x in t.a[1:]) and not other(t, v, "Outbound"))
        c.nopath(rule, an, "the address of an incoming connection is no address of the peer", p, "the port of an incoming connection is dialed", rel(e.span))
    a4 = told("RepeatedConnection", "addr")
    rty = lambda t: repr(t).endswith("@RepeatedConnection.ty")

    def listened(t, v):
        return rty(t) and isinstance(v, frozenset) and "Dialer" not in v or t.op == "bin" and any(rty(x) for x in t.a[1:]) and other(t, v, "Dialer")
    alone("RepeatedConnection", "addr", "another address a connected peer was reached at is filed for it", filed(a4, by("session_peer")),
          lambda t, v: listened(t, v) or look(t, v, "pool", False) or look(t, v, "session_peer", False), "the address is forgotten")
    for e in filed(a4):
        p = an.guarded([e], lambda t, v: rty(t) and v == frozenset(["Dialer"]) or t.op == "bin" and any(rty(x) for x in t.a[1:]) and not other(t, v, "Dialer"))
        c.nopath(rule, an, "the address of a repeated incoming connection is no address of the peer", p, "the port of an incoming connection is dialed", rel(e.span))
    # unreachable
    a5 = told("UnconnectableAddress", "addr")
    alone("UnconnectableAddress", "addr", "an address nobody can be reached at is no candidate", [e for e in tab(an, "unknown_addrs", "remove|take") if an.has(e.args[1], a5)],
          lambda t, v: look(t, v, "unknown_addrs", False), "it is dialed again and again")
    alone("UnconnectableAddress", "addr", "an address nobody can be reached at is forgotten", [e for e in tab(an, "addr_pid", "remove|remove_entry") if a5(e.args[1])],
          lambda t, v: look(t, v, "bootstraps", True, a5) or look(t, v, "addr_pid", False, a5), "it is dialed again and again")
    for e in tab(an, "addr_pid", "remove|remove_entry"):
        if a5(e.args[1]):
            p = an.guarded([e], lambda t, v: look(t, v, "bootstraps", False, a5))
            c.nopath(rule, an, "the address of a bootstrap peer is kept", p, "the node cannot find back into the network", rel(e.span))


def n13(c):
    learned(c)


CHECKS = {
    "N01": ("An RPC answer reaches exactly the call that asked", CRATES, n01),
    "N02": ("Bytes of a peer cannot abort or stall the network tasks", CRATES, n02),
    "N04": ("The peer tables agree with each other", CRATES, n04),
    "N05": ("Dials are bounded, backed off and always end", CRATES, n05),
    "N06": ("Outbound messages and commands leave complete, once and in order", CRATES, n06),
    "N03": ("A message reaches the reactor registered under its endpoint", CRATES, n03),
    "N13": ("What the peer manager is told about addresses", CRATES, n13),
}
