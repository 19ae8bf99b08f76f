"""Rules for the protocol crate: codecs, hashes, addresses."""
import re

from . import core
from .core import T, Anchor, mk, agg, SOME, NONE, OK, ERR, short, TRUE, FALSE
from .rules import (sig, fname, is_call, path_of, field, fld, rel, seqmap, expand, underflows, iter_sources, aborts, const_len, len_of,
                    uncall)

PR = "protocol"
CODEC = "protocol::codec::ProtocolCodecSync"
FIXED = "protocol::fixed_codec::ProtocolFixedCodec"
ENC, DEC = "rlp::traits::Encodable", "rlp::traits::Decodable"
INTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i32": 32, "i64": 64, "bool": 1}
BYTES = re.compile(r"^(&(mut )?)*(\[u8\]|alloc::vec::Vec<u8>|alloc::string::String|str|bytes::bytes::Bytes)$")


# --------------------------------------------------------------- the two ends

def bodyof(db, q):
    b = db.bodies.get(q)
    if b is None:
        raise Anchor("function %s" % q)
    return b


def synth(db, q, tyx, steps, names, ret):
    """A body that is not in the program: the composition of the functions in steps (name, callee, args, dest)."""
    n = len(names)
    locs = [["()", None]] + [[t, nm] for nm, t in names]
    blocks = []
    span = "/repo/synthetic:1"
    for k, (callee, args, dest) in enumerate(steps):
        cal = {"def": callee, "name": callee.rsplit("::", 1)[-1], "args": [], "krate": ""}
        pre = [["=", [a[1][0], []], ["ref", "Mut", [a[1][1], []]], span] for a in args if isinstance(a, tuple) and a[0] == "ref"]
        ops = [(["cp", [a[1][0], []]] if isinstance(a, tuple) else ["cp", [a, []]]) for a in args]
        blocks.append({"s": pre, "t": ["call", ["fn", cal], ops, [dest, []], k + 1], "l": span})
    blocks.append({"s": [["=", [0, []], ["agg", "tuple", "", [], [["cp", [r, []]] for r in ret]], span]], "t": ["return"], "l": span})
    j = {"q": q, "kind": "fn", "span": span, "nargs": 1, "locals": locs, "blocks": blocks, "generics": []}
    return core.Body(j, PR)


def ty(t):
    t = re.sub(r"'\w+ ?", "", t)
    while t.startswith("&"):
        t = re.sub(r"^&(mut )?", "", t)
    return t


def compat(enc, dec):
    """bytes written for a value of type enc are read back by a reader of type dec as the same value"""
    a, b = ty(enc), ty(dec)
    if a == b:
        return True
    if a in INTS and b in INTS:
        return INTS[a] <= INTS[b] and a[0] == b[0]
    return bool(BYTES.match(a) and BYTES.match(b))


def tok(kind, t, *vals):
    return agg("rlp:%s:%s" % (kind, t), ((str(i), v) for i, v in enumerate(vals)))


def is_tok(t, kind):
    return t.op == "agg" and t.a[0].startswith("rlp:" + kind + ":")


def tok_ty(t):
    return t.a[0].split(":", 2)[2]


def tree(toks):
    """the RLP item a finished stream holds, or None"""
    pos = [0]

    def item():
        if pos[0] >= len(toks):
            return None
        t = toks[pos[0]]
        pos[0] += 1
        if is_tok(t, "L"):
            n = t.a[1][0][1]
            if n.op != "int":
                return None
            out = []
            for _ in range(n.a[0]):
                x = item()
                if x is None:
                    return None
                out.append(x)
            return tok("list", "", *out)
        return t
    r = item()
    return r if r is not None and pos[0] == len(toks) else None


MISMATCH = "codec mismatch"


def unwrap_alts(an, t):
    return an.look(t)


def axioms(an, q, cal, args, st, cid):
    """Facts about library code the round trip rests on (see DESIGN.md: trusted facts of rlp, prost, num-bigint, hex)."""
    c = lambda i: an.canon(args[i], st)
    sub = an.ctxs[cid].subst
    targ = lambda i=0: an.tsub(cal["args"][i], sub) if cal.get("args") and len(cal["args"]) > i else an.tsub(cal.get("self", ""), sub)
    okv = lambda v: agg(OK, (("0", v),))
    n = q.rsplit("::", 1)[-1]
    # ---- rlp writer
    if q.startswith("rlp::stream::RlpStream::"):
        if n in ("new", "new_list", "new_list_with_buffer", "new_with_buffer"):
            toks = [tok("L", "", c(0))] if n == "new_list" else []
            return agg("rlp:stream:", ((str(i), x) for i, x in enumerate(toks)))
        if n in ("begin_list", "append", "append_list", "append_internal", "append_empty_data", "out", "drain", "as_raw"):
            r = args[0]
            while r.op == "ref":
                v = an.readlv(r.a[0], r.a[1], st)
                if v.op != "ref":
                    break
                r = v
            v = an.readlv(r.a[0], r.a[1], st) if r.op == "ref" else r
            if not (v.op == "agg" and v.a[0] == "rlp:stream:"):
                return None
            if n in ("out", "drain", "as_raw"):
                t = tree([x for _, x in v.a[1]])
                return tok("raw", "", t) if t is not None else mk("call", MISMATCH, (cid, 0), ())
            if r.op != "ref":
                return None
            x = {"begin_list": lambda: tok("L", "", c(1)), "append": lambda: tok("V", ty(targ()), c(1)),
                 "append_internal": lambda: tok("V", ty(targ()), c(1)), "append_list": lambda: tok("S", ty(targ()), c(1)),
                 "append_empty_data": lambda: tok("V", "str", mk("str", ""))}[n]()
            if is_tok(x, "V") and BYTES.match(tok_ty(x)) is None and tok_ty(x).startswith("alloc::vec::Vec<"):
                x = tok("S", tok_ty(x)[len("alloc::vec::Vec<"):-1], c(1))
            fs = [y for _, y in v.a[1]] + [x]
            an.write(r.a[0], r.a[1], agg("rlp:stream:", ((str(i), y) for i, y in enumerate(fs))), st)
            return args[0]
    if q == ENC + "::rlp_append" and len(args) == 2:
        r = args[1]
        while r.op == "ref":
            v = an.readlv(r.a[0], r.a[1], st)
            if v.op != "ref":
                break
            r = v
        v = an.readlv(r.a[0], r.a[1], st) if r.op == "ref" else r
        if v.op == "agg" and v.a[0] == "rlp:stream:" and r.op == "ref":
            fs = [y for _, y in v.a[1]] + [tok("V", ty(targ()), c(0))]
            an.write(r.a[0], r.a[1], agg("rlp:stream:", ((str(i), y) for i, y in enumerate(fs))), st)
            return core.UNIT
        return None
    if q in ("rlp::encode", "rlp::encode_list"):
        return tok("raw", "", tok("V" if n == "encode" else "S", ty(targ()), c(0)))
    # ---- rlp reader
    if q == "synthetic::view":
        v = c(0)
        t = tree([x for _, x in v.a[1]]) if v.op == "agg" and v.a[0] == "rlp:stream:" else None
        return tok("raw", "", t) if t is not None else mk("call", MISMATCH, (cid, 1), (v,))
    if q.startswith("rlp::rlpin::Rlp::") or q in ("rlp::decode", "rlp::decode_list") or q == DEC + "::decode":
        v = c(0)
        if not is_tok(v, "raw"):
            return None
        t = v.a[1][0][1]
        bad = lambda: mk("call", MISMATCH, (cid, 2), (t, mk("str", targ() if cal.get("args") or cal.get("self") else n)))

        def val(t, want):
            if want.startswith("alloc::vec::Vec<") and not BYTES.match(want):
                return lst(t, want[len("alloc::vec::Vec<"):-1])
            if is_tok(t, "V") and compat(tok_ty(t), want):
                return t.a[1][0][1]
            return bad()

        def lst(t, want):
            if is_tok(t, "S") and compat(tok_ty(t), want):
                return t.a[1][0][1]
            return bad()

        def at(t, i):
            if is_tok(t, "list") and i.op == "int":
                return t.a[1][i.a[0]][1] if i.a[0] < len(t.a[1]) else None
            return bad()
        if n in ("at", "val_at", "list_at"):
            x = at(t, c(1))
            if x is None or is_call(x, MISMATCH):
                return agg(ERR, (("0", bad()),))
            if n == "at":
                return okv(tok("raw", "", x))
            r = val(x, ty(targ())) if n == "val_at" else lst(x, ty(targ()))
            return agg(ERR, (("0", r),)) if is_call(r, MISMATCH) else okv(r)
        if n in ("as_val", "decode"):
            r = val(t, ty(targ()))
            return agg(ERR, (("0", r),)) if is_call(r, MISMATCH) else okv(r)
        if n in ("as_list", "decode_list"):
            r = lst(t, ty(targ()))
            if n == "decode_list":
                return r
            return agg(ERR, (("0", r),)) if is_call(r, MISMATCH) else okv(r)
        if n == "data":
            if is_tok(t, "V") and BYTES.match(tok_ty(t)):
                return okv(t.a[1][0][1])
            return agg(ERR, (("0", bad()),))
        if n in ("as_raw", "new"):
            return v
        if n == "is_list":
            return TRUE if is_tok(t, "list") or is_tok(t, "S") else mk("call", "rlp is_list", (cid, 3), (t,))
        if n == "is_data":
            return FALSE if is_tok(t, "list") or is_tok(t, "S") else mk("call", "rlp is_data", (cid, 3), (t,))
        if n == "item_count" and is_tok(t, "list"):
            return okv(mk("int", len(t.a[1]), "usize"))
        if n in ("is_null", "is_empty"):
            return FALSE if is_tok(t, "list") and t.a[1] else None
        return None
    # ---- prost
    if q in ("prost::message::Message::encode", "prost::message::Message::encode_length_delimited") and len(args) == 2:
        r = args[1]
        while r.op == "ref":
            v = an.readlv(r.a[0], r.a[1], st)
            if v.op != "ref":
                break
            r = v
        if r.op != "ref":
            return None
        an.write(r.a[0], r.a[1], tok("pb" if n == "encode" else "pbl", ty(an.tsub(cal.get("self", targ()), sub)), c(0)), st)
        return okv(core.UNIT)
    if q in ("prost::message::Message::decode", "prost::message::Message::decode_length_delimited"):
        v = c(0)
        k = "pb" if n == "decode" else "pbl"
        if is_tok(v, k) and tok_ty(v) == ty(an.tsub(cal.get("self", targ()), sub)):
            return okv(v.a[1][0][1])
        return agg(ERR, (("0", mk("call", MISMATCH, (cid, 4), (v,))),)) if is_tok(v, "pb") or is_tok(v, "pbl") else None
    if q == "prost::message::Message::encoded_len":
        return mk("call", q, (cid, 5), (c(0),))
    # ---- lossless pairs of byte conversions
    ret = cal.get("inst") or q
    m = re.search(r"(types::primitive::(?:Hash|UserAddress|ContractAddress|Address))::(as_bytes|from_bytes|as_hex|from_hex)$", ret)
    if m:
        t_, f = m.group(1), m.group(2)
        v = c(0)
        if f.startswith("as_"):
            if t_.endswith("::Address"):
                return None            # decided by its variants: inlined
            return mk("call", ret, (cid, 6) if False else ("", 0), (v,))
        w = {"from_bytes": "as_bytes", "from_hex": "as_hex"}[f]
        vs = unwrap_alts(an, v)
        outs = set()
        for y in vs:
            k = re.search(r"types::primitive::(\w+)::%s$" % w, y.a[0]) if y.op == "call" else None
            if k is None:
                return None
            if t_.endswith("::" + k.group(1)):
                outs.add(y.a[2][0])
            elif t_.endswith("::Address"):
                outs.add(agg("protocol::types::primitive::Address::" + {"UserAddress": "User", "ContractAddress": "Contract"}[k.group(1)],
                             (("0", y.a[2][0]),)))
            else:
                return agg(ERR, (("0", mk("call", MISMATCH, (cid, 7), (v,))),))
        return okv(outs.pop()) if len(outs) == 1 else None
    INV = {"from_bytes_be": "to_bytes_be", "from_bytes_le": "to_bytes_le", "from_slice": "as_bytes"}
    if re.search(r"BigUint::(to_bytes_[bl]e)$|Bloom::as_bytes$", ret):
        return mk("call", ret, ("", 0), (c(0),))
    if n in INV and re.search(r"BigUint::|Bloom::", ret):
        v = c(0)
        if v.op == "call" and v.a[0].endswith("::" + INV[n]):
            return v.a[2][0]
        return None
    if n == "len" and re.search(r"\[T\]::len$|Vec::len$|Bytes::len$", q):
        v = c(0)
        if v.op == "call" and v.a[0].endswith("Bloom::as_bytes"):
            return mk("int", 256, "usize")
        if v.op == "call" and v.a[0].endswith("primitive::Hash::as_bytes"):
            return mk("int", 32, "usize")
        return None
    if q in ("alloc::string::String::from_utf8", "core::str::from_utf8"):
        vs = unwrap_alts(an, c(0))
        if vs and all(plain(v) for v in vs):
            return okv(c(0))
        return None
    if q in ("hex::encode", "hex::ToHex::to_hex"):
        return mk("call", "hex::encode", ("", 0), (c(0),))
    if q == "hex::decode":
        vs = unwrap_alts(an, c(0))
        outs = {y.a[2][0] if is_call(y, r"^hex::encode$") else None for y in vs}
        x = outs.pop() if len(outs) == 1 else None
        return okv(x) if x is not None else None
    if q in ("str::starts_with", "core::str::<impl str>::starts_with") or q.endswith("str::starts_with"):
        vs = unwrap_alts(an, c(0))
        p = c(1)
        if vs and all(is_call(y, r"^hex::encode$") for y in vs) and p.op == "str" and re.search(r"[^0-9a-f]", p.a[0]):
            return FALSE
        return None
    if q.startswith("core::convert::TryFrom") and not (cal.get("inst") in an.db.bodies):
        vs = unwrap_alts(an, c(0))
        if ty(an.tsub(cal.get("self", ""), sub)) in INTS and vs and all(plain(uncast(v)) for v in vs):
            # only reached with what the encoder wrote: whether the value fits is decided by Same.eq (declared types)
            return okv(mk("cast", c(0), ty(an.tsub(cal["self"], sub))))
    return None


def uncast(v):
    while v.op == "cast":
        v = v.a[0]
    return v


def plain(v):
    """v is (part of) the encoded value itself"""
    while v.op in ("fld", "pay", "ok", "elem"):
        v = v.a[0]
    return v.op == "param"


# ------------------------------------------------------------------- equality

def norm(t):
    """t with loop positions dropped: all elements of a collection look alike"""
    if t.op == "elem":
        return mk("elem", norm(t.a[0]), "*")
    if t.op in ("fld", "ok", "err"):
        return mk(t.op, norm(t.a[0]), *t.a[1:])
    if t.op == "pay":
        return mk("pay", norm(t.a[0]), *t.a[1:])
    return t


def type_of(db, t, root):
    """declared type of a part of the encoded value"""
    if t.op == "param":
        return root
    b = type_of(db, t.a[0], root)
    if b is None:
        return None
    b = ty(b)
    b = re.sub(r"^alloc::boxed::Box<(.*)>$", r"\1", b)
    if t.op == "fld" and b in db.adts:
        for f in db.adts[b]["variants"][0]["fields"]:
            if f[0] == t.a[1]:
                return f[1]
    if t.op == "pay":
        e, v = t.a[1].rsplit("::", 1)
        for w in db.adts.get(e, {}).get("variants", ()):
            if w["name"] == v:
                for f in w["fields"]:
                    if f[0] == t.a[2]:
                        return f[1]
    if t.op == "ok":
        m = re.match(r"core::option::Option<(.*)>$", b)
        return m.group(1) if m else None
    if t.op == "elem":
        m = re.match(r"alloc::vec::Vec<(.*)>$", b)
        if m:
            return m.group(1)
        m = re.match(r"(?:alloc|std)::collections::.*Map<(.*)>$", b)
        return "(%s)" % m.group(1) if m else None
    if t.op == "fld" and b.startswith("("):
        d, parts, cur = 0, [], ""
        for ch in b[1:-1]:
            d += ch in "<([" and 1 or (-1 if ch in ">)]" else 0)
            if ch == "," and d == 0:
                parts.append(cur.strip())
                cur = ""
            else:
                cur += ch
        parts.append(cur.strip())
        return parts[int(t.a[1])] if t.a[1].isdigit() and int(t.a[1]) < len(parts) else None
    return None


class Same:
    """decides that the decoded value is the encoded one, part by part"""

    def __init__(self, c, rule, an, root_ty):
        self.c, self.rule, self.an, self.db, self.root = c, rule, an, c.db, root_ty
        self.why, self.srcs = None, {}

    def known(self, e, t, var):
        f = e.facts.get(t)
        if f == frozenset([var]):
            return True
        n = norm(t)
        for k, v in e.facts.items():
            if v == frozenset([var]) and norm(k) is n:
                return True
        return self.an.guarded([e], lambda x, v: norm(x) is n and v == frozenset([var])) is None

    def fail(self, w, x):
        if self.why is None:
            self.why = (w, x)
        return False

    def eq(self, w, x, e, d=0):
        """w (decoded) is x (a part of the encoded value) on the paths that end at exit e"""
        an = self.an
        if d > 14:
            return self.fail(w, x)
        if w.op == "phi":
            return all(self.eq(y, x, e, d + 1) for y in an.alts(w))
        if norm(w) is norm(x):
            return True
        if w.op == "cast":
            v, lossy = w, False
            t = type_of(self.db, x, self.root)
            while v.op == "cast":
                if t is None or ty(v.a[1]) not in INTS or ty(t) not in INTS or INTS[ty(v.a[1])] < INTS[ty(t)]:
                    lossy = True
                v = v.a[0]
            return self.eq(v, x, e, d + 1) if not lossy else self.fail(w, x)
        if w.op == "agg" and w.a[2] is None:
            n = w.a[0]
            if n in self.db.variants:
                en, vn = n.rsplit("::", 1)
                if not self.known(e, x, vn):
                    return self.fail(w, x)
                if n == SOME:
                    return self.eq(w.a[1][0][1], mk("ok", x), e, d + 1)
                names = self.db.ctors.get(n, [f for f, _ in w.a[1]])
                fs = dict(w.a[1])
                return all(f in fs and self.eq(fs[f], mk("pay", x, n, f), e, d + 1) for f in names)
            if n in self.db.ctors or n == "tuple":
                names = self.db.ctors.get(n) or [f for f, _ in w.a[1]]
                fs = dict(w.a[1])
                return all(f in fs and self.eq(fs[f], fld(x, f), e, d + 1) for f in names)
        if w.op == "new":
            return self.coll(w, x, e, d)
        ys = expand(an, w)
        if ys != {w} and ys:
            return all(self.eq(y, x, e, d + 1) for y in ys)
        return self.fail(w, x)

    def coll(self, w, x, e, d):
        src = lambda t: norm(t) is norm(x) or (t.op == "new" and t is not w and self.source(t, x, e, d))
        el = mk("elem", x, "*")
        t = ty(type_of(self.db, x, self.root) or "")
        if "Map<" in t.split("<")[0] + "<":
            from .rules import additions
            key, val = fld(el, "0"), fld(el, "1")
            pair = lambda y: y.op == "agg" and y.a[0] == "tuple" and len(y.a[1]) == 2
            keyed = {a.id for a in additions(self.an, w) if len(a.args) >= 3}
            r = seqmap(self.c, self.rule, self.an, "map %s" % sig(x), w, src, lambda y: (
                self.eq(y.a[1][0][1], key, e, d + 1) and self.eq(y.a[1][1][1], val, e, d + 1)
                if not keyed and pair(y) else self.eq(y, val if keyed else el, e, d + 1)))
            for a in additions(self.an, w):
                if (len(a.args) >= 3) != bool(keyed):
                    return self.fail(w, x)
                if keyed:
                    r = all(self.eq(k, key, e, d + 1) for k in expand(self.an, a.args[-2])) and r
        else:
            r = seqmap(self.c, self.rule, self.an, "collection %s" % sig(x), w, src, lambda y: self.eq(y, el, e, d + 1))
        return True if r else self.fail(w, x)

    def source(self, t, x, e, d):
        """a local list with one entry per element of x (whatever it holds: entries are looked at where they are used)"""
        adds = self.an.pushes.get(t)
        if not adds:
            return False
        base = lambda z: norm(z) is norm(x) or z.op == "new" and z is not t and self.source(z, x, e, d + 1)
        if not all(self.an.has(y, lambda z: z.op == "elem" and base(z.a[0])) for y in adds):
            return False
        k = (t, x)
        if k not in self.srcs:
            self.srcs[k] = True  # an element of x may be left out of the list: reported where that happens
            self.srcs[k] = bool(seqmap(self.c, self.rule, self.an, "list of %s" % sig(x), t, base, lambda y: True))
        return self.srcs[k]


def roundtrip(c, rule, an, what, tyname):
    """every exit of the composition returns Ok(the argument)"""
    X = None
    for e in an.exits():
        f = dict(e.val.a[1]) if e.val.op == "agg" else {}
        X = f.get("1")
        res = f.get("0")
        if X is None or res is None:
            c.ob(rule, an, what, False, "", "undecidable result %s" % sig(e.val, an)[:160])
            continue
        s = Same(c, rule, an, tyname)
        good = True
        for y in an.alts(res):
            if y.op == "agg" and y.a[0] == OK:
                good = s.eq(y.a[1][0][1], X, e) and good
            else:
                good = False
                s.why = s.why or (y, X)
        vs = sorted({"%s=%s" % (sig(t, an)[:40], "|".join(sorted(v))) for t, v in e.facts.items()
                     if isinstance(v, frozenset) and len(v) == 1 and plain(t)})
        c.ob(rule, what, "decode(encode(v)) = v" + (" for " + ", ".join(vs[:2]) if vs else ""), good, "",
             "" if good else "%s is decoded as %s" % (sig(s.why[1], an)[:120], sig(s.why[0], an)[:200]))
    ps = [e for e in an.events if e.kind == "panic"]
    for e in ps:
        c.ob(rule, what, "encoding and decoding do not abort", False, rel(e.span), "%s in %s" % (e.q, fname(e.fn)))
    if not ps:
        c.ob(rule, what, "encoding and decoding do not abort", True)
    if not an.exits():
        c.ob(rule, what, "decode(encode(v)) = v", False, "", "no exit")
    return X


def types_with(db, trait, m):
    return sorted({(s, q) for s, q in db.impl_items.get((trait, m), ()) if q in db.bodies and db.bodies[q].crate == PR and "mock" not in q})


def p01(c):
    """protobuf codec: decode_sync(encode_sync(x)) = Ok(x) for every type of the wire protocol"""
    db = c.db
    n = 0
    for s, q in types_with(db, CODEC, "encode_sync"):
        dq = q.replace("::encode_sync", "::decode_sync")
        bodyof(db, dq)
        b = synth(db, "codec round trip of %s" % s, s,
                  [(q, [1], 2), ("core::result::Result::unwrap", [2], 3), (dq, [3], 4)],
                  [("x", s), (None, "()"), (None, "()"), (None, "()")], [4, 1])
        an = c.an(b, axioms=axioms, ints=True)
        roundtrip(c, "P01.round-trip", an, s, s)
        n += 1
    c.floor("P01.round-trip", PR, "types with a wire codec", n, 12)
    n = schema(c, "P01.schema", PR)
    c.floor("P01.schema", PR, "wire messages", n, 20)


def p02(c):
    """fixed codec: rlp item written by rlp_append read back by decode, and the trait methods use exactly these"""
    db = c.db
    n = 0
    encs = dict(types_with(db, ENC, "rlp_append"))
    decs = dict(types_with(db, DEC, "decode"))
    for s in sorted(set(encs) | set(decs)):
        if s not in encs or s not in decs:
            c.ob("P02.pair", s, "has an encoder and a decoder", False)
            continue
        b = synth(db, "rlp round trip of %s" % s, s,
                  [("rlp::stream::RlpStream::new", [], 2), (encs[s], [1, ("ref", (6, 2))], 3),
                   ("synthetic::view", [2], 4), (decs[s], [4], 5)],
                  [("x", s)] + [(None, "()")] * 5, [5, 1])
        an = c.an(b, axioms=axioms, ints=True)
        roundtrip(c, "P02.round-trip", an, s, s)
        n += 1
    c.floor("P02.round-trip", PR, "types with a fixed codec", n, 18)
    for s, q in types_with(db, FIXED, "encode_fixed"):
        dq = q.replace("::encode_fixed", "::decode_fixed")
        bodyof(db, dq)
        b = synth(db, "fixed codec of %s" % s, s,
                  [(q, [1], 2), ("core::result::Result::unwrap", [2], 3), (dq, [3], 4)],
                  [("x", s), (None, "()"), (None, "()"), (None, "()")], [4, 1])
        an = c.an(b, axioms=axioms, ints=True)
        roundtrip(c, "P02.entry", an, s, s)


def decode_roots(c):
    db = c.db
    roots = [q.replace("::encode_sync", "::decode_sync") for s, q in types_with(db, CODEC, "encode_sync")]
    roots += [q for s, q in types_with(db, DEC, "decode")] + [q for s, q in types_with(db, FIXED, "decode_fixed")]
    for n in ("Hash", "Address", "UserAddress", "ContractAddress"):
        for m in ("from_bytes", "from_hex"):
            q = "protocol::types::primitive::%s::%s" % (n, m)
            bodyof(db, q)
            roots.append(q)
    return roots


def p03(c):
    """decoding is total: whatever the bytes, a decoder returns"""
    db = c.db
    roots = decode_roots(c)
    for q in roots:
        an = c.an(q)
        n = 0
        for e, what, p in aborts(an):
            c.ob("P03.total", fname(e.fn), what, p is None, rel(e.span), "malformed bytes abort the caller of %s" % fname(q),
                 None if p is None else an.fmt_path(p, 12))
            n += 1
        narrowings(c, "P03.narrowing", an, q)
        c.ob("P03.total", q, "analysed", True, "", "%d partial operations" % n)
    n = schema(c, "P03.schema", PR, "P03.field-numbers")
    c.floor("P03.field-numbers", PR, "wire messages", n, 20)
    c.floor("P03.total", PR, "decoders", len(roots), 40)


def narrowings(c, rule, an, q):
    """integer casts that cut off a value: only behind a comparison that bounds the value, or when cutting off is what the expression says (mask, shift, remainder)"""
    for e in an.events:
        if e.kind != "narrow":
            continue
        x, to = e.args[0], e.q.split(" as ")[1]
        if x.op == "int" or x.op == "bin" and x.a[0] in ("BitAnd", "Shr", "Rem") or x.op == "discr":
            continue
        top = 1 << (core.INT_BITS[to] if core.INT_BITS[to] > 0 else -core.INT_BITS[to] - 1)
        same = lambda t, x=x: uncast(t) is uncast(x)

        def bounded(t, v):
            if t.op == "bin" and t.a[0] == "Lt" and isinstance(v, bool):
                l, r = t.a[1], t.a[2]
                return (v is True and same(l) and r.op == "int" and r.a[0] <= top or
                        v is False and same(r) and l.op == "int" and l.a[0] < top)
            if t.op == "bin" and t.a[0] == "Eq" and v is True:
                return same(t.a[1]) and t.a[2].op == "int" or same(t.a[2]) and t.a[1].op == "int"
            return same(t) and isinstance(v, int) and not isinstance(v, bool) and v >= 0
        p = an.guarded([e], bounded)
        c.ob(rule, fname(e.fn), "%s: %s" % (sig(x, an)[:80], e.q), p is None, rel(e.span), "a number that does not fit is cut off instead of refused, in %s" % fname(q),
             None if p is None else an.fmt_path(p, 12))


# ------------------------------------------------------------------- addresses

PRIM = "protocol::types::primitive::"
HLEN, ALEN = 32, 21
MAGIC = {0x10: "User", 0x20: "Asset", 0x21: "App", 0x22: "Library", 0x23: "Native"}


def byte_axioms(an, q, cal, args, st, cid):
    """What library functions do to byte strings: whole copies, prefixes, concatenation, hex text."""
    c = lambda i: an.canon(args[i], st)
    n = q.rsplit("::", 1)[-1]

    def place(i):
        r = args[i]
        while r.op == "ref":
            v = an.readlv(r.a[0], r.a[1], st)
            if v.op != "ref":
                break
            r = v
        return r if r.op == "ref" else None
    if q.endswith("]::copy_from_slice") or q.endswith("]::clone_from_slice"):
        r = place(0)
        if r is not None and const_len(c(0)) is not None:
            an.write(r.a[0], r.a[1], mk("bytes", const_len(c(0)), c(1)), st)
            return core.UNIT
        return None
    if q.endswith("]::into_vec"):
        x = c(0)
        v = an.readroot(("o", x), st) if x.op == "new" and x.a[0] == "box" else None
        return v if v is not None and v.op == "agg" and v.a[0] == "array" and len(v.a[1]) <= 40 else None
    if n in ("new", "with_capacity") and (q in ("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity") and cal.get("args") == ["u8"] or
                                          re.search(r"::BytesMut::(new|with_capacity)$", q)):
        return agg("array", ())
    if q in ("alloc::vec::Vec::push", "alloc::vec::Vec::extend_from_slice", "alloc::vec::Vec::append") and cal.get("args") == ["u8"] or \
            re.search(r"::BytesMut::(extend_from_slice|put|put_slice)$", q):
        r, x = place(0), c(0)
        if r is not None and x.op not in ("new", "phi", "unk") and (x.op != "cat" or len(x.a) < 12):
            an.write(r.a[0], r.a[1], cat(x, agg("array", (("0", c(1)),)) if n == "push" else c(1)), st)
            if n == "append" and place(1) is not None:
                an.write(place(1).a[0], place(1).a[1], agg("array", ()), st)
            return core.UNIT
        return None
    if q == "core::iter::traits::collect::Extend::extend" and re.search(r"(Vec<u8>|BytesMut)$", an.tsub(cal.get("self", ""), an.ctxs[cid].subst)):
        r, x, y = place(0), c(0), c(1)
        if r is not None and x.op not in ("new", "phi", "unk", "it") and y.op not in ("new", "phi", "unk", "it") and (x.op != "cat" or len(x.a) < 12):
            an.write(r.a[0], r.a[1], cat(x, y), st)
            return core.UNIT
        return None
    if n == "truncate" and re.search(r"Bytes(Mut)?::|Vec::|String::", q):
        r = place(0)
        if r is not None and c(1).op == "int":
            an.write(r.a[0], r.a[1], prefix(c(0), c(1).a[0]), st)
            return core.UNIT
        return None
    if q.endswith("::Index::index") and args[1].op == "agg" and args[1].a[0].endswith("RangeTo") and args[1].a[1][0][1].op == "int":
        return prefix(c(0), args[1].a[1][0][1].a[0])
    if n == "insert_str" and c(1).op == "int" and c(1).a[0] == 0:
        r, x, y = place(0), c(0), c(2)
        if r is not None:
            v = mk("hex", cat(y.a[0], x.a[0])) if x.op == y.op == "hex" else cat(y, x)
            an.write(r.a[0], r.a[1], v, st)
            return core.UNIT
        return None
    if q in ("hex::encode", "hex::ToHex::to_hex"):
        return mk("hex", c(0))
    if q == "hex::decode":
        v = c(0)
        return agg(OK, (("0", v.a[0]),)) if v.op == "hex" else None
    if q.endswith("]::concat") or q.endswith("Concat::concat"):
        v = c(0)
        if v.op == "agg" and v.a[0] == "array":
            return cat(*[x for _, x in v.a[1]])
        return None
    if n in ("get", "first") and re.search(r"\]::(get|first)$", q) and (n == "first" or c(1).op == "int" and c(1).a[0] == 0):
        b = first_byte(c(0))
        return agg(SOME, (("0", b),)) if b is not None else None
    if n == "len" and re.search(r"\]::len$|Vec::len$|Bytes::len$|String::len$|str::len$", q):
        k = blen(c(0))
        return mk("int", k, "usize") if k is not None else None
    if n in ("try_from", "try_into") and q.startswith("core::convert::Try"):
        sub = an.ctxs[cid].subst
        tys = [an.tsub(cal.get("self", ""), sub)] + [an.tsub(y, sub) for y in cal.get("args", ())]
        ns = {int(m.group(1)) for m in (re.match(r"^\[u8; (\d+)\w*\]$", ty(t)) for t in tys) if m}
        if len(ns) == 1:
            return mk("call", "array_try_from", ("", 0), (mk("int", ns.pop(), "usize"), c(0)))
    if q.endswith("str::starts_with") and c(0).op == "hex" and c(1).op == "str" and re.search(r"[^0-9a-f]", c(1).a[0]):
        return FALSE
    return None


def prefix(x, n):
    if x.op == "hex" and n % 2 == 0:
        return mk("hex", prefix(x.a[0], n // 2))
    if x.op == "cat":
        out, k = [], n
        for y in x.a:
            m = blen(y)
            if m is None or k <= 0:
                break
            out.append(y if m <= k else prefix(y, k))
            k -= min(m, k)
        if k == 0:
            return cat(*out)
    if blen(x) is not None and blen(x) <= n:
        return x
    return mk("prefix", x, n)


def cat(*xs):
    out = []
    for x in xs:
        for y in list(x.a) if x.op == "cat" else [x]:
            if y.op == "agg" and y.a[0] == "array" and out and out[-1].op == "agg" and out[-1].a[0] == "array":
                y = agg("array", tuple((str(i), v) for i, (_, v) in enumerate(out.pop().a[1] + y.a[1])))
            if not (y.op == "agg" and y.a[0] == "array" and not y.a[1]):
                out.append(y)
    if not out:
        return agg("array", ())
    return mk("cat", *out) if len(out) != 1 else out[0]


def blen(x):
    """number of bytes of a byte string, if the text of the program fixes it"""
    if x.op == "bytes":
        return x.a[0]
    if x.op == "prefix":
        return x.a[1]
    if x.op == "hex":
        k = blen(x.a[0])
        return 2 * k if k is not None else None
    if x.op == "cat":
        ks = [blen(y) for y in x.a]
        return sum(ks) if None not in ks else None
    m = re.match(r"(?:core::num::<impl )?u(\d+)>?::to_[bl]e_bytes$", x.a[0]) if x.op == "call" else None
    if m:
        return int(m.group(1)) // 8
    return const_len(x)


def first_byte(x):
    if x.op == "cat":
        return first_byte(x.a[0])
    if x.op == "prefix" and x.a[1] > 0 or x.op == "bytes" and x.a[0] > 0:
        return first_byte(x.a[-1] if x.op == "bytes" else x.a[0])
    if x.op == "agg" and x.a[0] == "array" and x.a[1]:
        return x.a[1][0][1]
    return None


core.FIRST_BYTE = first_byte


def content(v):
    """the byte string an array field holds"""
    while True:
        if v.op == "bytes":
            v = v.a[1]
        elif v.op == "ok" and is_call(v.a[0], r"^array_try_from$"):
            v = v.a[0].a[2][1]
        else:
            return v


def valuation(x, n, b):
    """truth of a branch condition when the byte string x has n bytes, the first of which is b (None: unknown)"""
    def num(t):
        if t.op == "cast":
            return num(t.a[0])
        if t.op == "int":
            return t.a[0]
        if len_of(t, x):
            return n
        if n > 0 and (t.op == "ok" and t.a[0].op == "call" and re.search(r"\]::(get|first)$", t.a[0].a[0]) and uncall(t.a[0].a[2][0]) is uncall(x)
                      and (len(t.a[0].a[2]) == 1 or t.a[0].a[2][1].op == "int" and t.a[0].a[2][1].a[0] == 0)):
            return b
        if n > 0 and (t.op in ("index", "idx") and t.a[0] is x and t.a[1].op == "int" and t.a[1].a[0] == 0 or
                      is_call(t, r"Index::index$") and t.a[2][0] is x and t.a[2][1].op == "int" and t.a[2][1].a[0] == 0):
            return b
        return None

    def ev(t, v):
        if t.op == "bin" and isinstance(v, bool):
            l, r = num(t.a[1]), num(t.a[2])
            if l is None or r is None:
                return None
            return {"Eq": l == r, "Ne": l != r, "Lt": l < r, "Le": l <= r, "Gt": l > r, "Ge": l >= r}.get(t.a[0])
        if t.op == "call" and t.a[0].endswith("::is_empty") and t.a[2][0] is x:
            return n == 0
        if t.op == "call" and re.search(r"\]::(get|first)$", t.a[0]) and uncall(t.a[2][0]) is uncall(x) and isinstance(v, frozenset):
            i = 0 if len(t.a[2]) == 1 else t.a[2][1].a[0] if t.a[2][1].op == "int" else None
            return None if i is None else frozenset(["Some" if i < n else "None"])
        if is_call(t, r"^array_try_from$") and uncall(t.a[2][1]) is uncall(x) and isinstance(v, frozenset):
            return frozenset(["Ok" if n == t.a[2][0].a[0] else "Err"])
        k = num(t)
        if k is not None and isinstance(v, int) and not isinstance(v, bool):
            return k == v and v or -1
        return None

    def ok(_a, _b, conds):
        for t, v in conds:
            r = ev(t, v)
            if r is None:
                continue
            if isinstance(v, frozenset):
                if not (isinstance(r, frozenset) and r & v):
                    return False
            elif r != v:
                return False
        return True
    return ok


def outcomes(an, x, n, b):
    """exits that can be reached when x has n bytes starting with b"""
    ok = valuation(x, n, b)
    return [e for e in an.exits() if an.reach([an.start], [e], edge_ok=ok) is not None]


def p05(c):
    """Hash and addresses: from_bytes accepts exactly the well formed byte strings and keeps all of them; as_bytes / as_hex / from_hex invert"""
    db = c.db

    def inner(v, kind):
        """(content, contract type) of an address value"""
        if kind == "Hash":
            return field(v, "0"), None
        w = field(v, "inner")
        w = field(w, "0") if w is not None else None
        t = field(v, "contract_type") if kind == "ContractAddress" else None
        return w, t.a[0].rsplit("::", 1)[-1] if t is not None and t.op == "agg" else None

    for kind in ("Hash", "UserAddress", "ContractAddress", "Address"):
        q = PRIM + kind + "::from_bytes"
        an = c.an(bodyof(db, q), axioms=byte_axioms, ints=True)
        x = core.mk("param", an.root.locals[1][1] or "arg1")
        N = HLEN if kind == "Hash" else ALEN
        ks = {N - 1, N, N + 1, 0, 1}
        for conds in an_conds(an):
            for t, v in conds:
                for y in an.subterms(t):
                    if y.op == "int" and 0 <= y.a[0] < 4096:
                        ks |= {max(0, y.a[0] - 1), y.a[0], y.a[0] + 1}
        bad = {}
        for n in sorted(ks):
            for b in (range(256) if n else [0]):
                want = None
                if n == N:
                    want = "Hash" if kind == "Hash" else MAGIC.get(b)
                    if kind == "UserAddress" and want != "User" or kind == "ContractAddress" and want == "User":
                        want = None
                es = outcomes(an, x, n, b)
                if not es:
                    bad.setdefault("no outcome", "%d bytes starting with 0x%02x" % (n, b))
                for e in es:
                    for y in an.alts(e.val):
                        why = verdict(an, y, kind, want, x, inner)
                        if why:
                            bad.setdefault(why, "%d bytes starting with 0x%02x" % (n, b))
                if kind == "Hash":
                    break
        for why, ex in sorted(bad.items()):
            c.ob("P05.from-bytes", q, why, False, rel(an.root.span), "for %s" % ex)
        c.ob("P05.from-bytes", q, "accepts exactly the well formed byte strings, whole", not bad, rel(an.root.span), "")
        # inverses
        for enc, dec in (("as_bytes", "from_bytes"), ("as_hex", "from_hex")):
            qa, qb = PRIM + kind + "::" + enc, PRIM + kind + "::" + dec
            bodyof(db, qa), bodyof(db, qb)
            a = c.an(qa, axioms=byte_axioms, ints=True)
            S = core.mk("param", "self")
            for e in a.exits():
                for y in a.alts(e.val):
                    if enc == "as_hex":
                        y = y.a[0] if y.op == "hex" else mk("unk", sig(y))
                    if kind == "Address":
                        f = [e.facts.get(S)] if e.facts.get(S) else [frozenset(["User"]), frozenset(["Contract"])]
                        good = any(y is fld(mk("pay", S, PRIM + "Address::" + next(iter(v)), "0"), "inner", "0") for v in f)
                    else:
                        good = y is (fld(S, "0") if kind == "Hash" else fld(S, "inner", "0"))
                    c.ob("P05.as-bytes", a, "%s gives all the bytes and nothing else" % enc, good, rel(e.span), sig(y, a)[:120])
            if dec == "from_hex":
                h = c.an(qb, axioms=byte_axioms, ints=True)
                s = core.mk("param", h.root.locals[1][1] or "arg1")
                n = 0
                for e in h.ok_exits():
                    for y in h.alts(e.val):
                        v = field(y, "0")
                        if kind == "Address" and v is not None and v.op == "agg":
                            k2 = {"User": "UserAddress", "Contract": "ContractAddress"}[v.a[0].rsplit("::", 1)[-1]]
                            w, _ = inner(field(v, "0"), k2)
                        else:
                            w, _ = inner(v, kind) if v is not None else (None, None)
                        w = content(w) if w is not None else None
                        good = w is not None and w.op == "ok" and is_call(w.a[0], r"^hex::decode$") and all(
                            z is s or is_call(z, r"Index::index$") and z.a[2][0] is s or z.op == "ok" and is_call(z.a[0], r"strip_prefix$") and z.a[0].a[2][0] is s
                            or z.op == "fld" and z.a[1] == "1" and is_call(z.a[0], r"str>?::split_at$") and target(z.a[0].a[2][0]) is s
                            or is_call(z, r"trim_start_matches$") for z in map(target, h.alts(w.a[0].a[2][0])))
                        c.ob("P05.from-hex", h, "the value holds the bytes the text spells", good, rel(e.span), sig(v, h)[:160] if v is not None else "")
                        n += 1
                c.floor("P05.from-hex", h, "successful exit", n, 1)
    # nothing else makes such values
    allowed = set()
    for a in c.cache.values():
        allowed |= a.inlined
    for k in ("Hash::digest", "Hash::from_empty"):
        allowed |= {PRIM + k} | c.an(bodyof(db, PRIM + k), axioms=byte_axioms, ints=True).inlined
    for q, b in sorted(db.bodies.items()):
        if b.crate != PR or "::tests::" in q or "clone" in q.lower():
            continue
        for bl in b.blocks:
            for st in bl["s"]:
                if st[0] == "=" and st[2][0] == "agg" and st[2][2] in (PRIM + "Hash", PRIM + "InnerAddress", PRIM + "UserAddress", PRIM + "ContractAddress"):
                    c.ob("P05.makers", q, "makes a %s" % st[2][2].rsplit("::", 1)[-1], q in allowed, rel(st[3]),
                         "a value of this type is made without the checks of from_bytes")


def an_conds(an):
    for k, es in an.edges.items():
        for _, conds in es:
            if conds:
                yield conds


def target(t):
    """what a reference to a whole value refers to"""
    while t.op == "ref" and not t.a[1] and t.a[0][0] == "o":
        t = t.a[0][1]
    return t


def verdict(an, y, kind, want, x, inner):
    """None if the outcome y is right for an input of which want says what it is (None: malformed)"""
    if y.op == "agg" and y.a[0] == ERR:
        return "a well formed %s is refused" % want if want else None
    if not (y.op == "agg" and y.a[0] == OK):
        return "undecided result %s" % sig(y, an)[:80]
    if want is None:
        return "a malformed byte string is accepted"
    v = field(y, "0")
    k = kind
    if kind == "Address":
        if not (v.op == "agg" and v.a[0].startswith(PRIM + "Address::")):
            return "undecided address %s" % sig(v, an)[:80]
        k = {"User": "UserAddress", "Contract": "ContractAddress"}[v.a[0].rsplit("::", 1)[-1]]
        v = field(v, "0")
        if (k == "UserAddress") != (want == "User"):
            return "a %s address is taken for a %s" % (want, k)
    w, t = inner(v, k)
    if w is None or content(w) is not x:
        return "the bytes are not kept: %s" % (sig(w, an)[:80] if w is not None else "?")
    if k == "ContractAddress" and t != want:
        return "a contract of type %s is taken for %s" % (want, t)
    return None


def digest_of(an, t, parts):
    """t is (possibly a prefix of) the digest of exactly the parts, in this order; returns the number of bytes kept or None"""
    n = HLEN
    while True:
        t = content(t)
        if t.op == "prefix":
            n = min(n, t.a[1])
            t = t.a[0]
        else:
            break
    if not is_call(t, r"[Hh]asher.*::digest$"):
        return None
    x = t.a[2][-1]
    xs = list(x.a) if x.op == "cat" else [x]
    if len(xs) != len(parts):
        return None
    return n if all(p(y) for p, y in zip(parts, xs)) else None


def p06(c):
    """addresses derived from a public key / from deployed code depend on the whole of it and carry the right type byte"""
    db = c.db
    a = c.an(bodyof(db, PRIM + "Hash::digest"), axioms=byte_axioms, ints=True)
    x = core.mk("param", a.root.locals[1][1] or "arg1")
    for e in a.exits():
        for y in a.alts(e.val):
            v = field(y, "0")
            c.ob("P06.digest", a, "the digest covers all the bytes given", v is not None and digest_of(a, v, [lambda z: z is x]) == HLEN,
                 rel(e.span), sig(y, a)[:160])
    q = PRIM + "UserAddress::from_pubkey_bytes"
    a = c.an(bodyof(db, q), axioms=byte_axioms, ints=True)
    x = core.mk("param", a.root.locals[1][1] or "arg1")
    n = 0
    for e in a.ok_exits():
        for y in a.alts(e.val):
            w = field(field(y, "0"), "inner")
            w = content(field(w, "0"))
            good = w.op == "cat" and len(w.a) == 2 and is_magic(w.a[0], 0x10) and digest_of(a, w.a[1], [lambda z: z is x]) == ALEN - 1
            c.ob("P06.pubkey", a, "address = type byte of users, first 20 bytes of the digest of the whole public key", good, rel(e.span), sig(w, a)[:160])
            n += 1
    for e in a.err_exits():
        c.ob("P06.pubkey", a, "every public key has an address", False, rel(e.span), sig(e.val, a)[:160])
    c.floor("P06.pubkey", a, "address", n, 1)
    q = PRIM + "ContractAddress::from_code"
    a = c.an(bodyof(db, q), axioms=byte_axioms, ints=True)
    ps = [core.mk("param", a.root.locals[i][1] or "arg%d" % i) for i in (1, 2, 3)]
    got = {}
    for e in a.exits():
        kind = e.facts.get(ps[2])
        for y in a.alts(e.val):
            if y.op == "agg" and y.a[0] == ERR:
                c.ob("P06.code", a, "every deployed code has an address", False, rel(e.span), sig(y, a)[:160])
                continue
            v = field(y, "0")
            w = content(field(field(v, "inner"), "0"))
            t = field(v, "contract_type")
            t = t.a[0].rsplit("::", 1)[-1] if t.op == "agg" else None
            want = [m for m, k in MAGIC.items() if k == t]
            good = w.op == "cat" and len(w.a) == 2 and want and is_magic(w.a[0], want[0]) and digest_of(a, w.a[1], [
                lambda z: z is ps[0], lambda z: fixed_int(z, ps[1])]) == ALEN - 1
            c.ob("P06.code", a, "%s contract: address = its type byte, first 20 bytes of the digest of all the code and the nonce" % t, good,
                 rel(e.span), sig(w, a)[:160])
            # the type asked for is the type given
            p = a.guarded([e], lambda f, k, t=t: f is ps[2] and k == frozenset([t]))
            c.nopath("P06.code", a, "%s address only for %s contracts" % (t, t), None if kind == frozenset([t]) or t_same(v, ps[2]) else p,
                     "the address has another type than the contract", rel(e.span))
            got[t] = got.get(t, 0) + 1
    c.ob("P06.code", a, "every contract type has addresses", set(got) >= {"Asset", "App", "Library", "Native"}, "", str(sorted(map(str, got))))


def t_same(v, p):
    return field(v, "contract_type") is p


def is_magic(t, m):
    return t.op == "agg" and t.a[0] == "array" and len(t.a[1]) == 1 and t.a[1][0][1].op == "int" and t.a[1][0][1].a[0] == m


def fixed_int(t, p):
    """t is the integer p written with all its bytes"""
    return is_call(t, r"u64>?::to_[bln]e_bytes$") and t.a[2][0] is p


# ----------------------------------------------------------------- wire schema

MSG = "prost::message::Message"


def wire_enc(an):
    """tag -> {(codec, field path, variant)} written by an encode_raw"""
    out = {}
    for e in an.events:
        m = re.match(r"prost::encoding::(\w+)::encode(_repeated|_packed)?$", e.q or "") if e.kind == "call" else None
        if m and e.args[0].op == "int":
            f, var = wire_field(e.args[1])
            out.setdefault(e.args[0].a[0], set()).add((m.group(1), f, var, e.span))
    return out


def wire_field(t):
    """(field of the message, variant if it is a oneof) a term belongs to"""
    var = None
    while t.op in ("ok", "pay", "elem", "cast") or t.op == "fld" and t.a[0].op != "param":
        if t.op == "pay":
            var = t.a[1].rsplit("::", 1)[-1]
        t = t.a[0]
    return (t.a[1] if t.op == "fld" and t.a[0].op == "param" else None), var


def written(c, rule, db, s, a, enc):
    fields = {f[0] for v in db.adts[s]["variants"] for f in v["fields"]} if s in db.adts else set()
    c.ob(rule + ".written", s, "every field of %s is written" % s.rsplit("::", 1)[-1], fields == {f for v in enc.values() for _, f, _, _ in v},
         rel(a.root.span), "not written: %s" % sorted(fields - {f for v in enc.values() for _, f, _, _ in v}))
    for k in sorted(enc):
        c.ob(rule + ".tags", s, "tag %d" % k, len({(x, y, z) for x, y, z, _ in enc[k]}) == 1, "", str(sorted(enc[k]))[:160])


def schema(c, rule, crate, total=None):
    """every field a message writes is read back from the same tag, with the same wire type, into the same field;
    and no tag a peer can send aborts the reader"""
    db = c.db
    n = 0
    for s, q in sorted(db.impl_items.get((MSG, "encode_raw"), ())):
        if q not in db.bodies or db.bodies[q].crate != crate:
            continue
        mq = q.replace("::encode_raw", "::merge_field")
        bodyof(db, mq)
        a, b = c.an(q), c.an(mq)
        enc = wire_enc(a)
        if total is None:
            written(c, rule, db, s, a, enc)
        ks = set(enc) | {0} | {y.a[0] + d for conds in an_conds(b) for x, _ in conds for y in b.subterms(x) if y.op == "int" for d in (0, 1)}
        for k in sorted(ks):
            def ok(_x, _y, conds, k=k):
                for t, v in conds:
                    if t.op == "bin" and t.a[0] == "Eq" and isinstance(v, bool):
                        for i, o in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                            if i.op == "int" and is_tag(o) and v != (i.a[0] == k):
                                return False
                return True
            live = [e for e in b.events if b.reach([b.start], [e], edge_ok=ok) is not None]
            for e in live:
                if e.kind == "panic" and total is not None:
                    c.ob(total, s, "field number %d" % k, False, rel(e.span), "a message with this field number aborts the reader")
            if k not in enc or total is not None:
                continue
            cod, f, var, span = sorted(enc[k], key=str)[0]
            got = set()
            for e in live:
                m = re.match(r"prost::encoding::(\w+)::merge(_repeated|_packed)?$", e.q or "") if e.kind == "call" else None
                if not m:
                    continue
                g, _ = wire_field(e.args[1])
                vs = {None}
                if g is None:
                    ws = [w for w in live if w.kind == "write" and w.val is not None and b.has(w.val, lambda y: y is e.args[1])]
                    for w in ws:
                        h, _ = wire_field(w.term)
                        x = field(w.val, "0") if w.val.op == "agg" and w.val.a[0] == SOME else w.val
                        g = h
                        if x.op == "agg" and x.a[0] in db.variants:
                            vs = {x.a[0].rsplit("::", 1)[-1]}
                for v in vs:
                    got.add((m.group(1), g, v))
            good = bool(got) and all((x, y) == (cod, f) and (z == var or z is None and var is None) for x, y, z in got)
            c.ob(rule + ".read-back", s, "field %s%s, tag %d" % (f, "::" + var if var else "", k), good, rel(span), "tag %d is read as %s" % (
                k, sorted(map(str, got)) or "an unknown field, and dropped"))
        n += 1
    return n


def is_tag(t):
    """the field number of the field being read"""
    return t.op == "fld" and t.a[1] == "0" and t.a[0].op == "ok" and is_call(t.a[0].a[0], r"prost::encoding::decode_key$") or \
        t.op == "param" and t.a[0] == "tag"


def p07(c):
    """the merkle tree is built over all hashes in order, its inner nodes cover both children in order, and roots and proofs are those of the tree"""
    db = c.db
    kw = dict(axioms=byte_axioms, ints=True, inline={"common_merkle", "protocol"})
    M = "common_merkle::Merkle::"

    def args(a):
        return [core.mk("param", a.root.locals[i][1] or "arg%d" % i) for i in range(1, a.root.nargs + 1)]
    a = c.an(bodyof(db, M + "from_hashes"), **kw)
    merges = set()
    n = 0
    for e in a.exits():
        for y in a.alts(e.val):
            t = field(y, "tree")
            good = is_call(t, r"static_merkle_tree::\S*Tree(<.*>)?::from_hashes$") and t.a[2][0] is args(a)[0]
            c.ob("P07.tree", a, "the tree covers all the hashes given, in order", good, rel(e.span), sig(y, a)[:160])
            if good:
                n += 1
                merges.add(t.a[2][1])
    c.floor("P07.tree", a, "tree", n, 1)
    for m in sorted(merges, key=repr):
        q = m.a[0] if m.op == "fn" else m.a[0][len("closure:"):] if m.op == "agg" and m.a[0].startswith("closure:") else None
        if not c.ob("P07.merge", a, "inner nodes are made by a known function", q in db.bodies, "", sig(m, a)):
            continue
        b = c.an(q, **kw)
        l, r = args(b)[-2:]
        for e in b.exits():
            for y in b.alts(e.val):
                v = field(y, "0")
                side = lambda p: lambda z: content(z) is core.mk("fld", p, "0")
                c.ob("P07.merge", b, "an inner node is the digest of its left child followed by its right child", v is not None and
                     digest_of(b, v, [side(l), side(r)]) == HLEN, rel(e.span), sig(y, b)[:200])
    a = c.an(bodyof(db, M + "get_root_hash"), **kw)
    roots = a.calls_to(r"Tree(<.*>)?::get_root_hash$")
    tree = core.mk("fld", args(a)[0], "tree")
    c.floor("P07.root", a, "root asked for", len(roots), 1)
    for e in a.exits():
        for y in a.alts(e.val):
            some = y.op == "agg" and y.a[0] == SOME
            if some or y.op == "agg":
                good = some and any(field(y, "0") is core.mk("ok", x.term) for x in roots if x.args[0] is tree) or y.a[0] == core.NONE
            else:
                good = any(y is x.term and x.args[0] is tree for x in roots)
            c.ob("P07.root", a, "the root is that of the tree", good, rel(e.span), sig(y, a)[:160])
            if not some and y.op == "agg":
                c.nopath("P07.root", a, "no root only for a tree without", a.guarded([e], lambda t, v: v == frozenset(["None"]) and any(t is x.term for x in roots)),
                         "a root is missing", rel(e.span))
    a = c.an(bodyof(db, M + "get_proof_by_input_index"), **kw)
    asks = a.calls_to(r"Tree(<.*>)?::get_proof_by_input_index$")
    tree = core.mk("fld", args(a)[0], "tree")
    c.floor("P07.proof", a, "proof asked for", len(asks), 1)
    for x in asks:
        c.ob("P07.proof", a, "the proof is that of the index given", x.args[0] is tree and x.args[1] is args(a)[1], rel(x.span), sig(x.term, a)[:160])
    lists = {core.mk("fld", core.mk("ok", x.term), "0") for x in asks}
    for e in a.exits():
        for y in a.alts(e.val):
            if not (y.op == "agg" and y.a[0] == SOME):
                c.ob("P07.proof", a, "a proof or none", y.op == "agg" and y.a[0] == core.NONE, rel(e.span), sig(y, a)[:160])
                c.nopath("P07.proof", a, "no proof only if the tree has none", a.guarded([e], lambda t, v: v == frozenset(["None"]) and any(t is x.term for x in asks)),
                         "a proof is missing", rel(e.span))
                continue

            def node(z):
                h, r = field(z, "hash"), field(z, "is_right")
                return h is not None and r is not None and h.op == "fld" and h.a[1] == "hash" and r.op == "fld" and r.a[1] == "is_right" and \
                    h.a[0] is r.a[0] and h.a[0].op == "elem" and h.a[0].a[0] in lists
            seqmap(c, "P07.proof", a, "the steps of the proof are those of the tree, in order", field(y, "0"), lambda t: t in lists, node)


CHECKS = {
    "P07": ("merkle roots and proofs", {PR, "common_merkle"}, p07),
    "P06": ("derived addresses", {PR}, p06),
    "P05": ("hashes and addresses are exactly their bytes", {PR}, p05),
    "P03": ("decoders are total", {PR}, p03),
    "P01": ("wire codec round trip", {PR}, p01),
    "P02": ("fixed codec round trip", {PR}, p02),
}
