"""Assemble a Verus file from a unit template and functions lifted mechanically from /repo.

A unit (units/*.rs) is Verus text with `//@` directives.  `//@fn FILE PATH` ... `//@endfn` is replaced
by the function's current source text with contract / loop invariants / ghost blocks spliced in.
The only changes made to the lifted text:
  * visibility modifiers are dropped (the unit is one module);
  * comments, doc comments and attributes are dropped (a statement under a cfg that is off is dropped);
  * logging macro calls (otel_debug!, otel_info!, otel_warn!, otel_error!) are dropped;
  * `_ = e;` becomes `let _ = e;`;
  * every `//@subst A ~> B` of the unit (token-level, recorded and reported in the evidence).
Losing an anchor raises Lost: the caller then falls back to its bounded stand-in, never to an alarm."""
import os
import re
from rustlex import Source, lex, match_brackets, cfg_true, OPEN, CLOSE

REPO = os.environ.get("VERIF_REPO", "/repo")
LOG_MACROS = {"otel_debug", "otel_info", "otel_warn", "otel_error"}


class Lost(Exception):
    pass


_cache = {}


def source(rel):
    p = os.path.join(REPO, rel)
    if p not in _cache:
        try:
            with open(p) as f:
                _cache[p] = Source(rel, f.read())
        except OSError as e:
            raise Lost(f"{rel}: {e}")
        except Exception as e:
            raise Lost(f"{rel}: cannot lex: {e}")
    return _cache[p]


def _nz(s):
    return re.sub(r"\s+", "", s)


def find(rel, path):
    src = source(rel)
    lohi = [(0, len(src.toks))]
    segs = [s.strip() for s in path.split(" :: ")]
    cands = None
    for si, seg in enumerate(segs):
        kind, _, rest = seg.partition(" ")
        off = rest.endswith(" @off")        # the alternative that is compiled with the feature off
        rest = rest[:-5] if off else rest
        nxt = []
        for lo, hi in lohi:
            its = src.items(lo, hi)
            if kind == "fn":
                its = its + _nested_fns(src, lo, hi, its)
            for it in its:
                if it.kind != kind or all(cfg_true(a) for a in it.attrs) == off:
                    continue
                if kind == "impl":
                    tr, _, ty = rest.lstrip("! ").rpartition(" for ")
                    if _nz(ty) != it.name and _nz(ty) != re.sub(r"<.*", "", it.name):
                        continue
                    if tr and not (it.trait and (_nz(tr) == it.trait or _nz(tr) == re.sub(r"<.*", "", it.trait))):
                        continue
                    if rest.startswith("!") and it.trait:
                        continue
                elif it.name != rest:
                    continue
                nxt.append(it)
        if not nxt:
            raise Lost(f"{rel}: no item `{seg}` (of `{path}`)")
        if si == len(segs) - 1:
            cands = nxt
        else:
            lohi = [(it.ibody + 1, src.m[it.ibody]) for it in nxt if it.ibody is not None]
    if len(cands) != 1:
        raise Lost(f"{rel}: `{path}` is ambiguous ({len(cands)} matches)")
    return src, cands[0]


def _nested_fns(src, lo, hi, its):
    """fn items nested inside a function body (statement position anywhere)"""
    out = []
    T = src.toks
    have = {it.ihead for it in its}
    # only when [lo,hi) is a fn body: look for `fn NAME` tokens
    i = lo
    while i < hi:
        if T[i].k == "id" and T[i].t == "fn" and i + 1 < hi and T[i + 1].k == "id":
            sub = src.items(i, hi)
            if sub and sub[0].kind == "fn" and sub[0].ihead not in have:
                out.append(sub[0])
        i += 1
    # drop those that coincide with listed items (methods in impl bodies)
    names = {(it.name, it.i1) for it in its}
    return [o for o in out if (o.name, o.i1) not in names and o.ibody is not None and
            not any(it.kind in ("impl", "trait", "mod") and it.i0 <= o.i0 < it.i1 for it in its)]


# ---------------------------------------------------------------- token patterns
def _pat(s):
    out = []
    toks = lex(s)
    i = 0
    while i < len(toks):
        if toks[i].t == "$" and i + 1 < len(toks):
            if toks[i + 1].t == "$":
                out.append(("**", toks[i + 2].t)); i += 3
            else:
                out.append(("*", toks[i + 1].t)); i += 2
        else:
            out.append(("=", toks[i].t)); i += 1
    return out


def _match_at(T, M, i, hi, pat):
    env = {}

    def go(i, pi):
        if pi == len(pat):
            return i
        k, v = pat[pi]
        if k == "=":
            if i < hi and T[i].t == v:
                return go(i + 1, pi + 1)
            return None
        if k == "*":
            if i >= hi or T[i].t in CLOSE:
                return None
            if v in env:
                return go(i + 1, pi + 1) if (T[i].t == env[v][2]) else None
            env[v] = (i, i + 1, T[i].t)
            r = go(i + 1, pi + 1)
            if r is None:
                env.pop(v, None)
            return r
        j = i
        while j <= hi:
            env[v] = (i, j, None)
            r = go(j, pi + 1)
            if r is not None:
                return r
            if j >= hi or (T[j].k == "p" and T[j].t in CLOSE):
                break
            j = M[j] + 1 if (T[j].k == "p" and T[j].t in OPEN) else j + 1
        env.pop(v, None)
        return None
    r = go(i, 0)
    return (r, env) if r is not None else None


def _find_all(T, M, lo, hi, pat):
    out, i = [], lo
    while i < hi:
        r = _match_at(T, M, i, hi, pat)
        if r and r[0] > i:
            out.append((i, r[0], r[1])); i = r[0]
        else:
            i += 1
    return out


def _clean(text, drops):
    """remove comments, attributes, log macros; normalise `_ = e;`"""
    T = lex(text)
    M = match_brackets(T)
    edits = []
    i = 0
    while i < len(T):
        t = T[i]
        if t.t == "#" and i + 1 < len(T) and (T[i + 1].t == "[" or (T[i + 1].t == "!" and i + 2 < len(T) and T[i + 2].t == "[")):
            b = i + 1 if T[i + 1].t == "[" else i + 2
            a = text[T[b].e:T[M[b]].s]
            end = T[M[b]].e
            nxt = M[b] + 1
            if not cfg_true(a):
                k = nxt
                while k < len(T):
                    if T[k].k == "p" and T[k].t in (";", ","):
                        k += 1; break
                    if T[k].k == "p" and T[k].t in CLOSE:
                        break
                    if T[k].k == "p" and T[k].t in OPEN:
                        br = T[k].t
                        k = M[k] + 1
                        if br == "{" and not (k < len(T) and T[k].t in (".", "?", ",", ";", "else")):
                            break
                        continue
                    k += 1
                end = T[k - 1].e
                nxt = k
                drops.append(f"cfg-off code under #[{a.strip()}]")
            edits.append((t.s, end, ""))
            i = nxt
            continue
        if t.k == "id" and t.t in LOG_MACROS and i + 2 < len(T) and T[i + 1].t == "!" and T[i + 2].t in OPEN:
            e = M[i + 2] + 1
            drops.append(f"{t.t}! call")
            # path prefix `opentelemetry::`
            s = i
            while s >= 3 and T[s - 1].t == ":" and T[s - 2].t == ":" and T[s - 3].k == "id":
                s -= 3
            if e < len(T) and T[e].t == ";":
                edits.append((T[s].s, T[e].e, "")); i = e + 1
            else:
                edits.append((T[s].s, T[e - 1].e, "()")); i = e
            continue
        if t.k == "id" and t.t == "pub":
            e = i + 1
            if e < len(T) and T[e].t == "(" and T[e + 1].t in ("crate", "super", "self", "in"):
                e = M[e] + 1
            edits.append((t.s, T[e].s if e < len(T) else t.e, ""))
            i = e
            continue
        if t.t == "_" and i + 1 < len(T) and T[i + 1].t == "=" and not (T[i + 2].t in ("=", ">") and T[i + 1].e == T[i + 2].s) \
                and i > 0 and T[i - 1].t in ("{", "}", ";"):
            edits.append((t.s, t.s, "let "))
            drops.append("`_ = e;` written `let _ = e;`")
        i += 1
    # comments: everything between tokens that is not whitespace
    out = _apply(text, edits)
    T = lex(out)
    res, pos = [], 0
    for t in T:
        gap = out[pos:t.s]
        res.append(gap if not gap.strip() else ("\n" if "\n" in gap else " "))
        res.append(out[t.s:t.e])
        pos = t.e
    return "".join(res)


def _apply(text, edits):
    edits = sorted(edits, key=lambda e: (e[0], e[1]))
    out, pos = [], 0
    for s, e, r in edits:
        if s < pos:
            if s == e:
                s = e = pos
            elif e <= pos:
                continue
            else:
                s = pos
        out.append(text[pos:s]); out.append(r); pos = e
    out.append(text[pos:])
    return "".join(out)


def _subst(text, rules, who, log):
    for lhs, rhs, opt in rules:
        T = lex(text); M = match_brackets(T)
        hits = _find_all(T, M, 0, len(T), _pat(lhs))
        if not hits:
            if opt:
                continue
            raise Lost(f"{who}: pattern `{lhs}` not found")
        edits = []
        for a, b, env in hits:
            r = rhs
            for v in sorted(env, key=len, reverse=True):
                x, y, _ = env[v]
                piece = text[T[x].s:T[y - 1].e] if y > x else ""
                r = r.replace("$$" + v, piece).replace("$" + v, piece)
            edits.append((T[a].s, T[b - 1].e, r))
        text = _apply(text, edits)
        log.append(f"{who}: `{lhs}` => `{rhs}` x{len(hits)}")
    return text


def _formats(text, fn, who, log):
    """format!("lit {} {name}", a, ..) => FN(FN(lit_text("lit "), shown(&(a))), ..); other format specifications stay as they are"""
    while True:
        T = lex(text); M = match_brackets(T)
        for i in range(len(T) - 3):
            if T[i].t != "format" or T[i + 1].t != "!" or T[i + 2].t not in OPEN or not T[i + 3].t.startswith('"'):
                continue
            close = M[i + 2]
            args, lo, j = [], i + 4, i + 4
            if j < close and T[j].t == ",":
                lo = j = j + 1
            while j <= close:
                if j == close or T[j].t == ",":
                    if j > lo:
                        args.append(text[T[lo].s:T[j - 1].e])
                    lo = j + 1; j += 1
                    continue
                j = M[j] + 1 if (T[j].k == "p" and T[j].t in OPEN) else j + 1
            named = {}
            for a in list(args):
                m = re.match(r"(\w+)\s*=(?!=)\s*(.*)$", a, re.S)
                if m:
                    named[m[1]] = m[2]; args.remove(a)
            body = T[i + 3].t[1:-1]
            pieces, ok, nxt, pos, lit = [], True, 0, 0, ""
            while pos < len(body):
                c = body[pos]
                if body[pos:pos + 2] in ("{{", "}}"):
                    lit += c; pos += 2; continue
                if c == "{":
                    e = body.index("}", pos)
                    n = body[pos + 1:e]
                    if lit:
                        pieces.append(f'lit_text("{lit}")'); lit = ""
                    if n == "" and nxt < len(args):
                        x = args[nxt]; nxt += 1
                    elif re.fullmatch(r"[A-Za-z_]\w*", n):
                        x = named.get(n, n)
                    elif re.fullmatch(r"\d+", n) and int(n) < len(args):
                        x = args[int(n)]
                    else:
                        ok = False; break
                    pieces.append(f"shown(&({x}))"); pos = e + 1
                    continue
                lit += c; pos += 1
            if not ok:
                continue
            if lit or not pieces:
                pieces.append(f'lit_text("{lit}")')
            out = pieces[0]
            for p in pieces[1:]:
                out = f"{fn}({out}, {p})"
            log.append(f"{who}: `{text[T[i].s:T[close].e]}` => `{out}`")
            text = text[:T[i].s] + out + text[T[close].e:]
            break
        else:
            return text


def _loops(T, M, lo, hi):
    """(kw index, body-open index) for each loop in [lo,hi), source order"""
    out = []
    i = lo
    while i < hi:
        t = T[i]
        if t.k == "id" and t.t in ("for", "while", "loop") and not (t.t == "for" and i + 1 < hi and T[i + 1].t == "<") \
                and not (i > 0 and T[i-1].t == "."):
            k = i + 1
            while k < hi and not (T[k].k == "p" and T[k].t == "{"):
                k = M[k] + 1 if (T[k].k == "p" and T[k].t in OPEN) else k + 1
            if k < hi:
                out.append((i, k))
        i += 1
    return out


class Fn:
    pass


def _part(text, spec, who):
    """the text of one closure body, or of a run of statements, of the function, under the signature given by the unit"""
    T = lex(text); M = match_brackets(T)
    k = 0
    while not (T[k].k == "p" and T[k].t == "{"):
        k = M[k] + 1 if (T[k].k == "p" and T[k].t in OPEN) else k + 1
    b0, b1 = k, M[k]
    if spec.get("closure"):
        hits = _find_all(T, M, b0 + 1, b1, _pat(spec["closure"]))
        if len(hits) != 1:
            raise Lost(f"{who}: closure `{spec['closure']}` found {len(hits)} times")
        j = hits[0][1]
        if T[j].t == "{":
            body = text[T[j].s:T[M[j]].e]
        else:
            e = j
            while e < b1 and T[e].t not in CLOSE and T[e].t not in (",", ";"):
                e = M[e] + 1 if (T[e].k == "p" and T[e].t in OPEN) else e + 1
            body = "{ " + text[T[j].s:T[e - 1].e] + " }"
        return spec["sig"] + " " + body
    a, b = spec["region"]
    ha = _find_all(T, M, b0 + 1, b1, _pat(a))
    if len(ha) != 1:
        raise Lost(f"{who}: region start `{a}` found {len(ha)} times")
    lo = ha[0][0]
    if b.strip():
        hb = [h for h in _find_all(T, M, lo, b1, _pat(b))]
        if not hb:
            raise Lost(f"{who}: region end `{b}` not found")
        hi = hb[0][1]
    else:
        hi = lo
        while hi < b1 and T[hi].t not in CLOSE:
            hi = M[hi] + 1 if (T[hi].k == "p" and T[hi].t in OPEN) else hi + 1
    return spec["sig"] + " { " + text[T[lo].s:T[hi - 1].e] + " }"


def emit_fn(spec, unit, reach):
    src, it = find(spec["file"], spec["path"])
    who = f"{spec['file']}:{src.line(it.ihead)} {spec['path']}"
    isconst = it.kind in ("const", "static")
    if it.ibody is None and not isconst:
        raise Lost(f"{who}: has no body")
    raw = src.text[src.toks[it.ihead].s:src.toks[it.i1 - 1].e]
    text = _clean(raw, unit.drops)
    if isconst:
        T = lex(text); M = match_brackets(T)
        j = 0
        while T[j].t != "=":
            j = M[j] + 1 if (T[j].k == "p" and T[j].t in OPEN) else j + 1
        text = spec["sig"] + " { " + text[T[j].e:T[-1].s] + " }"
        unit.drops.append(f"{who}: initialiser lifted as the body of `{spec['sig']}`")
    elif spec.get("closure") or spec.get("region"):
        text = _part(text, spec, who)
        unit.drops.append(f"{who}: lifted " + (f"closure `{spec['closure']}`" if spec.get("closure") else f"statements `{spec['region'][0]}` .. `{spec['region'][1]}`") + f" as `{spec['sig']}`")
    elif spec.get("sig"):
        # the whole body under a more specific signature (type parameters instantiated)
        T = lex(text); M = match_brackets(T)
        k = 0
        while not (T[k].k == "p" and T[k].t == "{"):
            k = M[k] + 1 if (T[k].k == "p" and T[k].t in OPEN) else k + 1
        unit.subst_log.append(f"{who}: signature `{' '.join(text[:T[k].s].split())}` => `{spec['sig']}`")
        text = spec["sig"] + " " + text[T[k].s:]
    if unit.formats:
        text = _formats(text, unit.formats, who, unit.subst_log)
    text = _subst(text, unit.gsubst + spec["subst"], who, unit.subst_log)
    T = lex(text); M = match_brackets(T)
    # signature: up to the first '{' at depth 0
    k = 0
    while not (T[k].k == "p" and T[k].t == "{"):
        k = M[k] + 1 if (T[k].k == "p" and T[k].t in OPEN) else k + 1
    b0, b1 = k, M[k]
    edits = []
    # return value name
    if spec["ret"]:
        d = 0
        arrow = None
        j = 0
        while j < b0:
            if T[j].k == "p" and T[j].t in OPEN:
                j = M[j] + 1; continue
            if T[j].t == "where" and T[j].k == "id":
                break
            if T[j].t == "-" and T[j + 1].t == ">" and T[j].e == T[j + 1].s:
                arrow = j
            j += 1
        if arrow is None:
            raise Lost(f"{who}: no return type")
        w = arrow + 2
        e = w
        while e < b0 and T[e].t != "where":
            e = M[e] + 1 if (T[e].k == "p" and T[e].t in OPEN) else e + 1
        edits.append((T[w].s, T[w].s, f"({spec['ret']}: "))
        edits.append((T[e - 1].e, T[e - 1].e, ")"))
    if spec["name"]:
        j = next(j for j in range(b0) if T[j].t == "fn")
        edits.append((T[j + 1].s, T[j + 1].e, spec["name"]))
    edits.append((T[b0].s, T[b0].s, "\n" + spec["contract"] + "\n"))
    if spec["attrs"]:
        edits.append((T[0].s, T[0].s, spec["attrs"] + "\n"))
    start = spec["start"]
    if reach:
        start = "proof { assert(false); }\n" + start
    if start:
        edits.append((T[b0].e, T[b0].e, "\n" + start + "\n"))
    if spec["end"]:
        edits.append((T[b1].s, T[b1].s, "\n" + spec["end"] + "\n"))
    loops = _loops(T, M, b0 + 1, b1)
    want = max([k for k in spec["loops"]] + [-1]) + 1
    if len(loops) != max(want, spec["nloops"]):
        raise Lost(f"{who}: {len(loops)} loops, annotations written for {max(want, spec['nloops'])}")
    for k, parts in spec["loops"].items():
        kw, bo = loops[k]
        if T[kw].t == "for" and parts.get("iter"):
            # for PAT in EXPR -> for PAT in NAME: EXPR
            j = kw + 1
            while T[j].t != "in":
                j = M[j] + 1 if (T[j].k == "p" and T[j].t in OPEN) else j + 1
            edits.append((T[j].e, T[j].e, f" {parts['iter']}:"))
        if parts.get("inv"):
            edits.append((T[bo].s, T[bo].s, "\n" + parts["inv"] + "\n"))
        if parts.get("in"):
            edits.append((T[bo].e, T[bo].e, "\n" + parts["in"] + "\n"))
        if parts.get("endin"):
            edits.append((T[M[bo]].s, T[M[bo]].s, "\n" + parts["endin"] + "\n"))
        if parts.get("before"):
            edits.append((T[kw].s, T[kw].s, "\n" + parts["before"] + "\n"))
        if parts.get("after"):
            edits.append((T[M[bo]].e, T[M[bo]].e, "\n" + parts["after"] + "\n"))
    for kind, lit, ghost in spec["anchors"]:
        hits = _find_all(T, M, b0 + 1, b1, _pat(lit))
        if len(hits) != 1:
            raise Lost(f"{who}: anchor `{lit}` found {len(hits)} times")
        a, b, _ = hits[0]
        if kind == "before":
            edits.append((T[a].s, T[a].s, "\n" + ghost + "\n"))
        elif kind == "in":      # right after the matched text
            edits.append((T[b - 1].e, T[b - 1].e, "\n" + ghost + "\n"))
        else:
            j = a
            while j < b1 and not (T[j].k == "p" and T[j].t == ";"):
                if T[j].k == "p" and T[j].t in CLOSE:
                    raise Lost(f"{who}: anchor `{lit}` is not inside a `;` statement")
                j = M[j] + 1 if (T[j].k == "p" and T[j].t in OPEN) else j + 1
            edits.append((T[j].e, T[j].e, "\n" + ghost + "\n"))
    out = _apply(text, edits)
    unit.fns.append({"fn": spec["path"], "file": spec["file"], "line": src.line(it.ihead), "name": spec["name"] or it.name})
    return f"// ---- lifted from {spec['file']}:{src.line(it.ihead)} ({spec['path']})\n{out}\n// ---- end lifted\n"


def emit_item(kind, rel, path, subst, unit):
    src, it = find(rel, path)
    raw = src.text[src.toks[it.ihead].s:src.toks[it.i1 - 1].e]
    text = _clean(raw, unit.drops)
    text = _subst(text, unit.gsubst + subst, f"{rel} {path}", unit.subst_log)
    unit.items.append(f"{rel}:{src.line(it.ihead)} {path}")
    return f"// ---- lifted from {rel}:{src.line(it.ihead)} ({path})\n{text}\n// ---- end lifted\n"


def _rule(s):
    a, sep, b = (s + " ").partition(" ~> ")
    if not sep:
        raise RuntimeError(f"bad substitution rule: {s}")
    return a.strip(), b.strip()


class Unit:
    def __init__(self, name):
        self.name, self.fns, self.items = name, [], []
        self.drops, self.subst_log, self.gsubst, self.formats = [], [], [], None
        self.missing = []


def build(path, reach=False):
    """returns (text, Unit).  raises Lost."""
    u = Unit(os.path.basename(path))
    lines = open(path).read().split("\n")
    out = []
    i = 0
    while i < len(lines):
        ln = lines[i]
        st = ln.strip()
        if not st.startswith("//@"):
            out.append(ln); i += 1; continue
        d = st[3:].strip()
        op, _, rest = d.partition(" ")
        if op == "gsubst":
            opt = rest.startswith("? ")
            lhs, rhs = _rule(rest[2:] if opt else rest)
            u.gsubst.append((lhs.strip(), rhs.strip(), True)); i += 1; continue
        if op == "formats":
            u.formats = rest; i += 1; continue
        if op == "item":
            rel, _, p = rest.partition(" ")
            subst = []
            i += 1
            while i < len(lines) and lines[i].strip().startswith("//@ "):
                o2, _, r2 = lines[i].strip()[3:].strip().partition(" ")
                if o2 in ("subst", "subst?"):
                    l, r = _rule(r2)
                    subst.append((l.strip(), r.strip(), o2 == "subst?")); i += 1
                else:
                    break
            out.append(emit_item("item", rel, p, subst, u))
            continue
        if op == "derives":                 # FILE PATH : Trait, Trait -- lost when one is no longer derived
            m = re.match(r"(\S+) (.*?) : (.*)$", rest)
            src, it = find(m[1], m[2])
            have = {x.strip().split("::")[-1] for a in it.attrs for y in re.findall(r"derive\s*\((.*?)\)", a, re.S) for x in y.split(",")}
            gone = [t.strip() for t in m[3].split(",") if t.strip() not in have]
            if gone:
                raise Lost(f"{m[1]}: `{m[2]}` does not derive {', '.join(gone)}")
            u.items.append(f"{m[1]}:{src.line(it.ihead)} {m[2]} derives {m[3]}")
            i += 1; continue
        if op == "fn":
            rel, _, p = rest.partition(" ")
            spec = dict(file=rel, path=p, ret=None, name=None, contract="", attrs="", loops={}, nloops=0, start="", end="",
                        anchors=[], subst=[])
            i += 1
            cur = None
            buf = []

            def flush():
                txt = "\n".join(buf)
                if cur is None:
                    return
                if cur[0] == "contract":
                    spec["contract"] += txt
                elif cur[0] in ("start", "end", "attrs"):
                    spec[cur[0]] += txt
                elif cur[0] == "loop":
                    spec["loops"].setdefault(cur[1], {})[cur[2]] = txt
                elif cur[0] == "anchor":
                    spec["anchors"].append((cur[1], cur[2], txt))
            while True:
                if i >= len(lines):
                    raise RuntimeError(f"{path}: //@fn without //@endfn")
                st = lines[i].strip()
                if st.startswith("//@"):
                    flush(); buf = []; cur = None
                    o2, _, r2 = st[3:].strip().partition(" ")
                    if o2 == "endfn":
                        i += 1; break
                    if o2 == "ret":
                        spec["ret"] = r2.strip()
                    elif o2 == "name":
                        spec["name"] = r2.strip()
                    elif o2 in ("closure", "sig"):
                        spec[o2] = r2.strip()
                    elif o2 == "region":
                        a_, _, b_ = r2.partition("~>")
                        spec["region"] = (a_.strip(), b_.strip())
                    elif o2 in ("contract", "start", "end", "attrs"):
                        cur = (o2,)
                    elif o2 == "nloops":
                        spec["nloops"] = int(r2)
                    elif o2 in ("loop", "inloop", "endinloop", "beforeloop", "afterloop"):
                        kk = r2.split()
                        n = int(kk[0])
                        part = {"loop": "inv", "inloop": "in", "endinloop": "endin", "beforeloop": "before", "afterloop": "after"}[o2]
                        if len(kk) > 1:
                            spec["loops"].setdefault(n, {})["iter"] = kk[1]
                        cur = ("loop", n, part)
                    elif o2 in ("before", "after", "in"):
                        cur = ("anchor", o2, r2.strip())
                    elif o2 in ("subst", "subst?"):
                        l, r = _rule(r2)
                        spec["subst"].append((l.strip(), r.strip(), o2 == "subst?"))
                    else:
                        raise RuntimeError(f"{path}: unknown directive {o2}")
                else:
                    buf.append(lines[i])
                i += 1
            out.append(emit_fn(spec, u, reach))
            continue
        raise RuntimeError(f"{path}: unknown directive {op}")
    return "\n".join(out), u


if __name__ == "__main__":
    import sys
    t, u = build(sys.argv[1], len(sys.argv) > 2)
    print(t)
