"""A small Rust lexer and item finder, used to lift functions out of /repo's current source.

Nothing here interprets code: it finds token ranges.  Everything the extraction changes is an
explicit rewrite recorded by extract.py."""
import re

KEYWORD_ITEMS = ("fn", "struct", "enum", "const", "static", "trait", "impl", "mod", "type")


class LexError(Exception):
    pass


class Tok:
    __slots__ = ("k", "t", "s", "e")

    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e

    def __repr__(self):
        return f"{self.k}:{self.t!r}"


_ident = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
_num = re.compile(r"0[xob][0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|[0-9][0-9_]*(?:\.(?![.A-Za-z_])[0-9_]*)?(?:[eE][+-]?[0-9_]+)?(?:[iuf](?:8|16|32|64|128|size))?")
_ws = re.compile(r"\s+")
_rawstr = re.compile(r'(?:b|c)?r(#*)"')
_char = re.compile(r"b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.))'")
_life = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*")


def lex(src):
    """Tokens of src without whitespace and comments."""
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        m = _ws.match(src, i)
        if m:
            i = m.end(); continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while d:
                a, b = src.find("/*", j), src.find("*/", j)
                if b < 0:
                    raise LexError("unterminated comment")
                if 0 <= a < b:
                    d += 1; j = a + 2
                else:
                    d -= 1; j = b + 2
            i = j
            continue
        m = _rawstr.match(src, i)
        if m:
            close = '"' + m.group(1)
            j = src.find(close, m.end())
            if j < 0:
                raise LexError("unterminated raw string")
            j += len(close)
            out.append(Tok("str", src[i:j], i, j)); i = j; continue
        if c == '"' or (c in "bc" and src.startswith('"', i + 1)):
            j = i + (1 if c == '"' else 2)
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            out.append(Tok("str", src[i:j], i, j)); i = j; continue
        if c == "'" or (c == "b" and src.startswith("'", i + 1)):
            m = _char.match(src, i)
            if m:
                out.append(Tok("char", m.group(), i, m.end())); i = m.end(); continue
            m = _life.match(src, i)
            if m:
                out.append(Tok("life", m.group(), i, m.end())); i = m.end(); continue
        m = _ident.match(src, i)
        if m:
            out.append(Tok("id", m.group(), i, m.end())); i = m.end(); continue
        m = _num.match(src, i)
        if m:
            out.append(Tok("num", m.group(), i, m.end())); i = m.end(); continue
        out.append(Tok("p", c, i, i + 1)); i += 1
    return out


OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}


def match_brackets(toks):
    st, m = [], {}
    for i, t in enumerate(toks):
        if t.k != "p":
            continue
        if t.t in OPEN:
            st.append(i)
        elif t.t in CLOSE:
            if not st or OPEN[toks[st[-1]].t] != t.t:
                raise LexError("unbalanced brackets")
            j = st.pop(); m[j] = i; m[i] = j
    if st:
        raise LexError("unbalanced brackets")
    return m


class Item:
    """kind, name, header token range, body token range (indices of braces), attribute texts."""

    def __init__(self, kind, name, i0, i1, ihead, ibody, attrs, trait=None, parent=None):
        self.kind, self.name, self.i0, self.i1 = kind, name, i0, i1   # [i0,i1) tokens incl. attrs
        self.ihead = ihead                                            # first token after attrs
        self.ibody = ibody                                            # index of '{' or None
        self.attrs, self.trait, self.parent = attrs, trait, parent

    def __repr__(self):
        return f"<{self.kind} {self.trait + ' for ' if self.trait else ''}{self.name}>"


class Source:
    def __init__(self, path, text):
        self.path, self.text = path, text
        self.toks = lex(text)
        self.m = match_brackets(self.toks)

    def line(self, ti):
        return self.text.count("\n", 0, self.toks[ti].s) + 1

    def txt(self, a, b):
        """source text of tokens [a,b)"""
        if a >= b:
            return ""
        return self.text[self.toks[a].s:self.toks[b - 1].e]

    # --- items -----------------------------------------------------------
    def items(self, lo=0, hi=None):
        T, M = self.toks, self.m
        hi = len(T) if hi is None else hi
        i = lo
        out = []
        while i < hi:
            i0 = i
            attrs = []
            while i < hi and T[i].t == "#" and i + 1 < hi and (T[i + 1].t == "[" or (T[i + 1].t == "!" and T[i + 2].t == "[")):
                j = i + 1 if T[i + 1].t == "[" else i + 2
                attrs.append(self.txt(j + 1, M[j]))
                i = M[j] + 1
            ihead = i
            # visibility and qualifiers
            j = i
            while j < hi and T[j].k == "id" and T[j].t in ("pub", "default", "unsafe", "async", "extern", "const") :
                if T[j].t == "const" and not (j + 1 < hi and T[j + 1].t in ("fn", "unsafe", "async", "extern")):
                    break
                if T[j].t == "pub" and j + 1 < hi and T[j + 1].t == "(":
                    j = M[j + 1] + 1
                elif T[j].t == "extern" and j + 1 < hi and T[j + 1].k == "str":
                    j += 2
                else:
                    j += 1
            if j >= hi:
                break
            t = T[j].t
            if T[j].k == "id" and t in KEYWORD_ITEMS:
                name, trait, body = None, None, None
                k = j + 1
                if t == "impl":
                    name, trait, body = self._impl_head(j)
                    end = M[body] + 1
                else:
                    name = T[k].t
                    # find end: '{' at depth 0 or ';'
                    while True:
                        if T[k].k == "p" and T[k].t == ";":
                            end = k + 1; break
                        if T[k].k == "p" and T[k].t == "{":
                            body = k; end = M[k] + 1
                            if t in ("const", "static", "type"):
                                k = M[k] + 1; body = None; continue
                            break
                        if T[k].k == "p" and T[k].t in OPEN:
                            k = M[k]
                        k += 1
                out.append(Item(t, name, i0, end, ihead, body, attrs, trait))
                i = end
            else:
                # something else: use, macro call, statement...; skip to ; or {...}
                k = j
                while k < hi:
                    if T[k].k == "p" and T[k].t == ";":
                        k += 1; break
                    if T[k].k == "p" and T[k].t in OPEN:
                        br = T[k].t
                        k = M[k] + 1
                        if br == "{":
                            break
                        continue
                    k += 1
                i = max(k, i0 + 1)
        return out

    def _impl_head(self, j):
        """impl<..> [Trait for] Type [where ..] {"""
        T, M = self.toks, self.m
        k = j + 1
        k = self._skip_generics(k)
        start = k
        tr = None
        depth_start = start
        while True:
            tt = T[k]
            if tt.k == "p" and tt.t == "{":
                body = k; break
            if tt.k == "id" and tt.t == "for" and not (T[k + 1].t == "<"):
                tr = self._norm(start, k); depth_start = k + 1; k += 1; continue
            if tt.k == "id" and tt.t == "where":
                w = k
                while not (T[k].k == "p" and T[k].t == "{"):
                    k = M[k] + 1 if (T[k].k == "p" and T[k].t in OPEN) else k + 1
                return self._norm(depth_start, w), tr, k
            if tt.k == "p" and tt.t in ("(", "["):
                k = M[k] + 1; continue
            if tt.k == "p" and tt.t == "<":
                k = self._skip_generics(k); continue
            k += 1
        return self._norm(depth_start, body), tr, body

    def _skip_generics(self, k):
        T = self.toks
        if not (T[k].k == "p" and T[k].t == "<"):
            return k
        d = 0
        while True:
            if T[k].k == "p" and T[k].t == "<":
                d += 1
            elif T[k].k == "p" and T[k].t == ">" and not (T[k - 1].t in ("-", "=") and T[k-1].e == T[k].s):
                d -= 1
                if d == 0:
                    return k + 1
            k += 1

    def _norm(self, a, b):
        return re.sub(r"\s+", "", self.txt(a, b)) if a < b else ""


def cfg_true(attr):
    """evaluate #[cfg(...)] with every feature on and test off; unknown predicates: true."""
    a = re.sub(r"\s+", "", attr)
    if not a.startswith("cfg("):
        return True
    pos = 0

    def parse(s):
        s = s.strip()
        for f in ("all", "any", "not"):
            if s.startswith(f + "(") and s.endswith(")"):
                parts, d, cur = [], 0, ""
                for ch in s[len(f) + 1:-1]:
                    if ch == "(":
                        d += 1
                    if ch == ")":
                        d -= 1
                    if ch == "," and d == 0:
                        parts.append(cur); cur = ""
                    else:
                        cur += ch
                if cur:
                    parts.append(cur)
                vs = [parse(p) for p in parts]
                return all(vs) if f == "all" else any(vs) if f == "any" else not vs[0]
        if s == "test" or s == "miri" or s.startswith("target_arch=\"wasm") or s.startswith("target_family=\"wasm"):
            return False
        return True
    return parse(a[4:-1])
