"""A small Rust lexer and item finder: enough to cut functions, structs, enums,
consts and macro arms out of a source file verbatim, with their line numbers."""
import re

class Tok:
    __slots__ = ("k", "s", "a", "b")
    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b
    def __repr__(self):
        return f"{self.k}:{self.s!r}"

_ID = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
_NUM = re.compile(r"[0-9](?:[0-9a-zA-Z_]|\.(?=[0-9])|(?<=[eE])[+-](?=[0-9]))*")
_RAW = re.compile(r'(?:b|c)?r(#*)"')


def lex(src):
    """Tokens without comments and whitespace (k: id, num, str, chr, life, op)."""
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1; j += 2
                elif src.startswith("*/", j):
                    d -= 1; j += 2
                else:
                    j += 1
            i = j
            continue
        m = _RAW.match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.index(end, m.end()) + len(end)
            out.append(Tok("str", src[i:j], i, j)); i = j
            continue
        if c == '"' or (c in "bc" and i + 1 < n and src[i + 1] == '"'):
            j = i + (1 if c == '"' else 2)
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            out.append(Tok("str", src[i:j], i, j)); i = j
            continue
        if c == "'" or (c == "b" and i + 1 < n and src[i + 1] == "'"):
            k = i + (1 if c == "'" else 2)
            if c == "'" and src[k] != "\\" and not (k + 1 < n and src[k + 1] == "'"):
                m = _ID.match(src, k)
                out.append(Tok("life", src[i:m.end()], i, m.end())); i = m.end()
                continue
            j = k
            while src[j] != "'":
                j += 2 if src[j] == "\\" else 1
            j += 1
            out.append(Tok("chr", src[i:j], i, j)); i = j
            continue
        m = _ID.match(src, i)
        if m:
            out.append(Tok("id", m.group(), i, m.end())); i = m.end()
            continue
        m = _NUM.match(src, i)
        if m:
            out.append(Tok("num", m.group(), i, m.end())); i = m.end()
            continue
        for op in ("..=", "...", "<<=", ">>=", "->", "=>", "::", "==", "!=", "<=", ">=", "&&", "||",
                   "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", ".."):
            if src.startswith(op, i):
                out.append(Tok("op", op, i, i + len(op))); i += len(op)
                break
        else:
            out.append(Tok("op", c, i, i + 1)); i += 1
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}


def match_close(t, i):
    """t[i] is an opening bracket: the index of its closing one."""
    d = 0
    for j in range(i, len(t)):
        s = t[j].s
        if t[j].k == "op":
            if s in OPEN:
                d += 1
            elif s in ")]}":
                d -= 1
                if d == 0:
                    return j
    raise ValueError("unbalanced")


class Item:
    """kind: fn struct enum const static type impl trait mod macro use; a/b: character span
    (attributes and docs left out); t: the tokens of the whole file; i/j token span; body: token
    index of the opening brace (or None)."""
    def __init__(self, **kw):
        self.items = []
        self.__dict__.update(kw)


_MODS = {"pub", "unsafe", "async", "extern", "default"}


def items(src, t, lo, hi):
    out, i = [], lo
    cfg_test = False
    attrs = []
    while i < hi:
        s = t[i].s
        if s == "#":
            j = i + 1
            if t[j].s == "!":
                j += 1
            e = match_close(t, j)
            attrs.append(src[t[j].a:t[e].b])
            i = e + 1
            continue
        start = i
        while i < hi:
            if t[i].s in _MODS and t[i].k == "id":
                i += 1
                if t[i].s == "(" and t[i - 1].s == "pub":
                    i = match_close(t, i) + 1
                elif t[i].k == "str":
                    i += 1
                continue
            if t[i].s == "const" and t[i + 1].s in ("fn", "unsafe"):
                i += 1
                continue
            break
        if i >= hi:
            break
        kw = t[i].s
        kind = name = None
        body = None
        if kw in ("fn", "struct", "enum", "union", "trait", "mod", "type", "static", "const", "use", "impl",
                  "macro_rules") and t[i].k == "id":
            kind = kw
            if kw == "macro_rules":
                name = t[i + 2].s
                j = i + 3
                e = match_close(t, j)
                body, i = j, e + 1
                if i < hi and t[i].s == ";":
                    i += 1
            else:
                if kw not in ("impl", "use"):
                    k = i + 1
                    if t[k].s == "mut":
                        k += 1
                    name = t[k].s
                # to the first ';' or '{' at depth 0
                j, d = i + 1, 0
                while True:
                    s = t[j].s
                    if t[j].k == "op":
                        if s == "{" and d == 0 and kw not in ("const", "static", "use", "type"):
                            body = j
                            e = match_close(t, j)
                            i = e + 1
                            break
                        if s in OPEN:
                            d += 1
                        elif s in ")]}":
                            d -= 1
                        elif s == ";" and d == 0:
                            e = j
                            i = j + 1
                            break
                    j += 1
            it = Item(kind=kind, name=name, i=start, j=e, a=t[start].a, b=t[e].b, body=body, attrs=attrs,
                      src=src, t=t, kw=None)
            it.test = any("cfg" in x and "test" in x for x in attrs)
            if kind in ("impl", "trait", "mod") and body is not None and not it.test:
                it.items = items(src, t, body + 1, e)
            if kind in ("impl", "trait"):
                it.head = src[t[start].a:t[body].a]
                it.key = impl_key(t, start, body)
            out.append(it)
            attrs = []
        else:
            # macro invocation at item level, or something unknown: skip to ; or a {...}
            j = i
            while j < hi and t[j].s not in (";",):
                if t[j].s in OPEN and t[j].k == "op":
                    e = match_close(t, j)
                    brace = t[j].s == "{"
                    j = e
                    if brace:
                        break
                j += 1
            out.append(Item(kind="macrocall", name=t[i].s, i=start, j=min(j, hi - 1), a=t[start].a,
                            b=t[min(j, hi - 1)].b, body=None, attrs=attrs, src=src, t=t, test=False))
            attrs = []
            i = j + 1
    return out


def impl_key(t, i, body):
    """'Marshaler for Vec<T>' for impl<T> Marshaler for Vec<T> where ...; lifetimes dropped."""
    while t[i].s not in ("impl", "trait"):
        i += 1
    i += 1
    if t[i].s == "<":
        d = 0
        while True:
            if t[i].s == "<":
                d += 1
            elif t[i].s == ">":
                d -= 1
                if d == 0:
                    break
            elif t[i].s == ">>":
                d -= 2
            i += 1
        i += 1
    words = []
    for k in range(i, body):
        if t[k].s == "where" and t[k].k == "id":
            break
        words.append(t[k])
    s = ""
    for w in words:
        if w.k == "id" and w.s in ("for", "dyn"):
            s += f" {w.s} "
        else:
            s += w.s
    s = re.sub(r"<'\w+>", "", s)
    s = re.sub(r"'\w+,", "", s)
    s = re.sub(r"'_", "", s)
    return re.sub(r"\s+", " ", s).strip()


class File:
    def __init__(self, path, text=None):
        self.path = path
        self.src = open(path).read() if text is None else text
        self.t = lex(self.src)
        self.items = items(self.src, self.t, 0, len(self.t))

    def line(self, pos):
        return self.src.count("\n", 0, pos) + 1

    def walk(self, its=None):
        for it in self.items if its is None else its:
            if it.test:
                continue
            yield it
            if it.kind == "mod":
                yield from self.walk(it.items)

    def find(self, kind, name):
        for it in self.walk():
            if it.kind == kind and it.name == name:
                return it
        return None

    def impls(self, key):
        return [it for it in self.walk() if it.kind == "impl" and it.key == key]

    def fn(self, key, name):
        """key '' for a free function; otherwise an impl key or 'trait X'."""
        if not key:
            return self.find("fn", name), None
        if key.startswith("trait "):
            tr = self.find("trait", key[6:])
            blocks = [tr] if tr else []
        else:
            blocks = self.impls(key)
        for b in blocks:
            for it in b.items:
                if it.kind == "fn" and it.name == name:
                    return it, b
        return None, None
