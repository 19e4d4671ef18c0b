"""Builds one Verus file from a template and the current source tree.

A template is Verus text in which lines starting with //@ pull items out of the tree:

  //@struct FILE NAME          the struct, field by field, attributes and docs dropped, all public
  //@enum FILE NAME            same for an enum
  //@const FILE NAME           a const (or every const: NAME = *)
  //@impl FILE | KEY           the header of that impl block as it stands in the source
  //@ghost                     (inside impl) following lines up to //@end are added to the block
  //@fn NAME                   the function, verbatim but for the rewrites below; the lines up to
                               //@end are its contract (see FnSpec)
  //@endimpl
  //@freefn FILE NAME          a free function (contract as above)
                               (in either: //@closure K HEAD takes the K-th of the closures that the
                               body hands to method calls, nested ones not counted; negative from
                               the end, and makes it a function with this head: its parameter pattern is
                               bound to the argument vx_arg first, what it captures are parameters)
  //@macro FILE NAME ARM k=v   following //@impl ... use FILE="@" and see that arm, substituted
                             (v = @FILE:NAME:FIRST:K is argument K of the invocation NAME!(FIRST, ..))
  //@endmacro
  //@include PATH              another template

What a contract may inject: requires/ensures after the signature, a name for the result, ghost
blocks at the start of the body or around a loop, loop invariants, and an attribute. It cannot
change executable text. What the extraction itself rewrites is in rewrite()."""
import os, re, sys, json
import rustlex
from rustlex import File, match_close, OPEN

DROP_MACROS = {"trace", "debug", "info", "warn", "error"}


class Lost(Exception):
    pass


class FnSpec:
    def __init__(self, name):
        self.name = name
        self.ret = None
        self.closure = None
        self.contract = []
        self.loops = {}      # k -> (kind, ghostname, [invariant lines])
        self.loopstart = {}
        self.loopend = {}
        self.afterloop = {}
        self.beforeloop = {}
        self.hoist = set()
        self.start = []
        self.before = []     # (pattern, lines)
        self.after = []
        self.attr = []
        self.rewrites = []
        self.optional = False
        self.bodyless = False
        self.trusted = None


def fix_paths(s):
    # two-level module layout: crate::a::b::C -> crate::a::C (b a lower-case module name)
    return re.sub(r"\bcrate::([a-z_][a-z0-9_]*)::(?:[a-z_][a-z0-9_]*::)+(?=[A-Z])", r"crate::\1::", s)


class Out:
    def __init__(self):
        self.buf = []
        self.n = 1
        self.map = []   # (first line, last line, fn id)

    def put(self, s):
        if not s.endswith("\n"):
            s += "\n"
        self.buf.append(s)
        self.n += s.count("\n")


class Build:
    def __init__(self, repo, tdir, probe=False, trust=()):
        self.repo, self.tdir = repo, tdir
        self.files = {}
        self.out = Out()
        self.fns = {}            # id -> dict(file, line, trusted, requires)
        self.lost = {}           # fn id -> reason
        self.macro = None
        self.probe = probe
        self.trust = set(trust)  # fn ids to leave as external_body (their text does not compile here)
        self.mod = []
        self.rewrites_used = {}

    def file(self, p):
        if p == "@":
            return self.macro
        full = os.path.join(self.repo, p)
        if full not in self.files:
            if not os.path.exists(full):
                raise Lost(f"no file {p}")
            self.files[full] = File(full)
            self.files[full].rel = p
        return self.files[full]

    # ---- rewriting of executable text (everything that is not verbatim) -------------------
    def rewrite(self, text, spec=None):
        """Tokens kept in order; dropped: logging macro statements, attributes inside bodies, and
        comments; renamed: to_be_bytes/from_be_bytes to shims that call them, deep crate paths."""
        t = rustlex.lex(text)
        cut = []
        i = 0
        while i < len(t):
            if t[i].k == "id" and t[i].s in DROP_MACROS and i + 2 < len(t) and t[i + 1].s == "!" and t[i + 2].s in OPEN:
                e = match_close(t, i + 2)
                a = t[i].a
                if i >= 2 and t[i - 1].s == "::" and t[i - 2].s == "log":
                    a = t[i - 2].a
                b = t[e].b
                if e + 1 < len(t) and t[e + 1].s == ";":
                    b = t[e + 1].b
                    cut.append((a, b, ""))
                else:
                    cut.append((a, b, "()"))
                i = e + 1
                continue
            if t[i].s == "#" and t[i].k == "op" and i + 1 < len(t) and t[i + 1].s == "[":
                e = match_close(t, i + 1)
                cut.append((t[i].a, t[e].b, ""))
                i = e + 1
                continue
            i += 1
        # comments
        for m in _comments(text):
            cut.append((m[0], m[1], " "))
        cut.sort()
        res, p = [], 0
        for a, b, r in cut:
            if a < p:
                continue
            res.append(text[p:a])
            # keep line numbers
            res.append(r + "\n" * text.count("\n", a, b))
            p = b
        res.append(text[p:])
        s = "".join(res)
        s = re.sub(r"\.\s*to_be_bytes\s*\(\s*\)", ".vx_to_be_bytes()", s)
        s = re.sub(r"\b(u8|i8|u16|i16|u32|i32|u64|i64|f32|f64)::from_be_bytes\s*\(", r"\1::vx_from_be_bytes(", s)
        s = re.sub(r"\.\s*try_into\s*\(\s*\)", ".vx_try_into()", s)
        s = re.sub(r"\b(?:std::mem::|mem::|core::mem::)?size_of::<(u8|i8|u16|i16|u32|i32|u64|i64|f32|f64)>\(\)",
                   lambda m: f"{int(m.group(1)[1:]) // 8}usize", s)
        # the blanket impl is the only one, so Item = X says X: Unmarshaler; said outright for the contracts
        s = re.sub(r"UnmarshalerInto<Item = ([A-Z]\w*)>(?! \+ Default)", r"UnmarshalerInto<Item = \1> + Default + Unmarshaler", s)
        s = self.panics(s)
        s = self.conts(s)
        s = self.for_each(s)
        s = fix_paths(s)
        if spec:
            for pat, rep in spec.rewrites:
                s2 = re.sub(pat, rep, s, flags=re.S)
                if s2 != s:
                    self.rewrites_used[f"{pat} => {rep}"] = self.rewrites_used.get(f"{pat} => {rep}", 0) + 1
                s = s2
        return s

    def panics(self, s):
        """panic!, todo!, unimplemented!, unreachable!  =>  vx_panic() (precondition false: to be
        shown unreachable); assert_eq!/assert_ne!(A, B)  =>  if !(A == B) { vx_panic() }"""
        t = rustlex.lex(s)
        cut = []
        for i, x in enumerate(t):
            if x.k != "id" or i + 2 >= len(t) or t[i + 1].s != "!" or t[i + 2].s not in OPEN or t[i + 2].k != "op":
                continue
            e = match_close(t, i + 2)
            old = s[x.a:t[e].b]
            if x.s in ("panic", "todo", "unimplemented", "unreachable"):
                new = "vx_panic()"
            elif x.s in ("assert_eq", "assert_ne", "debug_assert_eq", "debug_assert_ne"):
                j, args, st = i + 3, [], i + 3
                while j < e:
                    if t[j].k == "op" and t[j].s in OPEN: j = match_close(t, j)
                    elif t[j].s == "," : args.append((st, j)); st = j + 1
                    j += 1
                if st < e: args.append((st, e))
                a, b = [s[t[p].a:t[q - 1].b] for p, q in args[:2]]
                new = f"if ({a}) {'!=' if x.s.endswith('_eq') else '=='} ({b}) {{ vx_panic() }}"
            else:
                continue
            cut.append((x.a, t[e].b, new + "\n" * max(0, old.count("\n") - new.count("\n"))))
        p, res = 0, []
        for a, b, r in cut:
            if a < p: continue
            res.append(s[p:a]); res.append(r); p = b
        return "".join(res) + s[p:]

    def conts(self, s):
        """in a for body, at its top level:  if C { ..; continue; } REST  =>  if C { ..; } else { REST }"""
        while True:
            t = rustlex.lex(s)
            hit = None
            for n, x in enumerate(t):
                if x.k != "id" or x.s != "for" or n + 1 >= len(t) or t[n + 1].s == "<":
                    continue
                m = n + 1
                while m < len(t) and not (t[m].k == "op" and t[m].s == "{"):
                    if t[m].k == "op" and t[m].s in OPEN: m = match_close(t, m)
                    m += 1
                if m >= len(t): continue
                cl = match_close(t, m)
                j = m + 1
                start = True
                while j < cl:
                    if start and t[j].k == "id" and t[j].s == "if":
                        q = j + 1
                        while not (t[q].k == "op" and t[q].s == "{"):
                            if t[q].k == "op" and t[q].s in OPEN: q = match_close(t, q)
                            q += 1
                        qe = match_close(t, q)
                        if t[qe - 2].s == "continue" and t[qe - 1].s == ";" and t[qe + 1].s != "else":
                            hit = (t[qe - 2].a, t[qe - 1].b, t[qe].b, t[cl].a)
                            break
                        j = qe + 1
                        start = True
                        continue
                    if t[j].k == "op" and t[j].s in OPEN:
                        blk = t[j].s == "{"
                        j = match_close(t, j) + 1
                        start = blk
                        continue
                    start = t[j].s == ";"
                    j += 1
                if hit: break
            if hit is None:
                return s
            a, b, c, d = hit
            s = s[:a] + s[b:c] + " else {" + s[c:d] + "} " + s[d:]
            k = "for .. { .. if C { continue; } REST } => if C { } else { REST }"
            self.rewrites_used[k] = self.rewrites_used.get(k, 0) + 1

    def for_each(self, s):
        """E.for_each(|P| B);  as a statement  =>  for P in E { B }   (no return inside B)"""
        while True:
            t = rustlex.lex(s)
            hit = None
            for n, x in enumerate(t):
                if x.s == "for_each" and t[n - 1].s == "." and t[n + 1].s == "(" and t[n + 2].s == "|":
                    hit = n
                    break
            if hit is None:
                return s
            n = hit
            e = match_close(t, n + 1)
            # back to the start of the statement
            b, d = n - 1, 0
            while b >= 0:
                y = t[b].s
                if t[b].k == "op" and y in ")]}":
                    d += 1
                elif t[b].k == "op" and y in "([{":
                    if d == 0: break
                    d -= 1
                elif y == ";" and d == 0:
                    break
                if t[b].k == "op" and y == "}" and d == 1 and b < n - 1 and t[b + 1].s != ".":
                    break
                b -= 1
            p = n + 3
            d = 0
            while not (t[p].s == "|" and d == 0):
                if t[p].k == "op" and t[p].s in OPEN: p = match_close(t, p)
                p += 1
            body = s[t[p].b:t[e].a].strip()
            if any(y.s == "return" for y in t[p:e]) or e + 1 >= len(t) or t[e + 1].s != ";" or t[b + 1].s in ("let", "return"):
                return s
            if not body.startswith("{"):
                body = "{ " + body + "; }"
            expr = s[t[b + 1].a:t[n - 1].a].rstrip()
            new = f"for {s[t[n + 2].b:t[p].a].strip()} in {expr} {body}"
            old = s[t[b + 1].a:t[e + 1].b]
            new += "\n" * max(0, old.count("\n") - new.count("\n"))
            s = s[:t[b + 1].a] + new + s[t[e + 1].b:]
            self.rewrites_used["E.for_each(|P| B); => for P in E B"] = self.rewrites_used.get("E.for_each(|P| B); => for P in E B", 0) + 1

    # ---- items ----------------------------------------------------------------------------
    def struct(self, fpath, name, subs):
        f = self.file(fpath)
        it = f.find("struct", name) or f.find("enum", name)
        if it is None:
            raise Lost(f"{fpath}: no type {name}")
        s = self.rewrite(f.src[it.a:it.b])
        s = re.sub(r"\bpub\s*\([a-z ]+\)\s*", "", s)
        s = re.sub(r"\bpub\s+", "", s)
        if it.kind == "struct":
            t = rustlex.lex(s)
            # make the fields public
            for k, x in enumerate(t):
                if x.s == "{":
                    e = match_close(t, k)
                    pts, d = [], 0
                    expect = True
                    for j in range(k + 1, e):
                        y = t[j]
                        if y.k == "op" and y.s in "([{<":
                            d += 1
                        elif y.k == "op" and y.s in ")]}>":
                            d -= 1
                        if expect and y.k == "id" and d == 0:
                            pts.append(y.a)
                            expect = False
                        if y.s == "," and d == 0:
                            expect = True
                    for a in reversed(pts):
                        s = s[:a] + "pub " + s[a:]
                    break
                if x.s == "(":
                    e = match_close(t, k)
                    pts, d = [t[k + 1].a], 0
                    for j in range(k + 1, e):
                        y = t[j]
                        if y.k == "op" and y.s in "([{<":
                            d += 1
                        elif y.k == "op" and y.s in ")]}>":
                            d -= 1
                        elif y.s == "," and d == 0 and j + 1 < e:
                            pts.append(t[j + 1].a)
                    for a in reversed(pts):
                        s = s[:a] + "pub " + s[a:]
                    break
        for a, b in subs:
            s = re.sub(a, b, s)
        self.out.put("pub " + s)

    def const(self, fpath, name):
        f = self.file(fpath)
        for it in f.walk():
            if it.kind == "const" and (name == "*" or it.name == name):
                s = self.rewrite(f.src[it.a:it.b])
                s = re.sub(r"^pub\s*(\([a-z ]+\))?\s*", "", s)
                s = s.replace(": &str", ": &'static str")
                self.out.put("pub " + s)

    def closure(self, body, k, fid):
        """(pattern, body, offset) of the k-th closure given to a method call, outside other closures"""
        t = rustlex.lex(body)
        found, i = [], 0
        while i < len(t):
            j = i + 3 if i + 3 < len(t) and t[i + 2].s == "(" and t[i].s == "." and t[i + 1].k == "id" else None
            if j is not None and t[j].s == "move": j += 1
            if j is None or t[j].s != "|":
                i += 1
                continue
            e = match_close(t, i + 2)
            p = j + 1
            while t[p].s != "|":
                p = match_close(t, p) + 1 if t[p].k == "op" and t[p].s in OPEN else p + 1
            pat = body[t[j].b:t[p].a].strip()
            q = e - 1 if t[e - 1].s == "," else e
            found.append((pat, body[t[p].b:t[q].a].strip(), t[p].b))
            i = e
        try:
            return found[k]
        except IndexError:
            raise Lost(f"{fid}: {len(found)} closures, the contract is for number {k}")

    def emit_closure(self, f, it, spec, key):
        k, head = spec.closure.split(None, 1)
        name = head[:head.index("(")].split("<")[0].strip()
        fid = "::".join(self.mod + ([key] if key else []) + [f"{spec.name}|{name}|"])
        self.out.put("")
        trusted = fid in self.trust
        line = f.line(it.a)
        src = f.src[it.t[it.body].a:it.b]
        body = "{ }"
        try:
            pat, body, at = self.closure(src, int(k), fid)
            line = f.line(it.t[it.body].a + at)
            if not body.startswith("{") : body = "{ " + body + " }"
            body = self.rewrite("{ let " + pat + " = vx_arg; " + body.lstrip()[1:], spec)
            if not trusted: body = self.inject(body, spec, fid)
        except Lost as e:
            self.lost[fid] = str(e); self.trust.add(fid); trusted = True
        if trusted: body = "{ unimplemented!() " + "\n" * body.count("\n") + "}"
        for a in spec.attr: self.out.put(a)
        if trusted: self.out.put("#[verifier::external_body]")
        start = self.out.n
        m = re.match(r"(.*?)\s*(where .*)?$", head, re.S)
        self.out.put("pub fn " + m.group(1) + ("\n" + m.group(2) if m.group(2) else ""))
        contract = "\n".join(spec.contract)
        if contract.strip(): self.out.put(contract)
        self.out.put(body)
        self.out.map.append((start, self.out.n - 1, fid))
        self.fns[fid] = dict(file=getattr(f, "rel", f.path), line=line, trusted=trusted, why="undecided: body outside the verifier's reach" if trusted else None,
                             name=name, key=key, has_requires="requires" in contract, contract=len(re.findall(r"[^\s,]", contract)) > 0)

    def emit_fn(self, f, it, block, spec, key, in_trait_impl):
        if spec.closure:
            return self.emit_closure(f, it, spec, key)
        src = f.src
        fid = "::".join(self.mod + ([key] if key else []) + [spec.name])
        sig_toks = it.t[it.i:it.body]
        body_src = src[it.t[it.body].a:it.b]
        line = f.line(it.a)
        # signature pieces
        sig = src[it.a:it.t[it.body].a]
        t = rustlex.lex(sig)
        k = next(n for n, x in enumerate(t) if x.s == "fn")
        # parameters
        j = k + 2
        if t[j].s == "<":
            d = 0
            while True:
                if t[j].s == "<": d += 1
                elif t[j].s == ">": d -= 1
                elif t[j].s == ">>": d -= 2
                elif t[j].s == "(" : j = match_close(t, j)
                j += 1
                if d == 0: break
        pe = match_close(t, j)
        w = None
        arrow = None
        m, d = pe + 1, 0
        while m < len(t):
            if t[m].s == "->" and arrow is None and d == 0: arrow = m
            if t[m].s in OPEN and t[m].k == "op":
                m = match_close(t, m)
            elif t[m].s == "where" and t[m].k == "id":
                w = m; break
            m += 1
        head_end = t[arrow].a if arrow is not None else (t[w].a if w is not None else len(sig))
        head = sig[:head_end]
        ret = ""
        if arrow is not None:
            ret = sig[t[arrow].b:(t[w].a if w is not None else len(sig))].strip()
        where = sig[t[w].a:].strip() if w is not None else ""
        head = re.sub(r"\bpub\s*(\([a-z ]+\))?\s*", "", head, count=1) if t[0].s == "pub" else head
        fixs = lambda s: self.rewrite(s, spec)
        head, ret, where = fixs(head), fixs(ret), fixs(where)
        head = re.sub(r"(?<=[(,\s])_\s*:(?!:)", "vx_unused:", head)  # the verifier wants every parameter named
        text = "" if in_trait_impl else "pub "
        text += head.rstrip()
        if ret:
            text += f" -> ({spec.ret or 'ret'}: {ret})"
        if where:
            text += "\n" + where
        contract = "\n".join(spec.contract)
        body = fixs(body_src)
        if re.search(r"[(]\s*mut\s+self\b", text):  # `mut self` is `self` moved into a mutable local
            text = re.sub(r"[(]\s*mut\s+self\b", "(self", text)
            body = re.sub(r"\bself\b", "vx_self", body)
            body = "{ let mut vx_self = self;" + body.lstrip()[1:]
        trusted = fid in self.trust or spec.trusted is not None
        if not trusted:
            try:
                body = self.inject(body, spec, fid)
            except Lost as e:
                self.lost[fid] = str(e)
                self.trust.add(fid)
                trusted = True
        if trusted:
            body = "{ unimplemented!() " + "\n" * body.count("\n") + "}"
        for a in spec.attr:
            self.out.put(a)
        if trusted:
            self.out.put("#[verifier::external_body]")
        start = self.out.n
        self.out.put(text)
        if contract.strip():
            self.out.put(contract)
        self.out.put(body)
        self.out.map.append((start, self.out.n - 1, fid))
        self.fns[fid] = dict(file=getattr(f, "rel", f.path), line=line, trusted=trusted,
                             why=spec.trusted if spec.trusted is not None else ("undecided: body outside the verifier's reach" if fid in self.trust else None),
                             name=spec.name, key=key, has_requires="requires" in contract,
                             contract=len(re.findall(r"[^\s,]", contract)) > 0)

    def inject(self, body, spec, fid, probe=None):
        probe = self.probe if probe is None else probe
        t = rustlex.lex(body)
        ins = []   # (pos, order, text)
        dele = []  # (from, to, replacement)
        if probe == "end":
            d, last = 0, None
            for x in t:
                if x.k != "op": continue
                if x.s in OPEN: d += 1
                elif x.s in ")]}": d -= 1
                elif x.s == ";" and d == 1: last = x.b
            if last: ins.append((last, 9, "\nproof { assert(false); /*VXPROBE*/ }\n"))
            else: ins.append((t[0].b, 9, "\nproof { assert(false); /*VXPROBE*/ }\n"))
        elif probe:
            ins.append((t[0].b, -1, "\nproof { assert(false); /*VXPROBE*/ }\n"))
        if spec.start:
            ins.append((t[0].b, 0, "\n" + "\n".join(spec.start) + "\n"))
        loops = []
        for n, x in enumerate(t):
            if x.k == "id" and x.s in ("for", "while", "loop"):
                if x.s == "for" and t[n + 1].s == "<":
                    continue
                m, d = n + 1, 0
                inpos = None
                while True:
                    if t[m].k == "op" and t[m].s == "{" and d == 0:
                        break
                    if t[m].k == "op" and t[m].s in OPEN:
                        m = match_close(t, m)
                    elif t[m].s == "in" and inpos is None:
                        inpos = m
                    m += 1
                loops.append((x.s, n, inpos, m, match_close(t, m)))
        if len(loops) != len(spec.loops) and spec.loops:
            raise Lost(f"{fid}: {len(loops)} loops where the contract has {len(spec.loops)}")
        for k, (kind, gname, inv) in spec.loops.items():
            lk, n, inpos, br, cl = loops[k]
            if lk != kind:
                raise Lost(f"{fid}: loop {k} is a {lk} loop, the contract is for a {kind} loop")
            if k in spec.hoist and kind == "for":
                # for P in E {  =>  let vx_itK = E; for P in it: vx_itK {
                ins.append((t[n].a, 0, f"let vx_it{k} = {body[t[inpos].b:t[br].a].strip()};\n"))
                dele.append((t[inpos].b, t[br].a, f" {gname}: vx_it{k}" if gname else f" vx_it{k}"))
            elif gname and kind == "for":
                ins.append((t[inpos].b, 0, f" {gname}: "))
            ins.append((t[br].a, 0, "\n" + "\n".join(inv) + "\n"))
            if k in spec.loopstart:
                ins.append((t[br].b, 0, "\n" + "\n".join(spec.loopstart[k]) + "\n"))
            if k in spec.loopend:
                ins.append((t[cl].a, 0, "\n" + "\n".join(spec.loopend[k]) + "\n"))
            if k in spec.afterloop:
                ins.append((t[cl].b, 0, "\n" + "\n".join(spec.afterloop[k]) + "\n"))
            if k in spec.beforeloop:
                ins.append((t[n].a, 1, "\n" + "\n".join(spec.beforeloop[k]) + "\n"))
        for where, lst in ((0, spec.before), (1, spec.after)):
            for pat, lines, every in lst:
                ms = list(re.finditer(pat, body, re.S))
                if not ms:
                    raise Lost(f"{fid}: the text a ghost block is anchored to is gone: {pat}")
                for m in ms if every else ms[:1]:
                    ins.append((m.span()[where], 1, "\n" + "\n".join(lines) + "\n"))
        ins = [(p, p, o, s) for p, o, s in ins] + [(a, b, -1, s + "\n" * body.count("\n", a, b)) for a, b, s in dele]
        ins.sort(key=lambda x: (x[0], x[2]))
        res, p = [], 0
        for a, b, _, s in ins:
            res.append(body[p:a]); res.append(s); p = max(p, b)
        res.append(body[p:])
        return "".join(res)

    # ---- templates ------------------------------------------------------------------------
    def run(self, path):
        lines = open(os.path.join(self.tdir, path)).read().split("\n")
        i = 0
        cur = None  # (file, key, blocks, is_trait)
        while i < len(lines):
            ln = lines[i]
            st = ln.strip()
            if not st.startswith("//@"):
                m = re.match(r"\s*(pub\s+)?mod\s+(\w+)\s*\{", ln)
                if m:
                    self.mod.append(m.group(2))
                if st.startswith("} // mod"):
                    self.mod.pop()
                self.out.put(ln)
                i += 1
                continue
            cmd, _, arg = st[3:].partition(" ")
            arg = arg.strip()
            if cmd == "include":
                self.run(arg)
            elif cmd in ("struct", "enum"):
                fp, nm, *rest = arg.split(None, 2)
                subs = []
                if rest:
                    for r in rest[0].split(" ;; "):
                        a, _, b = r.partition(" => ")
                        subs.append((a, b))
                self.struct(fp, nm, subs)
            elif cmd == "const":
                fp, nm = arg.split()
                self.const(fp, nm)
            elif cmd == "macro":
                self.set_macro(arg)
            elif cmd == "endmacro":
                self.macro = None
            elif cmd == "impl":
                fp, _, key = arg.partition("|")
                fp, key = fp.strip(), key.strip()
                key, _, head = key.partition("=>")
                key, head = key.strip(), head.strip()
                f = self.file(fp)
                if key.startswith("trait "):
                    tr = f.find("trait", key[6:])
                    blocks = [tr] if tr else []
                else:
                    blocks = f.impls(key)
                if not blocks:
                    raise Lost(f"{fp}: no impl {key}")
                cur = (f, key, blocks)
                h = head or fix_paths(self.rewrite(blocks[0].head).strip())
                h = re.sub(r"^pub\s*(\([a-z ]+\))?\s*trait", "pub trait", h)
                if key.startswith("trait ") and not h.startswith("pub"):
                    h = "pub " + h
                self.out.put(h + " {")
            elif cmd == "endimpl":
                cur = None
                self.out.put("}")
            elif cmd in ("fn", "freefn"):
                j = i + 1
                if cmd == "fn":
                    name = arg
                else:
                    fp, name = arg.split()
                spec = FnSpec(name)
                sec = spec.contract
                while lines[j].strip() != "//@end":
                    s = lines[j].strip()
                    if s.startswith("//@"):
                        c, _, a = s[3:].partition(" ")
                        a = a.strip()
                        if c == "ret":
                            spec.ret = a; sec = spec.contract
                        elif c == "loop":
                            p = a.split()
                            inv = []
                            spec.loops[int(p[0])] = (p[1], p[2] if len(p) > 2 else None, inv)
                            sec = inv
                        elif c in ("loopstart", "loopend", "afterloop", "beforeloop"):
                            sec = getattr(spec, c).setdefault(int(a), [])
                        elif c == "hoist":
                            spec.hoist.add(int(a))
                        elif c == "start":
                            sec = spec.start
                        elif c in ("before", "after", "beforeall", "afterall"):
                            sec = []
                            getattr(spec, c[:-3] if c.endswith("all") else c).append((a, sec, c.endswith("all")))
                        elif c == "attr":
                            spec.attr.append(a)
                        elif c == "closure":
                            spec.closure = a
                        elif c == "trusted":
                            spec.trusted = a or "trusted"
                        elif c == "rewrite":
                            x, _, y = a.partition(" => ")
                            spec.rewrites.append((x, y))
                        else:
                            raise SystemExit(f"template: unknown //@{c}")
                    else:
                        sec.append(lines[j])
                    j += 1
                i = j
                if cmd == "fn":
                    f, key, blocks = cur
                    it = None
                    for b in blocks:
                        for x in b.items:
                            if x.kind == "fn" and x.name == name:
                                it, blk = x, b
                    if it is None:
                        raise Lost(f"{f.path}: no fn {key}::{name}")
                    self.emit_fn(f, it, blk, spec, key, " for " in key or key.startswith("trait "))
                else:
                    f = self.file(fp)
                    it = f.find("fn", name)
                    if it is None:
                        raise Lost(f"{fp}: no fn {name}")
                    self.emit_fn(f, it, None, spec, "", False)
            else:
                raise SystemExit(f"template: unknown //@{cmd}")
            i += 1

    def invocation(self, fp, name, first, k):
        """argument k of the invocation NAME!(FIRST, ...) as it stands in the source"""
        f = self.file(fp)
        t = f.t
        for n in range(len(t) - 3):
            if t[n].k == "id" and t[n].s == name and t[n + 1].s == "!" and t[n + 2].s in OPEN:
                e = match_close(t, n + 2)
                args, d, st = [], 0, n + 3
                for m in range(n + 3, e + 1):
                    if m == e or (t[m].s == "," and d == 0):
                        if m > st: args.append(f.src[t[st].a:t[m - 1].b].strip())
                        st = m + 1
                    elif t[m].k == "op" and t[m].s in OPEN: d += 1
                    elif t[m].k == "op" and t[m].s in ")]}": d -= 1
                if args and args[0] == first and int(k) < len(args):
                    r = args[int(k)]
                    return r[2:-2].strip() if r.startswith("[<") else r
        raise Lost(f"{fp}: no invocation {name}!({first}, ..)")

    def set_macro(self, arg):
        fp, name, arm, *kv = arg.split()
        f = self.file(fp)
        it = f.find("macro_rules", name)
        if it is None:
            raise Lost(f"{fp}: no macro {name}")
        t = f.t
        # arms: pattern => { transcriber } ;
        k = it.body + 1
        arms = []
        end = match_close(t, it.body)
        while k < end:
            pe = match_close(t, k)
            assert t[pe + 1].s == "=>"
            be = match_close(t, pe + 2)
            arms.append(f.src[t[pe + 2].b:t[be].a])
            base = t[pe + 2].b
            arms[-1] = (arms[-1], base)
            k = be + 1
            if k < end and t[k].s == ";":
                k += 1
        text, base = arms[int(arm)]
        pre = "\n" * f.src.count("\n", 0, base)
        for x in kv:
            a, _, b = x.partition("=")
            if b.startswith("@"):
                b = self.invocation(*b[1:].split(":"))
            text = re.sub(r"\$" + a + r"\b", b, text)
        self.macro = File(f.path, pre + text)
        self.macro.rel = fp


def _comments(src):
    """Spans of comments (the lexer's own rules)."""
    t = rustlex.lex(src)
    spans, p = [], 0
    for x in t + [None]:
        a = x.a if x else len(src)
        gap = src[p:a]
        q = 0
        while q < len(gap):
            if gap.startswith("//", q):
                e = gap.find("\n", q)
                e = len(gap) if e < 0 else e
                spans.append((p + q, p + e)); q = e
            elif gap.startswith("/*", q):
                e = gap.find("*/", q)
                e = len(gap) if e < 0 else e + 2
                # nested comments: take the whole gap
                if gap.count("/*") > 1:
                    e = len(gap.rstrip())
                spans.append((p + q, p + e)); q = e
            else:
                q += 1
        p = x.b if x else p
    return spans


def build(repo, tdir, template, probe=False, trust=()):
    b = Build(repo, tdir, probe, trust)
    b.run(template)
    return b


if __name__ == "__main__":
    b = build(sys.argv[1], os.path.join(os.path.dirname(os.path.abspath(__file__)), "specs"), sys.argv[2],
              probe="--probe" in sys.argv)
    sys.stdout.write("".join(b.out.buf))
    json.dump(dict(fns=b.fns, map=b.out.map), open("/tmp/vx/map.json", "w"), indent=1)
