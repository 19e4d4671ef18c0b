"""Run Verus on a unit generated from the current tree and sort out what it says.

result: dict(status="ok"|"lost"|"tool", fns={fid: verdict}, lemmas={name: verdict}, ...)
verdict: "proved", "failed", "undecided" (body out of the verifier's reach after a change, or
resource limit), "trusted" (assumed contract, with the reason)."""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract

SPECS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "specs")
FN = re.compile(r"^\s*(?:pub(?:\([a-z ]+\))?\s+)?(?:open\s+|closed\s+|broadcast\s+|uninterp\s+)*(proof|spec|axiom|exec)?\s*(?:const\s+)?fn\s+(\w+)")


def run_verus(src, work, name, extra=(), timeout=600):
    p = os.path.join(work, name + ".rs")
    with open(p, "w") as f:
        f.write(src)
    t0 = time.time()
    try:
        r = subprocess.run(["verus", p, "--output-json", "--time-expanded", "--triggers-mode", "silent", "--multiple-errors", "4",
                            "--num-threads", "8", *extra, "--", "--error-format=json"], capture_output=True, text=True, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired:
        return None, [], time.time() - t0, "timeout"
    try:
        j = json.loads(r.stdout[r.stdout.index("{"):])
    except ValueError:
        j = None
    ds = []
    for ln in r.stderr.split("\n"):
        if ln.startswith("{"):
            try:
                ds.append(json.loads(ln))
            except ValueError:
                pass
    return j, ds, time.time() - t0, r.stderr


# messages that say an obligation was generated and not proved
VERIF = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|possible arithmetic|possible (division|bit shift)|"
                   r"decreases not satisfied|recommendation not met|unreachable|cannot show|possible .*(overflow|underflow)|failed precondition|"
                   r"not satisfied|index out of|constructed value may fail|requires .* not|ensures not|unable to prove|fails to satisfy", re.I)
RLIM = re.compile(r"rlimit|resource limit|timed out|canceled", re.I)


# units that only check some of their modules (the rest is checked by another unit, from the same text)
ONLY = {"u_rtree": ["rcolors", "rmeta", "rbase", "rtree"], "u_tree": ["rcont", "tree", "branch"]}

# units that need more than the default from the start
RLIMIT = {"u_tree": 60}


class Unit:
    def __init__(self, repo, name, work, rlimit=None, seed=None, probe=False):
        self.repo, self.name, self.work, self.rlimit, self.seed, self.probe = repo, name, work, rlimit, seed, probe
        self.fns, self.lemmas, self.notes, self.diags = {}, {}, [], {}
        self.wall = 0.0; self.smt_ms = 0; self.verified = 0; self.errors = 0; self.queries = 0
        self.status = "tool"

    def lines_of(self, src):
        """line -> enclosing fn for text that is not extracted code"""
        out, cur, kind = [], None, None
        imp = ""
        self.kind = {}
        only, mod = ONLY.get(self.name), None
        for ln in src.split("\n"):
            m = re.match(r"^(?:pub )?mod (\w+) \{", ln)
            if m and mod is None: mod = m.group(1)
            m = re.match(r"^\} // mod (\w+)", ln)
            if m and m.group(1) == mod: mod = None
            m = re.match(r"^(?:pub )?impl\b.*?([\w<>,\[\]; ]+?)\s*(where|\{|$)", ln)
            if m: imp = m.group(1).strip()
            m = FN.match(ln)
            if m:
                cur = m.group(2)
                if not only or mod in only: self.kind.setdefault(cur, m.group(1) or "exec")
            out.append(cur)
        return out

    def go(self):
        trust = set()
        rl = self.rlimit or RLIMIT.get(self.name)
        for it in range(8):
            try:
                b = extract.build(self.repo, SPECS, self.name + ".rs", self.probe, trust)
            except extract.Lost as e:
                self.status = "lost"; self.notes.append(f"{self.name}: {e}")
                return self
            except Exception as e:  # the lexer met something it does not know
                self.status = "lost"; self.notes.append(f"{self.name}: extraction failed: {type(e).__name__} {e}")
                return self
            src = "".join(b.out.buf)
            self.src, self.build = src, b
            extra = []
            if rl: extra += ["--rlimit", str(rl)]
            for m in ONLY.get(self.name, []): extra += ["--verify-module", m]
            if self.seed is not None: extra += ["--smt-option", f"smt.random_seed={self.seed}"]
            j, ds, wall, raw = run_verus(src, self.work, self.name, extra)
            self.wall += wall
            lines = self.lines_of(src)
            def where(d):
                def inner(s):
                    while s and not s["file_name"].endswith(self.name + ".rs"): s = (s.get("expansion") or {}).get("span")
                    return s
                sp = [s for s in map(inner, sorted(d.get("spans", []), key=lambda s: not s.get("is_primary"))) if s]
                for s in sp:
                    for a, z, fid in b.out.map:
                        if a <= s["line_start"] <= z: return fid, True
                for s in sp:
                    if s["line_start"] - 1 < len(lines) and lines[s["line_start"] - 1]: return lines[s["line_start"] - 1], False
                return None, False
            bad, tool, rlim = {}, {}, {}
            for d in ds:
                if d.get("level") != "error" or d["message"].startswith("aborting due"): continue
                w, real = where(d)
                if RLIM.search(d["message"]): rlim.setdefault((w, real), []).append(d)
                elif d.get("code") is None and VERIF.search(d["message"]): bad.setdefault((w, real), []).append(d)
                else: tool.setdefault((w, real), []).append(d)
            vr = (j or {}).get("verification-results", {})
            if j is None and not ds:
                self.notes.append("no answer from the verifier: " + raw[-300:]); return self
            if tool or vr.get("encountered-vir-error"):
                new = {w for (w, real) in tool if real} - trust
                for (w, real), l in tool.items():
                    if os.environ.get("VX_DEBUG"): print("".join(d.get("rendered") or "" for d in l[:3]))
                    self.notes.append(f"{w}: outside the verifier's reach: {l[0]['message'][:160]}")
                if not new:
                    self.status = "tool"; self.bad = bad
                    return self
                trust |= new
                continue
            if rlim and (rl or 10) < 60:
                rl = 60
                continue
            break
        if not vr.get("verified") and not vr.get("errors"):
            self.notes.append("the verifier gave no result: " + (raw or "")[-400:])
            return self
        self.status = "ok"
        self.verified, self.errors = vr.get("verified", 0), vr.get("errors", 0)
        only = ONLY.get(self.name)
        for fid, f in b.fns.items():
            if only and fid.split("::")[0] not in only: continue
            self.fns[fid] = "undecided" if fid in b.trust else ("trusted" if f["trusted"] else "proved")
        for n, k in self.kind.items():
            if k in ("proof",): self.lemmas[n] = "proved"
        for tab, v in ((bad, "failed"), (rlim, "undecided")):
            for (w, real), l in tab.items():
                (self.fns if real else self.lemmas)[w] = v
                self.diags[w] = [d.get("rendered") or d["message"] for d in l][:4]
        for w, r in b.lost.items():
            self.notes.append(r)
        smt = (j or {}).get("times-ms", {}).get("smt", {})
        self.smt_ms = smt.get("total", 0)
        for m in smt.get("smt-run-module-times", []):
            self.queries += len(m.get("function-breakdown", []))
        return self

    def assumptions(self):
        """contracts taken without proof, read off the text the verifier accepted"""
        out = []
        L = self.src.split("\n")
        for i, ln in enumerate(L):
            if "external_body" in ln or "assume_specification" in ln or re.search(r"\baxiom fn\b", ln) or "uninterp" in ln and "axiom" in ln:
                t = " ".join(x.strip() for x in L[i:i + 3])
                m = re.search(r"(assume_specification.*?\])|fn\s+(\w+)|struct\s+(\w+)", t)
                k = "assumed contract on a dependency" if "assume_specification" in ln else ("axiom" if "axiom fn" in ln else "trusted body")
                if m: out.append(f"{k}: {(m.group(1) or m.group(2) or m.group(3)).strip()}")
            if re.search(r"\badmit\(\)|\bassume\(", ln): out.append("assume: " + ln.strip()[:80])
        return sorted(set(out))


if __name__ == "__main__":
    import tempfile
    w = tempfile.mkdtemp()
    u = Unit(sys.argv[2] if len(sys.argv) > 2 else "/repo", sys.argv[1], w).go()
    print(u.status, u.verified, u.errors, round(u.wall, 1), u.smt_ms, u.notes)
    for d in (u.fns, u.lemmas):
        for k, v in d.items():
            if v != "proved": print(v, k)
    for k, v in u.diags.items(): print("--", k); print("".join(v)[:1500])
