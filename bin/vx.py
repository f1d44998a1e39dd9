#!/usr/bin/env python3
"""Tier B: contracts on functions extracted mechanically from /repo's current source, discharged by Verus.

A module /verif/verus/<mod>.py names the items to extract (PARTS), their contracts (SPECS: clauses after the
signature, loop invariants by ordinal, ghost code at positions) and a PRELUDE of spec functions, lemmas and
contracts of functions outside the module.  The text of the functions is copied from /repo on every run;
the only changes are the rewrites in REWRITES below (and a module's own RENAME table), all of which keep the meaning:

  assert!(c, ..) / assert_eq! / assert_ne! / error!(..) / panic!(..) / unreachable!(..)
                        a call of vx_refuse(), which never returns: contracts speak of calls that return
  debug_assert!(c, ..) and the like     (), so that a proof does not rest on them
  while let P = E {B}   loop { match E { P => {B}, _ => break } }
  if C { continue; } R  if C { } else { R } in a for loop
  for P in E            gets a name for its ghost iterator
  vec![]                Vec::new()
  |(a, b)| e            |vxp| { let (a, b) = vxp; e }
  unsafe { in_aggregate_context(fcinfo, || E) } as the whole body     { E } (a module using it lists it as assumed)
  Some(&x) => { S }     Some(vxr_x) => { let x = *vxr_x; S }
  f64                   see vxfloat.py (modules with FLOATS = True)
  attributes, derives, doc comments and visibility are dropped (everything is pub)

usage: vx.py MODULE      show the generated file's path and Verus's verdict
"""
import copy, importlib.util, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "verus", "lib"))
REPO = os.environ.get("VX_REPO", "/repo")  # VX_REPO is for working on the contracts only


class Lost(Exception):
    """the source no longer has the shape that the contracts are attached to"""


TOK = re.compile(r"""(?P<ws>\s+)|(?P<lc>//[^\n]*)|(?P<bc>/\*)|(?P<str>b?r(?P<h>\#*)".*?"(?P=h)|b?"(?:\\.|[^"\\])*")
  |(?P<life>'[A-Za-z_]\w*(?!'))|(?P<chr>b?'(?:\\.[^']*|[^'\\])')|(?P<id>[A-Za-z_]\w*)|(?P<num>\d[\w]*(?:\.\d[\w]*)?)
  |(?P<op>::|->|=>|\.\.=|\.\.|&&|\|\||<<=|>>=|[-+*/%^&|=!<>]=|.)""", re.X | re.S)


def lex(s):
    """tokens (kind, text, pos) without blanks and comments"""
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if m.lastgroup == "h" or m.group("str"):
            k = "str"
        else:
            k = m.lastgroup
        if k == "bc":
            d, j = 1, i + 2
            while d and j < len(s):
                if s.startswith("/*", j): d += 1; j += 2
                elif s.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            i = j
            continue
        if k not in ("ws", "lc"):
            out.append((k, m.group(0), i))
        i = m.end()
    return out


OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}


def match(t, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(t)):
        if t[j][0] == "op":
            if t[j][1] in OPEN: d += 1
            elif t[j][1] in CLOSE:
                d -= 1
                if not d: return j
    raise Lost("unbalanced brackets")


def text(s, t, a, b):
    """source text of tokens a..b (inclusive)"""
    return s[t[a][2]:t[b][2] + len(t[b][1])]


def strip(s):
    """without comments"""
    t, out, last = lex(s), [], 0
    for k, x, p in t:
        gap = s[last:p]
        out.append(gap if not gap.strip() else ("\n" if "\n" in gap else " "))
        out.append(x)
        last = p + len(x)
    return "".join(out)


def norm(s):
    return " ".join(x for _, x, _ in lex(s))


def find_impl(s, header):
    """text between the braces of the impl with this header"""
    t, want = lex(s), [x for _, x, _ in lex(header)]
    for i in range(len(t)):
        if t[i][1] == want[0] and [x for _, x, _ in t[i:i + len(want)]] == want and i + len(want) < len(t) and t[i + len(want)][1] == "{":
            b = i + len(want)
            e = match(t, b)
            yield s[t[b][2] + 1:t[e][2]]


def find_fn(s, name):
    """(signature, body with braces) of fn name; outermost first"""
    t = lex(s)
    depth, at = 0, []
    for i in range(len(t) - 1):
        if t[i][1] in ("{", "}"): depth += 1 if t[i][1] == "{" else -1
        elif t[i][1] == "fn" and t[i + 1][1] == name: at.append((depth, i))
    if at:
            i = min(at)[1]
            j = i
            while t[j][1] != "{":
                if t[j][1] == ";": raise Lost(f"fn {name} has no body")
                j = match(t, j) + 1 if t[j][1] in ("(", "[") else j + 1
            e = match(t, j)
            return s[t[i][2]:t[j][2]].rstrip(), s[t[j][2]:t[e][2] + 1]
    raise Lost(f"fn {name} not found")


def find_struct(s, name, kw="struct"):
    t = lex(s)
    for i in range(len(t) - 1):
        if t[i][1] == kw and t[i + 1][1] == name:
            j = i
            while t[j][1] not in ("{", ";", "("): j += 1
            e = match(t, j) if t[j][1] != ";" else j
            if t[j][1] == "(": e += 1
            return s[t[i][2]:t[e][2] + 1]
    raise Lost(f"{kw} {name} not found")


def find_const(s, name):
    m = re.search(r"\bconst\s+" + name + r"\s*:[^;]*;", s)
    if not m: raise Lost(f"const {name} not found")
    return m.group(0)


def pub_fields(s):
    t = lex(s)
    i = next(k for k in range(len(t)) if t[k][1] in ("{", "(", ";"))
    if t[i][1] != "{": return s
    out, d, j, start = [s[:t[i][2] + 1]], 0, i + 1, True
    last = t[i][2] + 1
    angle = 0
    while j < len(t) - 1:
        k, x, p = t[j]
        if start:
            while t[j][1] == "#": j = match(t, j + 1) + 1
            if t[j][1] == "}": break
            if t[j][1] == "pub":
                j += 1
                if t[j][1] == "(": j = match(t, j) + 1
            last = t[j][2]
            out.append("\n    pub ")
            start = False
            continue
        if x in OPEN: j = match(t, j) + 1; continue
        if x == "<": angle += 1
        elif x == ">": angle -= 1
        elif x == "," and not angle:
            out.append(s[last:p + 1]); last = p + 1; start = True
        j += 1
    if not start: out.append(s[last:t[-1][2]] + ",")
    return "".join(out) + "\n}"


def attrs_out(s):
    t, out, last, j = lex(s), [], 0, 0
    while j < len(t):
        if t[j][1] == "#" and j + 1 < len(t) and t[j + 1][1] == "[":
            e = match(t, j + 1)
            out.append(s[last:t[j][2]]); last = t[e][2] + 1; j = e + 1
        else: j += 1
    return "".join(out) + s[last:]


def macros(s, names, f):
    """replace NAME!(args) by f(NAME, [arg texts])"""
    while True:
        t = lex(s)
        for i in range(len(t) - 2):
            if t[i][0] == "id" and t[i][1] in names and t[i + 1][1] == "!" and t[i + 2][1] in OPEN:
                b, e = i + 2, match(t, i + 2)
                args, a, j = [], b + 1, b + 1
                while j < e:
                    if t[j][1] in OPEN: j = match(t, j) + 1; continue
                    if t[j][1] == ",": args.append(text(s, t, a, j - 1)); a = j + 1
                    j += 1
                if a < e: args.append(text(s, t, a, e - 1))
                i0 = i
                while i0 >= 2 and t[i0 - 1][1] == "::" and t[i0 - 2][0] == "id": i0 -= 2
                s = s[:t[i0][2]] + f(t[i][1], args) + s[t[e][2] + 1:]
                break
        else:
            return s


def refuse(n, a):
    if n == "assert": return f"if !({a[0]}) {{ vx_refuse() }}"
    if n == "assert_eq": return f"if !({a[0]} == {a[1]}) {{ vx_refuse() }}"
    if n == "assert_ne": return f"if {a[0]} == {a[1]} {{ vx_refuse() }}"
    if n.startswith("debug_"): return "()"
    return "vx_refuse()"


def closures(s):
    """|(a, b)| e  ->  |vxp| { let (a, b) = vxp; e }"""
    while True:
        t = lex(s)
        for i in range(len(t) - 1):
            if t[i][1] == "|" and t[i + 1][1] == "(" and (i == 0 or t[i - 1][1] in ("(", ",", "=", "move")):
                c = match(t, i + 1)
                if t[c + 1][1] != "|": continue
                b, j = c + 2, c + 2
                while j < len(t) and t[j][1] not in (",", ")", ";"):
                    j = match(t, j) + 1 if t[j][1] in OPEN else j + 1
                s = s[:t[i][2]] + f"|vxp| {{ let {text(s, t, i + 1, c)} = vxp; {text(s, t, b, j - 1)} }}" + s[t[j][2]:]
                break
        else:
            return s


def in_context(s):
    """{ unsafe { in_aggregate_context(fcinfo, || E) } }  ->  { E }"""
    t = lex(s)
    x = [k[1] for k in t]
    head = ["{", "unsafe", "{", "in_aggregate_context", "(", "fcinfo", ",", "||"]
    if x[:8] != head or match(t, 0) != len(t) - 1 or match(t, 2) != len(t) - 2 or match(t, 4) != len(t) - 3: return s
    return "{ " + text(s, t, 8, len(t) - 4) + " }"


def header_end(t, j):
    """index of the `{` that opens the body of the loop whose header starts at j"""
    while t[j][1] != "{":
        x = t[j][1]
        if x in ("(", "["): j = match(t, j) + 1
        elif x in ("if", "match", "unsafe") and t[j][0] == "id":
            j += 1
            if x != "unsafe": j = header_end(t, j)
            j = match(t, j) + 1
            while t[j][1] == "else":
                j += 1
                if t[j][1] == "if": j = header_end(t, j + 1)
                j = match(t, j) + 1
        else: j += 1
    return j


def no_continue(body):
    """`if C { continue; } REST`  ->  `if C { } else { REST }`"""
    t, j = lex(body), 0
    while j < len(t):
        if t[j][1] == "if" and t[j][0] == "id":
            b = header_end(t, j + 1)
            e = match(t, b)
            if [x[1] for x in t[b + 1:e]] == ["continue", ";"] and not (e + 1 < len(t) and t[e + 1][1] == "else"):
                return body[:t[b][2]] + "{ } else {" + no_continue(body[t[e][2] + 1:]) + "}"
            j = e + 1
        elif t[j][1] in OPEN: j = match(t, j) + 1
        else: j += 1
    return body


def loops(s, first=0):
    """rewrite `while let`, name the iterators of `for` loops; loop k gets markers that SPECS fill"""
    n = first
    i = 0
    while True:
        t = lex(s)
        k = next((q for q in range(len(t)) if t[q][2] >= i and t[q][0] == "id" and t[q][1] in ("for", "while", "loop")
                  and not (t[q][1] == "for" and (q + 1 < len(t) and t[q + 1][1] == "<"))), None)
        if k is None: return s, n
        b = header_end(t, k + 1) if t[k][1] != "loop" else k + 1
        e = match(t, b)
        body = s[t[b][2] + 1:t[e][2]]
        if t[k][1] == "for": body = no_continue(body)
        if t[k][1] == "while" and t[k + 1][1] == "let":
            d, q = 0, k + 2
            while not (t[q][1] == "=" and not d):
                d += {"(": 1, "[": 1, "{": 1, ")": -1, "]": -1, "}": -1}.get(t[q][1], 0)
                q += 1
            pat, ex = text(s, t, k + 2, q - 1), text(s, t, q + 1, b - 1)
            new = f"loop /*@inv{n}@*/ {{ /*@ls{n}@*/ match {ex} {{ {pat} => {{ /*@lb{n}@*/ {body} /*@le{n}@*/ }} _ => {{ break; }} }} }} /*@la{n}@*/"
        else:
            h = s[t[k][2]:t[b][2]].rstrip()
            if t[k][1] == "for":
                q, d = k + 1, 0
                while not (t[q][1] == "in" and not d):
                    d += {"(": 1, "[": 1, ")": -1, "]": -1}.get(t[q][1], 0)
                    q += 1
                h = f"for {text(s, t, k + 1, q - 1)} in vxi{n}: {text(s, t, q + 1, b - 1)}"
            new = f"{h} /*@inv{n}@*/ {{ /*@ls{n}@*/ /*@lb{n}@*/ {body} /*@le{n}@*/ }} /*@la{n}@*/"
        s = s[:t[k][2]] + new + s[t[e][2] + 1:]
        i = t[k][2] + len(new.split("/*@inv")[0])
        n += 1


REFUSE = ("assert", "assert_eq", "assert_ne", "error", "panic", "unreachable", "debug_assert", "debug_assert_eq", "debug_assert_ne")


def body_of(src, sp):
    s = strip(attrs_out(src))
    s = macros(s, REFUSE, refuse)
    s = re.sub(r"\bvec!\[\]", "Vec::new()", s)
    s = closures(in_context(s))
    s = re.sub(r"\bSome\(&(\w+)\) => \{", r"Some(vxr_\1) => { let \1 = *vxr_\1;", s)
    if sp.get("floats"):
        import vxfloat
        s = vxfloat.floats(s, lex)
    s, n = loops(s)
    missing = []
    for pat, rep in sp.get("rewrite", []):
        s, k = re.subn(pat, rep, s)
        if not k: missing.append("rewrite " + pat)
    for key, ghost in sp.get("ghost", {}).items():
        if key in ("start", "end"):
            s = s[:1] + "\n" + ghost + "\n" + s[1:] if key == "start" else s[:s.rindex("}")] + ghost + "\n}"
            continue
        if key.startswith(("after ", "before ")):
            w, pat = key.split(" ", 1)
            hits = list(re.finditer(pat, s))
            if len(hits) != 1: missing.append(key); continue
            m = hits[0]
            p = m.end() if w == "after" else m.start()
            s = s[:p] + "\n" + ghost + "\n" + s[p:]
            continue
        if f"/*@{key}@*/" not in s: missing.append(key)
        s = s.replace(f"/*@{key}@*/", "\n" + ghost + "\n")
    if missing and os.environ.get("VX_TEXT"): print(s)
    if missing: raise Lost("no place for the ghost code at " + ", ".join(missing))
    for k, inv in sp.get("loops", {}).items():
        if f"/*@inv{k}@*/" not in s: raise Lost(f"loop {k} is gone")
        s = s.replace(f"/*@inv{k}@*/", "\n" + inv + "\n")
    return re.sub(r"/\*@\w+@\*/", "", s)


def sig_of(sig, ret):
    sig = strip(attrs_out(sig))
    m = re.match(r"(.*\))\s*->\s*(.*?)(\s*where\b.*)?$", sig, re.S)
    if not m or not ret: return sig
    return f"{m.group(1)} -> ({ret}: {m.group(2).strip()}){m.group(3) or ''}"


# std functions that vstd has no contract for: same meaning, verified bodies
VXSTD = """
pub trait VxOpt<T>: Sized {
    spec fn opt(self) -> Option<T>;
    fn vx_is_none_or<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
        requires self.opt() is Some ==> f.requires((self.opt()->0,))
        ensures self.opt() is None ==> r, self.opt() is Some ==> f.ensures((self.opt()->0,), r);
    fn vx_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires self.opt() is Some ==> f.requires((&self.opt()->0,))
        ensures self.opt() is None ==> r is None, self.opt() is Some ==> (r == self.opt() && f.ensures((&self.opt()->0,), true)) || (r is None && f.ensures((&self.opt()->0,), false));
}
impl<T> VxOpt<T> for Option<T> {
    open spec fn opt(self) -> Option<T> { self }
    fn vx_is_none_or<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { match self { None => true, Some(x) => f(x) } }
    fn vx_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>) { match self { None => None, Some(x) => if f(&x) { Some(x) } else { None } } }
}
pub trait VxCopied<T>: Sized {
    spec fn the_opt(self) -> Option<T>;
    fn vx_copied(self) -> (r: Option<T>) ensures r == self.the_opt();
}
impl<'a, T: Copy> VxCopied<T> for Option<&'a T> {
    open spec fn the_opt(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
    fn vx_copied(self) -> (r: Option<T>) { match self { Some(x) => Some(*x), None => None } }
}
"""


def generate(mod):
    """(verus source, names of functions under contract)"""
    fl = getattr(mod, "FLOATS", False)
    if fl: import vxfloat
    out, fns = ["#![allow(warnings)]\nuse vstd::prelude::*;\n" + getattr(mod, "USES", "") + "\nverus! {\n"
                "pub proof fn vx_marker() { }\n"
                "#[verifier::external_body]\npub fn vx_refuse() -> ! { panic!() }\n" + VXSTD + (vxfloat.std() if fl else "") + mod.PRELUDE], []
    cache = {}

    def src(f):
        if f not in cache: cache[f] = open(os.path.join(REPO, f)).read()
        return cache[f]
    for part in mod.PARTS:
        kind, f, name = part[:3]
        s = src(f)
        if kind in ("struct", "enum"):
            out.append((part[3] if len(part) > 3 else "") + "pub " + pub_fields(attrs_out(strip(find_struct(s, name, kind)))))
        elif kind == "const":
            out.append("pub " + find_const(s, name))
        elif kind == "fn":
            out.append(one(s, name, dict(mod.SPECS.get(name, {}), floats=fl), fns, f))
        elif kind == "impl":
            bodies = list(find_impl(s, name))
            if not bodies: raise Lost(f"{name} not found")
            inner = []
            for fn in part[3]:
                for b in bodies:
                    try:
                        find_fn(b, fn)
                    except Lost:
                        continue
                    inner.append(one(b, fn, dict(mod.SPECS.get(name + "::" + fn, mod.SPECS.get(fn, {})), floats=fl), fns, f, pub=" for " not in name))
                    break
                else:
                    raise Lost(f"fn {fn} not found in {name}")
            out.append((part[4] if len(part) > 4 else name) + " {\n" + (mod.IMPL.get(name, "") if hasattr(mod, "IMPL") else "") + "\n\n".join(inner) + "\n}")
    out.append("} // verus!\nfn main() {}\n")
    s = "\n\n".join(out)
    if fl: s = re.sub(r"\bf64\b(?!::)", "Fl", s)
    for a, b in getattr(mod, "RENAME", []):
        s = re.sub(a, b, s)
    return s, fns


def one(s, name, sp, fns, f, pub=True):
    sig, body = find_fn(s, name)
    sig = sig_of(sig, sp.get("ret"))
    if sp.get("assumed"):  # the contract is trusted, the body is not looked at
        return "#[verifier::external_body]\n" + ("pub " if pub else "") + sig + "\n" + sp.get("clauses", "") + "\n{ unimplemented!() }"
    fns.append(f"{os.path.basename(f)}::{name}")
    return (sp.get("attr", "#[verifier::exec_allows_no_decreases_clause]\n#[verifier::spinoff_prover]\n") + ("pub " if pub else "") + sig + "\n" + sp.get("clauses", "") + "\n" + body_of(body, sp))


def load(name):
    p = os.path.join(V, "verus", name + ".py")
    spec = importlib.util.spec_from_file_location("vxm_" + name, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def verify(name, outdir, timeout, mod=None):
    t0 = time.time()
    mod = mod or load(name)
    r = dict(module=name, status="undecided", verified=0, errors=0, functions=[], secs=0.0, detail="", assumed=list(getattr(mod, "ASSUMED", [])), output="")
    try:
        text_, fns = generate(mod)
    except Exception as e:  # a shape the extraction does not know
        r["detail"] = f"extraction: {e}"
        return r
    path = os.path.join(outdir, f"verus_{name}.rs")
    open(path, "w").write(text_)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("RUSTFLAGS", "CARGO_", "RUSTC"))}
    env.pop("RUSTUP_TOOLCHAIN", None)
    try:
        p = subprocess.run(["verus", path, "--multiple-errors", "10", "--rlimit", str(getattr(mod, "RLIMIT", 60)), "--triggers-mode", "silent", *os.environ.get("VX_OPTS", "").split(), "--output-json", "--time"],
                           cwd=outdir, env=env, capture_output=True, text=True, timeout=max(20, timeout))
    except subprocess.TimeoutExpired:
        r["detail"] = "verus ran out of time"
        r["secs"] = time.time() - t0
        return r
    r["secs"] = round(time.time() - t0, 1)
    r["output"] = p.stderr
    try:
        j = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError:
        j = {}
    vr = j.get("verification-results", {})
    r["verified"], r["errors"] = vr.get("verified", 0) or 0, vr.get("errors", 0) or 0
    r["functions"] = fns
    errs = re.findall(r"^error: (.*)\n\s*--> \S+?:(\d+)", p.stderr, re.M)
    lines = text_.splitlines()

    def owner(k):
        for q in range(min(k, len(lines)) - 1, -1, -1):
            m = re.match(r"\s*(?:pub )?(?:open |closed |broadcast )*(?:proof |spec )?fn (\w+)", lines[q])
            if m: return m.group(1)
        return "?"
    r["detail"] = "; ".join(dict.fromkeys(f"{owner(int(k))}: {m}" for m, k in errs))[:600]
    if vr.get("success") and not r["errors"]:
        r["status"] = "verified"
    elif vr.get("encountered-vir-error") or not vr or (not r["errors"] and not vr.get("success")):
        r["status"] = "undecided"
        r["detail"] = "outside the verifier's language: " + (r["detail"] or p.stderr[:300])
    elif re.search(r"rlimit|resource limit|timed out", p.stderr) and not re.search(r"^error: (?!.*(?:rlimit|resource limit|aborting))", p.stderr, re.M):
        r["status"] = "undecided"
    else:
        r["status"] = "failed"
    return r


def vacuity(name, outdir):
    """development aid: with `ensures false` added to one function at a time, Verus must refuse that function"""
    from concurrent.futures import ThreadPoolExecutor

    def one_fn(fn):
        mod = load(name)
        mod.SPECS = copy.deepcopy(mod.SPECS)
        sp = mod.SPECS.setdefault(fn, {})
        c = sp.get("clauses", "").rstrip().rstrip(",")
        sp["clauses"] = c + (", false" if re.search(r"\bensures\b", c) else " ensures false")
        d = os.path.join(outdir, "vac_" + re.sub(r"\W+", "_", fn))
        os.makedirs(d, exist_ok=True)
        r = verify(name, d, 600, mod)
        return fn, r["status"] == "failed" and re.search(rf"\b{fn.split('::')[-1]}: postcondition", r["detail"]) is not None, r["detail"]
    fns = [k for k, v in load(name).SPECS.items() if not v.get("assumed")]
    with ThreadPoolExecutor(6) as ex:
        for fn, ok, d in ex.map(one_fn, fns):
            print(("ok      " if ok else "VACUOUS ") + fn + ("" if ok else ": " + d))


if __name__ == "__main__":
    o = "/tmp/vx"
    os.makedirs(o, exist_ok=True)
    if sys.argv[1] == "--vacuity":
        vacuity(sys.argv[2], o)
        sys.exit()
    r = verify(sys.argv[1], o, 600)
    print(r["output"][:int(os.environ.get("VX_OUT", "8000"))])
    print({k: r[k] for k in ("status", "verified", "errors", "functions", "secs", "detail")})
