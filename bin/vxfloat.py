"""Floating point for vx.py modules with FLOATS = True.

f64 becomes Fl, whose operations are uninterpreted functions of their arguments (fadd, fsub, ...; fcmp for the
comparisons, which NaN may leave without an answer): what is proved holds whatever they give, except for what a module
lists as assumed.  Casts `E as T` become (E).vx_as_T(): between integers what Rust does, to f64 the function fint, from
f64 to integers ftrunc cut to the range of T.  Literals become fl_lit(whole, decimals).
"""
import re

INTS = ["i32", "u32", "i64", "u64", "i128", "u128", "usize", "u8"]
SRC = ["i32", "u32", "i64", "u64", "i128", "usize", "u8"]

UNARY = {m: "f" + m for m in ("abs", "floor", "ceil", "sqrt", "round", "cbrt", "ln", "log10", "signum")} | {"trunc": "ftruncate"}
BINARY = ("powf", "log")


def std():
    o = ["""
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Fl { x: u64 }
pub uninterp spec fn fint(i: int) -> Fl;
pub uninterp spec fn ftrunc(f: Fl) -> int;
pub uninterp spec fn fcmp(a: Fl, b: Fl) -> Option<core::cmp::Ordering>;
pub uninterp spec fn feq(a: Fl, b: Fl) -> bool;
pub uninterp spec fn fneg(a: Fl) -> Fl;
/// w.d
pub uninterp spec fn flit(w: int, d: Seq<char>) -> Fl;
#[verifier::external_body]
pub fn fl_lit(w: u64, d: &str) -> (r: Fl) ensures r == flit(w as int, d@) { unimplemented!() }
pub open spec fn fgt(a: Fl, b: Fl) -> bool { fcmp(a, b) == Some(core::cmp::Ordering::Greater) }
pub open spec fn flt(a: Fl, b: Fl) -> bool { fcmp(a, b) == Some(core::cmp::Ordering::Less) }
pub open spec fn fcut(f: Fl, lo: int, hi: int) -> int { if ftrunc(f) < lo { lo } else if ftrunc(f) > hi { hi } else { ftrunc(f) } }
impl PartialEq for Fl { #[verifier::external_body] fn eq(&self, o: &Fl) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Fl {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Fl) -> bool { feq(*self, *o) }
}
impl PartialOrd for Fl { #[verifier::external_body] fn partial_cmp(&self, o: &Fl) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Fl {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Fl) -> Option<core::cmp::Ordering> { fcmp(*self, *o) }
}
impl core::ops::Neg for Fl { type Output = Fl; #[verifier::external_body] fn neg(self) -> Fl { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for Fl {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Fl { fneg(self) }
}
"""]
    for n in ("Add", "Sub", "Mul", "Div", "Rem"):
        l = n.lower()
        o.append(f"""pub uninterp spec fn f{l}(a: Fl, b: Fl) -> Fl;
impl core::ops::{n} for Fl {{ type Output = Fl; #[verifier::external_body] fn {l}(self, o: Fl) -> Fl {{ unimplemented!() }} }}
impl vstd::std_specs::ops::{n}SpecImpl for Fl {{
    open spec fn obeys_{l}_spec() -> bool {{ true }}
    open spec fn {l}_req(self, o: Fl) -> bool {{ true }}
    open spec fn {l}_spec(self, o: Fl) -> Fl {{ f{l}(self, o) }}
}}
impl core::ops::{n}Assign for Fl {{ #[verifier::external_body] fn {l}_assign(&mut self, o: Fl) {{ unimplemented!() }} }}
impl vstd::std_specs::ops::{n}AssignSpecImpl for Fl {{
    open spec fn obeys_{l}_assign_spec() -> bool {{ true }}
    open spec fn {l}_assign_req(&self, o: Fl) -> bool {{ true }}
    open spec fn {l}_assign_spec(&self, o: Fl) -> &Fl {{ &f{l}(*self, o) }}
}}
""")
    ms = "".join(f"    #[verifier::external_body] pub fn {m}(self) -> (r: Fl) ensures r == {UNARY[m]}(self) {{ unimplemented!() }}\n" for m in UNARY) + "".join(f"    #[verifier::external_body] pub fn {m}(self, b: Fl) -> (r: Fl) ensures r == f{m}(self, b) {{ unimplemented!() }}\n" for m in BINARY)
    o.append("".join(f"pub uninterp spec fn {m}(a: Fl) -> Fl;\n" for m in UNARY.values()) + "".join(f"pub uninterp spec fn f{m}(a: Fl, b: Fl) -> Fl;\n" for m in BINARY))
    o.append("pub uninterp spec fn fnan(a: Fl) -> bool;\npub uninterp spec fn ffin(a: Fl) -> bool;\nimpl Fl {\n" + ms +
             "    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures r == fnan(self) { unimplemented!() }\n"
             "    #[verifier::external_body] pub fn is_finite(self) -> (r: bool) ensures r == ffin(self) { unimplemented!() }\n}\n")
    for d in INTS:
        o.append(f"pub trait VxAs_{d}: Sized {{ spec fn the_{d}(self) -> {d}; fn vx_as_{d}(self) -> (r: {d}) ensures r == self.the_{d}(); }}\n")
        for s in SRC:
            o.append(f"impl VxAs_{d} for {s} {{ open spec fn the_{d}(self) -> {d} {{ self as {d} }} fn vx_as_{d}(self) -> (r: {d}) {{ #[verifier::truncate] let r = self as {d}; r }} }}\n")
        o.append(f"impl VxAs_{d} for Fl {{ open spec fn the_{d}(self) -> {d} {{ fcut(self, {d}::MIN as int, {d}::MAX as int) as {d} }} #[verifier::external_body] fn vx_as_{d}(self) -> (r: {d}) {{ unimplemented!() }} }}\n")
    o.append("pub trait VxAs_f64: Sized { spec fn the_f64(self) -> Fl; fn vx_as_f64(self) -> (r: Fl) ensures r == self.the_f64(); }\n")
    for s in SRC:
        o.append(f"impl VxAs_f64 for {s} {{ open spec fn the_f64(self) -> Fl {{ fint(self as int) }} #[verifier::external_body] fn vx_as_f64(self) -> (r: Fl) {{ unimplemented!() }} }}\n")
    return "".join(o)


def floats(s, lex):
    """casts and literals"""
    ty = set(INTS) | {"f64"}
    s = re.sub(r"(?<![\w.])(\d[\d_]*)\.(?![\w.])", r"\1.0", s)
    while True:
        t = lex(s)
        k = next((k for k in range(1, len(t) - 1) if t[k][1] == "as" and t[k + 1][1] in ty), None)
        if k is None: break
        j = k - 1
        while True:
            if t[j][1] in (")", "]"):
                d, o = 0, j
                while True:
                    if t[o][1] in (")", "]", "}"): d += 1
                    elif t[o][1] in ("(", "[", "{"):
                        d -= 1
                        if not d: break
                    o -= 1
                p = t[o - 1] if o else ("", "", 0)
                if p[0] == "id" and p[1] not in ("if", "in", "return", "match", "while", "else", "as") or p[1] in (")", "]"): j = o - 1; continue
                j = o
                break
            if j and t[j - 1][1] in (".", "::"): j -= 2; continue
            break
        end = ("id", "num", "str", "life", "chr")
        while j and t[j - 1][1] in ("*", "-", "!", "&") and (j == 1 or t[j - 2][0] not in end and t[j - 2][1] not in (")", "]")): j -= 1
        s = s[:t[j][2]] + "(" + s[t[j][2]:t[k][2]].rstrip() + ").vx_as_" + t[k + 1][1] + "()" + s[t[k + 1][2] + len(t[k + 1][1]):]
    s = re.sub(r"(?<![\w.])(\d[\d_]*)(?:\.(\d+))?_?f64\b|(?<![\w.])(\d[\d_]*)\.(\d+)(?![\w.])|(?<![\w.])(\d[\d_]*)\.(?![\w.])",
               lambda m: f'fl_lit({m.group(1) or m.group(3) or m.group(5)}, "{(m.group(2) or m.group(4) or "0").rstrip("0")}")', s)
    return s
