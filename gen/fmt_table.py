"""Writes harness/src/fmt_table.rs: every combination of format flags, as literal format strings."""
import itertools, os
FILL = ["", "<", "^", ">", "*<", "*^", "é>"]
SIGN = ["", "+", "-"]
ALT = ["", "#"]
ZERO = ["", "0"]
WIDTH = ["", "w$"]
PREC = ["", ".p$"]
specs = ["".join(s) for s in itertools.product(FILL, SIGN, ALT, ZERO, WIDTH, PREC)]
kinds = {"lower_hex": ("LowerHex", "x"), "upper_hex": ("UpperHex", "X"), "octal": ("Octal", "o"), "binary": ("Binary", "b"),
         "pointer": ("Pointer", "p"), "debug": ("Debug", "?"), "debug_lx": ("Debug", "x?"), "debug_ux": ("Debug", "X?"), "display": ("Display", "")}
out = ["// Generated by gen/fmt_table.py.", "use std::fmt::{self, *};", "// A reference to a `dyn Pointer` would show itself.", "struct P<'a>(&'a dyn Pointer);", "impl Pointer for P<'_> {", "    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {", "        self.0.fmt(f)", "    }", "}", f"pub const N: usize = {len(specs)};"]
out.append("pub static SPECS: [&str; N] = [" + ", ".join('"%s"' % s for s in specs) + "];")
for fn, (tr, ty) in kinds.items():
    out.append(f"pub fn {fn}(i: usize, f: &mut dyn fmt::Write, v: &dyn {tr}, w: usize, p: usize) -> fmt::Result {{")
    out.append("    let _ = (w, p);\n    match i {")
    for i, s in enumerate(specs):
        args = (", w = w" if "w$" in s else "") + (", p = p" if "p$" in s else "")
        val = 'P(v)' if ty == 'p' else 'v'
        spec = ":" + s + ty if s + ty else ""
        out.append(f'        {i} => write!(f, "{{{spec}}}", {val}{args}),')
    out.append("        _ => unreachable!(),\n    }\n}")
open(os.path.join(os.path.dirname(__file__), "../harness/src/fmt_table.rs"), "w").write("\n".join(out) + "\n")
