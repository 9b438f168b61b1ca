// Generated by gen/fmt_table.py.
use std::fmt::{self, *};
// A reference to a `dyn Pointer` would show itself.
struct P<'a>(&'a dyn Pointer);
impl Pointer for P<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
pub const N: usize = 336;
pub static SPECS: [&str; N] = ["", ".p$", "w$", "w$.p$", "0", "0.p$", "0w$", "0w$.p$", "#", "#.p$", "#w$", "#w$.p$", "#0", "#0.p$", "#0w$", "#0w$.p$", "+", "+.p$", "+w$", "+w$.p$", "+0", "+0.p$", "+0w$", "+0w$.p$", "+#", "+#.p$", "+#w$", "+#w$.p$", "+#0", "+#0.p$", "+#0w$", "+#0w$.p$", "-", "-.p$", "-w$", "-w$.p$", "-0", "-0.p$", "-0w$", "-0w$.p$", "-#", "-#.p$", "-#w$", "-#w$.p$", "-#0", "-#0.p$", "-#0w$", "-#0w$.p$", "<", "<.p$", "<w$", "<w$.p$", "<0", "<0.p$", "<0w$", "<0w$.p$", "<#", "<#.p$", "<#w$", "<#w$.p$", "<#0", "<#0.p$", "<#0w$", "<#0w$.p$", "<+", "<+.p$", "<+w$", "<+w$.p$", "<+0", "<+0.p$", "<+0w$", "<+0w$.p$", "<+#", "<+#.p$", "<+#w$", "<+#w$.p$", "<+#0", "<+#0.p$", "<+#0w$", "<+#0w$.p$", "<-", "<-.p$", "<-w$", "<-w$.p$", "<-0", "<-0.p$", "<-0w$", "<-0w$.p$", "<-#", "<-#.p$", "<-#w$", "<-#w$.p$", "<-#0", "<-#0.p$", "<-#0w$", "<-#0w$.p$", "^", "^.p$", "^w$", "^w$.p$", "^0", "^0.p$", "^0w$", "^0w$.p$", "^#", "^#.p$", "^#w$", "^#w$.p$", "^#0", "^#0.p$", "^#0w$", "^#0w$.p$", "^+", "^+.p$", "^+w$", "^+w$.p$", "^+0", "^+0.p$", "^+0w$", "^+0w$.p$", "^+#", "^+#.p$", "^+#w$", "^+#w$.p$", "^+#0", "^+#0.p$", "^+#0w$", "^+#0w$.p$", "^-", "^-.p$", "^-w$", "^-w$.p$", "^-0", "^-0.p$", "^-0w$", "^-0w$.p$", "^-#", "^-#.p$", "^-#w$", "^-#w$.p$", "^-#0", "^-#0.p$", "^-#0w$", "^-#0w$.p$", ">", ">.p$", ">w$", ">w$.p$", ">0", ">0.p$", ">0w$", ">0w$.p$", ">#", ">#.p$", ">#w$", ">#w$.p$", ">#0", ">#0.p$", ">#0w$", ">#0w$.p$", ">+", ">+.p$", ">+w$", ">+w$.p$", ">+0", ">+0.p$", ">+0w$", ">+0w$.p$", ">+#", ">+#.p$", ">+#w$", ">+#w$.p$", ">+#0", ">+#0.p$", ">+#0w$", ">+#0w$.p$", ">-", ">-.p$", ">-w$", ">-w$.p$", ">-0", ">-0.p$", ">-0w$", ">-0w$.p$", ">-#", ">-#.p$", ">-#w$", ">-#w$.p$", ">-#0", ">-#0.p$", ">-#0w$", ">-#0w$.p$", "*<", "*<.p$", "*<w$", "*<w$.p$", "*<0", "*<0.p$", "*<0w$", "*<0w$.p$", "*<#", "*<#.p$", "*<#w$", "*<#w$.p$", "*<#0", "*<#0.p$", "*<#0w$", "*<#0w$.p$", "*<+", "*<+.p$", "*<+w$", "*<+w$.p$", "*<+0", "*<+0.p$", "*<+0w$", "*<+0w$.p$", "*<+#", "*<+#.p$", "*<+#w$", "*<+#w$.p$", "*<+#0", "*<+#0.p$", "*<+#0w$", "*<+#0w$.p$", "*<-", "*<-.p$", "*<-w$", "*<-w$.p$", "*<-0", "*<-0.p$", "*<-0w$", "*<-0w$.p$", "*<-#", "*<-#.p$", "*<-#w$", "*<-#w$.p$", "*<-#0", "*<-#0.p$", "*<-#0w$", "*<-#0w$.p$", "*^", "*^.p$", "*^w$", "*^w$.p$", "*^0", "*^0.p$", "*^0w$", "*^0w$.p$", "*^#", "*^#.p$", "*^#w$", "*^#w$.p$", "*^#0", "*^#0.p$", "*^#0w$", "*^#0w$.p$", "*^+", "*^+.p$", "*^+w$", "*^+w$.p$", "*^+0", "*^+0.p$", "*^+0w$", "*^+0w$.p$", "*^+#", "*^+#.p$", "*^+#w$", "*^+#w$.p$", "*^+#0", "*^+#0.p$", "*^+#0w$", "*^+#0w$.p$", "*^-", "*^-.p$", "*^-w$", "*^-w$.p$", "*^-0", "*^-0.p$", "*^-0w$", "*^-0w$.p$", "*^-#", "*^-#.p$", "*^-#w$", "*^-#w$.p$", "*^-#0", "*^-#0.p$", "*^-#0w$", "*^-#0w$.p$", "é>", "é>.p$", "é>w$", "é>w$.p$", "é>0", "é>0.p$", "é>0w$", "é>0w$.p$", "é>#", "é>#.p$", "é>#w$", "é>#w$.p$", "é>#0", "é>#0.p$", "é>#0w$", "é>#0w$.p$", "é>+", "é>+.p$", "é>+w$", "é>+w$.p$", "é>+0", "é>+0.p$", "é>+0w$", "é>+0w$.p$", "é>+#", "é>+#.p$", "é>+#w$", "é>+#w$.p$", "é>+#0", "é>+#0.p$", "é>+#0w$", "é>+#0w$.p$", "é>-", "é>-.p$", "é>-w$", "é>-w$.p$", "é>-0", "é>-0.p$", "é>-0w$", "é>-0w$.p$", "é>-#", "é>-#.p$", "é>-#w$", "é>-#w$.p$", "é>-#0", "é>-#0.p$", "é>-#0w$", "é>-#0w$.p$"];
pub fn lower_hex(i: usize, f: &mut dyn fmt::Write, v: &dyn LowerHex, w: usize, p: usize) -> fmt::Result {
    let _ = (w, p);
    match i {
        0 => write!(f, "{:x}", v),
        1 => write!(f, "{:.p$x}", v, p = p),
        2 => write!(f, "{:w$x}", v, w = w),
        3 => write!(f, "{:w$.p$x}", v, w = w, p = p),
        4 => write!(f, "{:0x}", v),
        5 => write!(f, "{:0.p$x}", v, p = p),
        6 => write!(f, "{:0w$x}", v, w = w),
        7 => write!(f, "{:0w$.p$x}", v, w = w, p = p),
        8 => write!(f, "{:#x}", v),
        9 => write!(f, "{:#.p$x}", v, p = p),
        10 => write!(f, "{:#w$x}", v, w = w),
        11 => write!(f, "{:#w$.p$x}", v, w = w, p = p),
        12 => write!(f, "{:#0x}", v),
        13 => write!(f, "{:#0.p$x}", v, p = p),
        14 => write!(f, "{:#0w$x}", v, w = w),
        15 => write!(f, "{:#0w$.p$x}", v, w = w, p = p),
        16 => write!(f, "{:+x}", v),
        17 => write!(f, "{:+.p$x}", v, p = p),
        18 => write!(f, "{:+w$x}", v, w = w),
        19 => write!(f, "{:+w$.p$x}", v, w = w, p = p),
        20 => write!(f, "{:+0x}", v),
        21 => write!(f, "{:+0.p$x}", v, p = p),
        22 => write!(f, "{:+0w$x}", v, w = w),
        23 => write!(f, "{:+0w$.p$x}", v, w = w, p = p),
        24 => write!(f, "{:+#x}", v),
        25 => write!(f, "{:+#.p$x}", v, p = p),
        26 => write!(f, "{:+#w$x}", v, w = w),
        27 => write!(f, "{:+#w$.p$x}", v, w = w, p = p),
        28 => write!(f, "{:+#0x}", v),
        29 => write!(f, "{:+#0.p$x}", v, p = p),
        30 => write!(f, "{:+#0w$x}", v, w = w),
        31 => write!(f, "{:+#0w$.p$x}", v, w = w, p = p),
        32 => write!(f, "{:-x}", v),
        33 => write!(f, "{:-.p$x}", v, p = p),
        34 => write!(f, "{:-w$x}", v, w = w),
        35 => write!(f, "{:-w$.p$x}", v, w = w, p = p),
        36 => write!(f, "{:-0x}", v),
        37 => write!(f, "{:-0.p$x}", v, p = p),
        38 => write!(f, "{:-0w$x}", v, w = w),
        39 => write!(f, "{:-0w$.p$x}", v, w = w, p = p),
        40 => write!(f, "{:-#x}", v),
        41 => write!(f, "{:-#.p$x}", v, p = p),
        42 => write!(f, "{:-#w$x}", v, w = w),
        43 => write!(f, "{:-#w$.p$x}", v, w = w, p = p),
        44 => write!(f, "{:-#0x}", v),
        45 => write!(f, "{:-#0.p$x}", v, p = p),
        46 => write!(f, "{:-#0w$x}", v, w = w),
        47 => write!(f, "{:-#0w$.p$x}", v, w = w, p = p),
        48 => write!(f, "{:<x}", v),
        49 => write!(f, "{:<.p$x}", v, p = p),
        50 => write!(f, "{:<w$x}", v, w = w),
        51 => write!(f, "{:<w$.p$x}", v, w = w, p = p),
        52 => write!(f, "{:<0x}", v),
        53 => write!(f, "{:<0.p$x}", v, p = p),
        54 => write!(f, "{:<0w$x}", v, w = w),
        55 => write!(f, "{:<0w$.p$x}", v, w = w, p = p),
        56 => write!(f, "{:<#x}", v),
        57 => write!(f, "{:<#.p$x}", v, p = p),
        58 => write!(f, "{:<#w$x}", v, w = w),
        59 => write!(f, "{:<#w$.p$x}", v, w = w, p = p),
        60 => write!(f, "{:<#0x}", v),
        61 => write!(f, "{:<#0.p$x}", v, p = p),
        62 => write!(f, "{:<#0w$x}", v, w = w),
        63 => write!(f, "{:<#0w$.p$x}", v, w = w, p = p),
        64 => write!(f, "{:<+x}", v),
        65 => write!(f, "{:<+.p$x}", v, p = p),
        66 => write!(f, "{:<+w$x}", v, w = w),
        67 => write!(f, "{:<+w$.p$x}", v, w = w, p = p),
        68 => write!(f, "{:<+0x}", v),
        69 => write!(f, "{:<+0.p$x}", v, p = p),
        70 => write!(f, "{:<+0w$x}", v, w = w),
        71 => write!(f, "{:<+0w$.p$x}", v, w = w, p = p),
        72 => write!(f, "{:<+#x}", v),
        73 => write!(f, "{:<+#.p$x}", v, p = p),
        74 => write!(f, "{:<+#w$x}", v, w = w),
        75 => write!(f, "{:<+#w$.p$x}", v, w = w, p = p),
        76 => write!(f, "{:<+#0x}", v),
        77 => write!(f, "{:<+#0.p$x}", v, p = p),
        78 => write!(f, "{:<+#0w$x}", v, w = w),
        79 => write!(f, "{:<+#0w$.p$x}", v, w = w, p = p),
        80 => write!(f, "{:<-x}", v),
        81 => write!(f, "{:<-.p$x}", v, p = p),
        82 => write!(f, "{:<-w$x}", v, w = w),
        83 => write!(f, "{:<-w$.p$x}", v, w = w, p = p),
        84 => write!(f, "{:<-0x}", v),
        85 => write!(f, "{:<-0.p$x}", v, p = p),
        86 => write!(f, "{:<-0w$x}", v, w = w),
        87 => write!(f, "{:<-0w$.p$x}", v, w = w, p = p),
        88 => write!(f, "{:<-#x}", v),
        89 => write!(f, "{:<-#.p$x}", v, p = p),
        90 => write!(f, "{:<-#w$x}", v, w = w),
        91 => write!(f, "{:<-#w$.p$x}", v, w = w, p = p),
        92 => write!(f, "{:<-#0x}", v),
        93 => write!(f, "{:<-#0.p$x}", v, p = p),
        94 => write!(f, "{:<-#0w$x}", v, w = w),
        95 => write!(f, "{:<-#0w$.p$x}", v, w = w, p = p),
        96 => write!(f, "{:^x}", v),
        97 => write!(f, "{:^.p$x}", v, p = p),
        98 => write!(f, "{:^w$x}", v, w = w),
        99 => write!(f, "{:^w$.p$x}", v, w = w, p = p),
        100 => write!(f, "{:^0x}", v),
        101 => write!(f, "{:^0.p$x}", v, p = p),
        102 => write!(f, "{:^0w$x}", v, w = w),
        103 => write!(f, "{:^0w$.p$x}", v, w = w, p = p),
        104 => write!(f, "{:^#x}", v),
        105 => write!(f, "{:^#.p$x}", v, p = p),
        106 => write!(f, "{:^#w$x}", v, w = w),
        107 => write!(f, "{:^#w$.p$x}", v, w = w, p = p),
        108 => write!(f, "{:^#0x}", v),
        109 => write!(f, "{:^#0.p$x}", v, p = p),
        110 => write!(f, "{:^#0w$x}", v, w = w),
        111 => write!(f, "{:^#0w$.p$x}", v, w = w, p = p),
        112 => write!(f, "{:^+x}", v),
        113 => write!(f, "{:^+.p$x}", v, p = p),
        114 => write!(f, "{:^+w$x}", v, w = w),
        115 => write!(f, "{:^+w$.p$x}", v, w = w, p = p),
        116 => write!(f, "{:^+0x}", v),
        117 => write!(f, "{:^+0.p$x}", v, p = p),
        118 => write!(f, "{:^+0w$x}", v, w = w),
        119 => write!(f, "{:^+0w$.p$x}", v, w = w, p = p),
        120 => write!(f, "{:^+#x}", v),
        121 => write!(f, "{:^+#.p$x}", v, p = p),
        122 => write!(f, "{:^+#w$x}", v, w = w),
        123 => write!(f, "{:^+#w$.p$x}", v, w = w, p = p),
        124 => write!(f, "{:^+#0x}", v),
        125 => write!(f, "{:^+#0.p$x}", v, p = p),
        126 => write!(f, "{:^+#0w$x}", v, w = w),
        127 => write!(f, "{:^+#0w$.p$x}", v, w = w, p = p),
        128 => write!(f, "{:^-x}", v),
        129 => write!(f, "{:^-.p$x}", v, p = p),
        130 => write!(f, "{:^-w$x}", v, w = w),
        131 => write!(f, "{:^-w$.p$x}", v, w = w, p = p),
        132 => write!(f, "{:^-0x}", v),
        133 => write!(f, "{:^-0.p$x}", v, p = p),
        134 => write!(f, "{:^-0w$x}", v, w = w),
        135 => write!(f, "{:^-0w$.p$x}", v, w = w, p = p),
        136 => write!(f, "{:^-#x}", v),
        137 => write!(f, "{:^-#.p$x}", v, p = p),
        138 => write!(f, "{:^-#w$x}", v, w = w),
        139 => write!(f, "{:^-#w$.p$x}", v, w = w, p = p),
        140 => write!(f, "{:^-#0x}", v),
        141 => write!(f, "{:^-#0.p$x}", v, p = p),
        142 => write!(f, "{:^-#0w$x}", v, w = w),
        143 => write!(f, "{:^-#0w$.p$x}", v, w = w, p = p),
        144 => write!(f, "{:>x}", v),
        145 => write!(f, "{:>.p$x}", v, p = p),
        146 => write!(f, "{:>w$x}", v, w = w),
        147 => write!(f, "{:>w$.p$x}", v, w = w, p = p),
        148 => write!(f, "{:>0x}", v),
        149 => write!(f, "{:>0.p$x}", v, p = p),
        150 => write!(f, "{:>0w$x}", v, w = w),
        151 => write!(f, "{:>0w$.p$x}", v, w = w, p = p),
        152 => write!(f, "{:>#x}", v),
        153 => write!(f, "{:>#.p$x}", v, p = p),
        154 => write!(f, "{:>#w$x}", v, w = w),
        155 => write!(f, "{:>#w$.p$x}", v, w = w, p = p),
        156 => write!(f, "{:>#0x}", v),
        157 => write!(f, "{:>#0.p$x}", v, p = p),
        158 => write!(f, "{:>#0w$x}", v, w = w),
        159 => write!(f, "{:>#0w$.p$x}", v, w = w, p = p),
        160 => write!(f, "{:>+x}", v),
        161 => write!(f, "{:>+.p$x}", v, p = p),
        162 => write!(f, "{:>+w$x}", v, w = w),
        163 => write!(f, "{:>+w$.p$x}", v, w = w, p = p),
        164 => write!(f, "{:>+0x}", v),
        165 => write!(f, "{:>+0.p$x}", v, p = p),
        166 => write!(f, "{:>+0w$x}", v, w = w),
        167 => write!(f, "{:>+0w$.p$x}", v, w = w, p = p),
        168 => write!(f, "{:>+#x}", v),
        169 => write!(f, "{:>+#.p$x}", v, p = p),
        170 => write!(f, "{:>+#w$x}", v, w = w),
        171 => write!(f, "{:>+#w$.p$x}", v, w = w, p = p),
        172 => write!(f, "{:>+#0x}", v),
        173 => write!(f, "{:>+#0.p$x}", v, p = p),
        174 => write!(f, "{:>+#0w$x}", v, w = w),
        175 => write!(f, "{:>+#0w$.p$x}", v, w = w, p = p),
        176 => write!(f, "{:>-x}", v),
        177 => write!(f, "{:>-.p$x}", v, p = p),
        178 => write!(f, "{:>-w$x}", v, w = w),
        179 => write!(f, "{:>-w$.p$x}", v, w = w, p = p),
        180 => write!(f, "{:>-0x}", v),
        181 => write!(f, "{:>-0.p$x}", v, p = p),
        182 => write!(f, "{:>-0w$x}", v, w = w),
        183 => write!(f, "{:>-0w$.p$x}", v, w = w, p = p),
        184 => write!(f, "{:>-#x}", v),
        185 => write!(f, "{:>-#.p$x}", v, p = p),
        186 => write!(f, "{:>-#w$x}", v, w = w),
        187 => write!(f, "{:>-#w$.p$x}", v, w = w, p = p),
        188 => write!(f, "{:>-#0x}", v),
        189 => write!(f, "{:>-#0.p$x}", v, p = p),
        190 => write!(f, "{:>-#0w$x}", v, w = w),
        191 => write!(f, "{:>-#0w$.p$x}", v, w = w, p = p),
        192 => write!(f, "{:*<x}", v),
        193 => write!(f, "{:*<.p$x}", v, p = p),
        194 => write!(f, "{:*<w$x}", v, w = w),
        195 => write!(f, "{:*<w$.p$x}", v, w = w, p = p),
        196 => write!(f, "{:*<0x}", v),
        197 => write!(f, "{:*<0.p$x}", v, p = p),
        198 => write!(f, "{:*<0w$x}", v, w = w),
        199 => write!(f, "{:*<0w$.p$x}", v, w = w, p = p),
        200 => write!(f, "{:*<#x}", v),
        201 => write!(f, "{:*<#.p$x}", v, p = p),
        202 => write!(f, "{:*<#w$x}", v, w = w),
        203 => write!(f, "{:*<#w$.p$x}", v, w = w, p = p),
        204 => write!(f, "{:*<#0x}", v),
        205 => write!(f, "{:*<#0.p$x}", v, p = p),
        206 => write!(f, "{:*<#0w$x}", v, w = w),
        207 => write!(f, "{:*<#0w$.p$x}", v, w = w, p = p),
        208 => write!(f, "{:*<+x}", v),
        209 => write!(f, "{:*<+.p$x}", v, p = p),
        210 => write!(f, "{:*<+w$x}", v, w = w),
        211 => write!(f, "{:*<+w$.p$x}", v, w = w, p = p),
        212 => write!(f, "{:*<+0x}", v),
        213 => write!(f, "{:*<+0.p$x}", v, p = p),
        214 => write!(f, "{:*<+0w$x}", v, w = w),
        215 => write!(f, "{:*<+0w$.p$x}", v, w = w, p = p),
        216 => write!(f, "{:*<+#x}", v),
        217 => write!(f, "{:*<+#.p$x}", v, p = p),
        218 => write!(f, "{:*<+#w$x}", v, w = w),
        219 => write!(f, "{:*<+#w$.p$x}", v, w = w, p = p),
        220 => write!(f, "{:*<+#0x}", v),
        221 => write!(f, "{:*<+#0.p$x}", v, p = p),
        222 => write!(f, "{:*<+#0w$x}", v, w = w),
        223 => write!(f, "{:*<+#0w$.p$x}", v, w = w, p = p),
        224 => write!(f, "{:*<-x}", v),
        225 => write!(f, "{:*<-.p$x}", v, p = p),
        226 => write!(f, "{:*<-w$x}", v, w = w),
        227 => write!(f, "{:*<-w$.p$x}", v, w = w, p = p),
        228 => write!(f, "{:*<-0x}", v),
        229 => write!(f, "{:*<-0.p$x}", v, p = p),
        230 => write!(f, "{:*<-0w$x}", v, w = w),
        231 => write!(f, "{:*<-0w$.p$x}", v, w = w, p = p),
        232 => write!(f, "{:*<-#x}", v),
        233 => write!(f, "{:*<-#.p$x}", v, p = p),
        234 => write!(f, "{:*<-#w$x}", v, w = w),
        235 => write!(f, "{:*<-#w$.p$x}", v, w = w, p = p),
        236 => write!(f, "{:*<-#0x}", v),
        237 => write!(f, "{:*<-#0.p$x}", v, p = p),
        238 => write!(f, "{:*<-#0w$x}", v, w = w),
        239 => write!(f, "{:*<-#0w$.p$x}", v, w = w, p = p),
        240 => write!(f, "{:*^x}", v),
        241 => write!(f, "{:*^.p$x}", v, p = p),
        242 => write!(f, "{:*^w$x}", v, w = w),
        243 => write!(f, "{:*^w$.p$x}", v, w = w, p = p),
        244 => write!(f, "{:*^0x}", v),
        245 => write!(f, "{:*^0.p$x}", v, p = p),
        246 => write!(f, "{:*^0w$x}", v, w = w),
        247 => write!(f, "{:*^0w$.p$x}", v, w = w, p = p),
        248 => write!(f, "{:*^#x}", v),
        249 => write!(f, "{:*^#.p$x}", v, p = p),
        250 => write!(f, "{:*^#w$x}", v, w = w),
        251 => write!(f, "{:*^#w$.p$x}", v, w = w, p = p),
        252 => write!(f, "{:*^#0x}", v),
        253 => write!(f, "{:*^#0.p$x}", v, p = p),
        254 => write!(f, "{:*^#0w$x}", v, w = w),
        255 => write!(f, "{:*^#0w$.p$x}", v, w = w, p = p),
        256 => write!(f, "{:*^+x}", v),
        257 => write!(f, "{:*^+.p$x}", v, p = p),
        258 => write!(f, "{:*^+w$x}", v, w = w),
        259 => write!(f, "{:*^+w$.p$x}", v, w = w, p = p),
        260 => write!(f, "{:*^+0x}", v),
        261 => write!(f, "{:*^+0.p$x}", v, p = p),
        262 => write!(f, "{:*^+0w$x}", v, w = w),
        263 => write!(f, "{:*^+0w$.p$x}", v, w = w, p = p),
        264 => write!(f, "{:*^+#x}", v),
        265 => write!(f, "{:*^+#.p$x}", v, p = p),
        266 => write!(f, "{:*^+#w$x}", v, w = w),
        267 => write!(f, "{:*^+#w$.p$x}", v, w = w, p = p),
        268 => write!(f, "{:*^+#0x}", v),
        269 => write!(f, "{:*^+#0.p$x}", v, p = p),
        270 => write!(f, "{:*^+#0w$x}", v, w = w),
        271 => write!(f, "{:*^+#0w$.p$x}", v, w = w, p = p),
        272 => write!(f, "{:*^-x}", v),
        273 => write!(f, "{:*^-.p$x}", v, p = p),
        274 => write!(f, "{:*^-w$x}", v, w = w),
        275 => write!(f, "{:*^-w$.p$x}", v, w = w, p = p),
        276 => write!(f, "{:*^-0x}", v),
        277 => write!(f, "{:*^-0.p$x}", v, p = p),
        278 => write!(f, "{:*^-0w$x}", v, w = w),
        279 => write!(f, "{:*^-0w$.p$x}", v, w = w, p = p),
        280 => write!(f, "{:*^-#x}", v),
        281 => write!(f, "{:*^-#.p$x}", v, p = p),
        282 => write!(f, "{:*^-#w$x}", v, w = w),
        283 => write!(f, "{:*^-#w$.p$x}", v, w = w, p = p),
        284 => write!(f, "{:*^-#0x}", v),
        285 => write!(f, "{:*^-#0.p$x}", v, p = p),
        286 => write!(f, "{:*^-#0w$x}", v, w = w),
        287 => write!(f, "{:*^-#0w$.p$x}", v, w = w, p = p),
        288 => write!(f, "{:é>x}", v),
        289 => write!(f, "{:é>.p$x}", v, p = p),
        290 => write!(f, "{:é>w$x}", v, w = w),
        291 => write!(f, "{:é>w$.p$x}", v, w = w, p = p),
        292 => write!(f, "{:é>0x}", v),
        293 => write!(f, "{:é>0.p$x}", v, p = p),
        294 => write!(f, "{:é>0w$x}", v, w = w),
        295 => write!(f, "{:é>0w$.p$x}", v, w = w, p = p),
        296 => write!(f, "{:é>#x}", v),
        297 => write!(f, "{:é>#.p$x}", v, p = p),
        298 => write!(f, "{:é>#w$x}", v, w = w),
        299 => write!(f, "{:é>#w$.p$x}", v, w = w, p = p),
        300 => write!(f, "{:é>#0x}", v),
        301 => write!(f, "{:é>#0.p$x}", v, p = p),
        302 => write!(f, "{:é>#0w$x}", v, w = w),
        303 => write!(f, "{:é>#0w$.p$x}", v, w = w, p = p),
        304 => write!(f, "{:é>+x}", v),
        305 => write!(f, "{:é>+.p$x}", v, p = p),
        306 => write!(f, "{:é>+w$x}", v, w = w),
        307 => write!(f, "{:é>+w$.p$x}", v, w = w, p = p),
        308 => write!(f, "{:é>+0x}", v),
        309 => write!(f, "{:é>+0.p$x}", v, p = p),
        310 => write!(f, "{:é>+0w$x}", v, w = w),
        311 => write!(f, "{:é>+0w$.p$x}", v, w = w, p = p),
        312 => write!(f, "{:é>+#x}", v),
        313 => write!(f, "{:é>+#.p$x}", v, p = p),
        314 => write!(f, "{:é>+#w$x}", v, w = w),
        315 => write!(f, "{:é>+#w$.p$x}", v, w = w, p = p),
        316 => write!(f, "{:é>+#0x}", v),
        317 => write!(f, "{:é>+#0.p$x}", v, p = p),
        318 => write!(f, "{:é>+#0w$x}", v, w = w),
        319 => write!(f, "{:é>+#0w$.p$x}", v, w = w, p = p),
        320 => write!(f, "{:é>-x}", v),
        321 => write!(f, "{:é>-.p$x}", v, p = p),
        322 => write!(f, "{:é>-w$x}", v, w = w),
        323 => write!(f, "{:é>-w$.p$x}", v, w = w, p = p),
        324 => write!(f, "{:é>-0x}", v),
        325 => write!(f, "{:é>-0.p$x}", v, p = p),
        326 => write!(f, "{:é>-0w$x}", v, w = w),
        327 => write!(f, "{:é>-0w$.p$x}", v, w = w, p = p),
        328 => write!(f, "{:é>-#x}", v),
        329 => write!(f, "{:é>-#.p$x}", v, p = p),
        330 => write!(f, "{:é>-#w$x}", v, w = w),
        331 => write!(f, "{:é>-#w$.p$x}", v, w = w, p = p),
        332 => write!(f, "{:é>-#0x}", v),
        333 => write!(f, "{:é>-#0.p$x}", v, p = p),
        334 => write!(f, "{:é>-#0w$x}", v, w = w),
        335 => write!(f, "{:é>-#0w$.p$x}", v, w = w, p = p),
        _ => unreachable!(),
    }
}
pub fn upper_hex(i: usize, f: &mut dyn fmt::Write, v: &dyn UpperHex, w: usize, p: usize) -> fmt::Result {
    let _ = (w, p);
    match i {
        0 => write!(f, "{:X}", v),
        1 => write!(f, "{:.p$X}", v, p = p),
        2 => write!(f, "{:w$X}", v, w = w),
        3 => write!(f, "{:w$.p$X}", v, w = w, p = p),
        4 => write!(f, "{:0X}", v),
        5 => write!(f, "{:0.p$X}", v, p = p),
        6 => write!(f, "{:0w$X}", v, w = w),
        7 => write!(f, "{:0w$.p$X}", v, w = w, p = p),
        8 => write!(f, "{:#X}", v),
        9 => write!(f, "{:#.p$X}", v, p = p),
        10 => write!(f, "{:#w$X}", v, w = w),
        11 => write!(f, "{:#w$.p$X}", v, w = w, p = p),
        12 => write!(f, "{:#0X}", v),
        13 => write!(f, "{:#0.p$X}", v, p = p),
        14 => write!(f, "{:#0w$X}", v, w = w),
        15 => write!(f, "{:#0w$.p$X}", v, w = w, p = p),
        16 => write!(f, "{:+X}", v),
        17 => write!(f, "{:+.p$X}", v, p = p),
        18 => write!(f, "{:+w$X}", v, w = w),
        19 => write!(f, "{:+w$.p$X}", v, w = w, p = p),
        20 => write!(f, "{:+0X}", v),
        21 => write!(f, "{:+0.p$X}", v, p = p),
        22 => write!(f, "{:+0w$X}", v, w = w),
        23 => write!(f, "{:+0w$.p$X}", v, w = w, p = p),
        24 => write!(f, "{:+#X}", v),
        25 => write!(f, "{:+#.p$X}", v, p = p),
        26 => write!(f, "{:+#w$X}", v, w = w),
        27 => write!(f, "{:+#w$.p$X}", v, w = w, p = p),
        28 => write!(f, "{:+#0X}", v),
        29 => write!(f, "{:+#0.p$X}", v, p = p),
        30 => write!(f, "{:+#0w$X}", v, w = w),
        31 => write!(f, "{:+#0w$.p$X}", v, w = w, p = p),
        32 => write!(f, "{:-X}", v),
        33 => write!(f, "{:-.p$X}", v, p = p),
        34 => write!(f, "{:-w$X}", v, w = w),
        35 => write!(f, "{:-w$.p$X}", v, w = w, p = p),
        36 => write!(f, "{:-0X}", v),
        37 => write!(f, "{:-0.p$X}", v, p = p),
        38 => write!(f, "{:-0w$X}", v, w = w),
        39 => write!(f, "{:-0w$.p$X}", v, w = w, p = p),
        40 => write!(f, "{:-#X}", v),
        41 => write!(f, "{:-#.p$X}", v, p = p),
        42 => write!(f, "{:-#w$X}", v, w = w),
        43 => write!(f, "{:-#w$.p$X}", v, w = w, p = p),
        44 => write!(f, "{:-#0X}", v),
        45 => write!(f, "{:-#0.p$X}", v, p = p),
        46 => write!(f, "{:-#0w$X}", v, w = w),
        47 => write!(f, "{:-#0w$.p$X}", v, w = w, p = p),
        48 => write!(f, "{:<X}", v),
        49 => write!(f, "{:<.p$X}", v, p = p),
        50 => write!(f, "{:<w$X}", v, w = w),
        51 => write!(f, "{:<w$.p$X}", v, w = w, p = p),
        52 => write!(f, "{:<0X}", v),
        53 => write!(f, "{:<0.p$X}", v, p = p),
        54 => write!(f, "{:<0w$X}", v, w = w),
        55 => write!(f, "{:<0w$.p$X}", v, w = w, p = p),
        56 => write!(f, "{:<#X}", v),
        57 => write!(f, "{:<#.p$X}", v, p = p),
        58 => write!(f, "{:<#w$X}", v, w = w),
        59 => write!(f, "{:<#w$.p$X}", v, w = w, p = p),
        60 => write!(f, "{:<#0X}", v),
        61 => write!(f, "{:<#0.p$X}", v, p = p),
        62 => write!(f, "{:<#0w$X}", v, w = w),
        63 => write!(f, "{:<#0w$.p$X}", v, w = w, p = p),
        64 => write!(f, "{:<+X}", v),
        65 => write!(f, "{:<+.p$X}", v, p = p),
        66 => write!(f, "{:<+w$X}", v, w = w),
        67 => write!(f, "{:<+w$.p$X}", v, w = w, p = p),
        68 => write!(f, "{:<+0X}", v),
        69 => write!(f, "{:<+0.p$X}", v, p = p),
        70 => write!(f, "{:<+0w$X}", v, w = w),
        71 => write!(f, "{:<+0w$.p$X}", v, w = w, p = p),
        72 => write!(f, "{:<+#X}", v),
        73 => write!(f, "{:<+#.p$X}", v, p = p),
        74 => write!(f, "{:<+#w$X}", v, w = w),
        75 => write!(f, "{:<+#w$.p$X}", v, w = w, p = p),
        76 => write!(f, "{:<+#0X}", v),
        77 => write!(f, "{:<+#0.p$X}", v, p = p),
        78 => write!(f, "{:<+#0w$X}", v, w = w),
        79 => write!(f, "{:<+#0w$.p$X}", v, w = w, p = p),
        80 => write!(f, "{:<-X}", v),
        81 => write!(f, "{:<-.p$X}", v, p = p),
        82 => write!(f, "{:<-w$X}", v, w = w),
        83 => write!(f, "{:<-w$.p$X}", v, w = w, p = p),
        84 => write!(f, "{:<-0X}", v),
        85 => write!(f, "{:<-0.p$X}", v, p = p),
        86 => write!(f, "{:<-0w$X}", v, w = w),
        87 => write!(f, "{:<-0w$.p$X}", v, w = w, p = p),
        88 => write!(f, "{:<-#X}", v),
        89 => write!(f, "{:<-#.p$X}", v, p = p),
        90 => write!(f, "{:<-#w$X}", v, w = w),
        91 => write!(f, "{:<-#w$.p$X}", v, w = w, p = p),
        92 => write!(f, "{:<-#0X}", v),
        93 => write!(f, "{:<-#0.p$X}", v, p = p),
        94 => write!(f, "{:<-#0w$X}", v, w = w),
        95 => write!(f, "{:<-#0w$.p$X}", v, w = w, p = p),
        96 => write!(f, "{:^X}", v),
        97 => write!(f, "{:^.p$X}", v, p = p),
        98 => write!(f, "{:^w$X}", v, w = w),
        99 => write!(f, "{:^w$.p$X}", v, w = w, p = p),
        100 => write!(f, "{:^0X}", v),
        101 => write!(f, "{:^0.p$X}", v, p = p),
        102 => write!(f, "{:^0w$X}", v, w = w),
        103 => write!(f, "{:^0w$.p$X}", v, w = w, p = p),
        104 => write!(f, "{:^#X}", v),
        105 => write!(f, "{:^#.p$X}", v, p = p),
        106 => write!(f, "{:^#w$X}", v, w = w),
        107 => write!(f, "{:^#w$.p$X}", v, w = w, p = p),
        108 => write!(f, "{:^#0X}", v),
        109 => write!(f, "{:^#0.p$X}", v, p = p),
        110 => write!(f, "{:^#0w$X}", v, w = w),
        111 => write!(f, "{:^#0w$.p$X}", v, w = w, p = p),
        112 => write!(f, "{:^+X}", v),
        113 => write!(f, "{:^+.p$X}", v, p = p),
        114 => write!(f, "{:^+w$X}", v, w = w),
        115 => write!(f, "{:^+w$.p$X}", v, w = w, p = p),
        116 => write!(f, "{:^+0X}", v),
        117 => write!(f, "{:^+0.p$X}", v, p = p),
        118 => write!(f, "{:^+0w$X}", v, w = w),
        119 => write!(f, "{:^+0w$.p$X}", v, w = w, p = p),
        120 => write!(f, "{:^+#X}", v),
        121 => write!(f, "{:^+#.p$X}", v, p = p),
        122 => write!(f, "{:^+#w$X}", v, w = w),
        123 => write!(f, "{:^+#w$.p$X}", v, w = w, p = p),
        124 => write!(f, "{:^+#0X}", v),
        125 => write!(f, "{:^+#0.p$X}", v, p = p),
        126 => write!(f, "{:^+#0w$X}", v, w = w),
        127 => write!(f, "{:^+#0w$.p$X}", v, w = w, p = p),
        128 => write!(f, "{:^-X}", v),
        129 => write!(f, "{:^-.p$X}", v, p = p),
        130 => write!(f, "{:^-w$X}", v, w = w),
        131 => write!(f, "{:^-w$.p$X}", v, w = w, p = p),
        132 => write!(f, "{:^-0X}", v),
        133 => write!(f, "{:^-0.p$X}", v, p = p),
        134 => write!(f, "{:^-0w$X}", v, w = w),
        135 => write!(f, "{:^-0w$.p$X}", v, w = w, p = p),
        136 => write!(f, "{:^-#X}", v),
        137 => write!(f, "{:^-#.p$X}", v, p = p),
        138 => write!(f, "{:^-#w$X}", v, w = w),
        139 => write!(f, "{:^-#w$.p$X}", v, w = w, p = p),
        140 => write!(f, "{:^-#0X}", v),
        141 => write!(f, "{:^-#0.p$X}", v, p = p),
        142 => write!(f, "{:^-#0w$X}", v, w = w),
        143 => write!(f, "{:^-#0w$.p$X}", v, w = w, p = p),
        144 => write!(f, "{:>X}", v),
        145 => write!(f, "{:>.p$X}", v, p = p),
        146 => write!(f, "{:>w$X}", v, w = w),
        147 => write!(f, "{:>w$.p$X}", v, w = w, p = p),
        148 => write!(f, "{:>0X}", v),
        149 => write!(f, "{:>0.p$X}", v, p = p),
        150 => write!(f, "{:>0w$X}", v, w = w),
        151 => write!(f, "{:>0w$.p$X}", v, w = w, p = p),
        152 => write!(f, "{:>#X}", v),
        153 => write!(f, "{:>#.p$X}", v, p = p),
        154 => write!(f, "{:>#w$X}", v, w = w),
        155 => write!(f, "{:>#w$.p$X}", v, w = w, p = p),
        156 => write!(f, "{:>#0X}", v),
        157 => write!(f, "{:>#0.p$X}", v, p = p),
        158 => write!(f, "{:>#0w$X}", v, w = w),
        159 => write!(f, "{:>#0w$.p$X}", v, w = w, p = p),
        160 => write!(f, "{:>+X}", v),
        161 => write!(f, "{:>+.p$X}", v, p = p),
        162 => write!(f, "{:>+w$X}", v, w = w),
        163 => write!(f, "{:>+w$.p$X}", v, w = w, p = p),
        164 => write!(f, "{:>+0X}", v),
        165 => write!(f, "{:>+0.p$X}", v, p = p),
        166 => write!(f, "{:>+0w$X}", v, w = w),
        167 => write!(f, "{:>+0w$.p$X}", v, w = w, p = p),
        168 => write!(f, "{:>+#X}", v),
        169 => write!(f, "{:>+#.p$X}", v, p = p),
        170 => write!(f, "{:>+#w$X}", v, w = w),
        171 => write!(f, "{:>+#w$.p$X}", v, w = w, p = p),
        172 => write!(f, "{:>+#0X}", v),
        173 => write!(f, "{:>+#0.p$X}", v, p = p),
        174 => write!(f, "{:>+#0w$X}", v, w = w),
        175 => write!(f, "{:>+#0w$.p$X}", v, w = w, p = p),
        176 => write!(f, "{:>-X}", v),
        177 => write!(f, "{:>-.p$X}", v, p = p),
        178 => write!(f, "{:>-w$X}", v, w = w),
        179 => write!(f, "{:>-w$.p$X}", v, w = w, p = p),
        180 => write!(f, "{:>-0X}", v),
        181 => write!(f, "{:>-0.p$X}", v, p = p),
        182 => write!(f, "{:>-0w$X}", v, w = w),
        183 => write!(f, "{:>-0w$.p$X}", v, w = w, p = p),
        184 => write!(f, "{:>-#X}", v),
        185 => write!(f, "{:>-#.p$X}", v, p = p),
        186 => write!(f, "{:>-#w$X}", v, w = w),
        187 => write!(f, "{:>-#w$.p$X}", v, w = w, p = p),
        188 => write!(f, "{:>-#0X}", v),
        189 => write!(f, "{:>-#0.p$X}", v, p = p),
        190 => write!(f, "{:>-#0w$X}", v, w = w),
        191 => write!(f, "{:>-#0w$.p$X}", v, w = w, p = p),
        192 => write!(f, "{:*<X}", v),
        193 => write!(f, "{:*<.p$X}", v, p = p),
        194 => write!(f, "{:*<w$X}", v, w = w),
        195 => write!(f, "{:*<w$.p$X}", v, w = w, p = p),
        196 => write!(f, "{:*<0X}", v),
        197 => write!(f, "{:*<0.p$X}", v, p = p),
        198 => write!(f, "{:*<0w$X}", v, w = w),
        199 => write!(f, "{:*<0w$.p$X}", v, w = w, p = p),
        200 => write!(f, "{:*<#X}", v),
        201 => write!(f, "{:*<#.p$X}", v, p = p),
        202 => write!(f, "{:*<#w$X}", v, w = w),
        203 => write!(f, "{:*<#w$.p$X}", v, w = w, p = p),
        204 => write!(f, "{:*<#0X}", v),
        205 => write!(f, "{:*<#0.p$X}", v, p = p),
        206 => write!(f, "{:*<#0w$X}", v, w = w),
        207 => write!(f, "{:*<#0w$.p$X}", v, w = w, p = p),
        208 => write!(f, "{:*<+X}", v),
        209 => write!(f, "{:*<+.p$X}", v, p = p),
        210 => write!(f, "{:*<+w$X}", v, w = w),
        211 => write!(f, "{:*<+w$.p$X}", v, w = w, p = p),
        212 => write!(f, "{:*<+0X}", v),
        213 => write!(f, "{:*<+0.p$X}", v, p = p),
        214 => write!(f, "{:*<+0w$X}", v, w = w),
        215 => write!(f, "{:*<+0w$.p$X}", v, w = w, p = p),
        216 => write!(f, "{:*<+#X}", v),
        217 => write!(f, "{:*<+#.p$X}", v, p = p),
        218 => write!(f, "{:*<+#w$X}", v, w = w),
        219 => write!(f, "{:*<+#w$.p$X}", v, w = w, p = p),
        220 => write!(f, "{:*<+#0X}", v),
        221 => write!(f, "{:*<+#0.p$X}", v, p = p),
        222 => write!(f, "{:*<+#0w$X}", v, w = w),
        223 => write!(f, "{:*<+#0w$.p$X}", v, w = w, p = p),
        224 => write!(f, "{:*<-X}", v),
        225 => write!(f, "{:*<-.p$X}", v, p = p),
        226 => write!(f, "{:*<-w$X}", v, w = w),
        227 => write!(f, "{:*<-w$.p$X}", v, w = w, p = p),
        228 => write!(f, "{:*<-0X}", v),
        229 => write!(f, "{:*<-0.p$X}", v, p = p),
        230 => write!(f, "{:*<-0w$X}", v, w = w),
        231 => write!(f, "{:*<-0w$.p$X}", v, w = w, p = p),
        232 => write!(f, "{:*<-#X}", v),
        233 => write!(f, "{:*<-#.p$X}", v, p = p),
        234 => write!(f, "{:*<-#w$X}", v, w = w),
        235 => write!(f, "{:*<-#w$.p$X}", v, w = w, p = p),
        236 => write!(f, "{:*<-#0X}", v),
        237 => write!(f, "{:*<-#0.p$X}", v, p = p),
        238 => write!(f, "{:*<-#0w$X}", v, w = w),
        239 => write!(f, "{:*<-#0w$.p$X}", v, w = w, p = p),
        240 => write!(f, "{:*^X}", v),
        241 => write!(f, "{:*^.p$X}", v, p = p),
        242 => write!(f, "{:*^w$X}", v, w = w),
        243 => write!(f, "{:*^w$.p$X}", v, w = w, p = p),
        244 => write!(f, "{:*^0X}", v),
        245 => write!(f, "{:*^0.p$X}", v, p = p),
        246 => write!(f, "{:*^0w$X}", v, w = w),
        247 => write!(f, "{:*^0w$.p$X}", v, w = w, p = p),
        248 => write!(f, "{:*^#X}", v),
        249 => write!(f, "{:*^#.p$X}", v, p = p),
        250 => write!(f, "{:*^#w$X}", v, w = w),
        251 => write!(f, "{:*^#w$.p$X}", v, w = w, p = p),
        252 => write!(f, "{:*^#0X}", v),
        253 => write!(f, "{:*^#0.p$X}", v, p = p),
        254 => write!(f, "{:*^#0w$X}", v, w = w),
        255 => write!(f, "{:*^#0w$.p$X}", v, w = w, p = p),
        256 => write!(f, "{:*^+X}", v),
        257 => write!(f, "{:*^+.p$X}", v, p = p),
        258 => write!(f, "{:*^+w$X}", v, w = w),
        259 => write!(f, "{:*^+w$.p$X}", v, w = w, p = p),
        260 => write!(f, "{:*^+0X}", v),
        261 => write!(f, "{:*^+0.p$X}", v, p = p),
        262 => write!(f, "{:*^+0w$X}", v, w = w),
        263 => write!(f, "{:*^+0w$.p$X}", v, w = w, p = p),
        264 => write!(f, "{:*^+#X}", v),
        265 => write!(f, "{:*^+#.p$X}", v, p = p),
        266 => write!(f, "{:*^+#w$X}", v, w = w),
        267 => write!(f, "{:*^+#w$.p$X}", v, w = w, p = p),
        268 => write!(f, "{:*^+#0X}", v),
        269 => write!(f, "{:*^+#0.p$X}", v, p = p),
        270 => write!(f, "{:*^+#0w$X}", v, w = w),
        271 => write!(f, "{:*^+#0w$.p$X}", v, w = w, p = p),
        272 => write!(f, "{:*^-X}", v),
        273 => write!(f, "{:*^-.p$X}", v, p = p),
        274 => write!(f, "{:*^-w$X}", v, w = w),
        275 => write!(f, "{:*^-w$.p$X}", v, w = w, p = p),
        276 => write!(f, "{:*^-0X}", v),
        277 => write!(f, "{:*^-0.p$X}", v, p = p),
        278 => write!(f, "{:*^-0w$X}", v, w = w),
        279 => write!(f, "{:*^-0w$.p$X}", v, w = w, p = p),
        280 => write!(f, "{:*^-#X}", v),
        281 => write!(f, "{:*^-#.p$X}", v, p = p),
        282 => write!(f, "{:*^-#w$X}", v, w = w),
        283 => write!(f, "{:*^-#w$.p$X}", v, w = w, p = p),
        284 => write!(f, "{:*^-#0X}", v),
        285 => write!(f, "{:*^-#0.p$X}", v, p = p),
        286 => write!(f, "{:*^-#0w$X}", v, w = w),
        287 => write!(f, "{:*^-#0w$.p$X}", v, w = w, p = p),
        288 => write!(f, "{:é>X}", v),
        289 => write!(f, "{:é>.p$X}", v, p = p),
        290 => write!(f, "{:é>w$X}", v, w = w),
        291 => write!(f, "{:é>w$.p$X}", v, w = w, p = p),
        292 => write!(f, "{:é>0X}", v),
        293 => write!(f, "{:é>0.p$X}", v, p = p),
        294 => write!(f, "{:é>0w$X}", v, w = w),
        295 => write!(f, "{:é>0w$.p$X}", v, w = w, p = p),
        296 => write!(f, "{:é>#X}", v),
        297 => write!(f, "{:é>#.p$X}", v, p = p),
        298 => write!(f, "{:é>#w$X}", v, w = w),
        299 => write!(f, "{:é>#w$.p$X}", v, w = w, p = p),
        300 => write!(f, "{:é>#0X}", v),
        301 => write!(f, "{:é>#0.p$X}", v, p = p),
        302 => write!(f, "{:é>#0w$X}", v, w = w),
        303 => write!(f, "{:é>#0w$.p$X}", v, w = w, p = p),
        304 => write!(f, "{:é>+X}", v),
        305 => write!(f, "{:é>+.p$X}", v, p = p),
        306 => write!(f, "{:é>+w$X}", v, w = w),
        307 => write!(f, "{:é>+w$.p$X}", v, w = w, p = p),
        308 => write!(f, "{:é>+0X}", v),
        309 => write!(f, "{:é>+0.p$X}", v, p = p),
        310 => write!(f, "{:é>+0w$X}", v, w = w),
        311 => write!(f, "{:é>+0w$.p$X}", v, w = w, p = p),
        312 => write!(f, "{:é>+#X}", v),
        313 => write!(f, "{:é>+#.p$X}", v, p = p),
        314 => write!(f, "{:é>+#w$X}", v, w = w),
        315 => write!(f, "{:é>+#w$.p$X}", v, w = w, p = p),
        316 => write!(f, "{:é>+#0X}", v),
        317 => write!(f, "{:é>+#0.p$X}", v, p = p),
        318 => write!(f, "{:é>+#0w$X}", v, w = w),
        319 => write!(f, "{:é>+#0w$.p$X}", v, w = w, p = p),
        320 => write!(f, "{:é>-X}", v),
        321 => write!(f, "{:é>-.p$X}", v, p = p),
        322 => write!(f, "{:é>-w$X}", v, w = w),
        323 => write!(f, "{:é>-w$.p$X}", v, w = w, p = p),
        324 => write!(f, "{:é>-0X}", v),
        325 => write!(f, "{:é>-0.p$X}", v, p = p),
        326 => write!(f, "{:é>-0w$X}", v, w = w),
        327 => write!(f, "{:é>-0w$.p$X}", v, w = w, p = p),
        328 => write!(f, "{:é>-#X}", v),
        329 => write!(f, "{:é>-#.p$X}", v, p = p),
        330 => write!(f, "{:é>-#w$X}", v, w = w),
        331 => write!(f, "{:é>-#w$.p$X}", v, w = w, p = p),
        332 => write!(f, "{:é>-#0X}", v),
        333 => write!(f, "{:é>-#0.p$X}", v, p = p),
        334 => write!(f, "{:é>-#0w$X}", v, w = w),
        335 => write!(f, "{:é>-#0w$.p$X}", v, w = w, p = p),
        _ => unreachable!(),
    }
}
pub fn octal(i: usize, f: &mut dyn fmt::Write, v: &dyn Octal, w: usize, p: usize) -> fmt::Result {
    let _ = (w, p);
    match i {
        0 => write!(f, "{:o}", v),
        1 => write!(f, "{:.p$o}", v, p = p),
        2 => write!(f, "{:w$o}", v, w = w),
        3 => write!(f, "{:w$.p$o}", v, w = w, p = p),
        4 => write!(f, "{:0o}", v),
        5 => write!(f, "{:0.p$o}", v, p = p),
        6 => write!(f, "{:0w$o}", v, w = w),
        7 => write!(f, "{:0w$.p$o}", v, w = w, p = p),
        8 => write!(f, "{:#o}", v),
        9 => write!(f, "{:#.p$o}", v, p = p),
        10 => write!(f, "{:#w$o}", v, w = w),
        11 => write!(f, "{:#w$.p$o}", v, w = w, p = p),
        12 => write!(f, "{:#0o}", v),
        13 => write!(f, "{:#0.p$o}", v, p = p),
        14 => write!(f, "{:#0w$o}", v, w = w),
        15 => write!(f, "{:#0w$.p$o}", v, w = w, p = p),
        16 => write!(f, "{:+o}", v),
        17 => write!(f, "{:+.p$o}", v, p = p),
        18 => write!(f, "{:+w$o}", v, w = w),
        19 => write!(f, "{:+w$.p$o}", v, w = w, p = p),
        20 => write!(f, "{:+0o}", v),
        21 => write!(f, "{:+0.p$o}", v, p = p),
        22 => write!(f, "{:+0w$o}", v, w = w),
        23 => write!(f, "{:+0w$.p$o}", v, w = w, p = p),
        24 => write!(f, "{:+#o}", v),
        25 => write!(f, "{:+#.p$o}", v, p = p),
        26 => write!(f, "{:+#w$o}", v, w = w),
        27 => write!(f, "{:+#w$.p$o}", v, w = w, p = p),
        28 => write!(f, "{:+#0o}", v),
        29 => write!(f, "{:+#0.p$o}", v, p = p),
        30 => write!(f, "{:+#0w$o}", v, w = w),
        31 => write!(f, "{:+#0w$.p$o}", v, w = w, p = p),
        32 => write!(f, "{:-o}", v),
        33 => write!(f, "{:-.p$o}", v, p = p),
        34 => write!(f, "{:-w$o}", v, w = w),
        35 => write!(f, "{:-w$.p$o}", v, w = w, p = p),
        36 => write!(f, "{:-0o}", v),
        37 => write!(f, "{:-0.p$o}", v, p = p),
        38 => write!(f, "{:-0w$o}", v, w = w),
        39 => write!(f, "{:-0w$.p$o}", v, w = w, p = p),
        40 => write!(f, "{:-#o}", v),
        41 => write!(f, "{:-#.p$o}", v, p = p),
        42 => write!(f, "{:-#w$o}", v, w = w),
        43 => write!(f, "{:-#w$.p$o}", v, w = w, p = p),
        44 => write!(f, "{:-#0o}", v),
        45 => write!(f, "{:-#0.p$o}", v, p = p),
        46 => write!(f, "{:-#0w$o}", v, w = w),
        47 => write!(f, "{:-#0w$.p$o}", v, w = w, p = p),
        48 => write!(f, "{:<o}", v),
        49 => write!(f, "{:<.p$o}", v, p = p),
        50 => write!(f, "{:<w$o}", v, w = w),
        51 => write!(f, "{:<w$.p$o}", v, w = w, p = p),
        52 => write!(f, "{:<0o}", v),
        53 => write!(f, "{:<0.p$o}", v, p = p),
        54 => write!(f, "{:<0w$o}", v, w = w),
        55 => write!(f, "{:<0w$.p$o}", v, w = w, p = p),
        56 => write!(f, "{:<#o}", v),
        57 => write!(f, "{:<#.p$o}", v, p = p),
        58 => write!(f, "{:<#w$o}", v, w = w),
        59 => write!(f, "{:<#w$.p$o}", v, w = w, p = p),
        60 => write!(f, "{:<#0o}", v),
        61 => write!(f, "{:<#0.p$o}", v, p = p),
        62 => write!(f, "{:<#0w$o}", v, w = w),
        63 => write!(f, "{:<#0w$.p$o}", v, w = w, p = p),
        64 => write!(f, "{:<+o}", v),
        65 => write!(f, "{:<+.p$o}", v, p = p),
        66 => write!(f, "{:<+w$o}", v, w = w),
        67 => write!(f, "{:<+w$.p$o}", v, w = w, p = p),
        68 => write!(f, "{:<+0o}", v),
        69 => write!(f, "{:<+0.p$o}", v, p = p),
        70 => write!(f, "{:<+0w$o}", v, w = w),
        71 => write!(f, "{:<+0w$.p$o}", v, w = w, p = p),
        72 => write!(f, "{:<+#o}", v),
        73 => write!(f, "{:<+#.p$o}", v, p = p),
        74 => write!(f, "{:<+#w$o}", v, w = w),
        75 => write!(f, "{:<+#w$.p$o}", v, w = w, p = p),
        76 => write!(f, "{:<+#0o}", v),
        77 => write!(f, "{:<+#0.p$o}", v, p = p),
        78 => write!(f, "{:<+#0w$o}", v, w = w),
        79 => write!(f, "{:<+#0w$.p$o}", v, w = w, p = p),
        80 => write!(f, "{:<-o}", v),
        81 => write!(f, "{:<-.p$o}", v, p = p),
        82 => write!(f, "{:<-w$o}", v, w = w),
        83 => write!(f, "{:<-w$.p$o}", v, w = w, p = p),
        84 => write!(f, "{:<-0o}", v),
        85 => write!(f, "{:<-0.p$o}", v, p = p),
        86 => write!(f, "{:<-0w$o}", v, w = w),
        87 => write!(f, "{:<-0w$.p$o}", v, w = w, p = p),
        88 => write!(f, "{:<-#o}", v),
        89 => write!(f, "{:<-#.p$o}", v, p = p),
        90 => write!(f, "{:<-#w$o}", v, w = w),
        91 => write!(f, "{:<-#w$.p$o}", v, w = w, p = p),
        92 => write!(f, "{:<-#0o}", v),
        93 => write!(f, "{:<-#0.p$o}", v, p = p),
        94 => write!(f, "{:<-#0w$o}", v, w = w),
        95 => write!(f, "{:<-#0w$.p$o}", v, w = w, p = p),
        96 => write!(f, "{:^o}", v),
        97 => write!(f, "{:^.p$o}", v, p = p),
        98 => write!(f, "{:^w$o}", v, w = w),
        99 => write!(f, "{:^w$.p$o}", v, w = w, p = p),
        100 => write!(f, "{:^0o}", v),
        101 => write!(f, "{:^0.p$o}", v, p = p),
        102 => write!(f, "{:^0w$o}", v, w = w),
        103 => write!(f, "{:^0w$.p$o}", v, w = w, p = p),
        104 => write!(f, "{:^#o}", v),
        105 => write!(f, "{:^#.p$o}", v, p = p),
        106 => write!(f, "{:^#w$o}", v, w = w),
        107 => write!(f, "{:^#w$.p$o}", v, w = w, p = p),
        108 => write!(f, "{:^#0o}", v),
        109 => write!(f, "{:^#0.p$o}", v, p = p),
        110 => write!(f, "{:^#0w$o}", v, w = w),
        111 => write!(f, "{:^#0w$.p$o}", v, w = w, p = p),
        112 => write!(f, "{:^+o}", v),
        113 => write!(f, "{:^+.p$o}", v, p = p),
        114 => write!(f, "{:^+w$o}", v, w = w),
        115 => write!(f, "{:^+w$.p$o}", v, w = w, p = p),
        116 => write!(f, "{:^+0o}", v),
        117 => write!(f, "{:^+0.p$o}", v, p = p),
        118 => write!(f, "{:^+0w$o}", v, w = w),
        119 => write!(f, "{:^+0w$.p$o}", v, w = w, p = p),
        120 => write!(f, "{:^+#o}", v),
        121 => write!(f, "{:^+#.p$o}", v, p = p),
        122 => write!(f, "{:^+#w$o}", v, w = w),
        123 => write!(f, "{:^+#w$.p$o}", v, w = w, p = p),
        124 => write!(f, "{:^+#0o}", v),
        125 => write!(f, "{:^+#0.p$o}", v, p = p),
        126 => write!(f, "{:^+#0w$o}", v, w = w),
        127 => write!(f, "{:^+#0w$.p$o}", v, w = w, p = p),
        128 => write!(f, "{:^-o}", v),
        129 => write!(f, "{:^-.p$o}", v, p = p),
        130 => write!(f, "{:^-w$o}", v, w = w),
        131 => write!(f, "{:^-w$.p$o}", v, w = w, p = p),
        132 => write!(f, "{:^-0o}", v),
        133 => write!(f, "{:^-0.p$o}", v, p = p),
        134 => write!(f, "{:^-0w$o}", v, w = w),
        135 => write!(f, "{:^-0w$.p$o}", v, w = w, p = p),
        136 => write!(f, "{:^-#o}", v),
        137 => write!(f, "{:^-#.p$o}", v, p = p),
        138 => write!(f, "{:^-#w$o}", v, w = w),
        139 => write!(f, "{:^-#w$.p$o}", v, w = w, p = p),
        140 => write!(f, "{:^-#0o}", v),
        141 => write!(f, "{:^-#0.p$o}", v, p = p),
        142 => write!(f, "{:^-#0w$o}", v, w = w),
        143 => write!(f, "{:^-#0w$.p$o}", v, w = w, p = p),
        144 => write!(f, "{:>o}", v),
        145 => write!(f, "{:>.p$o}", v, p = p),
        146 => write!(f, "{:>w$o}", v, w = w),
        147 => write!(f, "{:>w$.p$o}", v, w = w, p = p),
        148 => write!(f, "{:>0o}", v),
        149 => write!(f, "{:>0.p$o}", v, p = p),
        150 => write!(f, "{:>0w$o}", v, w = w),
        151 => write!(f, "{:>0w$.p$o}", v, w = w, p = p),
        152 => write!(f, "{:>#o}", v),
        153 => write!(f, "{:>#.p$o}", v, p = p),
        154 => write!(f, "{:>#w$o}", v, w = w),
        155 => write!(f, "{:>#w$.p$o}", v, w = w, p = p),
        156 => write!(f, "{:>#0o}", v),
        157 => write!(f, "{:>#0.p$o}", v, p = p),
        158 => write!(f, "{:>#0w$o}", v, w = w),
        159 => write!(f, "{:>#0w$.p$o}", v, w = w, p = p),
        160 => write!(f, "{:>+o}", v),
        161 => write!(f, "{:>+.p$o}", v, p = p),
        162 => write!(f, "{:>+w$o}", v, w = w),
        163 => write!(f, "{:>+w$.p$o}", v, w = w, p = p),
        164 => write!(f, "{:>+0o}", v),
        165 => write!(f, "{:>+0.p$o}", v, p = p),
        166 => write!(f, "{:>+0w$o}", v, w = w),
        167 => write!(f, "{:>+0w$.p$o}", v, w = w, p = p),
        168 => write!(f, "{:>+#o}", v),
        169 => write!(f, "{:>+#.p$o}", v, p = p),
        170 => write!(f, "{:>+#w$o}", v, w = w),
        171 => write!(f, "{:>+#w$.p$o}", v, w = w, p = p),
        172 => write!(f, "{:>+#0o}", v),
        173 => write!(f, "{:>+#0.p$o}", v, p = p),
        174 => write!(f, "{:>+#0w$o}", v, w = w),
        175 => write!(f, "{:>+#0w$.p$o}", v, w = w, p = p),
        176 => write!(f, "{:>-o}", v),
        177 => write!(f, "{:>-.p$o}", v, p = p),
        178 => write!(f, "{:>-w$o}", v, w = w),
        179 => write!(f, "{:>-w$.p$o}", v, w = w, p = p),
        180 => write!(f, "{:>-0o}", v),
        181 => write!(f, "{:>-0.p$o}", v, p = p),
        182 => write!(f, "{:>-0w$o}", v, w = w),
        183 => write!(f, "{:>-0w$.p$o}", v, w = w, p = p),
        184 => write!(f, "{:>-#o}", v),
        185 => write!(f, "{:>-#.p$o}", v, p = p),
        186 => write!(f, "{:>-#w$o}", v, w = w),
        187 => write!(f, "{:>-#w$.p$o}", v, w = w, p = p),
        188 => write!(f, "{:>-#0o}", v),
        189 => write!(f, "{:>-#0.p$o}", v, p = p),
        190 => write!(f, "{:>-#0w$o}", v, w = w),
        191 => write!(f, "{:>-#0w$.p$o}", v, w = w, p = p),
        192 => write!(f, "{:*<o}", v),
        193 => write!(f, "{:*<.p$o}", v, p = p),
        194 => write!(f, "{:*<w$o}", v, w = w),
        195 => write!(f, "{:*<w$.p$o}", v, w = w, p = p),
        196 => write!(f, "{:*<0o}", v),
        197 => write!(f, "{:*<0.p$o}", v, p = p),
        198 => write!(f, "{:*<0w$o}", v, w = w),
        199 => write!(f, "{:*<0w$.p$o}", v, w = w, p = p),
        200 => write!(f, "{:*<#o}", v),
        201 => write!(f, "{:*<#.p$o}", v, p = p),
        202 => write!(f, "{:*<#w$o}", v, w = w),
        203 => write!(f, "{:*<#w$.p$o}", v, w = w, p = p),
        204 => write!(f, "{:*<#0o}", v),
        205 => write!(f, "{:*<#0.p$o}", v, p = p),
        206 => write!(f, "{:*<#0w$o}", v, w = w),
        207 => write!(f, "{:*<#0w$.p$o}", v, w = w, p = p),
        208 => write!(f, "{:*<+o}", v),
        209 => write!(f, "{:*<+.p$o}", v, p = p),
        210 => write!(f, "{:*<+w$o}", v, w = w),
        211 => write!(f, "{:*<+w$.p$o}", v, w = w, p = p),
        212 => write!(f, "{:*<+0o}", v),
        213 => write!(f, "{:*<+0.p$o}", v, p = p),
        214 => write!(f, "{:*<+0w$o}", v, w = w),
        215 => write!(f, "{:*<+0w$.p$o}", v, w = w, p = p),
        216 => write!(f, "{:*<+#o}", v),
        217 => write!(f, "{:*<+#.p$o}", v, p = p),
        218 => write!(f, "{:*<+#w$o}", v, w = w),
        219 => write!(f, "{:*<+#w$.p$o}", v, w = w, p = p),
        220 => write!(f, "{:*<+#0o}", v),
        221 => write!(f, "{:*<+#0.p$o}", v, p = p),
        222 => write!(f, "{:*<+#0w$o}", v, w = w),
        223 => write!(f, "{:*<+#0w$.p$o}", v, w = w, p = p),
        224 => write!(f, "{:*<-o}", v),
        225 => write!(f, "{:*<-.p$o}", v, p = p),
        226 => write!(f, "{:*<-w$o}", v, w = w),
        227 => write!(f, "{:*<-w$.p$o}", v, w = w, p = p),
        228 => write!(f, "{:*<-0o}", v),
        229 => write!(f, "{:*<-0.p$o}", v, p = p),
        230 => write!(f, "{:*<-0w$o}", v, w = w),
        231 => write!(f, "{:*<-0w$.p$o}", v, w = w, p = p),
        232 => write!(f, "{:*<-#o}", v),
        233 => write!(f, "{:*<-#.p$o}", v, p = p),
        234 => write!(f, "{:*<-#w$o}", v, w = w),
        235 => write!(f, "{:*<-#w$.p$o}", v, w = w, p = p),
        236 => write!(f, "{:*<-#0o}", v),
        237 => write!(f, "{:*<-#0.p$o}", v, p = p),
        238 => write!(f, "{:*<-#0w$o}", v, w = w),
        239 => write!(f, "{:*<-#0w$.p$o}", v, w = w, p = p),
        240 => write!(f, "{:*^o}", v),
        241 => write!(f, "{:*^.p$o}", v, p = p),
        242 => write!(f, "{:*^w$o}", v, w = w),
        243 => write!(f, "{:*^w$.p$o}", v, w = w, p = p),
        244 => write!(f, "{:*^0o}", v),
        245 => write!(f, "{:*^0.p$o}", v, p = p),
        246 => write!(f, "{:*^0w$o}", v, w = w),
        247 => write!(f, "{:*^0w$.p$o}", v, w = w, p = p),
        248 => write!(f, "{:*^#o}", v),
        249 => write!(f, "{:*^#.p$o}", v, p = p),
        250 => write!(f, "{:*^#w$o}", v, w = w),
        251 => write!(f, "{:*^#w$.p$o}", v, w = w, p = p),
        252 => write!(f, "{:*^#0o}", v),
        253 => write!(f, "{:*^#0.p$o}", v, p = p),
        254 => write!(f, "{:*^#0w$o}", v, w = w),
        255 => write!(f, "{:*^#0w$.p$o}", v, w = w, p = p),
        256 => write!(f, "{:*^+o}", v),
        257 => write!(f, "{:*^+.p$o}", v, p = p),
        258 => write!(f, "{:*^+w$o}", v, w = w),
        259 => write!(f, "{:*^+w$.p$o}", v, w = w, p = p),
        260 => write!(f, "{:*^+0o}", v),
        261 => write!(f, "{:*^+0.p$o}", v, p = p),
        262 => write!(f, "{:*^+0w$o}", v, w = w),
        263 => write!(f, "{:*^+0w$.p$o}", v, w = w, p = p),
        264 => write!(f, "{:*^+#o}", v),
        265 => write!(f, "{:*^+#.p$o}", v, p = p),
        266 => write!(f, "{:*^+#w$o}", v, w = w),
        267 => write!(f, "{:*^+#w$.p$o}", v, w = w, p = p),
        268 => write!(f, "{:*^+#0o}", v),
        269 => write!(f, "{:*^+#0.p$o}", v, p = p),
        270 => write!(f, "{:*^+#0w$o}", v, w = w),
        271 => write!(f, "{:*^+#0w$.p$o}", v, w = w, p = p),
        272 => write!(f, "{:*^-o}", v),
        273 => write!(f, "{:*^-.p$o}", v, p = p),
        274 => write!(f, "{:*^-w$o}", v, w = w),
        275 => write!(f, "{:*^-w$.p$o}", v, w = w, p = p),
        276 => write!(f, "{:*^-0o}", v),
        277 => write!(f, "{:*^-0.p$o}", v, p = p),
        278 => write!(f, "{:*^-0w$o}", v, w = w),
        279 => write!(f, "{:*^-0w$.p$o}", v, w = w, p = p),
        280 => write!(f, "{:*^-#o}", v),
        281 => write!(f, "{:*^-#.p$o}", v, p = p),
        282 => write!(f, "{:*^-#w$o}", v, w = w),
        283 => write!(f, "{:*^-#w$.p$o}", v, w = w, p = p),
        284 => write!(f, "{:*^-#0o}", v),
        285 => write!(f, "{:*^-#0.p$o}", v, p = p),
        286 => write!(f, "{:*^-#0w$o}", v, w = w),
        287 => write!(f, "{:*^-#0w$.p$o}", v, w = w, p = p),
        288 => write!(f, "{:é>o}", v),
        289 => write!(f, "{:é>.p$o}", v, p = p),
        290 => write!(f, "{:é>w$o}", v, w = w),
        291 => write!(f, "{:é>w$.p$o}", v, w = w, p = p),
        292 => write!(f, "{:é>0o}", v),
        293 => write!(f, "{:é>0.p$o}", v, p = p),
        294 => write!(f, "{:é>0w$o}", v, w = w),
        295 => write!(f, "{:é>0w$.p$o}", v, w = w, p = p),
        296 => write!(f, "{:é>#o}", v),
        297 => write!(f, "{:é>#.p$o}", v, p = p),
        298 => write!(f, "{:é>#w$o}", v, w = w),
        299 => write!(f, "{:é>#w$.p$o}", v, w = w, p = p),
        300 => write!(f, "{:é>#0o}", v),
        301 => write!(f, "{:é>#0.p$o}", v, p = p),
        302 => write!(f, "{:é>#0w$o}", v, w = w),
        303 => write!(f, "{:é>#0w$.p$o}", v, w = w, p = p),
        304 => write!(f, "{:é>+o}", v),
        305 => write!(f, "{:é>+.p$o}", v, p = p),
        306 => write!(f, "{:é>+w$o}", v, w = w),
        307 => write!(f, "{:é>+w$.p$o}", v, w = w, p = p),
        308 => write!(f, "{:é>+0o}", v),
        309 => write!(f, "{:é>+0.p$o}", v, p = p),
        310 => write!(f, "{:é>+0w$o}", v, w = w),
        311 => write!(f, "{:é>+0w$.p$o}", v, w = w, p = p),
        312 => write!(f, "{:é>+#o}", v),
        313 => write!(f, "{:é>+#.p$o}", v, p = p),
        314 => write!(f, "{:é>+#w$o}", v, w = w),
        315 => write!(f, "{:é>+#w$.p$o}", v, w = w, p = p),
        316 => write!(f, "{:é>+#0o}", v),
        317 => write!(f, "{:é>+#0.p$o}", v, p = p),
        318 => write!(f, "{:é>+#0w$o}", v, w = w),
        319 => write!(f, "{:é>+#0w$.p$o}", v, w = w, p = p),
        320 => write!(f, "{:é>-o}", v),
        321 => write!(f, "{:é>-.p$o}", v, p = p),
        322 => write!(f, "{:é>-w$o}", v, w = w),
        323 => write!(f, "{:é>-w$.p$o}", v, w = w, p = p),
        324 => write!(f, "{:é>-0o}", v),
        325 => write!(f, "{:é>-0.p$o}", v, p = p),
        326 => write!(f, "{:é>-0w$o}", v, w = w),
        327 => write!(f, "{:é>-0w$.p$o}", v, w = w, p = p),
        328 => write!(f, "{:é>-#o}", v),
        329 => write!(f, "{:é>-#.p$o}", v, p = p),
        330 => write!(f, "{:é>-#w$o}", v, w = w),
        331 => write!(f, "{:é>-#w$.p$o}", v, w = w, p = p),
        332 => write!(f, "{:é>-#0o}", v),
        333 => write!(f, "{:é>-#0.p$o}", v, p = p),
        334 => write!(f, "{:é>-#0w$o}", v, w = w),
        335 => write!(f, "{:é>-#0w$.p$o}", v, w = w, p = p),
        _ => unreachable!(),
    }
}
pub fn binary(i: usize, f: &mut dyn fmt::Write, v: &dyn Binary, w: usize, p: usize) -> fmt::Result {
    let _ = (w, p);
    match i {
        0 => write!(f, "{:b}", v),
        1 => write!(f, "{:.p$b}", v, p = p),
        2 => write!(f, "{:w$b}", v, w = w),
        3 => write!(f, "{:w$.p$b}", v, w = w, p = p),
        4 => write!(f, "{:0b}", v),
        5 => write!(f, "{:0.p$b}", v, p = p),
        6 => write!(f, "{:0w$b}", v, w = w),
        7 => write!(f, "{:0w$.p$b}", v, w = w, p = p),
        8 => write!(f, "{:#b}", v),
        9 => write!(f, "{:#.p$b}", v, p = p),
        10 => write!(f, "{:#w$b}", v, w = w),
        11 => write!(f, "{:#w$.p$b}", v, w = w, p = p),
        12 => write!(f, "{:#0b}", v),
        13 => write!(f, "{:#0.p$b}", v, p = p),
        14 => write!(f, "{:#0w$b}", v, w = w),
        15 => write!(f, "{:#0w$.p$b}", v, w = w, p = p),
        16 => write!(f, "{:+b}", v),
        17 => write!(f, "{:+.p$b}", v, p = p),
        18 => write!(f, "{:+w$b}", v, w = w),
        19 => write!(f, "{:+w$.p$b}", v, w = w, p = p),
        20 => write!(f, "{:+0b}", v),
        21 => write!(f, "{:+0.p$b}", v, p = p),
        22 => write!(f, "{:+0w$b}", v, w = w),
        23 => write!(f, "{:+0w$.p$b}", v, w = w, p = p),
        24 => write!(f, "{:+#b}", v),
        25 => write!(f, "{:+#.p$b}", v, p = p),
        26 => write!(f, "{:+#w$b}", v, w = w),
        27 => write!(f, "{:+#w$.p$b}", v, w = w, p = p),
        28 => write!(f, "{:+#0b}", v),
        29 => write!(f, "{:+#0.p$b}", v, p = p),
        30 => write!(f, "{:+#0w$b}", v, w = w),
        31 => write!(f, "{:+#0w$.p$b}", v, w = w, p = p),
        32 => write!(f, "{:-b}", v),
        33 => write!(f, "{:-.p$b}", v, p = p),
        34 => write!(f, "{:-w$b}", v, w = w),
        35 => write!(f, "{:-w$.p$b}", v, w = w, p = p),
        36 => write!(f, "{:-0b}", v),
        37 => write!(f, "{:-0.p$b}", v, p = p),
        38 => write!(f, "{:-0w$b}", v, w = w),
        39 => write!(f, "{:-0w$.p$b}", v, w = w, p = p),
        40 => write!(f, "{:-#b}", v),
        41 => write!(f, "{:-#.p$b}", v, p = p),
        42 => write!(f, "{:-#w$b}", v, w = w),
        43 => write!(f, "{:-#w$.p$b}", v, w = w, p = p),
        44 => write!(f, "{:-#0b}", v),
        45 => write!(f, "{:-#0.p$b}", v, p = p),
        46 => write!(f, "{:-#0w$b}", v, w = w),
        47 => write!(f, "{:-#0w$.p$b}", v, w = w, p = p),
        48 => write!(f, "{:<b}", v),
        49 => write!(f, "{:<.p$b}", v, p = p),
        50 => write!(f, "{:<w$b}", v, w = w),
        51 => write!(f, "{:<w$.p$b}", v, w = w, p = p),
        52 => write!(f, "{:<0b}", v),
        53 => write!(f, "{:<0.p$b}", v, p = p),
        54 => write!(f, "{:<0w$b}", v, w = w),
        55 => write!(f, "{:<0w$.p$b}", v, w = w, p = p),
        56 => write!(f, "{:<#b}", v),
        57 => write!(f, "{:<#.p$b}", v, p = p),
        58 => write!(f, "{:<#w$b}", v, w = w),
        59 => write!(f, "{:<#w$.p$b}", v, w = w, p = p),
        60 => write!(f, "{:<#0b}", v),
        61 => write!(f, "{:<#0.p$b}", v, p = p),
        62 => write!(f, "{:<#0w$b}", v, w = w),
        63 => write!(f, "{:<#0w$.p$b}", v, w = w, p = p),
        64 => write!(f, "{:<+b}", v),
        65 => write!(f, "{:<+.p$b}", v, p = p),
        66 => write!(f, "{:<+w$b}", v, w = w),
        67 => write!(f, "{:<+w$.p$b}", v, w = w, p = p),
        68 => write!(f, "{:<+0b}", v),
        69 => write!(f, "{:<+0.p$b}", v, p = p),
        70 => write!(f, "{:<+0w$b}", v, w = w),
        71 => write!(f, "{:<+0w$.p$b}", v, w = w, p = p),
        72 => write!(f, "{:<+#b}", v),
        73 => write!(f, "{:<+#.p$b}", v, p = p),
        74 => write!(f, "{:<+#w$b}", v, w = w),
        75 => write!(f, "{:<+#w$.p$b}", v, w = w, p = p),
        76 => write!(f, "{:<+#0b}", v),
        77 => write!(f, "{:<+#0.p$b}", v, p = p),
        78 => write!(f, "{:<+#0w$b}", v, w = w),
        79 => write!(f, "{:<+#0w$.p$b}", v, w = w, p = p),
        80 => write!(f, "{:<-b}", v),
        81 => write!(f, "{:<-.p$b}", v, p = p),
        82 => write!(f, "{:<-w$b}", v, w = w),
        83 => write!(f, "{:<-w$.p$b}", v, w = w, p = p),
        84 => write!(f, "{:<-0b}", v),
        85 => write!(f, "{:<-0.p$b}", v, p = p),
        86 => write!(f, "{:<-0w$b}", v, w = w),
        87 => write!(f, "{:<-0w$.p$b}", v, w = w, p = p),
        88 => write!(f, "{:<-#b}", v),
        89 => write!(f, "{:<-#.p$b}", v, p = p),
        90 => write!(f, "{:<-#w$b}", v, w = w),
        91 => write!(f, "{:<-#w$.p$b}", v, w = w, p = p),
        92 => write!(f, "{:<-#0b}", v),
        93 => write!(f, "{:<-#0.p$b}", v, p = p),
        94 => write!(f, "{:<-#0w$b}", v, w = w),
        95 => write!(f, "{:<-#0w$.p$b}", v, w = w, p = p),
        96 => write!(f, "{:^b}", v),
        97 => write!(f, "{:^.p$b}", v, p = p),
        98 => write!(f, "{:^w$b}", v, w = w),
        99 => write!(f, "{:^w$.p$b}", v, w = w, p = p),
        100 => write!(f, "{:^0b}", v),
        101 => write!(f, "{:^0.p$b}", v, p = p),
        102 => write!(f, "{:^0w$b}", v, w = w),
        103 => write!(f, "{:^0w$.p$b}", v, w = w, p = p),
        104 => write!(f, "{:^#b}", v),
        105 => write!(f, "{:^#.p$b}", v, p = p),
        106 => write!(f, "{:^#w$b}", v, w = w),
        107 => write!(f, "{:^#w$.p$b}", v, w = w, p = p),
        108 => write!(f, "{:^#0b}", v),
        109 => write!(f, "{:^#0.p$b}", v, p = p),
        110 => write!(f, "{:^#0w$b}", v, w = w),
        111 => write!(f, "{:^#0w$.p$b}", v, w = w, p = p),
        112 => write!(f, "{:^+b}", v),
        113 => write!(f, "{:^+.p$b}", v, p = p),
        114 => write!(f, "{:^+w$b}", v, w = w),
        115 => write!(f, "{:^+w$.p$b}", v, w = w, p = p),
        116 => write!(f, "{:^+0b}", v),
        117 => write!(f, "{:^+0.p$b}", v, p = p),
        118 => write!(f, "{:^+0w$b}", v, w = w),
        119 => write!(f, "{:^+0w$.p$b}", v, w = w, p = p),
        120 => write!(f, "{:^+#b}", v),
        121 => write!(f, "{:^+#.p$b}", v, p = p),
        122 => write!(f, "{:^+#w$b}", v, w = w),
        123 => write!(f, "{:^+#w$.p$b}", v, w = w, p = p),
        124 => write!(f, "{:^+#0b}", v),
        125 => write!(f, "{:^+#0.p$b}", v, p = p),
        126 => write!(f, "{:^+#0w$b}", v, w = w),
        127 => write!(f, "{:^+#0w$.p$b}", v, w = w, p = p),
        128 => write!(f, "{:^-b}", v),
        129 => write!(f, "{:^-.p$b}", v, p = p),
        130 => write!(f, "{:^-w$b}", v, w = w),
        131 => write!(f, "{:^-w$.p$b}", v, w = w, p = p),
        132 => write!(f, "{:^-0b}", v),
        133 => write!(f, "{:^-0.p$b}", v, p = p),
        134 => write!(f, "{:^-0w$b}", v, w = w),
        135 => write!(f, "{:^-0w$.p$b}", v, w = w, p = p),
        136 => write!(f, "{:^-#b}", v),
        137 => write!(f, "{:^-#.p$b}", v, p = p),
        138 => write!(f, "{:^-#w$b}", v, w = w),
        139 => write!(f, "{:^-#w$.p$b}", v, w = w, p = p),
        140 => write!(f, "{:^-#0b}", v),
        141 => write!(f, "{:^-#0.p$b}", v, p = p),
        142 => write!(f, "{:^-#0w$b}", v, w = w),
        143 => write!(f, "{:^-#0w$.p$b}", v, w = w, p = p),
        144 => write!(f, "{:>b}", v),
        145 => write!(f, "{:>.p$b}", v, p = p),
        146 => write!(f, "{:>w$b}", v, w = w),
        147 => write!(f, "{:>w$.p$b}", v, w = w, p = p),
        148 => write!(f, "{:>0b}", v),
        149 => write!(f, "{:>0.p$b}", v, p = p),
        150 => write!(f, "{:>0w$b}", v, w = w),
        151 => write!(f, "{:>0w$.p$b}", v, w = w, p = p),
        152 => write!(f, "{:>#b}", v),
        153 => write!(f, "{:>#.p$b}", v, p = p),
        154 => write!(f, "{:>#w$b}", v, w = w),
        155 => write!(f, "{:>#w$.p$b}", v, w = w, p = p),
        156 => write!(f, "{:>#0b}", v),
        157 => write!(f, "{:>#0.p$b}", v, p = p),
        158 => write!(f, "{:>#0w$b}", v, w = w),
        159 => write!(f, "{:>#0w$.p$b}", v, w = w, p = p),
        160 => write!(f, "{:>+b}", v),
        161 => write!(f, "{:>+.p$b}", v, p = p),
        162 => write!(f, "{:>+w$b}", v, w = w),
        163 => write!(f, "{:>+w$.p$b}", v, w = w, p = p),
        164 => write!(f, "{:>+0b}", v),
        165 => write!(f, "{:>+0.p$b}", v, p = p),
        166 => write!(f, "{:>+0w$b}", v, w = w),
        167 => write!(f, "{:>+0w$.p$b}", v, w = w, p = p),
        168 => write!(f, "{:>+#b}", v),
        169 => write!(f, "{:>+#.p$b}", v, p = p),
        170 => write!(f, "{:>+#w$b}", v, w = w),
        171 => write!(f, "{:>+#w$.p$b}", v, w = w, p = p),
        172 => write!(f, "{:>+#0b}", v),
        173 => write!(f, "{:>+#0.p$b}", v, p = p),
        174 => write!(f, "{:>+#0w$b}", v, w = w),
        175 => write!(f, "{:>+#0w$.p$b}", v, w = w, p = p),
        176 => write!(f, "{:>-b}", v),
        177 => write!(f, "{:>-.p$b}", v, p = p),
        178 => write!(f, "{:>-w$b}", v, w = w),
        179 => write!(f, "{:>-w$.p$b}", v, w = w, p = p),
        180 => write!(f, "{:>-0b}", v),
        181 => write!(f, "{:>-0.p$b}", v, p = p),
        182 => write!(f, "{:>-0w$b}", v, w = w),
        183 => write!(f, "{:>-0w$.p$b}", v, w = w, p = p),
        184 => write!(f, "{:>-#b}", v),
        185 => write!(f, "{:>-#.p$b}", v, p = p),
        186 => write!(f, "{:>-#w$b}", v, w = w),
        187 => write!(f, "{:>-#w$.p$b}", v, w = w, p = p),
        188 => write!(f, "{:>-#0b}", v),
        189 => write!(f, "{:>-#0.p$b}", v, p = p),
        190 => write!(f, "{:>-#0w$b}", v, w = w),
        191 => write!(f, "{:>-#0w$.p$b}", v, w = w, p = p),
        192 => write!(f, "{:*<b}", v),
        193 => write!(f, "{:*<.p$b}", v, p = p),
        194 => write!(f, "{:*<w$b}", v, w = w),
        195 => write!(f, "{:*<w$.p$b}", v, w = w, p = p),
        196 => write!(f, "{:*<0b}", v),
        197 => write!(f, "{:*<0.p$b}", v, p = p),
        198 => write!(f, "{:*<0w$b}", v, w = w),
        199 => write!(f, "{:*<0w$.p$b}", v, w = w, p = p),
        200 => write!(f, "{:*<#b}", v),
        201 => write!(f, "{:*<#.p$b}", v, p = p),
        202 => write!(f, "{:*<#w$b}", v, w = w),
        203 => write!(f, "{:*<#w$.p$b}", v, w = w, p = p),
        204 => write!(f, "{:*<#0b}", v),
        205 => write!(f, "{:*<#0.p$b}", v, p = p),
        206 => write!(f, "{:*<#0w$b}", v, w = w),
        207 => write!(f, "{:*<#0w$.p$b}", v, w = w, p = p),
        208 => write!(f, "{:*<+b}", v),
        209 => write!(f, "{:*<+.p$b}", v, p = p),
        210 => write!(f, "{:*<+w$b}", v, w = w),
        211 => write!(f, "{:*<+w$.p$b}", v, w = w, p = p),
        212 => write!(f, "{:*<+0b}", v),
        213 => write!(f, "{:*<+0.p$b}", v, p = p),
        214 => write!(f, "{:*<+0w$b}", v, w = w),
        215 => write!(f, "{:*<+0w$.p$b}", v, w = w, p = p),
        216 => write!(f, "{:*<+#b}", v),
        217 => write!(f, "{:*<+#.p$b}", v, p = p),
        218 => write!(f, "{:*<+#w$b}", v, w = w),
        219 => write!(f, "{:*<+#w$.p$b}", v, w = w, p = p),
        220 => write!(f, "{:*<+#0b}", v),
        221 => write!(f, "{:*<+#0.p$b}", v, p = p),
        222 => write!(f, "{:*<+#0w$b}", v, w = w),
        223 => write!(f, "{:*<+#0w$.p$b}", v, w = w, p = p),
        224 => write!(f, "{:*<-b}", v),
        225 => write!(f, "{:*<-.p$b}", v, p = p),
        226 => write!(f, "{:*<-w$b}", v, w = w),
        227 => write!(f, "{:*<-w$.p$b}", v, w = w, p = p),
        228 => write!(f, "{:*<-0b}", v),
        229 => write!(f, "{:*<-0.p$b}", v, p = p),
        230 => write!(f, "{:*<-0w$b}", v, w = w),
        231 => write!(f, "{:*<-0w$.p$b}", v, w = w, p = p),
        232 => write!(f, "{:*<-#b}", v),
        233 => write!(f, "{:*<-#.p$b}", v, p = p),
        234 => write!(f, "{:*<-#w$b}", v, w = w),
        235 => write!(f, "{:*<-#w$.p$b}", v, w = w, p = p),
        236 => write!(f, "{:*<-#0b}", v),
        237 => write!(f, "{:*<-#0.p$b}", v, p = p),
        238 => write!(f, "{:*<-#0w$b}", v, w = w),
        239 => write!(f, "{:*<-#0w$.p$b}", v, w = w, p = p),
        240 => write!(f, "{:*^b}", v),
        241 => write!(f, "{:*^.p$b}", v, p = p),
        242 => write!(f, "{:*^w$b}", v, w = w),
        243 => write!(f, "{:*^w$.p$b}", v, w = w, p = p),
        244 => write!(f, "{:*^0b}", v),
        245 => write!(f, "{:*^0.p$b}", v, p = p),
        246 => write!(f, "{:*^0w$b}", v, w = w),
        247 => write!(f, "{:*^0w$.p$b}", v, w = w, p = p),
        248 => write!(f, "{:*^#b}", v),
        249 => write!(f, "{:*^#.p$b}", v, p = p),
        250 => write!(f, "{:*^#w$b}", v, w = w),
        251 => write!(f, "{:*^#w$.p$b}", v, w = w, p = p),
        252 => write!(f, "{:*^#0b}", v),
        253 => write!(f, "{:*^#0.p$b}", v, p = p),
        254 => write!(f, "{:*^#0w$b}", v, w = w),
        255 => write!(f, "{:*^#0w$.p$b}", v, w = w, p = p),
        256 => write!(f, "{:*^+b}", v),
        257 => write!(f, "{:*^+.p$b}", v, p = p),
        258 => write!(f, "{:*^+w$b}", v, w = w),
        259 => write!(f, "{:*^+w$.p$b}", v, w = w, p = p),
        260 => write!(f, "{:*^+0b}", v),
        261 => write!(f, "{:*^+0.p$b}", v, p = p),
        262 => write!(f, "{:*^+0w$b}", v, w = w),
        263 => write!(f, "{:*^+0w$.p$b}", v, w = w, p = p),
        264 => write!(f, "{:*^+#b}", v),
        265 => write!(f, "{:*^+#.p$b}", v, p = p),
        266 => write!(f, "{:*^+#w$b}", v, w = w),
        267 => write!(f, "{:*^+#w$.p$b}", v, w = w, p = p),
        268 => write!(f, "{:*^+#0b}", v),
        269 => write!(f, "{:*^+#0.p$b}", v, p = p),
        270 => write!(f, "{:*^+#0w$b}", v, w = w),
        271 => write!(f, "{:*^+#0w$.p$b}", v, w = w, p = p),
        272 => write!(f, "{:*^-b}", v),
        273 => write!(f, "{:*^-.p$b}", v, p = p),
        274 => write!(f, "{:*^-w$b}", v, w = w),
        275 => write!(f, "{:*^-w$.p$b}", v, w = w, p = p),
        276 => write!(f, "{:*^-0b}", v),
        277 => write!(f, "{:*^-0.p$b}", v, p = p),
        278 => write!(f, "{:*^-0w$b}", v, w = w),
        279 => write!(f, "{:*^-0w$.p$b}", v, w = w, p = p),
        280 => write!(f, "{:*^-#b}", v),
        281 => write!(f, "{:*^-#.p$b}", v, p = p),
        282 => write!(f, "{:*^-#w$b}", v, w = w),
        283 => write!(f, "{:*^-#w$.p$b}", v, w = w, p = p),
        284 => write!(f, "{:*^-#0b}", v),
        285 => write!(f, "{:*^-#0.p$b}", v, p = p),
        286 => write!(f, "{:*^-#0w$b}", v, w = w),
        287 => write!(f, "{:*^-#0w$.p$b}", v, w = w, p = p),
        288 => write!(f, "{:é>b}", v),
        289 => write!(f, "{:é>.p$b}", v, p = p),
        290 => write!(f, "{:é>w$b}", v, w = w),
        291 => write!(f, "{:é>w$.p$b}", v, w = w, p = p),
        292 => write!(f, "{:é>0b}", v),
        293 => write!(f, "{:é>0.p$b}", v, p = p),
        294 => write!(f, "{:é>0w$b}", v, w = w),
        295 => write!(f, "{:é>0w$.p$b}", v, w = w, p = p),
        296 => write!(f, "{:é>#b}", v),
        297 => write!(f, "{:é>#.p$b}", v, p = p),
        298 => write!(f, "{:é>#w$b}", v, w = w),
        299 => write!(f, "{:é>#w$.p$b}", v, w = w, p = p),
        300 => write!(f, "{:é>#0b}", v),
        301 => write!(f, "{:é>#0.p$b}", v, p = p),
        302 => write!(f, "{:é>#0w$b}", v, w = w),
        303 => write!(f, "{:é>#0w$.p$b}", v, w = w, p = p),
        304 => write!(f, "{:é>+b}", v),
        305 => write!(f, "{:é>+.p$b}", v, p = p),
        306 => write!(f, "{:é>+w$b}", v, w = w),
        307 => write!(f, "{:é>+w$.p$b}", v, w = w, p = p),
        308 => write!(f, "{:é>+0b}", v),
        309 => write!(f, "{:é>+0.p$b}", v, p = p),
        310 => write!(f, "{:é>+0w$b}", v, w = w),
        311 => write!(f, "{:é>+0w$.p$b}", v, w = w, p = p),
        312 => write!(f, "{:é>+#b}", v),
        313 => write!(f, "{:é>+#.p$b}", v, p = p),
        314 => write!(f, "{:é>+#w$b}", v, w = w),
        315 => write!(f, "{:é>+#w$.p$b}", v, w = w, p = p),
        316 => write!(f, "{:é>+#0b}", v),
        317 => write!(f, "{:é>+#0.p$b}", v, p = p),
        318 => write!(f, "{:é>+#0w$b}", v, w = w),
        319 => write!(f, "{:é>+#0w$.p$b}", v, w = w, p = p),
        320 => write!(f, "{:é>-b}", v),
        321 => write!(f, "{:é>-.p$b}", v, p = p),
        322 => write!(f, "{:é>-w$b}", v, w = w),
        323 => write!(f, "{:é>-w$.p$b}", v, w = w, p = p),
        324 => write!(f, "{:é>-0b}", v),
        325 => write!(f, "{:é>-0.p$b}", v, p = p),
        326 => write!(f, "{:é>-0w$b}", v, w = w),
        327 => write!(f, "{:é>-0w$.p$b}", v, w = w, p = p),
        328 => write!(f, "{:é>-#b}", v),
        329 => write!(f, "{:é>-#.p$b}", v, p = p),
        330 => write!(f, "{:é>-#w$b}", v, w = w),
        331 => write!(f, "{:é>-#w$.p$b}", v, w = w, p = p),
        332 => write!(f, "{:é>-#0b}", v),
        333 => write!(f, "{:é>-#0.p$b}", v, p = p),
        334 => write!(f, "{:é>-#0w$b}", v, w = w),
        335 => write!(f, "{:é>-#0w$.p$b}", v, w = w, p = p),
        _ => unreachable!(),
    }
}
pub fn pointer(i: usize, f: &mut dyn fmt::Write, v: &dyn Pointer, w: usize, p: usize) -> fmt::Result {
    let _ = (w, p);
    match i {
        0 => write!(f, "{:p}", P(v)),
        1 => write!(f, "{:.p$p}", P(v), p = p),
        2 => write!(f, "{:w$p}", P(v), w = w),
        3 => write!(f, "{:w$.p$p}", P(v), w = w, p = p),
        4 => write!(f, "{:0p}", P(v)),
        5 => write!(f, "{:0.p$p}", P(v), p = p),
        6 => write!(f, "{:0w$p}", P(v), w = w),
        7 => write!(f, "{:0w$.p$p}", P(v), w = w, p = p),
        8 => write!(f, "{:#p}", P(v)),
        9 => write!(f, "{:#.p$p}", P(v), p = p),
        10 => write!(f, "{:#w$p}", P(v), w = w),
        11 => write!(f, "{:#w$.p$p}", P(v), w = w, p = p),
        12 => write!(f, "{:#0p}", P(v)),
        13 => write!(f, "{:#0.p$p}", P(v), p = p),
        14 => write!(f, "{:#0w$p}", P(v), w = w),
        15 => write!(f, "{:#0w$.p$p}", P(v), w = w, p = p),
        16 => write!(f, "{:+p}", P(v)),
        17 => write!(f, "{:+.p$p}", P(v), p = p),
        18 => write!(f, "{:+w$p}", P(v), w = w),
        19 => write!(f, "{:+w$.p$p}", P(v), w = w, p = p),
        20 => write!(f, "{:+0p}", P(v)),
        21 => write!(f, "{:+0.p$p}", P(v), p = p),
        22 => write!(f, "{:+0w$p}", P(v), w = w),
        23 => write!(f, "{:+0w$.p$p}", P(v), w = w, p = p),
        24 => write!(f, "{:+#p}", P(v)),
        25 => write!(f, "{:+#.p$p}", P(v), p = p),
        26 => write!(f, "{:+#w$p}", P(v), w = w),
        27 => write!(f, "{:+#w$.p$p}", P(v), w = w, p = p),
        28 => write!(f, "{:+#0p}", P(v)),
        29 => write!(f, "{:+#0.p$p}", P(v), p = p),
        30 => write!(f, "{:+#0w$p}", P(v), w = w),
        31 => write!(f, "{:+#0w$.p$p}", P(v), w = w, p = p),
        32 => write!(f, "{:-p}", P(v)),
        33 => write!(f, "{:-.p$p}", P(v), p = p),
        34 => write!(f, "{:-w$p}", P(v), w = w),
        35 => write!(f, "{:-w$.p$p}", P(v), w = w, p = p),
        36 => write!(f, "{:-0p}", P(v)),
        37 => write!(f, "{:-0.p$p}", P(v), p = p),
        38 => write!(f, "{:-0w$p}", P(v), w = w),
        39 => write!(f, "{:-0w$.p$p}", P(v), w = w, p = p),
        40 => write!(f, "{:-#p}", P(v)),
        41 => write!(f, "{:-#.p$p}", P(v), p = p),
        42 => write!(f, "{:-#w$p}", P(v), w = w),
        43 => write!(f, "{:-#w$.p$p}", P(v), w = w, p = p),
        44 => write!(f, "{:-#0p}", P(v)),
        45 => write!(f, "{:-#0.p$p}", P(v), p = p),
        46 => write!(f, "{:-#0w$p}", P(v), w = w),
        47 => write!(f, "{:-#0w$.p$p}", P(v), w = w, p = p),
        48 => write!(f, "{:<p}", P(v)),
        49 => write!(f, "{:<.p$p}", P(v), p = p),
        50 => write!(f, "{:<w$p}", P(v), w = w),
        51 => write!(f, "{:<w$.p$p}", P(v), w = w, p = p),
        52 => write!(f, "{:<0p}", P(v)),
        53 => write!(f, "{:<0.p$p}", P(v), p = p),
        54 => write!(f, "{:<0w$p}", P(v), w = w),
        55 => write!(f, "{:<0w$.p$p}", P(v), w = w, p = p),
        56 => write!(f, "{:<#p}", P(v)),
        57 => write!(f, "{:<#.p$p}", P(v), p = p),
        58 => write!(f, "{:<#w$p}", P(v), w = w),
        59 => write!(f, "{:<#w$.p$p}", P(v), w = w, p = p),
        60 => write!(f, "{:<#0p}", P(v)),
        61 => write!(f, "{:<#0.p$p}", P(v), p = p),
        62 => write!(f, "{:<#0w$p}", P(v), w = w),
        63 => write!(f, "{:<#0w$.p$p}", P(v), w = w, p = p),
        64 => write!(f, "{:<+p}", P(v)),
        65 => write!(f, "{:<+.p$p}", P(v), p = p),
        66 => write!(f, "{:<+w$p}", P(v), w = w),
        67 => write!(f, "{:<+w$.p$p}", P(v), w = w, p = p),
        68 => write!(f, "{:<+0p}", P(v)),
        69 => write!(f, "{:<+0.p$p}", P(v), p = p),
        70 => write!(f, "{:<+0w$p}", P(v), w = w),
        71 => write!(f, "{:<+0w$.p$p}", P(v), w = w, p = p),
        72 => write!(f, "{:<+#p}", P(v)),
        73 => write!(f, "{:<+#.p$p}", P(v), p = p),
        74 => write!(f, "{:<+#w$p}", P(v), w = w),
        75 => write!(f, "{:<+#w$.p$p}", P(v), w = w, p = p),
        76 => write!(f, "{:<+#0p}", P(v)),
        77 => write!(f, "{:<+#0.p$p}", P(v), p = p),
        78 => write!(f, "{:<+#0w$p}", P(v), w = w),
        79 => write!(f, "{:<+#0w$.p$p}", P(v), w = w, p = p),
        80 => write!(f, "{:<-p}", P(v)),
        81 => write!(f, "{:<-.p$p}", P(v), p = p),
        82 => write!(f, "{:<-w$p}", P(v), w = w),
        83 => write!(f, "{:<-w$.p$p}", P(v), w = w, p = p),
        84 => write!(f, "{:<-0p}", P(v)),
        85 => write!(f, "{:<-0.p$p}", P(v), p = p),
        86 => write!(f, "{:<-0w$p}", P(v), w = w),
        87 => write!(f, "{:<-0w$.p$p}", P(v), w = w, p = p),
        88 => write!(f, "{:<-#p}", P(v)),
        89 => write!(f, "{:<-#.p$p}", P(v), p = p),
        90 => write!(f, "{:<-#w$p}", P(v), w = w),
        91 => write!(f, "{:<-#w$.p$p}", P(v), w = w, p = p),
        92 => write!(f, "{:<-#0p}", P(v)),
        93 => write!(f, "{:<-#0.p$p}", P(v), p = p),
        94 => write!(f, "{:<-#0w$p}", P(v), w = w),
        95 => write!(f, "{:<-#0w$.p$p}", P(v), w = w, p = p),
        96 => write!(f, "{:^p}", P(v)),
        97 => write!(f, "{:^.p$p}", P(v), p = p),
        98 => write!(f, "{:^w$p}", P(v), w = w),
        99 => write!(f, "{:^w$.p$p}", P(v), w = w, p = p),
        100 => write!(f, "{:^0p}", P(v)),
        101 => write!(f, "{:^0.p$p}", P(v), p = p),
        102 => write!(f, "{:^0w$p}", P(v), w = w),
        103 => write!(f, "{:^0w$.p$p}", P(v), w = w, p = p),
        104 => write!(f, "{:^#p}", P(v)),
        105 => write!(f, "{:^#.p$p}", P(v), p = p),
        106 => write!(f, "{:^#w$p}", P(v), w = w),
        107 => write!(f, "{:^#w$.p$p}", P(v), w = w, p = p),
        108 => write!(f, "{:^#0p}", P(v)),
        109 => write!(f, "{:^#0.p$p}", P(v), p = p),
        110 => write!(f, "{:^#0w$p}", P(v), w = w),
        111 => write!(f, "{:^#0w$.p$p}", P(v), w = w, p = p),
        112 => write!(f, "{:^+p}", P(v)),
        113 => write!(f, "{:^+.p$p}", P(v), p = p),
        114 => write!(f, "{:^+w$p}", P(v), w = w),
        115 => write!(f, "{:^+w$.p$p}", P(v), w = w, p = p),
        116 => write!(f, "{:^+0p}", P(v)),
        117 => write!(f, "{:^+0.p$p}", P(v), p = p),
        118 => write!(f, "{:^+0w$p}", P(v), w = w),
        119 => write!(f, "{:^+0w$.p$p}", P(v), w = w, p = p),
        120 => write!(f, "{:^+#p}", P(v)),
        121 => write!(f, "{:^+#.p$p}", P(v), p = p),
        122 => write!(f, "{:^+#w$p}", P(v), w = w),
        123 => write!(f, "{:^+#w$.p$p}", P(v), w = w, p = p),
        124 => write!(f, "{:^+#0p}", P(v)),
        125 => write!(f, "{:^+#0.p$p}", P(v), p = p),
        126 => write!(f, "{:^+#0w$p}", P(v), w = w),
        127 => write!(f, "{:^+#0w$.p$p}", P(v), w = w, p = p),
        128 => write!(f, "{:^-p}", P(v)),
        129 => write!(f, "{:^-.p$p}", P(v), p = p),
        130 => write!(f, "{:^-w$p}", P(v), w = w),
        131 => write!(f, "{:^-w$.p$p}", P(v), w = w, p = p),
        132 => write!(f, "{:^-0p}", P(v)),
        133 => write!(f, "{:^-0.p$p}", P(v), p = p),
        134 => write!(f, "{:^-0w$p}", P(v), w = w),
        135 => write!(f, "{:^-0w$.p$p}", P(v), w = w, p = p),
        136 => write!(f, "{:^-#p}", P(v)),
        137 => write!(f, "{:^-#.p$p}", P(v), p = p),
        138 => write!(f, "{:^-#w$p}", P(v), w = w),
        139 => write!(f, "{:^-#w$.p$p}", P(v), w = w, p = p),
        140 => write!(f, "{:^-#0p}", P(v)),
        141 => write!(f, "{:^-#0.p$p}", P(v), p = p),
        142 => write!(f, "{:^-#0w$p}", P(v), w = w),
        143 => write!(f, "{:^-#0w$.p$p}", P(v), w = w, p = p),
        144 => write!(f, "{:>p}", P(v)),
        145 => write!(f, "{:>.p$p}", P(v), p = p),
        146 => write!(f, "{:>w$p}", P(v), w = w),
        147 => write!(f, "{:>w$.p$p}", P(v), w = w, p = p),
        148 => write!(f, "{:>0p}", P(v)),
        149 => write!(f, "{:>0.p$p}", P(v), p = p),
        150 => write!(f, "{:>0w$p}", P(v), w = w),
        151 => write!(f, "{:>0w$.p$p}", P(v), w = w, p = p),
        152 => write!(f, "{:>#p}", P(v)),
        153 => write!(f, "{:>#.p$p}", P(v), p = p),
        154 => write!(f, "{:>#w$p}", P(v), w = w),
        155 => write!(f, "{:>#w$.p$p}", P(v), w = w, p = p),
        156 => write!(f, "{:>#0p}", P(v)),
        157 => write!(f, "{:>#0.p$p}", P(v), p = p),
        158 => write!(f, "{:>#0w$p}", P(v), w = w),
        159 => write!(f, "{:>#0w$.p$p}", P(v), w = w, p = p),
        160 => write!(f, "{:>+p}", P(v)),
        161 => write!(f, "{:>+.p$p}", P(v), p = p),
        162 => write!(f, "{:>+w$p}", P(v), w = w),
        163 => write!(f, "{:>+w$.p$p}", P(v), w = w, p = p),
        164 => write!(f, "{:>+0p}", P(v)),
        165 => write!(f, "{:>+0.p$p}", P(v), p = p),
        166 => write!(f, "{:>+0w$p}", P(v), w = w),
        167 => write!(f, "{:>+0w$.p$p}", P(v), w = w, p = p),
        168 => write!(f, "{:>+#p}", P(v)),
        169 => write!(f, "{:>+#.p$p}", P(v), p = p),
        170 => write!(f, "{:>+#w$p}", P(v), w = w),
        171 => write!(f, "{:>+#w$.p$p}", P(v), w = w, p = p),
        172 => write!(f, "{:>+#0p}", P(v)),
        173 => write!(f, "{:>+#0.p$p}", P(v), p = p),
        174 => write!(f, "{:>+#0w$p}", P(v), w = w),
        175 => write!(f, "{:>+#0w$.p$p}", P(v), w = w, p = p),
        176 => write!(f, "{:>-p}", P(v)),
        177 => write!(f, "{:>-.p$p}", P(v), p = p),
        178 => write!(f, "{:>-w$p}", P(v), w = w),
        179 => write!(f, "{:>-w$.p$p}", P(v), w = w, p = p),
        180 => write!(f, "{:>-0p}", P(v)),
        181 => write!(f, "{:>-0.p$p}", P(v), p = p),
        182 => write!(f, "{:>-0w$p}", P(v), w = w),
        183 => write!(f, "{:>-0w$.p$p}", P(v), w = w, p = p),
        184 => write!(f, "{:>-#p}", P(v)),
        185 => write!(f, "{:>-#.p$p}", P(v), p = p),
        186 => write!(f, "{:>-#w$p}", P(v), w = w),
        187 => write!(f, "{:>-#w$.p$p}", P(v), w = w, p = p),
        188 => write!(f, "{:>-#0p}", P(v)),
        189 => write!(f, "{:>-#0.p$p}", P(v), p = p),
        190 => write!(f, "{:>-#0w$p}", P(v), w = w),
        191 => write!(f, "{:>-#0w$.p$p}", P(v), w = w, p = p),
        192 => write!(f, "{:*<p}", P(v)),
        193 => write!(f, "{:*<.p$p}", P(v), p = p),
        194 => write!(f, "{:*<w$p}", P(v), w = w),
        195 => write!(f, "{:*<w$.p$p}", P(v), w = w, p = p),
        196 => write!(f, "{:*<0p}", P(v)),
        197 => write!(f, "{:*<0.p$p}", P(v), p = p),
        198 => write!(f, "{:*<0w$p}", P(v), w = w),
        199 => write!(f, "{:*<0w$.p$p}", P(v), w = w, p = p),
        200 => write!(f, "{:*<#p}", P(v)),
        201 => write!(f, "{:*<#.p$p}", P(v), p = p),
        202 => write!(f, "{:*<#w$p}", P(v), w = w),
        203 => write!(f, "{:*<#w$.p$p}", P(v), w = w, p = p),
        204 => write!(f, "{:*<#0p}", P(v)),
        205 => write!(f, "{:*<#0.p$p}", P(v), p = p),
        206 => write!(f, "{:*<#0w$p}", P(v), w = w),
        207 => write!(f, "{:*<#0w$.p$p}", P(v), w = w, p = p),
        208 => write!(f, "{:*<+p}", P(v)),
        209 => write!(f, "{:*<+.p$p}", P(v), p = p),
        210 => write!(f, "{:*<+w$p}", P(v), w = w),
        211 => write!(f, "{:*<+w$.p$p}", P(v), w = w, p = p),
        212 => write!(f, "{:*<+0p}", P(v)),
        213 => write!(f, "{:*<+0.p$p}", P(v), p = p),
        214 => write!(f, "{:*<+0w$p}", P(v), w = w),
        215 => write!(f, "{:*<+0w$.p$p}", P(v), w = w, p = p),
        216 => write!(f, "{:*<+#p}", P(v)),
        217 => write!(f, "{:*<+#.p$p}", P(v), p = p),
        218 => write!(f, "{:*<+#w$p}", P(v), w = w),
        219 => write!(f, "{:*<+#w$.p$p}", P(v), w = w, p = p),
        220 => write!(f, "{:*<+#0p}", P(v)),
        221 => write!(f, "{:*<+#0.p$p}", P(v), p = p),
        222 => write!(f, "{:*<+#0w$p}", P(v), w = w),
        223 => write!(f, "{:*<+#0w$.p$p}", P(v), w = w, p = p),
        224 => write!(f, "{:*<-p}", P(v)),
        225 => write!(f, "{:*<-.p$p}", P(v), p = p),
        226 => write!(f, "{:*<-w$p}", P(v), w = w),
        227 => write!(f, "{:*<-w$.p$p}", P(v), w = w, p = p),
        228 => write!(f, "{:*<-0p}", P(v)),
        229 => write!(f, "{:*<-0.p$p}", P(v), p = p),
        230 => write!(f, "{:*<-0w$p}", P(v), w = w),
        231 => write!(f, "{:*<-0w$.p$p}", P(v), w = w, p = p),
        232 => write!(f, "{:*<-#p}", P(v)),
        233 => write!(f, "{:*<-#.p$p}", P(v), p = p),
        234 => write!(f, "{:*<-#w$p}", P(v), w = w),
        235 => write!(f, "{:*<-#w$.p$p}", P(v), w = w, p = p),
        236 => write!(f, "{:*<-#0p}", P(v)),
        237 => write!(f, "{:*<-#0.p$p}", P(v), p = p),
        238 => write!(f, "{:*<-#0w$p}", P(v), w = w),
        239 => write!(f, "{:*<-#0w$.p$p}", P(v), w = w, p = p),
        240 => write!(f, "{:*^p}", P(v)),
        241 => write!(f, "{:*^.p$p}", P(v), p = p),
        242 => write!(f, "{:*^w$p}", P(v), w = w),
        243 => write!(f, "{:*^w$.p$p}", P(v), w = w, p = p),
        244 => write!(f, "{:*^0p}", P(v)),
        245 => write!(f, "{:*^0.p$p}", P(v), p = p),
        246 => write!(f, "{:*^0w$p}", P(v), w = w),
        247 => write!(f, "{:*^0w$.p$p}", P(v), w = w, p = p),
        248 => write!(f, "{:*^#p}", P(v)),
        249 => write!(f, "{:*^#.p$p}", P(v), p = p),
        250 => write!(f, "{:*^#w$p}", P(v), w = w),
        251 => write!(f, "{:*^#w$.p$p}", P(v), w = w, p = p),
        252 => write!(f, "{:*^#0p}", P(v)),
        253 => write!(f, "{:*^#0.p$p}", P(v), p = p),
        254 => write!(f, "{:*^#0w$p}", P(v), w = w),
        255 => write!(f, "{:*^#0w$.p$p}", P(v), w = w, p = p),
        256 => write!(f, "{:*^+p}", P(v)),
        257 => write!(f, "{:*^+.p$p}", P(v), p = p),
        258 => write!(f, "{:*^+w$p}", P(v), w = w),
        259 => write!(f, "{:*^+w$.p$p}", P(v), w = w, p = p),
        260 => write!(f, "{:*^+0p}", P(v)),
        261 => write!(f, "{:*^+0.p$p}", P(v), p = p),
        262 => write!(f, "{:*^+0w$p}", P(v), w = w),
        263 => write!(f, "{:*^+0w$.p$p}", P(v), w = w, p = p),
        264 => write!(f, "{:*^+#p}", P(v)),
        265 => write!(f, "{:*^+#.p$p}", P(v), p = p),
        266 => write!(f, "{:*^+#w$p}", P(v), w = w),
        267 => write!(f, "{:*^+#w$.p$p}", P(v), w = w, p = p),
        268 => write!(f, "{:*^+#0p}", P(v)),
        269 => write!(f, "{:*^+#0.p$p}", P(v), p = p),
        270 => write!(f, "{:*^+#0w$p}", P(v), w = w),
        271 => write!(f, "{:*^+#0w$.p$p}", P(v), w = w, p = p),
        272 => write!(f, "{:*^-p}", P(v)),
        273 => write!(f, "{:*^-.p$p}", P(v), p = p),
        274 => write!(f, "{:*^-w$p}", P(v), w = w),
        275 => write!(f, "{:*^-w$.p$p}", P(v), w = w, p = p),
        276 => write!(f, "{:*^-0p}", P(v)),
        277 => write!(f, "{:*^-0.p$p}", P(v), p = p),
        278 => write!(f, "{:*^-0w$p}", P(v), w = w),
        279 => write!(f, "{:*^-0w$.p$p}", P(v), w = w, p = p),
        280 => write!(f, "{:*^-#p}", P(v)),
        281 => write!(f, "{:*^-#.p$p}", P(v), p = p),
        282 => write!(f, "{:*^-#w$p}", P(v), w = w),
        283 => write!(f, "{:*^-#w$.p$p}", P(v), w = w, p = p),
        284 => write!(f, "{:*^-#0p}", P(v)),
        285 => write!(f, "{:*^-#0.p$p}", P(v), p = p),
        286 => write!(f, "{:*^-#0w$p}", P(v), w = w),
        287 => write!(f, "{:*^-#0w$.p$p}", P(v), w = w, p = p),
        288 => write!(f, "{:é>p}", P(v)),
        289 => write!(f, "{:é>.p$p}", P(v), p = p),
        290 => write!(f, "{:é>w$p}", P(v), w = w),
        291 => write!(f, "{:é>w$.p$p}", P(v), w = w, p = p),
        292 => write!(f, "{:é>0p}", P(v)),
        293 => write!(f, "{:é>0.p$p}", P(v), p = p),
        294 => write!(f, "{:é>0w$p}", P(v), w = w),
        295 => write!(f, "{:é>0w$.p$p}", P(v), w = w, p = p),
        296 => write!(f, "{:é>#p}", P(v)),
        297 => write!(f, "{:é>#.p$p}", P(v), p = p),
        298 => write!(f, "{:é>#w$p}", P(v), w = w),
        299 => write!(f, "{:é>#w$.p$p}", P(v), w = w, p = p),
        300 => write!(f, "{:é>#0p}", P(v)),
        301 => write!(f, "{:é>#0.p$p}", P(v), p = p),
        302 => write!(f, "{:é>#0w$p}", P(v), w = w),
        303 => write!(f, "{:é>#0w$.p$p}", P(v), w = w, p = p),
        304 => write!(f, "{:é>+p}", P(v)),
        305 => write!(f, "{:é>+.p$p}", P(v), p = p),
        306 => write!(f, "{:é>+w$p}", P(v), w = w),
        307 => write!(f, "{:é>+w$.p$p}", P(v), w = w, p = p),
        308 => write!(f, "{:é>+0p}", P(v)),
        309 => write!(f, "{:é>+0.p$p}", P(v), p = p),
        310 => write!(f, "{:é>+0w$p}", P(v), w = w),
        311 => write!(f, "{:é>+0w$.p$p}", P(v), w = w, p = p),
        312 => write!(f, "{:é>+#p}", P(v)),
        313 => write!(f, "{:é>+#.p$p}", P(v), p = p),
        314 => write!(f, "{:é>+#w$p}", P(v), w = w),
        315 => write!(f, "{:é>+#w$.p$p}", P(v), w = w, p = p),
        316 => write!(f, "{:é>+#0p}", P(v)),
        317 => write!(f, "{:é>+#0.p$p}", P(v), p = p),
        318 => write!(f, "{:é>+#0w$p}", P(v), w = w),
        319 => write!(f, "{:é>+#0w$.p$p}", P(v), w = w, p = p),
        320 => write!(f, "{:é>-p}", P(v)),
        321 => write!(f, "{:é>-.p$p}", P(v), p = p),
        322 => write!(f, "{:é>-w$p}", P(v), w = w),
        323 => write!(f, "{:é>-w$.p$p}", P(v), w = w, p = p),
        324 => write!(f, "{:é>-0p}", P(v)),
        325 => write!(f, "{:é>-0.p$p}", P(v), p = p),
        326 => write!(f, "{:é>-0w$p}", P(v), w = w),
        327 => write!(f, "{:é>-0w$.p$p}", P(v), w = w, p = p),
        328 => write!(f, "{:é>-#p}", P(v)),
        329 => write!(f, "{:é>-#.p$p}", P(v), p = p),
        330 => write!(f, "{:é>-#w$p}", P(v), w = w),
        331 => write!(f, "{:é>-#w$.p$p}", P(v), w = w, p = p),
        332 => write!(f, "{:é>-#0p}", P(v)),
        333 => write!(f, "{:é>-#0.p$p}", P(v), p = p),
        334 => write!(f, "{:é>-#0w$p}", P(v), w = w),
        335 => write!(f, "{:é>-#0w$.p$p}", P(v), w = w, p = p),
        _ => unreachable!(),
    }
}
pub fn debug(i: usize, f: &mut dyn fmt::Write, v: &dyn Debug, w: usize, p: usize) -> fmt::Result {
    let _ = (w, p);
    match i {
        0 => write!(f, "{:?}", v),
        1 => write!(f, "{:.p$?}", v, p = p),
        2 => write!(f, "{:w$?}", v, w = w),
        3 => write!(f, "{:w$.p$?}", v, w = w, p = p),
        4 => write!(f, "{:0?}", v),
        5 => write!(f, "{:0.p$?}", v, p = p),
        6 => write!(f, "{:0w$?}", v, w = w),
        7 => write!(f, "{:0w$.p$?}", v, w = w, p = p),
        8 => write!(f, "{:#?}", v),
        9 => write!(f, "{:#.p$?}", v, p = p),
        10 => write!(f, "{:#w$?}", v, w = w),
        11 => write!(f, "{:#w$.p$?}", v, w = w, p = p),
        12 => write!(f, "{:#0?}", v),
        13 => write!(f, "{:#0.p$?}", v, p = p),
        14 => write!(f, "{:#0w$?}", v, w = w),
        15 => write!(f, "{:#0w$.p$?}", v, w = w, p = p),
        16 => write!(f, "{:+?}", v),
        17 => write!(f, "{:+.p$?}", v, p = p),
        18 => write!(f, "{:+w$?}", v, w = w),
        19 => write!(f, "{:+w$.p$?}", v, w = w, p = p),
        20 => write!(f, "{:+0?}", v),
        21 => write!(f, "{:+0.p$?}", v, p = p),
        22 => write!(f, "{:+0w$?}", v, w = w),
        23 => write!(f, "{:+0w$.p$?}", v, w = w, p = p),
        24 => write!(f, "{:+#?}", v),
        25 => write!(f, "{:+#.p$?}", v, p = p),
        26 => write!(f, "{:+#w$?}", v, w = w),
        27 => write!(f, "{:+#w$.p$?}", v, w = w, p = p),
        28 => write!(f, "{:+#0?}", v),
        29 => write!(f, "{:+#0.p$?}", v, p = p),
        30 => write!(f, "{:+#0w$?}", v, w = w),
        31 => write!(f, "{:+#0w$.p$?}", v, w = w, p = p),
        32 => write!(f, "{:-?}", v),
        33 => write!(f, "{:-.p$?}", v, p = p),
        34 => write!(f, "{:-w$?}", v, w = w),
        35 => write!(f, "{:-w$.p$?}", v, w = w, p = p),
        36 => write!(f, "{:-0?}", v),
        37 => write!(f, "{:-0.p$?}", v, p = p),
        38 => write!(f, "{:-0w$?}", v, w = w),
        39 => write!(f, "{:-0w$.p$?}", v, w = w, p = p),
        40 => write!(f, "{:-#?}", v),
        41 => write!(f, "{:-#.p$?}", v, p = p),
        42 => write!(f, "{:-#w$?}", v, w = w),
        43 => write!(f, "{:-#w$.p$?}", v, w = w, p = p),
        44 => write!(f, "{:-#0?}", v),
        45 => write!(f, "{:-#0.p$?}", v, p = p),
        46 => write!(f, "{:-#0w$?}", v, w = w),
        47 => write!(f, "{:-#0w$.p$?}", v, w = w, p = p),
        48 => write!(f, "{:<?}", v),
        49 => write!(f, "{:<.p$?}", v, p = p),
        50 => write!(f, "{:<w$?}", v, w = w),
        51 => write!(f, "{:<w$.p$?}", v, w = w, p = p),
        52 => write!(f, "{:<0?}", v),
        53 => write!(f, "{:<0.p$?}", v, p = p),
        54 => write!(f, "{:<0w$?}", v, w = w),
        55 => write!(f, "{:<0w$.p$?}", v, w = w, p = p),
        56 => write!(f, "{:<#?}", v),
        57 => write!(f, "{:<#.p$?}", v, p = p),
        58 => write!(f, "{:<#w$?}", v, w = w),
        59 => write!(f, "{:<#w$.p$?}", v, w = w, p = p),
        60 => write!(f, "{:<#0?}", v),
        61 => write!(f, "{:<#0.p$?}", v, p = p),
        62 => write!(f, "{:<#0w$?}", v, w = w),
        63 => write!(f, "{:<#0w$.p$?}", v, w = w, p = p),
        64 => write!(f, "{:<+?}", v),
        65 => write!(f, "{:<+.p$?}", v, p = p),
        66 => write!(f, "{:<+w$?}", v, w = w),
        67 => write!(f, "{:<+w$.p$?}", v, w = w, p = p),
        68 => write!(f, "{:<+0?}", v),
        69 => write!(f, "{:<+0.p$?}", v, p = p),
        70 => write!(f, "{:<+0w$?}", v, w = w),
        71 => write!(f, "{:<+0w$.p$?}", v, w = w, p = p),
        72 => write!(f, "{:<+#?}", v),
        73 => write!(f, "{:<+#.p$?}", v, p = p),
        74 => write!(f, "{:<+#w$?}", v, w = w),
        75 => write!(f, "{:<+#w$.p$?}", v, w = w, p = p),
        76 => write!(f, "{:<+#0?}", v),
        77 => write!(f, "{:<+#0.p$?}", v, p = p),
        78 => write!(f, "{:<+#0w$?}", v, w = w),
        79 => write!(f, "{:<+#0w$.p$?}", v, w = w, p = p),
        80 => write!(f, "{:<-?}", v),
        81 => write!(f, "{:<-.p$?}", v, p = p),
        82 => write!(f, "{:<-w$?}", v, w = w),
        83 => write!(f, "{:<-w$.p$?}", v, w = w, p = p),
        84 => write!(f, "{:<-0?}", v),
        85 => write!(f, "{:<-0.p$?}", v, p = p),
        86 => write!(f, "{:<-0w$?}", v, w = w),
        87 => write!(f, "{:<-0w$.p$?}", v, w = w, p = p),
        88 => write!(f, "{:<-#?}", v),
        89 => write!(f, "{:<-#.p$?}", v, p = p),
        90 => write!(f, "{:<-#w$?}", v, w = w),
        91 => write!(f, "{:<-#w$.p$?}", v, w = w, p = p),
        92 => write!(f, "{:<-#0?}", v),
        93 => write!(f, "{:<-#0.p$?}", v, p = p),
        94 => write!(f, "{:<-#0w$?}", v, w = w),
        95 => write!(f, "{:<-#0w$.p$?}", v, w = w, p = p),
        96 => write!(f, "{:^?}", v),
        97 => write!(f, "{:^.p$?}", v, p = p),
        98 => write!(f, "{:^w$?}", v, w = w),
        99 => write!(f, "{:^w$.p$?}", v, w = w, p = p),
        100 => write!(f, "{:^0?}", v),
        101 => write!(f, "{:^0.p$?}", v, p = p),
        102 => write!(f, "{:^0w$?}", v, w = w),
        103 => write!(f, "{:^0w$.p$?}", v, w = w, p = p),
        104 => write!(f, "{:^#?}", v),
        105 => write!(f, "{:^#.p$?}", v, p = p),
        106 => write!(f, "{:^#w$?}", v, w = w),
        107 => write!(f, "{:^#w$.p$?}", v, w = w, p = p),
        108 => write!(f, "{:^#0?}", v),
        109 => write!(f, "{:^#0.p$?}", v, p = p),
        110 => write!(f, "{:^#0w$?}", v, w = w),
        111 => write!(f, "{:^#0w$.p$?}", v, w = w, p = p),
        112 => write!(f, "{:^+?}", v),
        113 => write!(f, "{:^+.p$?}", v, p = p),
        114 => write!(f, "{:^+w$?}", v, w = w),
        115 => write!(f, "{:^+w$.p$?}", v, w = w, p = p),
        116 => write!(f, "{:^+0?}", v),
        117 => write!(f, "{:^+0.p$?}", v, p = p),
        118 => write!(f, "{:^+0w$?}", v, w = w),
        119 => write!(f, "{:^+0w$.p$?}", v, w = w, p = p),
        120 => write!(f, "{:^+#?}", v),
        121 => write!(f, "{:^+#.p$?}", v, p = p),
        122 => write!(f, "{:^+#w$?}", v, w = w),
        123 => write!(f, "{:^+#w$.p$?}", v, w = w, p = p),
        124 => write!(f, "{:^+#0?}", v),
        125 => write!(f, "{:^+#0.p$?}", v, p = p),
        126 => write!(f, "{:^+#0w$?}", v, w = w),
        127 => write!(f, "{:^+#0w$.p$?}", v, w = w, p = p),
        128 => write!(f, "{:^-?}", v),
        129 => write!(f, "{:^-.p$?}", v, p = p),
        130 => write!(f, "{:^-w$?}", v, w = w),
        131 => write!(f, "{:^-w$.p$?}", v, w = w, p = p),
        132 => write!(f, "{:^-0?}", v),
        133 => write!(f, "{:^-0.p$?}", v, p = p),
        134 => write!(f, "{:^-0w$?}", v, w = w),
        135 => write!(f, "{:^-0w$.p$?}", v, w = w, p = p),
        136 => write!(f, "{:^-#?}", v),
        137 => write!(f, "{:^-#.p$?}", v, p = p),
        138 => write!(f, "{:^-#w$?}", v, w = w),
        139 => write!(f, "{:^-#w$.p$?}", v, w = w, p = p),
        140 => write!(f, "{:^-#0?}", v),
        141 => write!(f, "{:^-#0.p$?}", v, p = p),
        142 => write!(f, "{:^-#0w$?}", v, w = w),
        143 => write!(f, "{:^-#0w$.p$?}", v, w = w, p = p),
        144 => write!(f, "{:>?}", v),
        145 => write!(f, "{:>.p$?}", v, p = p),
        146 => write!(f, "{:>w$?}", v, w = w),
        147 => write!(f, "{:>w$.p$?}", v, w = w, p = p),
        148 => write!(f, "{:>0?}", v),
        149 => write!(f, "{:>0.p$?}", v, p = p),
        150 => write!(f, "{:>0w$?}", v, w = w),
        151 => write!(f, "{:>0w$.p$?}", v, w = w, p = p),
        152 => write!(f, "{:>#?}", v),
        153 => write!(f, "{:>#.p$?}", v, p = p),
        154 => write!(f, "{:>#w$?}", v, w = w),
        155 => write!(f, "{:>#w$.p$?}", v, w = w, p = p),
        156 => write!(f, "{:>#0?}", v),
        157 => write!(f, "{:>#0.p$?}", v, p = p),
        158 => write!(f, "{:>#0w$?}", v, w = w),
        159 => write!(f, "{:>#0w$.p$?}", v, w = w, p = p),
        160 => write!(f, "{:>+?}", v),
        161 => write!(f, "{:>+.p$?}", v, p = p),
        162 => write!(f, "{:>+w$?}", v, w = w),
        163 => write!(f, "{:>+w$.p$?}", v, w = w, p = p),
        164 => write!(f, "{:>+0?}", v),
        165 => write!(f, "{:>+0.p$?}", v, p = p),
        166 => write!(f, "{:>+0w$?}", v, w = w),
        167 => write!(f, "{:>+0w$.p$?}", v, w = w, p = p),
        168 => write!(f, "{:>+#?}", v),
        169 => write!(f, "{:>+#.p$?}", v, p = p),
        170 => write!(f, "{:>+#w$?}", v, w = w),
        171 => write!(f, "{:>+#w$.p$?}", v, w = w, p = p),
        172 => write!(f, "{:>+#0?}", v),
        173 => write!(f, "{:>+#0.p$?}", v, p = p),
        174 => write!(f, "{:>+#0w$?}", v, w = w),
        175 => write!(f, "{:>+#0w$.p$?}", v, w = w, p = p),
        176 => write!(f, "{:>-?}", v),
        177 => write!(f, "{:>-.p$?}", v, p = p),
        178 => write!(f, "{:>-w$?}", v, w = w),
        179 => write!(f, "{:>-w$.p$?}", v, w = w, p = p),
        180 => write!(f, "{:>-0?}", v),
        181 => write!(f, "{:>-0.p$?}", v, p = p),
        182 => write!(f, "{:>-0w$?}", v, w = w),
        183 => write!(f, "{:>-0w$.p$?}", v, w = w, p = p),
        184 => write!(f, "{:>-#?}", v),
        185 => write!(f, "{:>-#.p$?}", v, p = p),
        186 => write!(f, "{:>-#w$?}", v, w = w),
        187 => write!(f, "{:>-#w$.p$?}", v, w = w, p = p),
        188 => write!(f, "{:>-#0?}", v),
        189 => write!(f, "{:>-#0.p$?}", v, p = p),
        190 => write!(f, "{:>-#0w$?}", v, w = w),
        191 => write!(f, "{:>-#0w$.p$?}", v, w = w, p = p),
        192 => write!(f, "{:*<?}", v),
        193 => write!(f, "{:*<.p$?}", v, p = p),
        194 => write!(f, "{:*<w$?}", v, w = w),
        195 => write!(f, "{:*<w$.p$?}", v, w = w, p = p),
        196 => write!(f, "{:*<0?}", v),
        197 => write!(f, "{:*<0.p$?}", v, p = p),
        198 => write!(f, "{:*<0w$?}", v, w = w),
        199 => write!(f, "{:*<0w$.p$?}", v, w = w, p = p),
        200 => write!(f, "{:*<#?}", v),
        201 => write!(f, "{:*<#.p$?}", v, p = p),
        202 => write!(f, "{:*<#w$?}", v, w = w),
        203 => write!(f, "{:*<#w$.p$?}", v, w = w, p = p),
        204 => write!(f, "{:*<#0?}", v),
        205 => write!(f, "{:*<#0.p$?}", v, p = p),
        206 => write!(f, "{:*<#0w$?}", v, w = w),
        207 => write!(f, "{:*<#0w$.p$?}", v, w = w, p = p),
        208 => write!(f, "{:*<+?}", v),
        209 => write!(f, "{:*<+.p$?}", v, p = p),
        210 => write!(f, "{:*<+w$?}", v, w = w),
        211 => write!(f, "{:*<+w$.p$?}", v, w = w, p = p),
        212 => write!(f, "{:*<+0?}", v),
        213 => write!(f, "{:*<+0.p$?}", v, p = p),
        214 => write!(f, "{:*<+0w$?}", v, w = w),
        215 => write!(f, "{:*<+0w$.p$?}", v, w = w, p = p),
        216 => write!(f, "{:*<+#?}", v),
        217 => write!(f, "{:*<+#.p$?}", v, p = p),
        218 => write!(f, "{:*<+#w$?}", v, w = w),
        219 => write!(f, "{:*<+#w$.p$?}", v, w = w, p = p),
        220 => write!(f, "{:*<+#0?}", v),
        221 => write!(f, "{:*<+#0.p$?}", v, p = p),
        222 => write!(f, "{:*<+#0w$?}", v, w = w),
        223 => write!(f, "{:*<+#0w$.p$?}", v, w = w, p = p),
        224 => write!(f, "{:*<-?}", v),
        225 => write!(f, "{:*<-.p$?}", v, p = p),
        226 => write!(f, "{:*<-w$?}", v, w = w),
        227 => write!(f, "{:*<-w$.p$?}", v, w = w, p = p),
        228 => write!(f, "{:*<-0?}", v),
        229 => write!(f, "{:*<-0.p$?}", v, p = p),
        230 => write!(f, "{:*<-0w$?}", v, w = w),
        231 => write!(f, "{:*<-0w$.p$?}", v, w = w, p = p),
        232 => write!(f, "{:*<-#?}", v),
        233 => write!(f, "{:*<-#.p$?}", v, p = p),
        234 => write!(f, "{:*<-#w$?}", v, w = w),
        235 => write!(f, "{:*<-#w$.p$?}", v, w = w, p = p),
        236 => write!(f, "{:*<-#0?}", v),
        237 => write!(f, "{:*<-#0.p$?}", v, p = p),
        238 => write!(f, "{:*<-#0w$?}", v, w = w),
        239 => write!(f, "{:*<-#0w$.p$?}", v, w = w, p = p),
        240 => write!(f, "{:*^?}", v),
        241 => write!(f, "{:*^.p$?}", v, p = p),
        242 => write!(f, "{:*^w$?}", v, w = w),
        243 => write!(f, "{:*^w$.p$?}", v, w = w, p = p),
        244 => write!(f, "{:*^0?}", v),
        245 => write!(f, "{:*^0.p$?}", v, p = p),
        246 => write!(f, "{:*^0w$?}", v, w = w),
        247 => write!(f, "{:*^0w$.p$?}", v, w = w, p = p),
        248 => write!(f, "{:*^#?}", v),
        249 => write!(f, "{:*^#.p$?}", v, p = p),
        250 => write!(f, "{:*^#w$?}", v, w = w),
        251 => write!(f, "{:*^#w$.p$?}", v, w = w, p = p),
        252 => write!(f, "{:*^#0?}", v),
        253 => write!(f, "{:*^#0.p$?}", v, p = p),
        254 => write!(f, "{:*^#0w$?}", v, w = w),
        255 => write!(f, "{:*^#0w$.p$?}", v, w = w, p = p),
        256 => write!(f, "{:*^+?}", v),
        257 => write!(f, "{:*^+.p$?}", v, p = p),
        258 => write!(f, "{:*^+w$?}", v, w = w),
        259 => write!(f, "{:*^+w$.p$?}", v, w = w, p = p),
        260 => write!(f, "{:*^+0?}", v),
        261 => write!(f, "{:*^+0.p$?}", v, p = p),
        262 => write!(f, "{:*^+0w$?}", v, w = w),
        263 => write!(f, "{:*^+0w$.p$?}", v, w = w, p = p),
        264 => write!(f, "{:*^+#?}", v),
        265 => write!(f, "{:*^+#.p$?}", v, p = p),
        266 => write!(f, "{:*^+#w$?}", v, w = w),
        267 => write!(f, "{:*^+#w$.p$?}", v, w = w, p = p),
        268 => write!(f, "{:*^+#0?}", v),
        269 => write!(f, "{:*^+#0.p$?}", v, p = p),
        270 => write!(f, "{:*^+#0w$?}", v, w = w),
        271 => write!(f, "{:*^+#0w$.p$?}", v, w = w, p = p),
        272 => write!(f, "{:*^-?}", v),
        273 => write!(f, "{:*^-.p$?}", v, p = p),
        274 => write!(f, "{:*^-w$?}", v, w = w),
        275 => write!(f, "{:*^-w$.p$?}", v, w = w, p = p),
        276 => write!(f, "{:*^-0?}", v),
        277 => write!(f, "{:*^-0.p$?}", v, p = p),
        278 => write!(f, "{:*^-0w$?}", v, w = w),
        279 => write!(f, "{:*^-0w$.p$?}", v, w = w, p = p),
        280 => write!(f, "{:*^-#?}", v),
        281 => write!(f, "{:*^-#.p$?}", v, p = p),
        282 => write!(f, "{:*^-#w$?}", v, w = w),
        283 => write!(f, "{:*^-#w$.p$?}", v, w = w, p = p),
        284 => write!(f, "{:*^-#0?}", v),
        285 => write!(f, "{:*^-#0.p$?}", v, p = p),
        286 => write!(f, "{:*^-#0w$?}", v, w = w),
        287 => write!(f, "{:*^-#0w$.p$?}", v, w = w, p = p),
        288 => write!(f, "{:é>?}", v),
        289 => write!(f, "{:é>.p$?}", v, p = p),
        290 => write!(f, "{:é>w$?}", v, w = w),
        291 => write!(f, "{:é>w$.p$?}", v, w = w, p = p),
        292 => write!(f, "{:é>0?}", v),
        293 => write!(f, "{:é>0.p$?}", v, p = p),
        294 => write!(f, "{:é>0w$?}", v, w = w),
        295 => write!(f, "{:é>0w$.p$?}", v, w = w, p = p),
        296 => write!(f, "{:é>#?}", v),
        297 => write!(f, "{:é>#.p$?}", v, p = p),
        298 => write!(f, "{:é>#w$?}", v, w = w),
        299 => write!(f, "{:é>#w$.p$?}", v, w = w, p = p),
        300 => write!(f, "{:é>#0?}", v),
        301 => write!(f, "{:é>#0.p$?}", v, p = p),
        302 => write!(f, "{:é>#0w$?}", v, w = w),
        303 => write!(f, "{:é>#0w$.p$?}", v, w = w, p = p),
        304 => write!(f, "{:é>+?}", v),
        305 => write!(f, "{:é>+.p$?}", v, p = p),
        306 => write!(f, "{:é>+w$?}", v, w = w),
        307 => write!(f, "{:é>+w$.p$?}", v, w = w, p = p),
        308 => write!(f, "{:é>+0?}", v),
        309 => write!(f, "{:é>+0.p$?}", v, p = p),
        310 => write!(f, "{:é>+0w$?}", v, w = w),
        311 => write!(f, "{:é>+0w$.p$?}", v, w = w, p = p),
        312 => write!(f, "{:é>+#?}", v),
        313 => write!(f, "{:é>+#.p$?}", v, p = p),
        314 => write!(f, "{:é>+#w$?}", v, w = w),
        315 => write!(f, "{:é>+#w$.p$?}", v, w = w, p = p),
        316 => write!(f, "{:é>+#0?}", v),
        317 => write!(f, "{:é>+#0.p$?}", v, p = p),
        318 => write!(f, "{:é>+#0w$?}", v, w = w),
        319 => write!(f, "{:é>+#0w$.p$?}", v, w = w, p = p),
        320 => write!(f, "{:é>-?}", v),
        321 => write!(f, "{:é>-.p$?}", v, p = p),
        322 => write!(f, "{:é>-w$?}", v, w = w),
        323 => write!(f, "{:é>-w$.p$?}", v, w = w, p = p),
        324 => write!(f, "{:é>-0?}", v),
        325 => write!(f, "{:é>-0.p$?}", v, p = p),
        326 => write!(f, "{:é>-0w$?}", v, w = w),
        327 => write!(f, "{:é>-0w$.p$?}", v, w = w, p = p),
        328 => write!(f, "{:é>-#?}", v),
        329 => write!(f, "{:é>-#.p$?}", v, p = p),
        330 => write!(f, "{:é>-#w$?}", v, w = w),
        331 => write!(f, "{:é>-#w$.p$?}", v, w = w, p = p),
        332 => write!(f, "{:é>-#0?}", v),
        333 => write!(f, "{:é>-#0.p$?}", v, p = p),
        334 => write!(f, "{:é>-#0w$?}", v, w = w),
        335 => write!(f, "{:é>-#0w$.p$?}", v, w = w, p = p),
        _ => unreachable!(),
    }
}
pub fn debug_lx(i: usize, f: &mut dyn fmt::Write, v: &dyn Debug, w: usize, p: usize) -> fmt::Result {
    let _ = (w, p);
    match i {
        0 => write!(f, "{:x?}", v),
        1 => write!(f, "{:.p$x?}", v, p = p),
        2 => write!(f, "{:w$x?}", v, w = w),
        3 => write!(f, "{:w$.p$x?}", v, w = w, p = p),
        4 => write!(f, "{:0x?}", v),
        5 => write!(f, "{:0.p$x?}", v, p = p),
        6 => write!(f, "{:0w$x?}", v, w = w),
        7 => write!(f, "{:0w$.p$x?}", v, w = w, p = p),
        8 => write!(f, "{:#x?}", v),
        9 => write!(f, "{:#.p$x?}", v, p = p),
        10 => write!(f, "{:#w$x?}", v, w = w),
        11 => write!(f, "{:#w$.p$x?}", v, w = w, p = p),
        12 => write!(f, "{:#0x?}", v),
        13 => write!(f, "{:#0.p$x?}", v, p = p),
        14 => write!(f, "{:#0w$x?}", v, w = w),
        15 => write!(f, "{:#0w$.p$x?}", v, w = w, p = p),
        16 => write!(f, "{:+x?}", v),
        17 => write!(f, "{:+.p$x?}", v, p = p),
        18 => write!(f, "{:+w$x?}", v, w = w),
        19 => write!(f, "{:+w$.p$x?}", v, w = w, p = p),
        20 => write!(f, "{:+0x?}", v),
        21 => write!(f, "{:+0.p$x?}", v, p = p),
        22 => write!(f, "{:+0w$x?}", v, w = w),
        23 => write!(f, "{:+0w$.p$x?}", v, w = w, p = p),
        24 => write!(f, "{:+#x?}", v),
        25 => write!(f, "{:+#.p$x?}", v, p = p),
        26 => write!(f, "{:+#w$x?}", v, w = w),
        27 => write!(f, "{:+#w$.p$x?}", v, w = w, p = p),
        28 => write!(f, "{:+#0x?}", v),
        29 => write!(f, "{:+#0.p$x?}", v, p = p),
        30 => write!(f, "{:+#0w$x?}", v, w = w),
        31 => write!(f, "{:+#0w$.p$x?}", v, w = w, p = p),
        32 => write!(f, "{:-x?}", v),
        33 => write!(f, "{:-.p$x?}", v, p = p),
        34 => write!(f, "{:-w$x?}", v, w = w),
        35 => write!(f, "{:-w$.p$x?}", v, w = w, p = p),
        36 => write!(f, "{:-0x?}", v),
        37 => write!(f, "{:-0.p$x?}", v, p = p),
        38 => write!(f, "{:-0w$x?}", v, w = w),
        39 => write!(f, "{:-0w$.p$x?}", v, w = w, p = p),
        40 => write!(f, "{:-#x?}", v),
        41 => write!(f, "{:-#.p$x?}", v, p = p),
        42 => write!(f, "{:-#w$x?}", v, w = w),
        43 => write!(f, "{:-#w$.p$x?}", v, w = w, p = p),
        44 => write!(f, "{:-#0x?}", v),
        45 => write!(f, "{:-#0.p$x?}", v, p = p),
        46 => write!(f, "{:-#0w$x?}", v, w = w),
        47 => write!(f, "{:-#0w$.p$x?}", v, w = w, p = p),
        48 => write!(f, "{:<x?}", v),
        49 => write!(f, "{:<.p$x?}", v, p = p),
        50 => write!(f, "{:<w$x?}", v, w = w),
        51 => write!(f, "{:<w$.p$x?}", v, w = w, p = p),
        52 => write!(f, "{:<0x?}", v),
        53 => write!(f, "{:<0.p$x?}", v, p = p),
        54 => write!(f, "{:<0w$x?}", v, w = w),
        55 => write!(f, "{:<0w$.p$x?}", v, w = w, p = p),
        56 => write!(f, "{:<#x?}", v),
        57 => write!(f, "{:<#.p$x?}", v, p = p),
        58 => write!(f, "{:<#w$x?}", v, w = w),
        59 => write!(f, "{:<#w$.p$x?}", v, w = w, p = p),
        60 => write!(f, "{:<#0x?}", v),
        61 => write!(f, "{:<#0.p$x?}", v, p = p),
        62 => write!(f, "{:<#0w$x?}", v, w = w),
        63 => write!(f, "{:<#0w$.p$x?}", v, w = w, p = p),
        64 => write!(f, "{:<+x?}", v),
        65 => write!(f, "{:<+.p$x?}", v, p = p),
        66 => write!(f, "{:<+w$x?}", v, w = w),
        67 => write!(f, "{:<+w$.p$x?}", v, w = w, p = p),
        68 => write!(f, "{:<+0x?}", v),
        69 => write!(f, "{:<+0.p$x?}", v, p = p),
        70 => write!(f, "{:<+0w$x?}", v, w = w),
        71 => write!(f, "{:<+0w$.p$x?}", v, w = w, p = p),
        72 => write!(f, "{:<+#x?}", v),
        73 => write!(f, "{:<+#.p$x?}", v, p = p),
        74 => write!(f, "{:<+#w$x?}", v, w = w),
        75 => write!(f, "{:<+#w$.p$x?}", v, w = w, p = p),
        76 => write!(f, "{:<+#0x?}", v),
        77 => write!(f, "{:<+#0.p$x?}", v, p = p),
        78 => write!(f, "{:<+#0w$x?}", v, w = w),
        79 => write!(f, "{:<+#0w$.p$x?}", v, w = w, p = p),
        80 => write!(f, "{:<-x?}", v),
        81 => write!(f, "{:<-.p$x?}", v, p = p),
        82 => write!(f, "{:<-w$x?}", v, w = w),
        83 => write!(f, "{:<-w$.p$x?}", v, w = w, p = p),
        84 => write!(f, "{:<-0x?}", v),
        85 => write!(f, "{:<-0.p$x?}", v, p = p),
        86 => write!(f, "{:<-0w$x?}", v, w = w),
        87 => write!(f, "{:<-0w$.p$x?}", v, w = w, p = p),
        88 => write!(f, "{:<-#x?}", v),
        89 => write!(f, "{:<-#.p$x?}", v, p = p),
        90 => write!(f, "{:<-#w$x?}", v, w = w),
        91 => write!(f, "{:<-#w$.p$x?}", v, w = w, p = p),
        92 => write!(f, "{:<-#0x?}", v),
        93 => write!(f, "{:<-#0.p$x?}", v, p = p),
        94 => write!(f, "{:<-#0w$x?}", v, w = w),
        95 => write!(f, "{:<-#0w$.p$x?}", v, w = w, p = p),
        96 => write!(f, "{:^x?}", v),
        97 => write!(f, "{:^.p$x?}", v, p = p),
        98 => write!(f, "{:^w$x?}", v, w = w),
        99 => write!(f, "{:^w$.p$x?}", v, w = w, p = p),
        100 => write!(f, "{:^0x?}", v),
        101 => write!(f, "{:^0.p$x?}", v, p = p),
        102 => write!(f, "{:^0w$x?}", v, w = w),
        103 => write!(f, "{:^0w$.p$x?}", v, w = w, p = p),
        104 => write!(f, "{:^#x?}", v),
        105 => write!(f, "{:^#.p$x?}", v, p = p),
        106 => write!(f, "{:^#w$x?}", v, w = w),
        107 => write!(f, "{:^#w$.p$x?}", v, w = w, p = p),
        108 => write!(f, "{:^#0x?}", v),
        109 => write!(f, "{:^#0.p$x?}", v, p = p),
        110 => write!(f, "{:^#0w$x?}", v, w = w),
        111 => write!(f, "{:^#0w$.p$x?}", v, w = w, p = p),
        112 => write!(f, "{:^+x?}", v),
        113 => write!(f, "{:^+.p$x?}", v, p = p),
        114 => write!(f, "{:^+w$x?}", v, w = w),
        115 => write!(f, "{:^+w$.p$x?}", v, w = w, p = p),
        116 => write!(f, "{:^+0x?}", v),
        117 => write!(f, "{:^+0.p$x?}", v, p = p),
        118 => write!(f, "{:^+0w$x?}", v, w = w),
        119 => write!(f, "{:^+0w$.p$x?}", v, w = w, p = p),
        120 => write!(f, "{:^+#x?}", v),
        121 => write!(f, "{:^+#.p$x?}", v, p = p),
        122 => write!(f, "{:^+#w$x?}", v, w = w),
        123 => write!(f, "{:^+#w$.p$x?}", v, w = w, p = p),
        124 => write!(f, "{:^+#0x?}", v),
        125 => write!(f, "{:^+#0.p$x?}", v, p = p),
        126 => write!(f, "{:^+#0w$x?}", v, w = w),
        127 => write!(f, "{:^+#0w$.p$x?}", v, w = w, p = p),
        128 => write!(f, "{:^-x?}", v),
        129 => write!(f, "{:^-.p$x?}", v, p = p),
        130 => write!(f, "{:^-w$x?}", v, w = w),
        131 => write!(f, "{:^-w$.p$x?}", v, w = w, p = p),
        132 => write!(f, "{:^-0x?}", v),
        133 => write!(f, "{:^-0.p$x?}", v, p = p),
        134 => write!(f, "{:^-0w$x?}", v, w = w),
        135 => write!(f, "{:^-0w$.p$x?}", v, w = w, p = p),
        136 => write!(f, "{:^-#x?}", v),
        137 => write!(f, "{:^-#.p$x?}", v, p = p),
        138 => write!(f, "{:^-#w$x?}", v, w = w),
        139 => write!(f, "{:^-#w$.p$x?}", v, w = w, p = p),
        140 => write!(f, "{:^-#0x?}", v),
        141 => write!(f, "{:^-#0.p$x?}", v, p = p),
        142 => write!(f, "{:^-#0w$x?}", v, w = w),
        143 => write!(f, "{:^-#0w$.p$x?}", v, w = w, p = p),
        144 => write!(f, "{:>x?}", v),
        145 => write!(f, "{:>.p$x?}", v, p = p),
        146 => write!(f, "{:>w$x?}", v, w = w),
        147 => write!(f, "{:>w$.p$x?}", v, w = w, p = p),
        148 => write!(f, "{:>0x?}", v),
        149 => write!(f, "{:>0.p$x?}", v, p = p),
        150 => write!(f, "{:>0w$x?}", v, w = w),
        151 => write!(f, "{:>0w$.p$x?}", v, w = w, p = p),
        152 => write!(f, "{:>#x?}", v),
        153 => write!(f, "{:>#.p$x?}", v, p = p),
        154 => write!(f, "{:>#w$x?}", v, w = w),
        155 => write!(f, "{:>#w$.p$x?}", v, w = w, p = p),
        156 => write!(f, "{:>#0x?}", v),
        157 => write!(f, "{:>#0.p$x?}", v, p = p),
        158 => write!(f, "{:>#0w$x?}", v, w = w),
        159 => write!(f, "{:>#0w$.p$x?}", v, w = w, p = p),
        160 => write!(f, "{:>+x?}", v),
        161 => write!(f, "{:>+.p$x?}", v, p = p),
        162 => write!(f, "{:>+w$x?}", v, w = w),
        163 => write!(f, "{:>+w$.p$x?}", v, w = w, p = p),
        164 => write!(f, "{:>+0x?}", v),
        165 => write!(f, "{:>+0.p$x?}", v, p = p),
        166 => write!(f, "{:>+0w$x?}", v, w = w),
        167 => write!(f, "{:>+0w$.p$x?}", v, w = w, p = p),
        168 => write!(f, "{:>+#x?}", v),
        169 => write!(f, "{:>+#.p$x?}", v, p = p),
        170 => write!(f, "{:>+#w$x?}", v, w = w),
        171 => write!(f, "{:>+#w$.p$x?}", v, w = w, p = p),
        172 => write!(f, "{:>+#0x?}", v),
        173 => write!(f, "{:>+#0.p$x?}", v, p = p),
        174 => write!(f, "{:>+#0w$x?}", v, w = w),
        175 => write!(f, "{:>+#0w$.p$x?}", v, w = w, p = p),
        176 => write!(f, "{:>-x?}", v),
        177 => write!(f, "{:>-.p$x?}", v, p = p),
        178 => write!(f, "{:>-w$x?}", v, w = w),
        179 => write!(f, "{:>-w$.p$x?}", v, w = w, p = p),
        180 => write!(f, "{:>-0x?}", v),
        181 => write!(f, "{:>-0.p$x?}", v, p = p),
        182 => write!(f, "{:>-0w$x?}", v, w = w),
        183 => write!(f, "{:>-0w$.p$x?}", v, w = w, p = p),
        184 => write!(f, "{:>-#x?}", v),
        185 => write!(f, "{:>-#.p$x?}", v, p = p),
        186 => write!(f, "{:>-#w$x?}", v, w = w),
        187 => write!(f, "{:>-#w$.p$x?}", v, w = w, p = p),
        188 => write!(f, "{:>-#0x?}", v),
        189 => write!(f, "{:>-#0.p$x?}", v, p = p),
        190 => write!(f, "{:>-#0w$x?}", v, w = w),
        191 => write!(f, "{:>-#0w$.p$x?}", v, w = w, p = p),
        192 => write!(f, "{:*<x?}", v),
        193 => write!(f, "{:*<.p$x?}", v, p = p),
        194 => write!(f, "{:*<w$x?}", v, w = w),
        195 => write!(f, "{:*<w$.p$x?}", v, w = w, p = p),
        196 => write!(f, "{:*<0x?}", v),
        197 => write!(f, "{:*<0.p$x?}", v, p = p),
        198 => write!(f, "{:*<0w$x?}", v, w = w),
        199 => write!(f, "{:*<0w$.p$x?}", v, w = w, p = p),
        200 => write!(f, "{:*<#x?}", v),
        201 => write!(f, "{:*<#.p$x?}", v, p = p),
        202 => write!(f, "{:*<#w$x?}", v, w = w),
        203 => write!(f, "{:*<#w$.p$x?}", v, w = w, p = p),
        204 => write!(f, "{:*<#0x?}", v),
        205 => write!(f, "{:*<#0.p$x?}", v, p = p),
        206 => write!(f, "{:*<#0w$x?}", v, w = w),
        207 => write!(f, "{:*<#0w$.p$x?}", v, w = w, p = p),
        208 => write!(f, "{:*<+x?}", v),
        209 => write!(f, "{:*<+.p$x?}", v, p = p),
        210 => write!(f, "{:*<+w$x?}", v, w = w),
        211 => write!(f, "{:*<+w$.p$x?}", v, w = w, p = p),
        212 => write!(f, "{:*<+0x?}", v),
        213 => write!(f, "{:*<+0.p$x?}", v, p = p),
        214 => write!(f, "{:*<+0w$x?}", v, w = w),
        215 => write!(f, "{:*<+0w$.p$x?}", v, w = w, p = p),
        216 => write!(f, "{:*<+#x?}", v),
        217 => write!(f, "{:*<+#.p$x?}", v, p = p),
        218 => write!(f, "{:*<+#w$x?}", v, w = w),
        219 => write!(f, "{:*<+#w$.p$x?}", v, w = w, p = p),
        220 => write!(f, "{:*<+#0x?}", v),
        221 => write!(f, "{:*<+#0.p$x?}", v, p = p),
        222 => write!(f, "{:*<+#0w$x?}", v, w = w),
        223 => write!(f, "{:*<+#0w$.p$x?}", v, w = w, p = p),
        224 => write!(f, "{:*<-x?}", v),
        225 => write!(f, "{:*<-.p$x?}", v, p = p),
        226 => write!(f, "{:*<-w$x?}", v, w = w),
        227 => write!(f, "{:*<-w$.p$x?}", v, w = w, p = p),
        228 => write!(f, "{:*<-0x?}", v),
        229 => write!(f, "{:*<-0.p$x?}", v, p = p),
        230 => write!(f, "{:*<-0w$x?}", v, w = w),
        231 => write!(f, "{:*<-0w$.p$x?}", v, w = w, p = p),
        232 => write!(f, "{:*<-#x?}", v),
        233 => write!(f, "{:*<-#.p$x?}", v, p = p),
        234 => write!(f, "{:*<-#w$x?}", v, w = w),
        235 => write!(f, "{:*<-#w$.p$x?}", v, w = w, p = p),
        236 => write!(f, "{:*<-#0x?}", v),
        237 => write!(f, "{:*<-#0.p$x?}", v, p = p),
        238 => write!(f, "{:*<-#0w$x?}", v, w = w),
        239 => write!(f, "{:*<-#0w$.p$x?}", v, w = w, p = p),
        240 => write!(f, "{:*^x?}", v),
        241 => write!(f, "{:*^.p$x?}", v, p = p),
        242 => write!(f, "{:*^w$x?}", v, w = w),
        243 => write!(f, "{:*^w$.p$x?}", v, w = w, p = p),
        244 => write!(f, "{:*^0x?}", v),
        245 => write!(f, "{:*^0.p$x?}", v, p = p),
        246 => write!(f, "{:*^0w$x?}", v, w = w),
        247 => write!(f, "{:*^0w$.p$x?}", v, w = w, p = p),
        248 => write!(f, "{:*^#x?}", v),
        249 => write!(f, "{:*^#.p$x?}", v, p = p),
        250 => write!(f, "{:*^#w$x?}", v, w = w),
        251 => write!(f, "{:*^#w$.p$x?}", v, w = w, p = p),
        252 => write!(f, "{:*^#0x?}", v),
        253 => write!(f, "{:*^#0.p$x?}", v, p = p),
        254 => write!(f, "{:*^#0w$x?}", v, w = w),
        255 => write!(f, "{:*^#0w$.p$x?}", v, w = w, p = p),
        256 => write!(f, "{:*^+x?}", v),
        257 => write!(f, "{:*^+.p$x?}", v, p = p),
        258 => write!(f, "{:*^+w$x?}", v, w = w),
        259 => write!(f, "{:*^+w$.p$x?}", v, w = w, p = p),
        260 => write!(f, "{:*^+0x?}", v),
        261 => write!(f, "{:*^+0.p$x?}", v, p = p),
        262 => write!(f, "{:*^+0w$x?}", v, w = w),
        263 => write!(f, "{:*^+0w$.p$x?}", v, w = w, p = p),
        264 => write!(f, "{:*^+#x?}", v),
        265 => write!(f, "{:*^+#.p$x?}", v, p = p),
        266 => write!(f, "{:*^+#w$x?}", v, w = w),
        267 => write!(f, "{:*^+#w$.p$x?}", v, w = w, p = p),
        268 => write!(f, "{:*^+#0x?}", v),
        269 => write!(f, "{:*^+#0.p$x?}", v, p = p),
        270 => write!(f, "{:*^+#0w$x?}", v, w = w),
        271 => write!(f, "{:*^+#0w$.p$x?}", v, w = w, p = p),
        272 => write!(f, "{:*^-x?}", v),
        273 => write!(f, "{:*^-.p$x?}", v, p = p),
        274 => write!(f, "{:*^-w$x?}", v, w = w),
        275 => write!(f, "{:*^-w$.p$x?}", v, w = w, p = p),
        276 => write!(f, "{:*^-0x?}", v),
        277 => write!(f, "{:*^-0.p$x?}", v, p = p),
        278 => write!(f, "{:*^-0w$x?}", v, w = w),
        279 => write!(f, "{:*^-0w$.p$x?}", v, w = w, p = p),
        280 => write!(f, "{:*^-#x?}", v),
        281 => write!(f, "{:*^-#.p$x?}", v, p = p),
        282 => write!(f, "{:*^-#w$x?}", v, w = w),
        283 => write!(f, "{:*^-#w$.p$x?}", v, w = w, p = p),
        284 => write!(f, "{:*^-#0x?}", v),
        285 => write!(f, "{:*^-#0.p$x?}", v, p = p),
        286 => write!(f, "{:*^-#0w$x?}", v, w = w),
        287 => write!(f, "{:*^-#0w$.p$x?}", v, w = w, p = p),
        288 => write!(f, "{:é>x?}", v),
        289 => write!(f, "{:é>.p$x?}", v, p = p),
        290 => write!(f, "{:é>w$x?}", v, w = w),
        291 => write!(f, "{:é>w$.p$x?}", v, w = w, p = p),
        292 => write!(f, "{:é>0x?}", v),
        293 => write!(f, "{:é>0.p$x?}", v, p = p),
        294 => write!(f, "{:é>0w$x?}", v, w = w),
        295 => write!(f, "{:é>0w$.p$x?}", v, w = w, p = p),
        296 => write!(f, "{:é>#x?}", v),
        297 => write!(f, "{:é>#.p$x?}", v, p = p),
        298 => write!(f, "{:é>#w$x?}", v, w = w),
        299 => write!(f, "{:é>#w$.p$x?}", v, w = w, p = p),
        300 => write!(f, "{:é>#0x?}", v),
        301 => write!(f, "{:é>#0.p$x?}", v, p = p),
        302 => write!(f, "{:é>#0w$x?}", v, w = w),
        303 => write!(f, "{:é>#0w$.p$x?}", v, w = w, p = p),
        304 => write!(f, "{:é>+x?}", v),
        305 => write!(f, "{:é>+.p$x?}", v, p = p),
        306 => write!(f, "{:é>+w$x?}", v, w = w),
        307 => write!(f, "{:é>+w$.p$x?}", v, w = w, p = p),
        308 => write!(f, "{:é>+0x?}", v),
        309 => write!(f, "{:é>+0.p$x?}", v, p = p),
        310 => write!(f, "{:é>+0w$x?}", v, w = w),
        311 => write!(f, "{:é>+0w$.p$x?}", v, w = w, p = p),
        312 => write!(f, "{:é>+#x?}", v),
        313 => write!(f, "{:é>+#.p$x?}", v, p = p),
        314 => write!(f, "{:é>+#w$x?}", v, w = w),
        315 => write!(f, "{:é>+#w$.p$x?}", v, w = w, p = p),
        316 => write!(f, "{:é>+#0x?}", v),
        317 => write!(f, "{:é>+#0.p$x?}", v, p = p),
        318 => write!(f, "{:é>+#0w$x?}", v, w = w),
        319 => write!(f, "{:é>+#0w$.p$x?}", v, w = w, p = p),
        320 => write!(f, "{:é>-x?}", v),
        321 => write!(f, "{:é>-.p$x?}", v, p = p),
        322 => write!(f, "{:é>-w$x?}", v, w = w),
        323 => write!(f, "{:é>-w$.p$x?}", v, w = w, p = p),
        324 => write!(f, "{:é>-0x?}", v),
        325 => write!(f, "{:é>-0.p$x?}", v, p = p),
        326 => write!(f, "{:é>-0w$x?}", v, w = w),
        327 => write!(f, "{:é>-0w$.p$x?}", v, w = w, p = p),
        328 => write!(f, "{:é>-#x?}", v),
        329 => write!(f, "{:é>-#.p$x?}", v, p = p),
        330 => write!(f, "{:é>-#w$x?}", v, w = w),
        331 => write!(f, "{:é>-#w$.p$x?}", v, w = w, p = p),
        332 => write!(f, "{:é>-#0x?}", v),
        333 => write!(f, "{:é>-#0.p$x?}", v, p = p),
        334 => write!(f, "{:é>-#0w$x?}", v, w = w),
        335 => write!(f, "{:é>-#0w$.p$x?}", v, w = w, p = p),
        _ => unreachable!(),
    }
}
pub fn debug_ux(i: usize, f: &mut dyn fmt::Write, v: &dyn Debug, w: usize, p: usize) -> fmt::Result {
    let _ = (w, p);
    match i {
        0 => write!(f, "{:X?}", v),
        1 => write!(f, "{:.p$X?}", v, p = p),
        2 => write!(f, "{:w$X?}", v, w = w),
        3 => write!(f, "{:w$.p$X?}", v, w = w, p = p),
        4 => write!(f, "{:0X?}", v),
        5 => write!(f, "{:0.p$X?}", v, p = p),
        6 => write!(f, "{:0w$X?}", v, w = w),
        7 => write!(f, "{:0w$.p$X?}", v, w = w, p = p),
        8 => write!(f, "{:#X?}", v),
        9 => write!(f, "{:#.p$X?}", v, p = p),
        10 => write!(f, "{:#w$X?}", v, w = w),
        11 => write!(f, "{:#w$.p$X?}", v, w = w, p = p),
        12 => write!(f, "{:#0X?}", v),
        13 => write!(f, "{:#0.p$X?}", v, p = p),
        14 => write!(f, "{:#0w$X?}", v, w = w),
        15 => write!(f, "{:#0w$.p$X?}", v, w = w, p = p),
        16 => write!(f, "{:+X?}", v),
        17 => write!(f, "{:+.p$X?}", v, p = p),
        18 => write!(f, "{:+w$X?}", v, w = w),
        19 => write!(f, "{:+w$.p$X?}", v, w = w, p = p),
        20 => write!(f, "{:+0X?}", v),
        21 => write!(f, "{:+0.p$X?}", v, p = p),
        22 => write!(f, "{:+0w$X?}", v, w = w),
        23 => write!(f, "{:+0w$.p$X?}", v, w = w, p = p),
        24 => write!(f, "{:+#X?}", v),
        25 => write!(f, "{:+#.p$X?}", v, p = p),
        26 => write!(f, "{:+#w$X?}", v, w = w),
        27 => write!(f, "{:+#w$.p$X?}", v, w = w, p = p),
        28 => write!(f, "{:+#0X?}", v),
        29 => write!(f, "{:+#0.p$X?}", v, p = p),
        30 => write!(f, "{:+#0w$X?}", v, w = w),
        31 => write!(f, "{:+#0w$.p$X?}", v, w = w, p = p),
        32 => write!(f, "{:-X?}", v),
        33 => write!(f, "{:-.p$X?}", v, p = p),
        34 => write!(f, "{:-w$X?}", v, w = w),
        35 => write!(f, "{:-w$.p$X?}", v, w = w, p = p),
        36 => write!(f, "{:-0X?}", v),
        37 => write!(f, "{:-0.p$X?}", v, p = p),
        38 => write!(f, "{:-0w$X?}", v, w = w),
        39 => write!(f, "{:-0w$.p$X?}", v, w = w, p = p),
        40 => write!(f, "{:-#X?}", v),
        41 => write!(f, "{:-#.p$X?}", v, p = p),
        42 => write!(f, "{:-#w$X?}", v, w = w),
        43 => write!(f, "{:-#w$.p$X?}", v, w = w, p = p),
        44 => write!(f, "{:-#0X?}", v),
        45 => write!(f, "{:-#0.p$X?}", v, p = p),
        46 => write!(f, "{:-#0w$X?}", v, w = w),
        47 => write!(f, "{:-#0w$.p$X?}", v, w = w, p = p),
        48 => write!(f, "{:<X?}", v),
        49 => write!(f, "{:<.p$X?}", v, p = p),
        50 => write!(f, "{:<w$X?}", v, w = w),
        51 => write!(f, "{:<w$.p$X?}", v, w = w, p = p),
        52 => write!(f, "{:<0X?}", v),
        53 => write!(f, "{:<0.p$X?}", v, p = p),
        54 => write!(f, "{:<0w$X?}", v, w = w),
        55 => write!(f, "{:<0w$.p$X?}", v, w = w, p = p),
        56 => write!(f, "{:<#X?}", v),
        57 => write!(f, "{:<#.p$X?}", v, p = p),
        58 => write!(f, "{:<#w$X?}", v, w = w),
        59 => write!(f, "{:<#w$.p$X?}", v, w = w, p = p),
        60 => write!(f, "{:<#0X?}", v),
        61 => write!(f, "{:<#0.p$X?}", v, p = p),
        62 => write!(f, "{:<#0w$X?}", v, w = w),
        63 => write!(f, "{:<#0w$.p$X?}", v, w = w, p = p),
        64 => write!(f, "{:<+X?}", v),
        65 => write!(f, "{:<+.p$X?}", v, p = p),
        66 => write!(f, "{:<+w$X?}", v, w = w),
        67 => write!(f, "{:<+w$.p$X?}", v, w = w, p = p),
        68 => write!(f, "{:<+0X?}", v),
        69 => write!(f, "{:<+0.p$X?}", v, p = p),
        70 => write!(f, "{:<+0w$X?}", v, w = w),
        71 => write!(f, "{:<+0w$.p$X?}", v, w = w, p = p),
        72 => write!(f, "{:<+#X?}", v),
        73 => write!(f, "{:<+#.p$X?}", v, p = p),
        74 => write!(f, "{:<+#w$X?}", v, w = w),
        75 => write!(f, "{:<+#w$.p$X?}", v, w = w, p = p),
        76 => write!(f, "{:<+#0X?}", v),
        77 => write!(f, "{:<+#0.p$X?}", v, p = p),
        78 => write!(f, "{:<+#0w$X?}", v, w = w),
        79 => write!(f, "{:<+#0w$.p$X?}", v, w = w, p = p),
        80 => write!(f, "{:<-X?}", v),
        81 => write!(f, "{:<-.p$X?}", v, p = p),
        82 => write!(f, "{:<-w$X?}", v, w = w),
        83 => write!(f, "{:<-w$.p$X?}", v, w = w, p = p),
        84 => write!(f, "{:<-0X?}", v),
        85 => write!(f, "{:<-0.p$X?}", v, p = p),
        86 => write!(f, "{:<-0w$X?}", v, w = w),
        87 => write!(f, "{:<-0w$.p$X?}", v, w = w, p = p),
        88 => write!(f, "{:<-#X?}", v),
        89 => write!(f, "{:<-#.p$X?}", v, p = p),
        90 => write!(f, "{:<-#w$X?}", v, w = w),
        91 => write!(f, "{:<-#w$.p$X?}", v, w = w, p = p),
        92 => write!(f, "{:<-#0X?}", v),
        93 => write!(f, "{:<-#0.p$X?}", v, p = p),
        94 => write!(f, "{:<-#0w$X?}", v, w = w),
        95 => write!(f, "{:<-#0w$.p$X?}", v, w = w, p = p),
        96 => write!(f, "{:^X?}", v),
        97 => write!(f, "{:^.p$X?}", v, p = p),
        98 => write!(f, "{:^w$X?}", v, w = w),
        99 => write!(f, "{:^w$.p$X?}", v, w = w, p = p),
        100 => write!(f, "{:^0X?}", v),
        101 => write!(f, "{:^0.p$X?}", v, p = p),
        102 => write!(f, "{:^0w$X?}", v, w = w),
        103 => write!(f, "{:^0w$.p$X?}", v, w = w, p = p),
        104 => write!(f, "{:^#X?}", v),
        105 => write!(f, "{:^#.p$X?}", v, p = p),
        106 => write!(f, "{:^#w$X?}", v, w = w),
        107 => write!(f, "{:^#w$.p$X?}", v, w = w, p = p),
        108 => write!(f, "{:^#0X?}", v),
        109 => write!(f, "{:^#0.p$X?}", v, p = p),
        110 => write!(f, "{:^#0w$X?}", v, w = w),
        111 => write!(f, "{:^#0w$.p$X?}", v, w = w, p = p),
        112 => write!(f, "{:^+X?}", v),
        113 => write!(f, "{:^+.p$X?}", v, p = p),
        114 => write!(f, "{:^+w$X?}", v, w = w),
        115 => write!(f, "{:^+w$.p$X?}", v, w = w, p = p),
        116 => write!(f, "{:^+0X?}", v),
        117 => write!(f, "{:^+0.p$X?}", v, p = p),
        118 => write!(f, "{:^+0w$X?}", v, w = w),
        119 => write!(f, "{:^+0w$.p$X?}", v, w = w, p = p),
        120 => write!(f, "{:^+#X?}", v),
        121 => write!(f, "{:^+#.p$X?}", v, p = p),
        122 => write!(f, "{:^+#w$X?}", v, w = w),
        123 => write!(f, "{:^+#w$.p$X?}", v, w = w, p = p),
        124 => write!(f, "{:^+#0X?}", v),
        125 => write!(f, "{:^+#0.p$X?}", v, p = p),
        126 => write!(f, "{:^+#0w$X?}", v, w = w),
        127 => write!(f, "{:^+#0w$.p$X?}", v, w = w, p = p),
        128 => write!(f, "{:^-X?}", v),
        129 => write!(f, "{:^-.p$X?}", v, p = p),
        130 => write!(f, "{:^-w$X?}", v, w = w),
        131 => write!(f, "{:^-w$.p$X?}", v, w = w, p = p),
        132 => write!(f, "{:^-0X?}", v),
        133 => write!(f, "{:^-0.p$X?}", v, p = p),
        134 => write!(f, "{:^-0w$X?}", v, w = w),
        135 => write!(f, "{:^-0w$.p$X?}", v, w = w, p = p),
        136 => write!(f, "{:^-#X?}", v),
        137 => write!(f, "{:^-#.p$X?}", v, p = p),
        138 => write!(f, "{:^-#w$X?}", v, w = w),
        139 => write!(f, "{:^-#w$.p$X?}", v, w = w, p = p),
        140 => write!(f, "{:^-#0X?}", v),
        141 => write!(f, "{:^-#0.p$X?}", v, p = p),
        142 => write!(f, "{:^-#0w$X?}", v, w = w),
        143 => write!(f, "{:^-#0w$.p$X?}", v, w = w, p = p),
        144 => write!(f, "{:>X?}", v),
        145 => write!(f, "{:>.p$X?}", v, p = p),
        146 => write!(f, "{:>w$X?}", v, w = w),
        147 => write!(f, "{:>w$.p$X?}", v, w = w, p = p),
        148 => write!(f, "{:>0X?}", v),
        149 => write!(f, "{:>0.p$X?}", v, p = p),
        150 => write!(f, "{:>0w$X?}", v, w = w),
        151 => write!(f, "{:>0w$.p$X?}", v, w = w, p = p),
        152 => write!(f, "{:>#X?}", v),
        153 => write!(f, "{:>#.p$X?}", v, p = p),
        154 => write!(f, "{:>#w$X?}", v, w = w),
        155 => write!(f, "{:>#w$.p$X?}", v, w = w, p = p),
        156 => write!(f, "{:>#0X?}", v),
        157 => write!(f, "{:>#0.p$X?}", v, p = p),
        158 => write!(f, "{:>#0w$X?}", v, w = w),
        159 => write!(f, "{:>#0w$.p$X?}", v, w = w, p = p),
        160 => write!(f, "{:>+X?}", v),
        161 => write!(f, "{:>+.p$X?}", v, p = p),
        162 => write!(f, "{:>+w$X?}", v, w = w),
        163 => write!(f, "{:>+w$.p$X?}", v, w = w, p = p),
        164 => write!(f, "{:>+0X?}", v),
        165 => write!(f, "{:>+0.p$X?}", v, p = p),
        166 => write!(f, "{:>+0w$X?}", v, w = w),
        167 => write!(f, "{:>+0w$.p$X?}", v, w = w, p = p),
        168 => write!(f, "{:>+#X?}", v),
        169 => write!(f, "{:>+#.p$X?}", v, p = p),
        170 => write!(f, "{:>+#w$X?}", v, w = w),
        171 => write!(f, "{:>+#w$.p$X?}", v, w = w, p = p),
        172 => write!(f, "{:>+#0X?}", v),
        173 => write!(f, "{:>+#0.p$X?}", v, p = p),
        174 => write!(f, "{:>+#0w$X?}", v, w = w),
        175 => write!(f, "{:>+#0w$.p$X?}", v, w = w, p = p),
        176 => write!(f, "{:>-X?}", v),
        177 => write!(f, "{:>-.p$X?}", v, p = p),
        178 => write!(f, "{:>-w$X?}", v, w = w),
        179 => write!(f, "{:>-w$.p$X?}", v, w = w, p = p),
        180 => write!(f, "{:>-0X?}", v),
        181 => write!(f, "{:>-0.p$X?}", v, p = p),
        182 => write!(f, "{:>-0w$X?}", v, w = w),
        183 => write!(f, "{:>-0w$.p$X?}", v, w = w, p = p),
        184 => write!(f, "{:>-#X?}", v),
        185 => write!(f, "{:>-#.p$X?}", v, p = p),
        186 => write!(f, "{:>-#w$X?}", v, w = w),
        187 => write!(f, "{:>-#w$.p$X?}", v, w = w, p = p),
        188 => write!(f, "{:>-#0X?}", v),
        189 => write!(f, "{:>-#0.p$X?}", v, p = p),
        190 => write!(f, "{:>-#0w$X?}", v, w = w),
        191 => write!(f, "{:>-#0w$.p$X?}", v, w = w, p = p),
        192 => write!(f, "{:*<X?}", v),
        193 => write!(f, "{:*<.p$X?}", v, p = p),
        194 => write!(f, "{:*<w$X?}", v, w = w),
        195 => write!(f, "{:*<w$.p$X?}", v, w = w, p = p),
        196 => write!(f, "{:*<0X?}", v),
        197 => write!(f, "{:*<0.p$X?}", v, p = p),
        198 => write!(f, "{:*<0w$X?}", v, w = w),
        199 => write!(f, "{:*<0w$.p$X?}", v, w = w, p = p),
        200 => write!(f, "{:*<#X?}", v),
        201 => write!(f, "{:*<#.p$X?}", v, p = p),
        202 => write!(f, "{:*<#w$X?}", v, w = w),
        203 => write!(f, "{:*<#w$.p$X?}", v, w = w, p = p),
        204 => write!(f, "{:*<#0X?}", v),
        205 => write!(f, "{:*<#0.p$X?}", v, p = p),
        206 => write!(f, "{:*<#0w$X?}", v, w = w),
        207 => write!(f, "{:*<#0w$.p$X?}", v, w = w, p = p),
        208 => write!(f, "{:*<+X?}", v),
        209 => write!(f, "{:*<+.p$X?}", v, p = p),
        210 => write!(f, "{:*<+w$X?}", v, w = w),
        211 => write!(f, "{:*<+w$.p$X?}", v, w = w, p = p),
        212 => write!(f, "{:*<+0X?}", v),
        213 => write!(f, "{:*<+0.p$X?}", v, p = p),
        214 => write!(f, "{:*<+0w$X?}", v, w = w),
        215 => write!(f, "{:*<+0w$.p$X?}", v, w = w, p = p),
        216 => write!(f, "{:*<+#X?}", v),
        217 => write!(f, "{:*<+#.p$X?}", v, p = p),
        218 => write!(f, "{:*<+#w$X?}", v, w = w),
        219 => write!(f, "{:*<+#w$.p$X?}", v, w = w, p = p),
        220 => write!(f, "{:*<+#0X?}", v),
        221 => write!(f, "{:*<+#0.p$X?}", v, p = p),
        222 => write!(f, "{:*<+#0w$X?}", v, w = w),
        223 => write!(f, "{:*<+#0w$.p$X?}", v, w = w, p = p),
        224 => write!(f, "{:*<-X?}", v),
        225 => write!(f, "{:*<-.p$X?}", v, p = p),
        226 => write!(f, "{:*<-w$X?}", v, w = w),
        227 => write!(f, "{:*<-w$.p$X?}", v, w = w, p = p),
        228 => write!(f, "{:*<-0X?}", v),
        229 => write!(f, "{:*<-0.p$X?}", v, p = p),
        230 => write!(f, "{:*<-0w$X?}", v, w = w),
        231 => write!(f, "{:*<-0w$.p$X?}", v, w = w, p = p),
        232 => write!(f, "{:*<-#X?}", v),
        233 => write!(f, "{:*<-#.p$X?}", v, p = p),
        234 => write!(f, "{:*<-#w$X?}", v, w = w),
        235 => write!(f, "{:*<-#w$.p$X?}", v, w = w, p = p),
        236 => write!(f, "{:*<-#0X?}", v),
        237 => write!(f, "{:*<-#0.p$X?}", v, p = p),
        238 => write!(f, "{:*<-#0w$X?}", v, w = w),
        239 => write!(f, "{:*<-#0w$.p$X?}", v, w = w, p = p),
        240 => write!(f, "{:*^X?}", v),
        241 => write!(f, "{:*^.p$X?}", v, p = p),
        242 => write!(f, "{:*^w$X?}", v, w = w),
        243 => write!(f, "{:*^w$.p$X?}", v, w = w, p = p),
        244 => write!(f, "{:*^0X?}", v),
        245 => write!(f, "{:*^0.p$X?}", v, p = p),
        246 => write!(f, "{:*^0w$X?}", v, w = w),
        247 => write!(f, "{:*^0w$.p$X?}", v, w = w, p = p),
        248 => write!(f, "{:*^#X?}", v),
        249 => write!(f, "{:*^#.p$X?}", v, p = p),
        250 => write!(f, "{:*^#w$X?}", v, w = w),
        251 => write!(f, "{:*^#w$.p$X?}", v, w = w, p = p),
        252 => write!(f, "{:*^#0X?}", v),
        253 => write!(f, "{:*^#0.p$X?}", v, p = p),
        254 => write!(f, "{:*^#0w$X?}", v, w = w),
        255 => write!(f, "{:*^#0w$.p$X?}", v, w = w, p = p),
        256 => write!(f, "{:*^+X?}", v),
        257 => write!(f, "{:*^+.p$X?}", v, p = p),
        258 => write!(f, "{:*^+w$X?}", v, w = w),
        259 => write!(f, "{:*^+w$.p$X?}", v, w = w, p = p),
        260 => write!(f, "{:*^+0X?}", v),
        261 => write!(f, "{:*^+0.p$X?}", v, p = p),
        262 => write!(f, "{:*^+0w$X?}", v, w = w),
        263 => write!(f, "{:*^+0w$.p$X?}", v, w = w, p = p),
        264 => write!(f, "{:*^+#X?}", v),
        265 => write!(f, "{:*^+#.p$X?}", v, p = p),
        266 => write!(f, "{:*^+#w$X?}", v, w = w),
        267 => write!(f, "{:*^+#w$.p$X?}", v, w = w, p = p),
        268 => write!(f, "{:*^+#0X?}", v),
        269 => write!(f, "{:*^+#0.p$X?}", v, p = p),
        270 => write!(f, "{:*^+#0w$X?}", v, w = w),
        271 => write!(f, "{:*^+#0w$.p$X?}", v, w = w, p = p),
        272 => write!(f, "{:*^-X?}", v),
        273 => write!(f, "{:*^-.p$X?}", v, p = p),
        274 => write!(f, "{:*^-w$X?}", v, w = w),
        275 => write!(f, "{:*^-w$.p$X?}", v, w = w, p = p),
        276 => write!(f, "{:*^-0X?}", v),
        277 => write!(f, "{:*^-0.p$X?}", v, p = p),
        278 => write!(f, "{:*^-0w$X?}", v, w = w),
        279 => write!(f, "{:*^-0w$.p$X?}", v, w = w, p = p),
        280 => write!(f, "{:*^-#X?}", v),
        281 => write!(f, "{:*^-#.p$X?}", v, p = p),
        282 => write!(f, "{:*^-#w$X?}", v, w = w),
        283 => write!(f, "{:*^-#w$.p$X?}", v, w = w, p = p),
        284 => write!(f, "{:*^-#0X?}", v),
        285 => write!(f, "{:*^-#0.p$X?}", v, p = p),
        286 => write!(f, "{:*^-#0w$X?}", v, w = w),
        287 => write!(f, "{:*^-#0w$.p$X?}", v, w = w, p = p),
        288 => write!(f, "{:é>X?}", v),
        289 => write!(f, "{:é>.p$X?}", v, p = p),
        290 => write!(f, "{:é>w$X?}", v, w = w),
        291 => write!(f, "{:é>w$.p$X?}", v, w = w, p = p),
        292 => write!(f, "{:é>0X?}", v),
        293 => write!(f, "{:é>0.p$X?}", v, p = p),
        294 => write!(f, "{:é>0w$X?}", v, w = w),
        295 => write!(f, "{:é>0w$.p$X?}", v, w = w, p = p),
        296 => write!(f, "{:é>#X?}", v),
        297 => write!(f, "{:é>#.p$X?}", v, p = p),
        298 => write!(f, "{:é>#w$X?}", v, w = w),
        299 => write!(f, "{:é>#w$.p$X?}", v, w = w, p = p),
        300 => write!(f, "{:é>#0X?}", v),
        301 => write!(f, "{:é>#0.p$X?}", v, p = p),
        302 => write!(f, "{:é>#0w$X?}", v, w = w),
        303 => write!(f, "{:é>#0w$.p$X?}", v, w = w, p = p),
        304 => write!(f, "{:é>+X?}", v),
        305 => write!(f, "{:é>+.p$X?}", v, p = p),
        306 => write!(f, "{:é>+w$X?}", v, w = w),
        307 => write!(f, "{:é>+w$.p$X?}", v, w = w, p = p),
        308 => write!(f, "{:é>+0X?}", v),
        309 => write!(f, "{:é>+0.p$X?}", v, p = p),
        310 => write!(f, "{:é>+0w$X?}", v, w = w),
        311 => write!(f, "{:é>+0w$.p$X?}", v, w = w, p = p),
        312 => write!(f, "{:é>+#X?}", v),
        313 => write!(f, "{:é>+#.p$X?}", v, p = p),
        314 => write!(f, "{:é>+#w$X?}", v, w = w),
        315 => write!(f, "{:é>+#w$.p$X?}", v, w = w, p = p),
        316 => write!(f, "{:é>+#0X?}", v),
        317 => write!(f, "{:é>+#0.p$X?}", v, p = p),
        318 => write!(f, "{:é>+#0w$X?}", v, w = w),
        319 => write!(f, "{:é>+#0w$.p$X?}", v, w = w, p = p),
        320 => write!(f, "{:é>-X?}", v),
        321 => write!(f, "{:é>-.p$X?}", v, p = p),
        322 => write!(f, "{:é>-w$X?}", v, w = w),
        323 => write!(f, "{:é>-w$.p$X?}", v, w = w, p = p),
        324 => write!(f, "{:é>-0X?}", v),
        325 => write!(f, "{:é>-0.p$X?}", v, p = p),
        326 => write!(f, "{:é>-0w$X?}", v, w = w),
        327 => write!(f, "{:é>-0w$.p$X?}", v, w = w, p = p),
        328 => write!(f, "{:é>-#X?}", v),
        329 => write!(f, "{:é>-#.p$X?}", v, p = p),
        330 => write!(f, "{:é>-#w$X?}", v, w = w),
        331 => write!(f, "{:é>-#w$.p$X?}", v, w = w, p = p),
        332 => write!(f, "{:é>-#0X?}", v),
        333 => write!(f, "{:é>-#0.p$X?}", v, p = p),
        334 => write!(f, "{:é>-#0w$X?}", v, w = w),
        335 => write!(f, "{:é>-#0w$.p$X?}", v, w = w, p = p),
        _ => unreachable!(),
    }
}
pub fn display(i: usize, f: &mut dyn fmt::Write, v: &dyn Display, w: usize, p: usize) -> fmt::Result {
    let _ = (w, p);
    match i {
        0 => write!(f, "{}", v),
        1 => write!(f, "{:.p$}", v, p = p),
        2 => write!(f, "{:w$}", v, w = w),
        3 => write!(f, "{:w$.p$}", v, w = w, p = p),
        4 => write!(f, "{:0}", v),
        5 => write!(f, "{:0.p$}", v, p = p),
        6 => write!(f, "{:0w$}", v, w = w),
        7 => write!(f, "{:0w$.p$}", v, w = w, p = p),
        8 => write!(f, "{:#}", v),
        9 => write!(f, "{:#.p$}", v, p = p),
        10 => write!(f, "{:#w$}", v, w = w),
        11 => write!(f, "{:#w$.p$}", v, w = w, p = p),
        12 => write!(f, "{:#0}", v),
        13 => write!(f, "{:#0.p$}", v, p = p),
        14 => write!(f, "{:#0w$}", v, w = w),
        15 => write!(f, "{:#0w$.p$}", v, w = w, p = p),
        16 => write!(f, "{:+}", v),
        17 => write!(f, "{:+.p$}", v, p = p),
        18 => write!(f, "{:+w$}", v, w = w),
        19 => write!(f, "{:+w$.p$}", v, w = w, p = p),
        20 => write!(f, "{:+0}", v),
        21 => write!(f, "{:+0.p$}", v, p = p),
        22 => write!(f, "{:+0w$}", v, w = w),
        23 => write!(f, "{:+0w$.p$}", v, w = w, p = p),
        24 => write!(f, "{:+#}", v),
        25 => write!(f, "{:+#.p$}", v, p = p),
        26 => write!(f, "{:+#w$}", v, w = w),
        27 => write!(f, "{:+#w$.p$}", v, w = w, p = p),
        28 => write!(f, "{:+#0}", v),
        29 => write!(f, "{:+#0.p$}", v, p = p),
        30 => write!(f, "{:+#0w$}", v, w = w),
        31 => write!(f, "{:+#0w$.p$}", v, w = w, p = p),
        32 => write!(f, "{:-}", v),
        33 => write!(f, "{:-.p$}", v, p = p),
        34 => write!(f, "{:-w$}", v, w = w),
        35 => write!(f, "{:-w$.p$}", v, w = w, p = p),
        36 => write!(f, "{:-0}", v),
        37 => write!(f, "{:-0.p$}", v, p = p),
        38 => write!(f, "{:-0w$}", v, w = w),
        39 => write!(f, "{:-0w$.p$}", v, w = w, p = p),
        40 => write!(f, "{:-#}", v),
        41 => write!(f, "{:-#.p$}", v, p = p),
        42 => write!(f, "{:-#w$}", v, w = w),
        43 => write!(f, "{:-#w$.p$}", v, w = w, p = p),
        44 => write!(f, "{:-#0}", v),
        45 => write!(f, "{:-#0.p$}", v, p = p),
        46 => write!(f, "{:-#0w$}", v, w = w),
        47 => write!(f, "{:-#0w$.p$}", v, w = w, p = p),
        48 => write!(f, "{:<}", v),
        49 => write!(f, "{:<.p$}", v, p = p),
        50 => write!(f, "{:<w$}", v, w = w),
        51 => write!(f, "{:<w$.p$}", v, w = w, p = p),
        52 => write!(f, "{:<0}", v),
        53 => write!(f, "{:<0.p$}", v, p = p),
        54 => write!(f, "{:<0w$}", v, w = w),
        55 => write!(f, "{:<0w$.p$}", v, w = w, p = p),
        56 => write!(f, "{:<#}", v),
        57 => write!(f, "{:<#.p$}", v, p = p),
        58 => write!(f, "{:<#w$}", v, w = w),
        59 => write!(f, "{:<#w$.p$}", v, w = w, p = p),
        60 => write!(f, "{:<#0}", v),
        61 => write!(f, "{:<#0.p$}", v, p = p),
        62 => write!(f, "{:<#0w$}", v, w = w),
        63 => write!(f, "{:<#0w$.p$}", v, w = w, p = p),
        64 => write!(f, "{:<+}", v),
        65 => write!(f, "{:<+.p$}", v, p = p),
        66 => write!(f, "{:<+w$}", v, w = w),
        67 => write!(f, "{:<+w$.p$}", v, w = w, p = p),
        68 => write!(f, "{:<+0}", v),
        69 => write!(f, "{:<+0.p$}", v, p = p),
        70 => write!(f, "{:<+0w$}", v, w = w),
        71 => write!(f, "{:<+0w$.p$}", v, w = w, p = p),
        72 => write!(f, "{:<+#}", v),
        73 => write!(f, "{:<+#.p$}", v, p = p),
        74 => write!(f, "{:<+#w$}", v, w = w),
        75 => write!(f, "{:<+#w$.p$}", v, w = w, p = p),
        76 => write!(f, "{:<+#0}", v),
        77 => write!(f, "{:<+#0.p$}", v, p = p),
        78 => write!(f, "{:<+#0w$}", v, w = w),
        79 => write!(f, "{:<+#0w$.p$}", v, w = w, p = p),
        80 => write!(f, "{:<-}", v),
        81 => write!(f, "{:<-.p$}", v, p = p),
        82 => write!(f, "{:<-w$}", v, w = w),
        83 => write!(f, "{:<-w$.p$}", v, w = w, p = p),
        84 => write!(f, "{:<-0}", v),
        85 => write!(f, "{:<-0.p$}", v, p = p),
        86 => write!(f, "{:<-0w$}", v, w = w),
        87 => write!(f, "{:<-0w$.p$}", v, w = w, p = p),
        88 => write!(f, "{:<-#}", v),
        89 => write!(f, "{:<-#.p$}", v, p = p),
        90 => write!(f, "{:<-#w$}", v, w = w),
        91 => write!(f, "{:<-#w$.p$}", v, w = w, p = p),
        92 => write!(f, "{:<-#0}", v),
        93 => write!(f, "{:<-#0.p$}", v, p = p),
        94 => write!(f, "{:<-#0w$}", v, w = w),
        95 => write!(f, "{:<-#0w$.p$}", v, w = w, p = p),
        96 => write!(f, "{:^}", v),
        97 => write!(f, "{:^.p$}", v, p = p),
        98 => write!(f, "{:^w$}", v, w = w),
        99 => write!(f, "{:^w$.p$}", v, w = w, p = p),
        100 => write!(f, "{:^0}", v),
        101 => write!(f, "{:^0.p$}", v, p = p),
        102 => write!(f, "{:^0w$}", v, w = w),
        103 => write!(f, "{:^0w$.p$}", v, w = w, p = p),
        104 => write!(f, "{:^#}", v),
        105 => write!(f, "{:^#.p$}", v, p = p),
        106 => write!(f, "{:^#w$}", v, w = w),
        107 => write!(f, "{:^#w$.p$}", v, w = w, p = p),
        108 => write!(f, "{:^#0}", v),
        109 => write!(f, "{:^#0.p$}", v, p = p),
        110 => write!(f, "{:^#0w$}", v, w = w),
        111 => write!(f, "{:^#0w$.p$}", v, w = w, p = p),
        112 => write!(f, "{:^+}", v),
        113 => write!(f, "{:^+.p$}", v, p = p),
        114 => write!(f, "{:^+w$}", v, w = w),
        115 => write!(f, "{:^+w$.p$}", v, w = w, p = p),
        116 => write!(f, "{:^+0}", v),
        117 => write!(f, "{:^+0.p$}", v, p = p),
        118 => write!(f, "{:^+0w$}", v, w = w),
        119 => write!(f, "{:^+0w$.p$}", v, w = w, p = p),
        120 => write!(f, "{:^+#}", v),
        121 => write!(f, "{:^+#.p$}", v, p = p),
        122 => write!(f, "{:^+#w$}", v, w = w),
        123 => write!(f, "{:^+#w$.p$}", v, w = w, p = p),
        124 => write!(f, "{:^+#0}", v),
        125 => write!(f, "{:^+#0.p$}", v, p = p),
        126 => write!(f, "{:^+#0w$}", v, w = w),
        127 => write!(f, "{:^+#0w$.p$}", v, w = w, p = p),
        128 => write!(f, "{:^-}", v),
        129 => write!(f, "{:^-.p$}", v, p = p),
        130 => write!(f, "{:^-w$}", v, w = w),
        131 => write!(f, "{:^-w$.p$}", v, w = w, p = p),
        132 => write!(f, "{:^-0}", v),
        133 => write!(f, "{:^-0.p$}", v, p = p),
        134 => write!(f, "{:^-0w$}", v, w = w),
        135 => write!(f, "{:^-0w$.p$}", v, w = w, p = p),
        136 => write!(f, "{:^-#}", v),
        137 => write!(f, "{:^-#.p$}", v, p = p),
        138 => write!(f, "{:^-#w$}", v, w = w),
        139 => write!(f, "{:^-#w$.p$}", v, w = w, p = p),
        140 => write!(f, "{:^-#0}", v),
        141 => write!(f, "{:^-#0.p$}", v, p = p),
        142 => write!(f, "{:^-#0w$}", v, w = w),
        143 => write!(f, "{:^-#0w$.p$}", v, w = w, p = p),
        144 => write!(f, "{:>}", v),
        145 => write!(f, "{:>.p$}", v, p = p),
        146 => write!(f, "{:>w$}", v, w = w),
        147 => write!(f, "{:>w$.p$}", v, w = w, p = p),
        148 => write!(f, "{:>0}", v),
        149 => write!(f, "{:>0.p$}", v, p = p),
        150 => write!(f, "{:>0w$}", v, w = w),
        151 => write!(f, "{:>0w$.p$}", v, w = w, p = p),
        152 => write!(f, "{:>#}", v),
        153 => write!(f, "{:>#.p$}", v, p = p),
        154 => write!(f, "{:>#w$}", v, w = w),
        155 => write!(f, "{:>#w$.p$}", v, w = w, p = p),
        156 => write!(f, "{:>#0}", v),
        157 => write!(f, "{:>#0.p$}", v, p = p),
        158 => write!(f, "{:>#0w$}", v, w = w),
        159 => write!(f, "{:>#0w$.p$}", v, w = w, p = p),
        160 => write!(f, "{:>+}", v),
        161 => write!(f, "{:>+.p$}", v, p = p),
        162 => write!(f, "{:>+w$}", v, w = w),
        163 => write!(f, "{:>+w$.p$}", v, w = w, p = p),
        164 => write!(f, "{:>+0}", v),
        165 => write!(f, "{:>+0.p$}", v, p = p),
        166 => write!(f, "{:>+0w$}", v, w = w),
        167 => write!(f, "{:>+0w$.p$}", v, w = w, p = p),
        168 => write!(f, "{:>+#}", v),
        169 => write!(f, "{:>+#.p$}", v, p = p),
        170 => write!(f, "{:>+#w$}", v, w = w),
        171 => write!(f, "{:>+#w$.p$}", v, w = w, p = p),
        172 => write!(f, "{:>+#0}", v),
        173 => write!(f, "{:>+#0.p$}", v, p = p),
        174 => write!(f, "{:>+#0w$}", v, w = w),
        175 => write!(f, "{:>+#0w$.p$}", v, w = w, p = p),
        176 => write!(f, "{:>-}", v),
        177 => write!(f, "{:>-.p$}", v, p = p),
        178 => write!(f, "{:>-w$}", v, w = w),
        179 => write!(f, "{:>-w$.p$}", v, w = w, p = p),
        180 => write!(f, "{:>-0}", v),
        181 => write!(f, "{:>-0.p$}", v, p = p),
        182 => write!(f, "{:>-0w$}", v, w = w),
        183 => write!(f, "{:>-0w$.p$}", v, w = w, p = p),
        184 => write!(f, "{:>-#}", v),
        185 => write!(f, "{:>-#.p$}", v, p = p),
        186 => write!(f, "{:>-#w$}", v, w = w),
        187 => write!(f, "{:>-#w$.p$}", v, w = w, p = p),
        188 => write!(f, "{:>-#0}", v),
        189 => write!(f, "{:>-#0.p$}", v, p = p),
        190 => write!(f, "{:>-#0w$}", v, w = w),
        191 => write!(f, "{:>-#0w$.p$}", v, w = w, p = p),
        192 => write!(f, "{:*<}", v),
        193 => write!(f, "{:*<.p$}", v, p = p),
        194 => write!(f, "{:*<w$}", v, w = w),
        195 => write!(f, "{:*<w$.p$}", v, w = w, p = p),
        196 => write!(f, "{:*<0}", v),
        197 => write!(f, "{:*<0.p$}", v, p = p),
        198 => write!(f, "{:*<0w$}", v, w = w),
        199 => write!(f, "{:*<0w$.p$}", v, w = w, p = p),
        200 => write!(f, "{:*<#}", v),
        201 => write!(f, "{:*<#.p$}", v, p = p),
        202 => write!(f, "{:*<#w$}", v, w = w),
        203 => write!(f, "{:*<#w$.p$}", v, w = w, p = p),
        204 => write!(f, "{:*<#0}", v),
        205 => write!(f, "{:*<#0.p$}", v, p = p),
        206 => write!(f, "{:*<#0w$}", v, w = w),
        207 => write!(f, "{:*<#0w$.p$}", v, w = w, p = p),
        208 => write!(f, "{:*<+}", v),
        209 => write!(f, "{:*<+.p$}", v, p = p),
        210 => write!(f, "{:*<+w$}", v, w = w),
        211 => write!(f, "{:*<+w$.p$}", v, w = w, p = p),
        212 => write!(f, "{:*<+0}", v),
        213 => write!(f, "{:*<+0.p$}", v, p = p),
        214 => write!(f, "{:*<+0w$}", v, w = w),
        215 => write!(f, "{:*<+0w$.p$}", v, w = w, p = p),
        216 => write!(f, "{:*<+#}", v),
        217 => write!(f, "{:*<+#.p$}", v, p = p),
        218 => write!(f, "{:*<+#w$}", v, w = w),
        219 => write!(f, "{:*<+#w$.p$}", v, w = w, p = p),
        220 => write!(f, "{:*<+#0}", v),
        221 => write!(f, "{:*<+#0.p$}", v, p = p),
        222 => write!(f, "{:*<+#0w$}", v, w = w),
        223 => write!(f, "{:*<+#0w$.p$}", v, w = w, p = p),
        224 => write!(f, "{:*<-}", v),
        225 => write!(f, "{:*<-.p$}", v, p = p),
        226 => write!(f, "{:*<-w$}", v, w = w),
        227 => write!(f, "{:*<-w$.p$}", v, w = w, p = p),
        228 => write!(f, "{:*<-0}", v),
        229 => write!(f, "{:*<-0.p$}", v, p = p),
        230 => write!(f, "{:*<-0w$}", v, w = w),
        231 => write!(f, "{:*<-0w$.p$}", v, w = w, p = p),
        232 => write!(f, "{:*<-#}", v),
        233 => write!(f, "{:*<-#.p$}", v, p = p),
        234 => write!(f, "{:*<-#w$}", v, w = w),
        235 => write!(f, "{:*<-#w$.p$}", v, w = w, p = p),
        236 => write!(f, "{:*<-#0}", v),
        237 => write!(f, "{:*<-#0.p$}", v, p = p),
        238 => write!(f, "{:*<-#0w$}", v, w = w),
        239 => write!(f, "{:*<-#0w$.p$}", v, w = w, p = p),
        240 => write!(f, "{:*^}", v),
        241 => write!(f, "{:*^.p$}", v, p = p),
        242 => write!(f, "{:*^w$}", v, w = w),
        243 => write!(f, "{:*^w$.p$}", v, w = w, p = p),
        244 => write!(f, "{:*^0}", v),
        245 => write!(f, "{:*^0.p$}", v, p = p),
        246 => write!(f, "{:*^0w$}", v, w = w),
        247 => write!(f, "{:*^0w$.p$}", v, w = w, p = p),
        248 => write!(f, "{:*^#}", v),
        249 => write!(f, "{:*^#.p$}", v, p = p),
        250 => write!(f, "{:*^#w$}", v, w = w),
        251 => write!(f, "{:*^#w$.p$}", v, w = w, p = p),
        252 => write!(f, "{:*^#0}", v),
        253 => write!(f, "{:*^#0.p$}", v, p = p),
        254 => write!(f, "{:*^#0w$}", v, w = w),
        255 => write!(f, "{:*^#0w$.p$}", v, w = w, p = p),
        256 => write!(f, "{:*^+}", v),
        257 => write!(f, "{:*^+.p$}", v, p = p),
        258 => write!(f, "{:*^+w$}", v, w = w),
        259 => write!(f, "{:*^+w$.p$}", v, w = w, p = p),
        260 => write!(f, "{:*^+0}", v),
        261 => write!(f, "{:*^+0.p$}", v, p = p),
        262 => write!(f, "{:*^+0w$}", v, w = w),
        263 => write!(f, "{:*^+0w$.p$}", v, w = w, p = p),
        264 => write!(f, "{:*^+#}", v),
        265 => write!(f, "{:*^+#.p$}", v, p = p),
        266 => write!(f, "{:*^+#w$}", v, w = w),
        267 => write!(f, "{:*^+#w$.p$}", v, w = w, p = p),
        268 => write!(f, "{:*^+#0}", v),
        269 => write!(f, "{:*^+#0.p$}", v, p = p),
        270 => write!(f, "{:*^+#0w$}", v, w = w),
        271 => write!(f, "{:*^+#0w$.p$}", v, w = w, p = p),
        272 => write!(f, "{:*^-}", v),
        273 => write!(f, "{:*^-.p$}", v, p = p),
        274 => write!(f, "{:*^-w$}", v, w = w),
        275 => write!(f, "{:*^-w$.p$}", v, w = w, p = p),
        276 => write!(f, "{:*^-0}", v),
        277 => write!(f, "{:*^-0.p$}", v, p = p),
        278 => write!(f, "{:*^-0w$}", v, w = w),
        279 => write!(f, "{:*^-0w$.p$}", v, w = w, p = p),
        280 => write!(f, "{:*^-#}", v),
        281 => write!(f, "{:*^-#.p$}", v, p = p),
        282 => write!(f, "{:*^-#w$}", v, w = w),
        283 => write!(f, "{:*^-#w$.p$}", v, w = w, p = p),
        284 => write!(f, "{:*^-#0}", v),
        285 => write!(f, "{:*^-#0.p$}", v, p = p),
        286 => write!(f, "{:*^-#0w$}", v, w = w),
        287 => write!(f, "{:*^-#0w$.p$}", v, w = w, p = p),
        288 => write!(f, "{:é>}", v),
        289 => write!(f, "{:é>.p$}", v, p = p),
        290 => write!(f, "{:é>w$}", v, w = w),
        291 => write!(f, "{:é>w$.p$}", v, w = w, p = p),
        292 => write!(f, "{:é>0}", v),
        293 => write!(f, "{:é>0.p$}", v, p = p),
        294 => write!(f, "{:é>0w$}", v, w = w),
        295 => write!(f, "{:é>0w$.p$}", v, w = w, p = p),
        296 => write!(f, "{:é>#}", v),
        297 => write!(f, "{:é>#.p$}", v, p = p),
        298 => write!(f, "{:é>#w$}", v, w = w),
        299 => write!(f, "{:é>#w$.p$}", v, w = w, p = p),
        300 => write!(f, "{:é>#0}", v),
        301 => write!(f, "{:é>#0.p$}", v, p = p),
        302 => write!(f, "{:é>#0w$}", v, w = w),
        303 => write!(f, "{:é>#0w$.p$}", v, w = w, p = p),
        304 => write!(f, "{:é>+}", v),
        305 => write!(f, "{:é>+.p$}", v, p = p),
        306 => write!(f, "{:é>+w$}", v, w = w),
        307 => write!(f, "{:é>+w$.p$}", v, w = w, p = p),
        308 => write!(f, "{:é>+0}", v),
        309 => write!(f, "{:é>+0.p$}", v, p = p),
        310 => write!(f, "{:é>+0w$}", v, w = w),
        311 => write!(f, "{:é>+0w$.p$}", v, w = w, p = p),
        312 => write!(f, "{:é>+#}", v),
        313 => write!(f, "{:é>+#.p$}", v, p = p),
        314 => write!(f, "{:é>+#w$}", v, w = w),
        315 => write!(f, "{:é>+#w$.p$}", v, w = w, p = p),
        316 => write!(f, "{:é>+#0}", v),
        317 => write!(f, "{:é>+#0.p$}", v, p = p),
        318 => write!(f, "{:é>+#0w$}", v, w = w),
        319 => write!(f, "{:é>+#0w$.p$}", v, w = w, p = p),
        320 => write!(f, "{:é>-}", v),
        321 => write!(f, "{:é>-.p$}", v, p = p),
        322 => write!(f, "{:é>-w$}", v, w = w),
        323 => write!(f, "{:é>-w$.p$}", v, w = w, p = p),
        324 => write!(f, "{:é>-0}", v),
        325 => write!(f, "{:é>-0.p$}", v, p = p),
        326 => write!(f, "{:é>-0w$}", v, w = w),
        327 => write!(f, "{:é>-0w$.p$}", v, w = w, p = p),
        328 => write!(f, "{:é>-#}", v),
        329 => write!(f, "{:é>-#.p$}", v, p = p),
        330 => write!(f, "{:é>-#w$}", v, w = w),
        331 => write!(f, "{:é>-#w$.p$}", v, w = w, p = p),
        332 => write!(f, "{:é>-#0}", v),
        333 => write!(f, "{:é>-#0.p$}", v, p = p),
        334 => write!(f, "{:é>-#0w$}", v, w = w),
        335 => write!(f, "{:é>-#0w$.p$}", v, w = w, p = p),
        _ => unreachable!(),
    }
}
