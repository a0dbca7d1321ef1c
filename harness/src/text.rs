//! Parser properties on texts with symbolic bytes.
use super::real::{self, Mask, ALL, NOPOS};
use super::spec::{self, Ev, K};
use crate::sym::{self, F};
use pbrtrs::parser::verif as hook;

const STRUCTURE: Mask = Mask { structure: true, pos: false, strs: false, nums: false };
const POSITIONS: Mask = Mask { structure: false, pos: true, strs: false, nums: false };
const NUMBERS: Mask = Mask { structure: false, pos: false, strs: false, nums: true };
const STRINGS: Mask = Mask { structure: false, pos: false, strs: true, nums: false };

// ---------- building texts ----------

pub struct G {
    pub t: Vec<u8>,
}

/// characters beyond ASCII: letters, digits, blanks and symbols of 2, 3 and 4 bytes
const WIDE: [&str; 12] = ["é", "ß", "\u{a0}", "\u{85}", "中", "\u{2003}", "\u{2028}", "😀", "²", "٣", "€", "\u{200b}"];

impl G {
    pub fn new() -> G {
        G { t: vec![] }
    }
    pub fn lit(&mut self, s: &str) {
        for b in s.as_bytes() {
            self.t.push(*b)
        }
    }
    /// a symbolic ASCII byte
    pub fn ascii(&mut self) {
        let b = sym::u8_();
        sym::assume(b < 0x80);
        self.t.push(b);
    }
    pub fn ascii_n(&mut self, n: usize) {
        for _ in 0..n {
            self.ascii()
        }
    }
    /// a symbolic printable byte that is not blank, quote or backslash
    pub fn graph(&mut self) {
        let b = sym::u8_();
        sym::assume(sym::all(&[b > b' ', b < 0x7f, b != b'"', b != b'\\']));
        self.t.push(b);
    }
    /// the first without restriction, the others not J or M: std's search for CR LF tells
    /// these two apart from other characters (same low bits), which doubles the paths
    pub fn graph_n(&mut self, n: usize) {
        for i in 0..n {
            self.graph();
            self.not_jm(i)
        }
    }
    fn not_jm(&mut self, i: usize) {
        if i > 0 {
            let b = self.t[self.t.len() - 1];
            sym::assume(sym::and(b != b'J', b != b'M'));
        }
    }
    pub fn digit(&mut self) {
        self.t.push(sym::digit())
    }
    pub fn digits(&mut self, n: usize) {
        for _ in 0..n {
            self.digit()
        }
    }
    pub fn alpha(&mut self) {
        let b = sym::u8_();
        sym::assume(spec::is_alpha(b));
        self.t.push(b);
    }
    pub fn alnum(&mut self) {
        let b = sym::u8_();
        sym::assume(sym::or(spec::is_alpha(b), spec::is_digit(b)));
        self.t.push(b);
    }
    /// an identifier of n symbolic characters
    pub fn id(&mut self, n: usize) {
        for i in 0..n {
            if i > 0 && i == n - 1 {
                self.alnum()
            } else {
                self.alpha()
            }
            self.not_jm(i);
        }
    }
    /// digits told apart one by one
    pub fn cdigits(&mut self, n: usize) {
        for _ in 0..n {
            let d = sym::choose(10);
            self.t.push(b'0' + d as u8)
        }
    }
    /// a string character that neither ends nor escapes
    pub fn plain(&mut self) {
        let b = sym::u8_();
        sym::assume(sym::all(&[b < 0x80, b != b'"', b != b'\\']));
        self.t.push(b);
    }
    pub fn id_among(&mut self, lens: &[usize]) {
        let n = lens[sym::choose(lens.len())];
        self.id(n)
    }
    /// a symbolic blank byte
    pub fn blank(&mut self) {
        let b = sym::u8_();
        sym::assume(spec::is_ws(b));
        self.t.push(b);
    }
    /// a string token of n symbolic printable characters
    pub fn string(&mut self, n: usize) {
        self.lit("\"");
        self.graph_n(n);
        self.lit("\"");
    }
    /// a string token whose content need not be plain: any ASCII character, an escaped
    /// character, one beyond ASCII, and an ordinary one after it
    pub fn estring(&mut self) {
        self.lit("\"");
        match sym::choose(4) {
            0 => self.plain(),
            1 => {
                self.lit("\\");
                self.ascii()
            }
            2 => self.lit(WIDE[sym::choose(WIDE.len())]),
            _ => {
                self.graph();
                self.plain()
            }
        }
        if sym::choose(2) == 1 {
            self.graph();
        }
        self.lit("\"");
    }
    /// "type name" with n symbolic characters of type
    pub fn decl(&mut self, n: usize) {
        self.lit("\"");
        self.graph_n(n);
        self.lit(" ");
        self.graph();
        self.lit("\"");
    }
    pub fn int(&mut self) {
        match sym::choose(2) {
            0 => {}
            _ => self.lit("-"),
        }
        self.digit();
    }
    pub fn num(&mut self) {
        if sym::choose(2) == 0 {
            self.digit();
        } else {
            self.digit();
            self.lit(".");
            self.digit();
        }
    }
    /// one token of a symbolic kind with symbolic content, then a blank.
    /// kinds: i identifier, n integer, f float, s string, t string of 4 or 5 (true, false),
    /// p parameter declaration, [ and ]
    pub fn tok(&mut self, kinds: &[u8], idlens: &[usize], tylens: &[usize]) {
        match kinds[sym::choose(kinds.len())] {
            b'i' => self.id_among(idlens),
            b'n' => self.digit(),
            b'f' => {
                self.digit();
                self.lit(".");
                self.digit()
            }
            b's' => self.string(2),
            b't' => {
                let n = 4 + sym::choose(2);
                self.string(n)
            }
            b'p' => {
                let n = tylens[sym::choose(tylens.len())];
                self.decl(n)
            }
            b'[' => self.lit("["),
            b']' => self.lit("]"),
            _ => unreachable!(),
        }
        self.lit(" ");
    }
    /// any character of n (2, 3 or 4) bytes
    pub fn wide(&mut self, n: usize) {
        let lead = match n {
            2 => sym::byte(0xc2, 0xdf),
            3 => sym::byte(0xe0, 0xef),
            _ => sym::byte(0xf0, 0xf4),
        };
        self.t.push(lead);
        for i in 1..n {
            let b = sym::byte(0x80, 0xbf);
            if i == 1 && n == 3 {
                sym::assume(sym::and(sym::implies(lead == 0xe0, b >= 0xa0), sym::implies(lead == 0xed, b < 0xa0)));
            }
            if i == 1 && n == 4 {
                sym::assume(sym::and(sym::implies(lead == 0xf0, b >= 0x90), sym::implies(lead == 0xf4, b < 0x90)));
            }
            self.t.push(b);
        }
    }
    pub fn zeros(&mut self, n: usize) {
        for _ in 0..n {
            self.t.push(b'0');
        }
    }
    /// 1234567891234...
    pub fn counted(&mut self, n: usize) {
        for i in 0..n {
            self.t.push(b'1' + (i % 9) as u8);
        }
    }
    /// n letters, for long words
    pub fn fill(&mut self, n: usize) {
        for i in 0..n {
            self.t.push(b'a' + (i % 26) as u8);
        }
    }
    pub fn text(&self) -> &str {
        real::text(&self.t)
    }
}

fn tokens(g: &G, m: Mask) {
    sym::note("text", &g.t);
    let got = hook::tokenize(g.text());
    let want = spec::tokenize(&g.t);
    real::cmp_tokens(&got, &want, m);
}

fn scene(g: &G, m: Mask) {
    sym::note("text", &g.t);
    let got = real::parse(&g.t);
    let want = spec::parse(&g.t);
    real::cmp_scene(&got, &want, m);
}

/// only that the code comes back
fn survives(g: &G) {
    sym::note("text", &g.t);
    let r = real::parse(&g.t);
    sym::cover(if r.is_ok() { "parsed" } else { "rejected" });
}

const NUMERIC: &[u8] = b".+-e";
fn numeric(g: &mut G, n: usize) {
    for _ in 0..n {
        let b = sym::u8_();
        sym::assume(sym::any(&[spec::is_digit(b), b == b'.', b == b'-', b == b'+', b == b'e']));
        g.t.push(b);
    }
}
/// a piece of text: symbolic ASCII byte, wide character or line break
fn piece(g: &mut G) {
    let k = sym::choose(WIDE.len() + 2);
    if k < WIDE.len() {
        g.lit(WIDE[k]);
    } else if k == WIDE.len() {
        g.lit("\r\n");
    } else {
        g.ascii();
    }
}

const KEYLENS: &[usize] = &[4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17];
const WORLDLENS: &[usize] = &[5, 7, 8, 10, 11, 12, 14, 15];
const TYLENS: &[usize] = &[3, 4, 5, 6, 7, 8, 9];

// ---------- C01 ----------

pub fn c01_free() {
    let mut g = G::new();
    g.ascii_n(sym::choose(sym::param(0, 5, 6) + 1));
    survives(&g);
}
pub fn c01_wide() {
    let mut g = G::new();
    for _ in 0..sym::param(0, 3, 4) {
        piece(&mut g);
    }
    survives(&g);
}
pub fn c01_num() {
    let mut g = G::new();
    numeric(&mut g, sym::param(0, 6, 7));
    survives(&g);
}
/// a mantissa and an exponent of many symbolic digits
pub fn c01_bignum() {
    let mut g = G::new();
    if sym::choose(2) == 1 {
        g.lit("-");
    }
    g.digits(1 + sym::choose(sym::param(0, 2, 3)));
    g.lit(["e", "e-", "e+", ".e", ".5e"][sym::choose(5)]);
    g.lit(["", "", "1", "0000000000000000000", "42949672", "922337203685477580", "1844674407370955161", "99999999999999999999"][sym::choose(8)]);
    g.cdigits(sym::param(1, 2, 2));
    survives(&g);
}
/// truncated or garbled constructs inside a world
pub fn c01_tokens() {
    let mut g = G::new();
    g.lit("WorldBegin ");
    for _ in 0..sym::param(0, 3, 4) {
        g.tok(b"insp[]", &[5, 7, 8, 14], TYLENS);
    }
    survives(&g);
}
/// the same before the world
pub fn c01_options() {
    let mut g = G::new();
    for _ in 0..sym::param(0, 3, 3) {
        g.tok(b"insp[]", KEYLENS, TYLENS);
    }
    survives(&g);
}
/// every kind of parameter followed by arbitrary tokens
pub fn c01_params() {
    let mut g = G::new();
    let h = sym::choose(HEADS.len());
    g.lit(HEADS[h]);
    let (ty, _) = DECLS[sym::choose(DECLS.len())];
    g.lit("\"");
    g.lit(ty);
    g.lit(["", " ", " x", " x y"][sym::choose(4)]);
    g.lit("\"");
    for _ in 0..sym::choose(sym::param(0, 4, 5)) {
        g.tok(b"nst[]", &[], &[]);
    }
    g.lit(["", TAILS[h]][sym::choose(2)]);
    survives(&g);
}
/// lists of many values, and transforms with any number of arguments
pub fn c01_lists() {
    let mut g = G::new();
    if sym::choose(2) == 0 {
        g.lit("WorldBegin Shape \"s\" \"");
        g.lit(DECLS[sym::choose(DECLS.len())].0);
        g.lit(" x\" [");
    } else {
        g.lit(TRANSFORMS[sym::choose(TRANSFORMS.len())]);
        g.lit(" ");
    }
    for _ in 0..sym::choose(sym::param(0, 14, 24)) {
        g.digit();
        g.lit(" ");
    }
    g.lit(["", "]", "] WorldEnd", "WorldBegin WorldEnd"][sym::choose(4)]);
    survives(&g);
}
/// long words and strings with a character beyond ASCII anywhere, where they are rejected or kept
pub fn c01_long() {
    let mut g = G::new();
    let k = sym::choose(18);
    g.lit(
        [
            "",
            "ActiveTransform ",
            "Translate 1 ",
            "Camera \"",
            "Camera \"c\" \"",
            "Camera \"c\" \"float ",
            "Camera \"c\" \"integer i\" \"",
            "WorldBegin ",
            "WorldBegin Shape \"s\" \"bool b\" \"",
            "WorldBegin Include 1 \"",
            "Camera \"c\" \"flot ",
            "Camera \"c\" \"integer i j ",
            "Texture \"",
            "WorldBegin Texture \"t\" \"",
            "WorldBegin Texture \"t\" \"float\" \"",
            "WorldBegin Texture \"t\" \"float\" \"c\" \"float f\" [ 1 \"",
            "Camera \"c\" \"spectrum s\" [ 1 \"",
            "Translate 1 2 \"",
        ][k],
    );
    let word = k < 3 || k == 7;
    let n = sym::choose(sym::param(0, 70, 280));
    g.fill(n);
    if word {
        g.lit(["é", "中", "x"][sym::choose(3)]);
    } else {
        g.lit(["é", "中", "😀"][sym::choose(3)]);
    }
    g.fill([0, 40][sym::choose(2)]);
    g.lit(if word { " WorldEnd" } else { "\" 1 WorldBegin WorldEnd" });
    survives(&g);
}
/// any names, with a parameter of any type and name
pub fn c01_names() {
    let mut g = G::new();
    g.lit("Identity ");
    let world = sym::choose(2) == 1;
    if world {
        g.lit("WorldBegin ");
        named(&mut g, &["Shape ", "Texture \"a\" \"b\" "], sym::param(0, 12, 20));
    } else {
        named(&mut g, &["Camera "], sym::param(1, 12, 20));
        g.lit("WorldBegin ");
    }
    g.lit("WorldEnd");
    survives(&g);
}
/// nesting of blocks, closed or not
pub fn c01_blocks() {
    let mut g = G::new();
    for _ in 0..sym::choose(sym::param(0, 5, 7)) {
        g.lit(["WorldBegin ", "WorldEnd ", "AttributeBegin ", "AttributeEnd ", "TransformBegin ", "TransformEnd ", "Shape \"s\" ", "Identity "][sym::choose(8)]);
    }
    survives(&g);
}

// ---------- C02 ----------

pub fn c02_free() {
    let mut g = G::new();
    g.ascii_n(sym::choose(sym::param(0, 5, 6) + 1));
    tokens(&g, POSITIONS);
}
pub fn c02_wide() {
    let mut g = G::new();
    let k = sym::choose(3);
    g.lit(["a ", "a # ", "a \""][k]);
    for _ in 0..sym::param(0, 2, 3) {
        piece(&mut g);
    }
    g.lit([" x", "\nx", "\"x"][k]);
    tokens(&g, POSITIONS);
}
/// every labelled construct of a scene, with symbolic layout in front of each
pub fn c02_scene() {
    let mut g = G::new();
    let w = sym::choose(SCENES.len());
    let hole = sym::choose(8);
    let mut i = 0;
    for t in SCENES[w] {
        if i == hole {
            gap(&mut g, sym::param(0, 2, 3));
        } else {
            g.lit(" ");
        }
        g.lit(t);
        i += 1;
    }
    g.lit("\n");
    scene(&g, POSITIONS);
}
/// any character beyond ASCII in a string or comment advances the column by one
pub fn c02_any() {
    let mut g = G::new();
    let k = sym::choose(3);
    g.lit(["\"", "#", "\"x\\"][k]);
    for _ in 0..sym::param(0, 1, 2) {
        let n = 2 + sym::choose(3);
        g.wide(n);
    }
    g.lit(["\"a", "\n\"b\"a", "\" a"][k]);
    g.lit(" b");
    tokens(&g, POSITIONS);
}
/// rows and columns beyond one byte
pub fn c02_far() {
    let mut g = G::new();
    let n = sym::param(0, 260, 700);
    let by_row = sym::choose(2) == 1;
    let n = if sym::choose(2) == 1 { n } else { sym::param(1, 65600, 65600) };
    g.t.resize(n, if by_row { b'\n' } else { b' ' });
    g.lit("Identity");
    gap(&mut g, 1);
    g.lit("WorldBegin Shape \"s\" \"integer i\" 1 AttributeBegin AttributeEnd WorldEnd");
    scene(&g, POSITIONS);
}
/// a non-empty run of symbolic blanks or a comment of symbolic characters
fn gap(g: &mut G, n: usize) {
    match sym::choose(3) {
        0 => {
            for _ in 0..n {
                g.blank();
            }
        }
        1 => {
            g.lit(" #");
            for _ in 0..n {
                let b = sym::u8_();
                sym::assume(sym::and(b < 0x80, b != b'\n'));
                g.t.push(b);
            }
            g.lit("\n");
        }
        _ => g.lit("\r\n"),
    }
}
const SCENES: &[&[&str]] = &[
    &["Translate", "1", "2", "3", "WorldBegin", "WorldEnd"],
    &["Camera", "\"c\"", "\"float f\"", "5", "\"rgb k\"", "[1 2 3]", "WorldBegin", "WorldEnd"],
    &["WorldBegin", "Texture", "\"n\"", "\"t\"", "\"c\"", "\"string s\"", "\"v\"", "WorldEnd"],
    &["WorldBegin", "AttributeBegin", "Shape", "\"s\"", "\"integer i\"", "[1 2]", "AttributeEnd", "WorldEnd"],
    &["WorldBegin", "TransformBegin", "Include", "\"f\"", "TransformEnd", "Material", "\"m\"", "WorldEnd"],
    &["ActiveTransform", "All", "CoordinateSystem", "\"c\"", "Include", "\"f\"", "WorldBegin", "WorldEnd"],
    &["Film", "\"a\"", "Sampler", "\"b\"", "\"bool q\"", "\"true\"", "WorldBegin", "WorldEnd"],
    &["WorldBegin", "LightSource", "\"l\"", "\"spectrum e\"", "\"f\"", "AreaLightSource", "\"d\"", "WorldEnd"],
];

// ---------- C03 ----------

/// every string over the characters of numbers, followed by something else
pub fn c03_chars() {
    let mut g = G::new();
    numeric(&mut g, 1 + sym::choose(sym::param(0, 5, 6)));
    let k = sym::choose(3);
    g.lit(["", " ", "]"][k]);
    let m = Mask { structure: true, pos: false, strs: false, nums: true };
    tokens(&g, m);
}
/// long integers
pub fn c03_int() {
    let mut g = G::new();
    g.lit(["", "-", "+"][sym::choose(3)]);
    let n = sym::param(0, 18, 18);
    let n = [1, 2, 3, 5, 9, 10, 12, 15, 16, 17, n][sym::choose(11)];
    g.digits(n);
    let m = Mask { structure: true, pos: false, strs: false, nums: true };
    tokens(&g, m);
}
/// integers around the limits of the machine integer
pub fn c03_limit() {
    let mut g = G::new();
    g.lit(["", "-", "+", "0", "-0", "000000000000000000000"][sym::choose(6)]);
    match sym::choose(3) {
        0 => {
            g.lit("92233720368547758");
            g.digits(2);
        }
        1 => {
            g.lit("1844674407370955");
            g.digits(4);
        }
        _ => {
            g.digit();
            g.lit("000000000000000000");
            g.digit();
        }
    }
    let m = Mask { structure: true, pos: false, strs: false, nums: true };
    tokens(&g, m);
}
/// integer mantissa with exponent
pub fn c03_exp() {
    let mut g = G::new();
    g.lit(["", "-", "+"][sym::choose(3)]);
    g.digits(1 + sym::choose(sym::param(0, 2, 3)));
    g.lit(["e", "e-", "e+"][sym::choose(3)]);
    g.cdigits(1 + sym::choose(sym::param(1, 2, 2)));
    let m = Mask { structure: true, pos: false, strs: false, nums: true };
    tokens(&g, m);
}
/// exponents that do not fit 32 or 64 bits
pub fn c03_bigexp() {
    let mut g = G::new();
    g.digit();
    g.lit(["e", "e-"][sym::choose(2)]);
    match sym::choose(3) {
        0 => {
            g.lit("42949672");
            g.digits(2)
        }
        1 => {
            g.lit("922337203685477580");
            g.digits(1)
        }
        _ => {
            g.lit("1844674407370955161");
            g.digits(1)
        }
    }
    let m = Mask { structure: true, pos: false, strs: false, nums: true };
    tokens(&g, m);
}
/// literals with many digits
pub fn c03_manydigits() {
    let mut g = G::new();
    g.lit(["", "-"][sym::choose(2)]);
    let n = [6, 9, 15, 18, 20, 22, 27, 33][sym::choose(8)];
    match sym::choose(6) {
        0 => {
            g.lit("0.");
            g.zeros(n);
            g.digits(2);
        }
        1 => {
            g.counted(n);
            g.digit();
            g.lit(".");
            g.digit();
        }
        2 => {
            g.zeros(n);
            g.digits(2);
            g.lit(".5");
        }
        3 => {
            g.digit();
            g.zeros(n);
            g.lit(".25");
        }
        4 => {
            g.lit(".");
            g.zeros(n);
            g.digit();
            g.lit(["e30", "e9", "e-3"][sym::choose(3)]);
        }
        _ => {
            g.digit();
            g.zeros(n);
            g.lit(["e-20", "e-7", "e-40"][sym::choose(3)]);
        }
    }
    let m = Mask { structure: true, pos: false, strs: false, nums: true };
    tokens(&g, m);
}

/// decimal fractions with an optional exponent
pub fn c03_float() {
    let mut g = G::new();
    g.lit(["", "-", "+"][sym::choose(3)]);
    let n = sym::param(0, 2, 3);
    let a = sym::choose(n + 1);
    let b = sym::choose(n + 1);
    g.digits(a);
    g.lit(".");
    g.digits(b);
    match sym::choose(3) {
        0 => {}
        k => {
            g.lit(["", "e", "e-"][k]);
            g.digits(1 + sym::choose(sym::param(1, 1, 2)));
        }
    }
    let m = Mask { structure: true, pos: false, strs: false, nums: true };
    tokens(&g, m);
}
/// a literal where a number is used in a scene
pub fn c03_scene() {
    let mut g = G::new();
    let k = sym::choose(3);
    g.lit(["Scale 1 ", "WorldBegin Shape \"s\" \"float f\" ", "WorldBegin Shape \"s\" \"integer f\" [ "][k]);
    g.lit(["", "-"][sym::choose(2)]);
    g.digits(sym::param(0, 2, 3));
    match sym::choose(4) {
        0 => {}
        1 => {
            g.lit(".");
            g.digit()
        }
        2 => {
            g.lit("e");
            g.digit()
        }
        _ => {
            g.lit("e-");
            g.digit()
        }
    }
    g.lit([" 1 WorldBegin WorldEnd", " WorldEnd", "]WorldEnd"][k]);
    let m = Mask { structure: false, pos: false, strs: false, nums: true };
    scene(&g, m);
}
/// a long integer where a float is expected
pub fn c03_wideint() {
    let mut g = G::new();
    let k = sym::choose(3);
    g.lit(["Scale 1 ", "WorldBegin Shape \"s\" \"float f\" ", "WorldBegin Shape \"s\" \"point2 f\" [ 1 "][k]);
    g.lit(["", "-"][sym::choose(2)]);
    g.digits([7, 8, 9, 12, 16, 17][sym::choose(6)]);
    g.lit([" 1 WorldBegin WorldEnd", " WorldEnd", "]WorldEnd"][k]);
    let m = Mask { structure: false, pos: false, strs: false, nums: true };
    scene(&g, m);
}

// ---------- C04 ----------

pub fn c04_free() {
    let mut g = G::new();
    g.lit("\"");
    g.ascii_n(sym::choose(sym::param(0, 5, 6) + 1));
    g.lit("\"");
    let m = Mask { structure: true, pos: false, strs: true, nums: false };
    tokens(&g, m);
}
pub fn c04_wide() {
    let mut g = G::new();
    g.lit("x\"");
    for _ in 0..sym::param(0, 3, 4) {
        piece(&mut g);
    }
    g.lit("\" y");
    let m = Mask { structure: true, pos: false, strs: true, nums: false };
    tokens(&g, m);
}
/// any character beyond ASCII, plain or after a backslash
pub fn c04_any() {
    let mut g = G::new();
    g.lit("\"");
    g.lit(["", "q", "\\"][sym::choose(3)]);
    for _ in 0..sym::param(0, 1, 2) {
        let n = 2 + sym::choose(3);
        g.wide(n);
    }
    if sym::choose(2) == 1 {
        g.plain();
    }
    g.lit("\"");
    let m = Mask { structure: true, pos: false, strs: true, nums: false };
    tokens(&g, m);
}
/// a long string with symbolic characters at its start, middle and end
pub fn c04_long() {
    let mut g = G::new();
    let n = sym::param(0, 700, 40000);
    g.lit("\"");
    g.ascii();
    for i in 0..n {
        g.t.push(b'a' + (i % 26) as u8);
    }
    g.ascii();
    for i in 0..n {
        g.t.push(b'A' + (i % 26) as u8);
    }
    g.ascii();
    g.lit("\"");
    let m = Mask { structure: true, pos: false, strs: true, nums: false };
    tokens(&g, m);
}
/// strings of every length, every character symbolic
pub fn c04_len() {
    let mut g = G::new();
    let n = sym::choose(sym::param(0, 40, 100));
    g.lit("\"");
    g.graph_n(n);
    g.lit(["", "\\\"", "\\n", " ", "é"][sym::choose(5)]);
    let m = sym::choose(5);
    g.graph_n(m);
    g.lit("\" x");
    let m = Mask { structure: true, pos: false, strs: true, nums: false };
    tokens(&g, m);
}
/// strings where a scene uses them
pub fn c04_scene() {
    let mut g = G::new();
    let k = sym::choose(6);
    g.lit(
        [
            "Camera \"",
            "CoordinateSystem \"",
            "Include \"",
            "WorldBegin Texture \"a\" \"b\" \"",
            "WorldBegin Shape \"s\" \"string x\" [\"p\" \"",
            "WorldBegin Shape \"s\" \"texture x\" \"",
        ][k],
    );
    if sym::choose(2) == 0 {
        for _ in 0..sym::param(0, 3, 3) {
            let b = sym::u8_();
            sym::assume(sym::all(&[b < 0x80, b != b'"', b != b'\\', b != b'\r']));
            g.t.push(b);
        }
    } else {
        g.plain();
        g.lit("\\");
        g.ascii();
    }
    g.lit(["\" WorldBegin WorldEnd", "\" WorldBegin WorldEnd", "\" WorldBegin WorldEnd", "\" WorldEnd", "\"] WorldEnd", "\" WorldEnd"][k]);
    let m = Mask { structure: true, pos: false, strs: true, nums: false };
    scene(&g, m);
}

// ---------- C05 ----------

fn same_tokens(a: &G, b: &G) {
    sym::note("one layout", &a.t);
    sym::note("other layout", &b.t);
    let (x, y) = (hook::tokenize(a.text()), hook::tokenize(b.text()));
    match (x, y) {
        (Ok(x), Ok(y)) => {
            sym::cover("both accepted");
            if x.len() != y.len() {
                sym::fail("layout changed the number of tokens");
            }
            for i in 0..x.len() {
                let same = match (&x[i].1, &y[i].1) {
                    (hook::Tok::Identifier(p), hook::Tok::Identifier(q)) => spec::beq(p.as_bytes(), q.as_bytes()),
                    (hook::Tok::Str(p), hook::Tok::Str(q)) => spec::beq(p.as_bytes(), q.as_bytes()),
                    (hook::Tok::Int(p), hook::Tok::Int(q)) => p == q,
                    (hook::Tok::Float(p), hook::Tok::Float(q)) => real::fclose(*p, *q),
                    (hook::Tok::LBracket, hook::Tok::LBracket) | (hook::Tok::RBracket, hook::Tok::RBracket) => true,
                    _ => false,
                };
                sym::check(same, "layout changed a token");
            }
        }
        (Err(_), Err(_)) => sym::cover("both rejected"),
        _ => sym::fail("layout decides whether the text is accepted"),
    }
}
/// a token with symbolic content
fn some_token(g: &mut G) {
    match sym::choose(5) {
        0 => g.id(2),
        1 => {
            g.digit();
            g.lit(".");
            g.digit()
        }
        2 => {
            g.lit("\"");
            g.plain();
            g.plain();
            g.lit("\"")
        }
        3 => g.lit("["),
        _ => {
            g.lit("-");
            g.digit()
        }
    }
}
fn both(a: &mut G, b: &mut G, from: usize) {
    for i in from..a.t.len() {
        b.t.push(a.t[i])
    }
}
/// blanks: any run in place of one space, in front, between and behind
pub fn c05_blanks() {
    let (mut a, mut b) = (G::new(), G::new());
    let at = sym::choose(3);
    let n = 1 + sym::choose(sym::param(0, 2, 3));
    for i in 0..2 {
        if i == at {
            for _ in 0..n {
                blank_wide(&mut b)
            }
        } else if i == 1 {
            b.lit(" ")
        }
        if i == 1 {
            a.lit(" ")
        }
        let s = a.t.len();
        some_token(&mut a);
        both(&mut a, &mut b, s);
    }
    if at == 2 {
        for _ in 0..n {
            blank_wide(&mut b)
        }
    }
    same_tokens(&a, &b);
}
fn blank_wide(g: &mut G) {
    match sym::choose(3) {
        0 => g.lit("\r\n"),
        1 => match sym::choose(3) {
            0 => {
                // U+2000 to U+200A
                g.t.push(0xe2);
                g.t.push(0x80);
                g.t.push(sym::byte(0x80, 0x8a));
            }
            1 => g.lit(["\u{a0}", "\u{85}"][sym::choose(2)]),
            _ => g.lit(["\u{1680}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}", "\u{3000}"][sym::choose(6)]),
        },
        _ => g.blank(),
    }
}
/// comments of symbolic text in place of a space, in front, and behind
pub fn c05_comment() {
    let (mut a, mut b) = (G::new(), G::new());
    let at = sym::choose(3);
    let n = sym::choose(sym::param(0, 3, 4) + 1);
    for i in 0..2 {
        if i == at {
            comment(&mut b, n)
        } else if i == 1 {
            b.lit(" ")
        }
        if i == 1 {
            a.lit(" ")
        }
        let s = a.t.len();
        if i == 0 {
            some_token(&mut a)
        } else {
            a.id(1)
        }
        both(&mut a, &mut b, s);
    }
    if at == 2 {
        comment(&mut b, n)
    }
    same_tokens(&a, &b);
}
/// comments of every length, and of words, before a scene, in it and at its end
pub fn c05_words() {
    let (mut a, mut b) = (G::new(), G::new());
    let at = sym::choose(4);
    let parts = ["Translate 1 2 3\n", "WorldBegin\n", "Shape \"s\" \"float f\" [1 2]\n", "WorldEnd\n"];
    for i in 0..4 {
        if i == at {
            b.lit([" # ", "#"][sym::choose(2)]);
            let n = sym::choose(sym::param(0, 24, 60));
            b.graph_n(n);
            b.lit([" ", "\\", "\"", " é ", "[", ""][sym::choose(6)]);
            let n = sym::choose(2);
            b.graph_n(n);
            b.lit(["\n", "\r\n"][n]);
        }
        a.lit(parts[i]);
        b.lit(parts[i]);
    }
    same_scenes(&a, &b);
}
fn comment(g: &mut G, n: usize) {
    g.lit("#");
    for _ in 0..n {
        let b = sym::u8_();
        sym::assume(sym::and(b < 0x80, b != b'\n'));
        g.t.push(b);
    }
    match sym::choose(3) {
        0 => g.lit("\n"),
        1 => g.lit("\r\n"),
        _ => g.lit("é\n"),
    }
}
/// several comments and blanks in a row, a comment that ends the text
pub fn c05_mixed() {
    let (mut a, mut b) = (G::new(), G::new());
    a.lit("x ");
    b.lit("x");
    for _ in 0..sym::param(0, 3, 4) {
        match sym::choose(4) {
            0 => b.blank(),
            1 => {
                b.lit("#");
                b.lit("\n")
            }
            2 => {
                b.lit(" #");
                let c = sym::u8_();
                sym::assume(sym::and(c < 0x80, c != b'\n'));
                b.t.push(c);
                b.lit("\n")
            }
            _ => b.lit("\r\n"),
        }
    }
    let s = a.t.len();
    a.id(1);
    // at least one separator character precedes in both
    both(&mut a, &mut b, s);
    if sym::choose(2) == 1 {
        b.lit("#");
        b.ascii();
    }
    if b.t.len() > 2 {
        same_tokens(&a, &b);
    }
}
/// long comments, long runs of blanks and many comments
pub fn c05_long() {
    let (mut a, mut b) = (G::new(), G::new());
    let n = sym::param(0, 5000, 20000);
    a.lit("x ");
    b.lit("x");
    match sym::choose(4) {
        0 => {
            b.lit("#");
            b.fill(n);
            let c = sym::u8_();
            sym::assume(sym::and(c < 0x80, c != b'\n'));
            b.t.push(c);
            b.fill(n);
            b.lit("\n");
        }
        1 => {
            for _ in 0..n {
                b.lit(" ");
            }
            b.blank();
            for _ in 0..n {
                b.lit("\n");
            }
        }
        2 => {
            for i in 0..n / 2 {
                b.lit(if i % 3 == 0 { " #\"[\n" } else { "#1\n" });
            }
            b.blank();
        }
        _ => {
            b.lit("#");
            let k = 2 + sym::choose(3);
            b.wide(k);
            b.lit("\r\n");
        }
    }
    let s = a.t.len();
    some_token(&mut a);
    both(&mut a, &mut b, s);
    same_tokens(&a, &b);
}
/// LF against CR LF over a free text
pub fn c05_crlf() {
    let (mut a, mut b) = (G::new(), G::new());
    for _ in 0..sym::param(0, 4, 5) {
        let c = sym::u8_();
        sym::assume(sym::and(c < 0x80, c != b'\r'));
        a.t.push(c);
        if c == b'\n' {
            b.t.push(b'\r');
        }
        b.t.push(c);
    }
    same_tokens(&a, &b);
}
/// re-laying out a scene leaves the scene unchanged
pub fn c05_scene() {
    let (mut a, mut b) = (G::new(), G::new());
    let w = sym::choose(SCENES.len());
    let hole = sym::choose(9);
    let crlf = sym::choose(2) == 1;
    let mut i = 0;
    for t in SCENES[w] {
        a.lit(if crlf { "\r\n" } else { " " });
        if i == hole {
            gap(&mut b, sym::param(0, 2, 3));
        } else {
            b.lit("\n");
        }
        a.lit(t);
        b.lit(t);
        i += 1;
    }
    same_scenes(&a, &b);
}
fn same_scenes(a: &G, b: &G) {
    sym::note("one layout", &a.t);
    sym::note("other layout", &b.t);
    match (real::parse(&a.t), real::parse(&b.t)) {
        (Ok(x), Ok(y)) => {
            sym::cover("both accepted");
            real::cmp_events(&x, &y, NOPOS)
        }
        (Err(_), Err(_)) => sym::cover("both rejected"),
        _ => sym::fail("layout decides whether the scene is accepted"),
    }
}

// ---------- C06 ----------

pub fn c06_free() {
    let mut g = G::new();
    g.ascii_n(sym::choose(sym::param(0, 5, 6) + 1));
    tokens(&g, STRUCTURE);
}
/// any character beyond ASCII where a token starts or goes on
pub fn c06_any() {
    let mut g = G::new();
    g.lit(["", "a", "1"][sym::choose(3)]);
    let planes = sym::choose(sym::param(1, 2, 3));
    if planes == 0 {
        g.wide(2);
    } else if planes == 2 {
        let page = sym::choose(96) * 32 + sym::choose(32);
        g.t.push(0xf0);
        g.t.push(0x90 + (page / 64) as u8);
        g.t.push(0x80 + (page % 64) as u8);
        g.t.push(sym::byte(0x80, 0xbf));
    } else {
        // page by page
        let page = sym::choose(sym::param(0, 256, 256)) * 4 + sym::choose(4);
        let (a, b) = (page / 64, page % 64);
        sym::assume((a != 0 || b >= 32) && (a != 13 || b < 32));
        g.t.push(0xe0 + a as u8);
        g.t.push(0x80 + b as u8);
        g.t.push(sym::byte(0x80, 0xbf));
    }
    tokens(&g, Mask { structure: true, pos: false, strs: false, nums: false });
}
pub fn c06_wide() {
    let mut g = G::new();
    for _ in 0..sym::param(0, 3, 3) {
        piece(&mut g);
    }
    tokens(&g, STRUCTURE);
}
/// numbers only, longer
pub fn c06_num() {
    let mut g = G::new();
    numeric(&mut g, sym::param(0, 6, 7));
    tokens(&g, STRUCTURE);
}
/// a free window inside a scene: what is no token makes the whole parse fail
pub fn c06_scene() {
    let mut g = G::new();
    let k = sym::choose(4);
    g.lit(["", "WorldBegin Shape \"s\" \"integer i\" 1", "Scale 1 2 3", "WorldBegin WorldEnd"][k]);
    g.lit(" ");
    g.ascii_n(sym::param(0, 3, 4));
    g.lit(" ");
    g.lit(["WorldBegin WorldEnd", "WorldEnd", "WorldBegin WorldEnd", ""][k]);
    sym::note("text", &g.t);
    let got = real::parse(&g.t);
    match spec::tokenize(&g.t).res {
        Err(spec::Bad::Reject) => {
            sym::cover("malformed token");
            sym::check(got.is_err(), "a malformed token was accepted in a scene");
        }
        _ => sym::cover("well-formed tokens"),
    }
}

// ---------- C07, C08 ----------

const HEADS: &[&str] = &["Camera \"c\" ", "WorldBegin Shape \"s\" ", "WorldBegin Texture \"n\" \"t\" \"c\" "];
const TAILS: &[&str] = &["WorldBegin WorldEnd", "WorldEnd", "WorldEnd"];

/// values of every kind after a declaration of symbolic type
fn value(g: &mut G, kind: usize) {
    match kind {
        0 => g.int(),
        1 => {
            g.digit();
            g.lit(".");
            g.digit()
        }
        2 => g.string(2),
        3 => {
            let n = 4 + sym::choose(2);
            g.string(n)
        }
        _ => unreachable!(),
    }
}
fn values(g: &mut G, max: usize) {
    let kind = sym::choose(4);
    if sym::choose(2) == 0 {
        value(g, kind);
        g.lit(" ");
    } else {
        let n = 1 + sym::choose(max);
        g.lit("[");
        for i in 0..n {
            if i == 0 {
                value(g, kind);
            } else {
                // the remaining values with one symbolic digit or character each
                match kind {
                    0 => g.digit(),
                    1 => {
                        g.digit();
                        g.lit(".5")
                    }
                    2 => g.string(1),
                    _ => g.lit(["\"true\"", "\"false\""][sym::choose(2)]),
                }
            }
            g.lit(" ");
        }
        g.lit("]");
    }
}
/// one parameter: symbolic type, name and values
pub fn c07_one() {
    let mut g = G::new();
    let h = sym::choose(HEADS.len());
    g.lit(HEADS[h]);
    let n = TYLENS[sym::choose(TYLENS.len())];
    g.decl(n);
    values(&mut g, sym::param(0, 4, 6));
    g.lit(TAILS[h]);
    sym::note("text", &g.t);
    let got = real::parse(&g.t);
    let want = spec::parse(&g.t);
    if want.res.is_ok() {
        real::cmp_scene(&got, &want, ALL);
    }
}
const DECLS: &[(&str, &str)] = &[
    ("integer", "n"),
    ("float", "n"),
    ("bool", "t"),
    ("string", "s"),
    ("point2", "2"),
    ("vector2", "2"),
    ("rgb", "3"),
    ("xyz", "3"),
    ("blackbody", "2"),
    ("spectrum", "2"),
    ("spectrum", "s"),
    ("texture", "s"),
];
fn one_param(g: &mut G) {
    let (ty, v) = DECLS[sym::choose(DECLS.len())];
    g.lit("\"");
    g.lit(ty);
    g.lit(" ");
    g.graph();
    g.lit("\"");
    match v {
        "n" => {
            g.digit();
            g.lit(" ")
        }
        "t" => g.lit(["\"true\"", "\"false\""][sym::choose(2)]),
        "s" => g.string(1),
        "2" => {
            g.lit("[");
            g.digit();
            g.lit(" ");
            g.digit();
            g.lit("]")
        }
        _ => {
            g.lit("[");
            g.digit();
            g.lit(" ");
            g.digit();
            g.lit(" ");
            g.digit();
            g.lit("]")
        }
    }
}
/// several parameters: order and collections
pub fn c07_many() {
    let mut g = G::new();
    g.lit("WorldBegin Shape \"s\" ");
    for _ in 0..sym::param(0, 3, 3) {
        one_param(&mut g);
    }
    g.lit("WorldEnd");
    scene(&g, ALL);
}
/// long lists and long names
pub fn c07_long() {
    let mut g = G::new();
    let h = sym::choose(HEADS.len());
    g.lit(HEADS[h]);
    let (ty, v) = DECLS[sym::choose(DECLS.len())];
    g.lit("\"");
    g.lit(ty);
    g.lit(" ");
    for i in 0..sym::param(0, 300, 1000) {
        g.t.push(b'a' + (i % 26) as u8);
    }
    g.graph();
    g.lit("\" ");
    let n = match v {
        "3" => 3,
        "2" if ty == "blackbody" => 2,
        "s" if ty == "spectrum" || ty == "texture" => 0,
        _ => sym::param(1, 300, 1200),
    };
    if n == 0 {
        g.string(3);
    } else {
        g.lit("[");
        for i in 0..n {
            match v {
                "n" | "2" | "3" => {
                    if i < 6 || i + 3 > n {
                        g.digit()
                    } else {
                        g.t.push(b'1' + (i % 9) as u8);
                        g.t.push(b'0' + (i / 9 % 10) as u8);
                    }
                }
                "t" => g.lit(if i % 3 == 0 { "\"true\"" } else { "\"false\"" }),
                _ => {
                    if i < 6 || i + 3 > n {
                        g.string(1)
                    } else {
                        g.lit("\"q");
                        g.t.push(b'a' + (i % 26) as u8);
                        g.t.push(b'a' + (i / 26 % 26) as u8);
                        g.lit("\"");
                    }
                }
            }
            g.lit(" ");
        }
        g.lit("]");
    }
    g.lit(TAILS[h]);
    scene(&g, ALL);
}
/// the values of one parameter, fixed but for one of them
fn fixed_values(g: &mut G, v: &str, n: usize, hole: usize) {
    g.lit("[");
    for i in 0..n {
        match v {
            "n" | "2" | "3" => {
                if i == hole {
                    g.digit()
                } else {
                    g.t.push(b'9' - (i % 9) as u8);
                    g.t.push(b'9' - (i / 9 % 10) as u8);
                }
            }
            "t" => g.lit(if i % 3 == hole % 3 { "\"true\"" } else { "\"false\"" }),
            _ => {
                if i == hole {
                    g.string(1)
                } else {
                    g.lit("\"");
                    g.t.push(b'z' - (i % 26) as u8);
                    g.t.push(b'z' - (i / 26 % 26) as u8);
                    g.lit("\"");
                }
            }
        }
        g.lit(" ");
    }
    g.lit("]");
}
/// lists of every length
pub fn c07_len() {
    let mut g = G::new();
    g.lit(HEADS[0]);
    let (ty, v) = DECLS[sym::choose(10)];
    sym::assume(ty != "rgb" && ty != "xyz" && ty != "blackbody");
    let n = 1 + sym::choose(sym::param(0, 70, 300));
    let n = if v == "2" { 2 * n } else { n };
    g.lit("\"");
    g.lit(ty);
    g.lit(" x\"");
    fixed_values(&mut g, v, n, n - 1);
    g.lit(TAILS[0]);
    scene(&g, ALL);
}
/// any number of parameters, of one type or of two in turn
pub fn c07_count() {
    let mut g = G::new();
    let h = sym::choose(HEADS.len());
    g.lit(HEADS[h]);
    let a = sym::choose(DECLS.len());
    let b = [a, (a + 5) % DECLS.len()][sym::choose(2)];
    let n = [4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33, 65][sym::choose(sym::param(0, 11, 13))];
    for i in 0..n {
        let (ty, v) = DECLS[if i % 2 == 0 { a } else { b }];
        g.lit("\"");
        g.lit(ty);
        g.lit(" ");
        // names in falling order, one of them symbolic
        if i == 2 {
            g.graph();
        } else {
            g.t.push(b'z' - (i / 8) as u8);
            g.t.push(b'z' - (i % 8) as u8);
        }
        g.lit("\"");
        if v == "s" {
            g.lit("\"v");
            g.t.push(b'z' - (i % 26) as u8);
            g.lit("\"");
        } else {
            let k = match v {
                "3" => 3,
                "2" => 2,
                _ => 1 + i % 2,
            };
            fixed_values(&mut g, v, k, if i == n - 1 { 0 } else { k });
        }
        g.lit(" ");
    }
    g.lit(TAILS[h]);
    scene(&g, ALL);
}
/// a named directive with a parameter: name, parameter name and string value of any length
fn named(g: &mut G, dirs: &[&str], max: usize) {
    g.lit(dirs[sym::choose(dirs.len())]);
    let n = 1 + sym::choose(max);
    g.string(n);
    let k = sym::choose(DECLS.len() + 1);
    if k < DECLS.len() {
        let (ty, v) = DECLS[k];
        g.lit(" \"");
        g.lit(ty);
        g.lit(" ");
        let n = 1 + sym::choose(sym::param(9, 10, 16));
        g.graph_n(n);
        g.lit("\" ");
        match v {
            "t" => g.lit("\"true\""),
            "s" => g.string(n),
            "n" => g.lit("[3 1 2 4]"),
            "2" => g.lit("[3 1]"),
            _ => g.lit("[3 1 2]"),
        }
    }
    g.lit(" ");
}
pub fn c07_names() {
    let mut g = G::new();
    g.lit("WorldBegin ");
    named(&mut g, &["Shape "], sym::param(0, 13, 20));
    g.lit("WorldEnd");
    scene(&g, ALL);
}
/// blanks around and between the two words of a declaration
pub fn c07_decl() {
    let mut g = G::new();
    g.lit("WorldBegin Shape \"s\" \"");
    for _ in 0..sym::choose(3) {
        g.blank();
    }
    g.lit("float");
    for _ in 0..1 + sym::choose(2) {
        g.blank();
    }
    g.graph_n(1 + sym::choose(3));
    for _ in 0..sym::choose(3) {
        g.blank();
    }
    g.lit("\" 4 WorldEnd");
    scene(&g, ALL);
}
/// names and string values that are not plain
pub fn c07_strings() {
    let mut g = G::new();
    let h = sym::choose(HEADS.len());
    g.lit(HEADS[h]);
    match sym::choose(5) {
        0 => {
            g.lit("\"string x\" ");
            g.estring();
        }
        1 => {
            g.lit("\"string x\" [\"a\" ");
            g.estring();
            g.lit(" \"b\"]");
        }
        2 => {
            g.lit("\"texture x\" ");
            g.estring();
        }
        3 => {
            g.lit("\"spectrum x\" ");
            g.estring();
        }
        _ => {
            g.lit("\"float ");
            g.lit(["é", "中x", "x😀", "\\\\", "\\\"", "\\q", "#", "[", "]"][sym::choose(9)]);
            g.graph();
            g.lit("\" 3");
        }
    }
    g.lit(" ");
    g.lit(TAILS[h]);
    scene(&g, ALL);
}
/// arbitrary tokens where values are expected
pub fn c08_values() {
    let mut g = G::new();
    g.lit("WorldBegin Shape \"s\" ");
    let (ty, _) = DECLS[sym::choose(DECLS.len())];
    g.lit("\"");
    g.lit(ty);
    g.lit(" ");
    g.graph();
    g.lit("\"");
    for _ in 0..sym::choose(sym::param(0, 5, 6)) {
        g.tok(b"nst[]", &[], &[]);
    }
    g.lit("WorldEnd");
    scene(&g, STRUCTURE);
}
/// the declaration string itself
pub fn c08_decl() {
    let mut g = G::new();
    let h = sym::choose(HEADS.len());
    g.lit(HEADS[h]);
    g.lit("\"");
    match sym::choose(4) {
        0 => {
            // any string in place of a declaration
            for _ in 0..sym::choose(sym::param(0, 4, 5)) {
                let b = sym::u8_();
                sym::assume(sym::all(&[b < 0x80, b != b'"', b != b'\\', b != b'\r']));
                g.t.push(b);
            }
        }
        1 => {
            g.lit("float ");
            for _ in 0..sym::choose(5) {
                let b = sym::u8_();
                sym::assume(sym::all(&[b < 0x80, b != b'"', b != b'\\', b != b'\r']));
                g.t.push(b);
            }
        }
        2 => {
            g.graph_n(TYLENS[sym::choose(TYLENS.len())]);
            g.lit(" x");
        }
        _ => {
            g.graph_n(1 + sym::choose(10));
            g.lit(" y");
        }
    }
    g.lit("\" ");
    g.lit(["1 ", "[1 2] ", "[1 2 3] ", "\"v\" ", "\"true\" "][sym::choose(5)]);
    g.lit(TAILS[h]);
    scene(&g, STRUCTURE);
}
/// a malformed parameter after or before a good one, in every kind of directive
pub fn c08_place() {
    let mut g = G::new();
    let d = sym::choose(12);
    let pre = d < 6;
    g.lit(if pre { "" } else { "WorldBegin " });
    g.lit(
        [
            "Camera \"c\" ",
            "Sampler \"c\" ",
            "Film \"c\" ",
            "Filter \"c\" ",
            "Integrator \"c\" ",
            "Accelerator \"c\" ",
            "Material \"c\" ",
            "Shape \"c\" ",
            "LightSource \"c\" ",
            "AreaLightSource \"c\" ",
            "Texture \"a\" \"b\" \"c\" ",
            "AttributeBegin Shape \"c\" ",
        ][d],
    );
    let first = sym::choose(2) == 0;
    if !first {
        g.lit("\"float g\" 3 ");
    }
    let (ty, v) = DECLS[sym::choose(DECLS.len())];
    g.lit("\"");
    g.lit(ty);
    g.lit(" x\" ");
    for _ in 0..sym::choose(sym::param(0, 3, 4)) {
        g.tok(b"ns[]", &[], &[]);
    }
    if first {
        g.lit("\"float g\" 3 ");
    }
    if d == 11 {
        g.lit("AttributeEnd ");
    }
    g.lit(if pre { "WorldBegin WorldEnd" } else { "WorldEnd" });
    scene(&g, STRUCTURE);
}
/// numbers of components in longer lists
pub fn c08_long() {
    let mut g = G::new();
    let h = 0;
    g.lit(HEADS[h]);
    let (ty, v) = DECLS[sym::choose(DECLS.len())];
    g.lit("\"");
    g.lit(ty);
    g.lit(" x\" [");
    let n = sym::param(0, 270, 1200) + sym::choose(2);
    let odd = [0, n / 2, n - 1, n][sym::choose(4)];
    for i in 0..n {
        if i == odd {
            g.tok(b"nsfi[", &[3], &[]);
        } else {
            g.lit(match v {
                "t" => "\"true\" ",
                "s" => "\"s\" ",
                _ => "4 ",
            });
        }
    }
    g.lit(["] ", "", "[ "][sym::choose(3)]);
    g.lit(TAILS[h]);
    scene(&g, STRUCTURE);
}
/// the number and kind of values
pub fn c08_count() {
    let mut g = G::new();
    g.lit("WorldBegin Material \"m\" ");
    let (ty, _) = DECLS[sym::choose(DECLS.len())];
    g.lit("\"");
    g.lit(ty);
    g.lit(" x\" [");
    let n = sym::choose(sym::param(0, 9, 14));
    let odd = sym::choose(n + 1);
    for i in 0..n {
        if i == odd {
            g.tok(b"nsf", &[], &[]);
        } else {
            g.digit();
            g.lit(" ");
        }
    }
    g.lit("] WorldEnd");
    scene(&g, STRUCTURE);
}

// ---------- C09 ----------

/// any arrangement of words of block length
pub fn c09_words() {
    let mut g = G::new();
    g.lit("WorldBegin ");
    for _ in 0..sym::param(0, 4, 5) {
        match sym::choose(2) {
            0 => {
                g.id_among(&[8, 10, 12, 14]);
                g.lit(" ");
            }
            _ => {
                g.lit("Include \"");
                g.graph();
                g.lit("\" ");
            }
        }
    }
    g.lit("WorldEnd");
    let m = Mask { structure: true, pos: false, strs: true, nums: false };
    scene(&g, m);
}
/// balanced and unbalanced nesting to a greater depth, with leaves told apart
pub fn c09_nest() {
    let mut g = G::new();
    let words = ["AttributeBegin ", "TransformBegin ", "AttributeEnd ", "TransformEnd "];
    g.lit("WorldBegin ");
    for _ in 0..sym::param(0, 5, 7) {
        let k = sym::choose(5);
        if k < 4 {
            g.lit(words[k]);
        } else {
            g.lit("Shape \"");
            g.graph();
            g.lit("\" ");
        }
    }
    g.lit("WorldEnd");
    let m = Mask { structure: true, pos: false, strs: true, nums: false };
    scene(&g, m);
}
/// deep nesting with a symbolic closing word at each level of a window
pub fn c09_deep() {
    let mut g = G::new();
    let n = sym::param(0, 140, 600);
    g.lit("WorldBegin ");
    for i in 0..n {
        g.lit(if i % 3 == 0 { "TransformBegin " } else { "AttributeBegin " });
        g.lit("Include \"");
        g.t.push(b'a' + (i % 26) as u8);
        g.lit("\" ");
    }
    let hole = [0, 1, 2, n / 2, n - 3, n - 2, n - 1][sym::choose(7)];
    for i in 0..n {
        let i = n - 1 - i;
        if i == hole {
            g.id(12);
        } else {
            g.lit(if i % 3 == 0 { "TransformEnd" } else { "AttributeEnd" });
        }
        g.lit(" Shape \"");
        g.t.push(b'A' + (i % 26) as u8);
        g.lit("\" ");
    }
    g.id(8);
    let m = Mask { structure: true, pos: false, strs: true, nums: false };
    scene(&g, m);
}

/// many blocks side by side, one closing word symbolic
pub fn c09_wide() {
    let mut g = G::new();
    let n = sym::param(0, 300, 1500);
    g.lit("WorldBegin ");
    let hole = [0, 1, n / 2, n - 1][sym::choose(4)];
    for i in 0..n {
        g.lit(if i % 3 == 0 { "TransformBegin " } else { "AttributeBegin " });
        if i % 5 == 0 {
            g.lit("Include \"");
            g.t.push(b'a' + (i % 26) as u8);
            g.lit("\" ");
        }
        if i == hole {
            g.id(12);
        } else {
            g.lit(if i % 3 == 0 { "TransformEnd" } else { "AttributeEnd" });
        }
        g.lit(" ");
    }
    g.id(8);
    let m = Mask { structure: true, pos: false, strs: true, nums: false };
    scene(&g, m);
}

// ---------- C10 ----------

/// any word in directive position, with arguments
pub fn c10_word() {
    let mut g = G::new();
    g.lit("WorldBegin ");
    let n = 1 + sym::choose(17);
    g.id(n);
    g.lit(" ");
    for _ in 0..sym::choose(4) {
        g.string(1);
        g.lit(" ");
    }
    g.lit("WorldEnd");
    scene(&g, ALL);
}
/// arguments of every kind after each directive
pub fn c10_args() {
    let mut g = G::new();
    g.lit("WorldBegin ");
    g.lit(["Material ", "Shape ", "LightSource ", "AreaLightSource ", "Texture ", "Include ", "AttributeBegin ", "TransformBegin "][sym::choose(8)]);
    for _ in 0..sym::choose(sym::param(0, 4, 5)) {
        g.tok(b"insp[", &[5, 12], &[5]);
    }
    g.lit("WorldEnd");
    scene(&g, ALL);
}
/// sequences of directives of symbolic kind, argument and parameter
pub fn c10_seq() {
    let mut g = G::new();
    g.lit("WorldBegin\n");
    for _ in 0..sym::param(0, 3, 4) {
        let k = sym::choose(7);
        g.lit(["Material ", "Shape ", "LightSource ", "AreaLightSource ", "Texture \"a\" \"b\" ", "Include ", "Texture "][k]);
        g.string(1);
        if k == 6 {
            g.string(1);
            g.string(2);
        }
        if k != 5 && sym::choose(2) == 1 {
            g.lit("\"integer ");
            g.graph();
            g.lit("\"");
            g.digit();
        }
        g.lit("\n");
    }
    g.lit("WorldEnd");
    scene(&g, ALL);
}
/// string arguments that are not plain
pub fn c10_strings() {
    let mut g = G::new();
    g.lit("WorldBegin ");
    let k = sym::choose(8);
    g.lit(["Material ", "Shape ", "LightSource ", "AreaLightSource ", "Include ", "Texture ", "Texture \"a\" ", "Texture \"a\" \"b\" "][k]);
    g.estring();
    g.lit(["", "", "", "", "", " \"b\" \"c\"", " \"c\"", ""][k]);
    g.lit(" WorldEnd");
    scene(&g, ALL);
}
/// string arguments of any length, and a parameter
pub fn c10_names() {
    let mut g = G::new();
    g.lit("WorldBegin ");
    if sym::choose(2) == 0 {
        named(&mut g, &["Material ", "LightSource ", "AreaLightSource "], sym::param(0, 12, 20));
    } else {
        let k = sym::choose(5);
        g.lit(["Include ", "Texture ", "Texture \"a\" ", "Texture \"a\" \"b\" ", "Shape "][k]);
        let n = 1 + sym::choose(sym::param(1, 24, 60));
        g.string(n);
        g.lit(["", " \"b\" \"c\"", " \"c\"", "", ""][k]);
    }
    g.lit(" WorldEnd");
    scene(&g, ALL);
}
/// many directives
pub fn c10_long() {
    let mut g = G::new();
    let n = sym::param(0, 300, 1500);
    let hole = [0, 1, n / 2, n - 2, n - 1][sym::choose(5)];
    g.lit("WorldBegin\n");
    for i in 0..n {
        if i == hole {
            g.id_among(&[5, 8, 11, 15]);
            g.lit(" ");
            g.string(2);
            g.lit(" ");
        } else {
            g.lit(["Material ", "Shape ", "LightSource ", "AreaLightSource ", "Include "][i % 5]);
            g.lit("\"");
            g.t.push(b'a' + (i % 26) as u8);
            g.lit("\" ");
        }
    }
    g.lit("WorldEnd");
    scene(&g, ALL);
}

// ---------- C11 ----------

pub fn c11_word() {
    let mut g = G::new();
    let n = 1 + sym::choose(18);
    g.id(n);
    g.lit(" ");
    match sym::choose(6) {
        0 => {}
        1 => g.string(2),
        2 => g.lit("1 2 3"),
        3 => g.lit("1 2 3 4 5 6 7 8 9"),
        4 => g.lit("1 2"),
        _ => g.lit("1 2 3 4"),
    }
    g.lit(" WorldBegin WorldEnd");
    scene(&g, ALL);
}
const TRANSFORMS: [&str; 8] = ["Identity", "Translate", "Scale", "Rotate", "LookAt", "Transform", "ConcatTransform", "TransformTimes"];
/// every transform with every number of arguments, values symbolic
pub fn c11_arity() {
    let mut g = G::new();
    g.lit(TRANSFORMS[sym::choose(8)]);
    for _ in 0..sym::choose(sym::param(0, 12, 20)) {
        g.lit(" ");
        g.digit();
        g.lit(".");
        g.digit();
    }
    g.lit(" WorldBegin WorldEnd");
    scene(&g, ALL);
}
/// one argument of another kind at a symbolic place
pub fn c11_kinds() {
    let mut g = G::new();
    let t = sym::choose(8);
    let n = [0, 3, 3, 4, 9, 9, 9, 2][t];
    g.lit(TRANSFORMS[t]);
    g.lit(" ");
    let odd = sym::choose(n + 1);
    for i in 0..n + 1 {
        if i == odd {
            g.tok(b"nfsi[]", &[3], &[]);
        } else {
            g.lit("-");
            g.digit();
            g.lit(" ");
        }
    }
    g.lit("WorldBegin WorldEnd");
    scene(&g, ALL);
}
/// the directives with strings
pub fn c11_args() {
    let mut g = G::new();
    g.lit(
        ["Camera ", "Sampler ", "Film ", "Filter ", "Integrator ", "Accelerator ", "Include ", "CoordinateSystem ", "CoordSysTransform ", "ActiveTransform "]
            [sym::choose(10)],
    );
    for _ in 0..sym::choose(sym::param(0, 3, 4)) {
        g.tok(b"insp[", &[3, 8], &[5, 7]);
    }
    g.lit("WorldBegin WorldEnd");
    scene(&g, ALL);
}
/// string arguments that are not plain
pub fn c11_strings() {
    let mut g = G::new();
    g.lit(["Camera ", "Sampler ", "Film ", "Filter ", "Integrator ", "Accelerator ", "Include ", "CoordinateSystem ", "CoordSysTransform "][sym::choose(9)]);
    g.estring();
    g.lit(" WorldBegin WorldEnd");
    scene(&g, ALL);
}
/// string arguments of any length, and a parameter
pub fn c11_names() {
    let mut g = G::new();
    if sym::choose(2) == 0 {
        named(&mut g, &["Camera ", "Sampler ", "Film "], sym::param(0, 12, 20));
    } else {
        g.lit(["Filter ", "Integrator ", "Accelerator ", "Include ", "CoordinateSystem ", "CoordSysTransform "][sym::choose(6)]);
        let n = 1 + sym::choose(sym::param(1, 24, 60));
        g.string(n);
    }
    g.lit(" WorldBegin WorldEnd");
    scene(&g, ALL);
}
/// the one option with a word as its argument: any word, long ones, letters beyond ASCII
pub fn c11_ident() {
    let mut g = G::new();
    g.lit("ActiveTransform ");
    match sym::choose(4) {
        0 => {
            let n = 1 + sym::choose(14);
            g.id(n)
        }
        1 => {
            let n = sym::param(0, 70, 300);
            g.alpha();
            g.fill(n);
            g.alnum();
        }
        2 => {
            g.lit(["é", "中", "ß"][sym::choose(3)]);
            g.alnum();
            g.lit(["é", "中", "²", "٣"][sym::choose(4)]);
        }
        _ => {
            g.alpha();
            g.lit(["é", "中", "²", "٣", "€", "\u{200b}", "_", "-", "."][sym::choose(9)]);
        }
    }
    g.lit([" WorldBegin WorldEnd", " Identity WorldBegin WorldEnd"][sym::choose(2)]);
    scene(&g, ALL);
}
/// sequences of options
pub fn c11_seq() {
    let mut g = G::new();
    for _ in 0..sym::param(0, 3, 3) {
        let k = sym::choose(12);
        g.lit(
            [
                "Camera ", "Sampler ", "Film ", "Filter ", "Integrator ", "Accelerator ", "Include ", "CoordinateSystem ", "CoordSysTransform ", "Identity ", "Rotate 1 2 3 ",
                "ActiveTransform ",
            ][k],
        );
        if k < 9 {
            g.string(1);
        }
        if k == 10 {
            g.digit();
        }
        if k == 11 {
            g.id(2);
        }
        if k < 6 && sym::choose(2) == 1 {
            g.lit("\"float ");
            g.graph();
            g.lit("\"");
            g.digit();
        }
        g.lit("\n");
    }
    g.lit("WorldBegin WorldEnd");
    scene(&g, ALL);
}

// ---------- C12 ----------

/// many options, one of them symbolic
pub fn c12_long() {
    let mut g = G::new();
    let n = sym::param(0, 300, 1500);
    let hole = [0, 1, n / 2, n - 2, n - 1][sym::choose(5)];
    for i in 0..n {
        if i == hole {
            g.id_among(&[4, 7, 8]);
            g.lit(" ");
            g.string(1);
        } else {
            g.lit(["Identity", "Scale 1 2 3", "Film \"f\" \"float x\" 3", "ActiveTransform All", "TransformTimes 0 1", "Include \"i\"", "Filter \"b\""][i % 7]);
        }
        g.lit("\n");
    }
    g.lit("WorldBegin Include \"w\" WorldEnd");
    scene(&g, ALL);
}
/// a text parsed after another one
pub fn c12_twice() {
    let (mut a, mut b) = (G::new(), G::new());
    for t in SCENES[sym::choose(SCENES.len())] {
        a.lit(t);
        a.lit(" ");
    }
    match sym::choose(3) {
        0 => {}
        1 => a.lit("\""),
        _ => {
            for _ in 0..sym::choose(2) + 1 {
                let _ = a.t.pop();
                let _ = a.t.pop();
            }
        }
    }
    let w = sym::choose(SCENES.len());
    for t in SCENES[w] {
        b.lit(t);
        b.lit(" ");
    }
    b.lit("#");
    b.ascii();
    sym::note("first", &a.t);
    let _ = real::parse(&a.t);
    scene(&b, ALL);
}

/// any few tokens as a whole file
pub fn c12_tokens() {
    let mut g = G::new();
    for _ in 0..sym::choose(sym::param(0, 4, 5)) {
        match sym::choose(10) {
            0 => g.lit("WorldBegin "),
            1 => g.lit("WorldEnd "),
            2 => g.lit("Identity "),
            3 => {
                g.id_among(&[8, 10]);
                g.lit(" ")
            }
            5 => g.lit("AttributeBegin "),
            6 => g.lit("AttributeEnd "),
            7 => g.lit("TransformBegin "),
            8 => g.lit("TransformEnd "),
            4 => {
                g.digit();
                g.lit(" ")
            }
            _ => {
                g.string(1);
                g.lit(" ")
            }
        }
    }
    let m = Mask { structure: true, pos: false, strs: true, nums: false };
    scene(&g, m);
}
/// something before the world that is not an option
pub fn c12_before() {
    let mut g = G::new();
    g.lit(["", "Identity ", "Camera \"c\" "][sym::choose(3)]);
    match sym::choose(3) {
        0 => {
            g.id_among(&[4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15]);
            g.lit(" ");
        }
        1 => {
            let k = sym::choose(9);
            g.lit(["Material ", "Shape ", "LightSource ", "AreaLightSource ", "Texture \"a\" \"b\" ", "AttributeBegin ", "TransformBegin ", "AttributeEnd ", "TransformEnd "][k]);
        }
        _ => g.tok(b"nsp[]", &[], &[5]),
    }
    g.lit(["", "\"s\" ", "AttributeEnd ", "TransformEnd "][sym::choose(4)]);
    g.lit(["", "WorldBegin WorldEnd"][sym::choose(2)]);
    let m = Mask { structure: true, pos: false, strs: true, nums: false };
    scene(&g, m);
}
/// something after the world
pub fn c12_after() {
    let mut g = G::new();
    g.lit(["", "Identity ", "Camera \"c\" "][sym::choose(3)]);
    g.lit("WorldBegin ");
    g.lit(["", "Shape \"s\" ", "AttributeBegin AttributeEnd "][sym::choose(3)]);
    g.lit("WorldEnd ");
    for _ in 0..sym::choose(3) {
        g.tok(b"insp[]", &[5, 6, 8, 10], &[5]);
    }
    let m = Mask { structure: true, pos: false, strs: true, nums: false };
    scene(&g, m);
}
/// any characters after the world, or between the options, with more behind them
pub fn c12_stray() {
    let mut g = G::new();
    let k = sym::choose(4);
    g.lit(["WorldBegin WorldEnd", "Identity ", "WorldBegin Include \"f\" ", "Camera \"c\" \"float f\" 1 "][k]);
    for _ in 0..sym::param(0, 2, 3) {
        piece(&mut g);
    }
    g.lit(["", " Identity", " WorldEnd", " WorldBegin WorldEnd"][sym::choose(4)]);
    let m = Mask { structure: true, pos: false, strs: true, nums: false };
    scene(&g, m);
}
/// truncation of a complete file after any of its characters
pub fn c12_cut() {
    let mut g = G::new();
    let w = sym::choose(SCENES.len());
    for t in SCENES[w] {
        g.lit(t);
        g.lit(" ");
    }
    let n = g.t.len();
    let cut = sym::choose(if n > 250 { 250 } else { n });
    g.t.truncate(n - cut);
    let m = Mask { structure: true, pos: false, strs: true, nums: false };
    scene(&g, m);
}
/// one token of a complete file replaced, removed or doubled
pub fn c12_edit() {
    let mut g = G::new();
    let w = sym::choose(SCENES.len());
    let at = sym::choose(9);
    let what = sym::choose(3);
    let mut i = 0;
    for t in SCENES[w] {
        if i == at {
            match what {
                0 => g.tok(b"insp[]", &[5, 8, 10], &[5, 7]),
                1 => {}
                _ => {
                    g.lit(t);
                    g.lit(" ");
                    g.lit(t);
                    g.lit(" ")
                }
            }
        } else {
            g.lit(t);
            g.lit(" ");
        }
        i += 1;
    }
    let m = Mask { structure: true, pos: false, strs: true, nums: false };
    scene(&g, m);
}
/// a free text as a whole file: rejected, since no scene is this short
pub fn c12_free() {
    let mut g = G::new();
    g.lit(["", "WorldBegin "][sym::choose(2)]);
    g.ascii_n(sym::choose(sym::param(0, 4, 5)));
    g.lit([" WorldEnd", " WorldBegin WorldEnd", ""][sym::choose(3)]);
    let m = Mask { structure: true, pos: false, strs: true, nums: false };
    scene(&g, m);
}

// ---------- C24 ----------

fn errs(g: &G) {
    sym::note("text", &g.t);
    real::scene_errors(&g.t);
}
/// layout in front, so that rows and columns vary
fn lead(g: &mut G) {
    g.lit(["", "\n  ", "# (9, 9) \u{e9}\r\n\t"][sym::choose(3)]);
}
pub fn c24_free() {
    let mut g = G::new();
    g.ascii_n(sym::choose(sym::param(0, 4, 5) + 1));
    sym::note("text", &g.t);
    real::errors(&g.t);
}
pub fn c24_wide() {
    let mut g = G::new();
    let k = sym::choose(4);
    g.lit(["a ", "a # ", "a \"", "a \"b\\"][k]);
    for _ in 0..sym::param(0, 2, 3) {
        piece(&mut g);
    }
    g.lit(["", "\n!", "\"$", "1.2."][sym::choose(4)]);
    sym::note("text", &g.t);
    real::errors(&g.t);
}
pub fn c24_edit() {
    let mut g = G::new();
    let w = sym::choose(SCENES.len());
    let at = sym::choose(9);
    let what = sym::choose(3);
    let mut i = 0;
    for t in SCENES[w] {
        if i == at {
            match what {
                0 => g.tok(b"insp[]", &[5, 8, 10], &[5, 7]),
                1 => {}
                _ => {
                    g.lit(t);
                    g.lit("\r\n");
                    g.lit(t);
                    g.lit(" ")
                }
            }
        } else {
            g.lit(t);
            g.lit(if i % 3 == 0 { "\n" } else { " " });
        }
        i += 1;
    }
    errs(&g);
}
pub fn c24_tokens() {
    let mut g = G::new();
    lead(&mut g);
    g.lit(["", "Identity ", "WorldBegin ", "WorldBegin AttributeBegin\n", "WorldBegin WorldEnd "][sym::choose(5)]);
    for _ in 0..sym::choose(sym::param(0, 3, 4)) {
        match sym::choose(6) {
            0 => g.lit("AttributeBegin\n"),
            1 => g.lit("AttributeEnd "),
            2 => g.lit("TransformEnd "),
            3 => g.lit("WorldEnd "),
            _ => g.tok(b"insp[]", &[5, 8], &[5]),
        }
    }
    errs(&g);
}
pub fn c24_params() {
    let mut g = G::new();
    lead(&mut g);
    let h = sym::choose(HEADS.len());
    g.lit(HEADS[h]);
    let (ty, _) = DECLS[sym::choose(DECLS.len())];
    g.lit("\"");
    g.lit(ty);
    g.lit(" ");
    g.graph();
    g.lit("\" ");
    for _ in 0..sym::choose(sym::param(0, 4, 5)) {
        g.tok(b"nst[]", &[], &[]);
    }
    g.lit(TAILS[h]);
    errs(&g);
}
pub fn c24_decl() {
    let mut g = G::new();
    lead(&mut g);
    let h = sym::choose(HEADS.len());
    g.lit(HEADS[h]);
    g.lit(["", "\"integer k\"\n1 "][sym::choose(2)]);
    g.lit("\"");
    if sym::choose(2) == 0 {
        for _ in 0..sym::choose(sym::param(0, 4, 5)) {
            let b = sym::u8_();
            sym::assume(sym::all(&[b < 0x80, b != b'"', b != b'\\', b != b'\r']));
            g.t.push(b);
        }
    } else {
        g.graph_n(TYLENS[sym::choose(TYLENS.len())]);
        g.lit(" x");
    }
    g.lit("\" ");
    g.lit(["1 ", "[1 2] "][sym::choose(2)]);
    g.lit(TAILS[h]);
    errs(&g);
}
pub fn c24_args() {
    let mut g = G::new();
    lead(&mut g);
    if sym::choose(2) == 0 {
        g.lit("WorldBegin\n");
        g.lit(["Material ", "Shape ", "LightSource ", "AreaLightSource ", "Texture ", "Include "][sym::choose(6)]);
    } else {
        g.lit(
            ["Camera ", "Sampler ", "Film ", "Filter ", "Integrator ", "Accelerator ", "Include ", "CoordinateSystem ", "CoordSysTransform ", "ActiveTransform "]
                [sym::choose(10)],
        );
    }
    for _ in 0..sym::choose(sym::param(0, 3, 4)) {
        g.tok(b"insp[", &[3, 8], &[5]);
    }
    g.lit("WorldBegin WorldEnd");
    errs(&g);
}
pub fn c24_arity() {
    let mut g = G::new();
    lead(&mut g);
    g.lit(TRANSFORMS[sym::choose(8)]);
    let n = sym::choose(sym::param(0, 12, 20));
    let odd = sym::choose(n + 1);
    for i in 0..n {
        g.lit(if i % 3 == 2 { "\n" } else { " " });
        if i == odd {
            g.tok(b"nisp[]", &[3], &[5]);
        } else {
            g.digit();
        }
    }
    g.lit(" WorldBegin WorldEnd");
    errs(&g);
}
pub fn c24_far() {
    let mut g = G::new();
    let n = [9, 99, 1000][sym::choose(3)];
    let by_row = sym::choose(2) == 1;
    g.t.resize(n, if by_row { b'\n' } else { b' ' });
    g.lit("Camera");
    gap(&mut g, 1);
    g.tok(b"insp[]", &[3], &[5]);
    g.lit("WorldBegin Shape \"s\" 1 WorldEnd");
    errs(&g);
}
