//! The real parser's results as flat lists of facts, and their comparison with the reference.
use super::spec::{self, beq, Bad, Ev, K, T};
use crate::sym::{self, F};
use pbrtrs::parser::verif as hook;
use pbrtrs::parser::verif::Tok;
use pbrtrs::parser::*;
use pbrtrs::verif::Spectrum;

#[derive(Clone, Copy)]
pub struct Mask {
    /// accept/reject and kinds, counts, nesting
    pub structure: bool,
    pub pos: bool,
    pub strs: bool,
    pub nums: bool,
}
pub const ALL: Mask = Mask { structure: true, pos: true, strs: true, nums: true };
pub const NOPOS: Mask = Mask { structure: true, pos: false, strs: true, nums: true };

pub fn text(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}

pub fn fclose(a: F, b: F) -> bool {
    sym::tclose(a, b)
}

pub fn cmp_tokens(real: &Result<Vec<((usize, usize), Tok)>, TokenizerError>, want: &spec::Toks, m: Mask) {
    match (&want.res, real) {
        (Err(Bad::Unclaimed), _) => {}
        (Err(Bad::Reject), Err(_)) => sym::cover("rejected"),
        (Err(Bad::Reject), Ok(_)) => {
            if m.structure {
                sym::fail("malformed text was accepted")
            }
        }
        (Ok(_), Err(_)) => {
            if m.structure && !want.may_err {
                sym::fail("well-formed text was rejected")
            }
        }
        (Ok(w), Ok(t)) => {
            sym::cover("accepted");
            if w.len() != t.len() {
                if m.structure {
                    sym::fail("wrong number of tokens")
                }
                return;
            }
            for i in 0..w.len() {
                if m.pos {
                    sym::check(sym::and(w[i].r == (t[i].0).0, w[i].c == (t[i].0).1), "token position");
                }
                cmp_tok(&w[i].k, &t[i].1, want.may_err, m);
            }
        }
    }
}

pub fn cmp_tok(w: &K, t: &Tok, _may: bool, m: Mask) {
    match (w, t) {
        (K::Id(a), Tok::Identifier(b)) => {
            if m.strs {
                sym::check(beq(a, b.as_bytes()), "identifier text")
            }
        }
        (K::Str(a), Tok::Str(b)) => {
            if m.strs {
                sym::check(beq(a, b.as_bytes()), "string content")
            }
        }
        (K::Int(a), Tok::Int(b)) => {
            if m.nums {
                sym::check(*a == *b as i64, "integer value")
            }
        }
        (K::Flt(a), Tok::Float(b)) => {
            if m.nums {
                sym::check(fclose(*a, *b), "float value")
            }
        }
        (K::Int(_), Tok::Float(_)) => {
            if m.nums {
                sym::fail("integer literal read as a float")
            }
        }
        (K::Flt(_), Tok::Int(_)) => {
            if m.nums {
                sym::fail("float literal read as an integer")
            }
        }
        (K::L, Tok::LBracket) | (K::R, Tok::RBracket) => {}
        _ => {
            if m.structure {
                sym::fail("wrong kind of token")
            }
        }
    }
}

fn pos(p: (usize, usize)) -> Ev {
    Ev::Pos(p.0, p.1)
}
fn s(x: &str) -> Ev {
    Ev::S(x.as_bytes().to_vec())
}
fn path(p: &std::path::PathBuf) -> Ev {
    use std::os::unix::ffi::OsStrExt;
    Ev::S(p.as_os_str().as_bytes().to_vec())
}

fn params(ps: &ParamSet, out: &mut Vec<Ev>) {
    macro_rules! coll {
        ($f:ident, $n:expr, $v:expr) => {
            out.push(Ev::Kw($n));
            out.push(Ev::N(ps.$f.len()));
            for p in &ps.$f {
                let (name, at, vals) = hook::param(p);
                out.push(s(name));
                out.push(pos(at));
                let mut vs: Vec<Ev> = vec![];
                for v in vals {
                    $v(v, &mut vs);
                }
                out.push(Ev::N(vs.len()));
                out.extend(vs);
            }
        };
    }
    coll!(bools, "bools", |v: &bool, o: &mut Vec<Ev>| o.push(Ev::B(*v)));
    coll!(ints, "ints", |v: &isize, o: &mut Vec<Ev>| o.push(Ev::I(*v as i64)));
    coll!(floats, "floats", |v: &F, o: &mut Vec<Ev>| o.push(Ev::X(*v)));
    coll!(point2fs, "point2fs", |v: &pbrtrs::verif::Point2f, o: &mut Vec<Ev>| {
        o.push(Ev::X(v.x));
        o.push(Ev::X(v.y))
    });
    coll!(vector2fs, "vector2fs", |v: &pbrtrs::verif::Vector2f, o: &mut Vec<Ev>| {
        o.push(Ev::X(v.x));
        o.push(Ev::X(v.y))
    });
    coll!(point3fs, "point3fs", |v: &pbrtrs::verif::Point3f, o: &mut Vec<Ev>| o.push(Ev::X(v.x)));
    coll!(vector3fs, "vector3fs", |v: &pbrtrs::verif::Vector3f, o: &mut Vec<Ev>| o.push(Ev::X(v.x)));
    coll!(normal3fs, "normal3fs", |v: &pbrtrs::verif::Normal3f, o: &mut Vec<Ev>| o.push(Ev::X(v.x)));
    coll!(spectra, "spectra", |v: &Spectrum, o: &mut Vec<Ev>| match v {
        Spectrum::Rgb(a, b, c) => {
            o.push(Ev::Kw("rgb"));
            o.push(Ev::X(*a));
            o.push(Ev::X(*b));
            o.push(Ev::X(*c))
        }
        Spectrum::Xyz(a, b, c) => {
            o.push(Ev::Kw("xyz"));
            o.push(Ev::X(*a));
            o.push(Ev::X(*b));
            o.push(Ev::X(*c))
        }
        Spectrum::Spectrum(v) => {
            o.push(Ev::Kw("spectrum"));
            for p in v {
                o.push(Ev::X(p.0));
                o.push(Ev::X(p.1));
            }
        }
        Spectrum::File(p) => {
            o.push(Ev::Kw("file"));
            o.push(path(p))
        }
        Spectrum::Blackbody(a, b) => {
            o.push(Ev::Kw("blackbody"));
            o.push(Ev::X(*a));
            o.push(Ev::X(*b))
        }
    });
    coll!(strings, "strings", |v: &String, o: &mut Vec<Ev>| o.push(s(v)));
    coll!(textures, "textures", |v: &String, o: &mut Vec<Ev>| o.push(s(v)));
}

fn dir(kw: &'static str, d: &DirectiveStruct, out: &mut Vec<Ev>) {
    let (ty, at, ps) = hook::directive(d);
    out.push(Ev::Kw(kw));
    out.push(pos(at));
    out.push(s(ty));
    params(ps, out);
}

fn block(kw: &'static str, b: &BlockStruct, out: &mut Vec<Ev>) {
    let (at, ch) = hook::block(b);
    out.push(Ev::Kw(kw));
    out.push(pos(at));
    for d in ch {
        directive(d, out);
    }
    out.push(Ev::Kw("end"));
}

pub fn directive(d: &Directive, out: &mut Vec<Ev>) {
    match d {
        Directive::Material(d) => dir("Material", d, out),
        Directive::Shape(d) => dir("Shape", d, out),
        Directive::LightSource(d) => dir("LightSource", d, out),
        Directive::AreaLightSource(d) => dir("AreaLightSource", d, out),
        Directive::Attribute(b) => block("AttributeBegin", b, out),
        Directive::Transform(b) => block("TransformBegin", b, out),
        Directive::World(b) => block("WorldBegin", b, out),
        Directive::Include(p, f) => {
            out.push(Ev::Kw("Include"));
            out.push(pos(hook::pos(p)));
            out.push(path(f));
        }
        Directive::Texture(t) => {
            let (name, ty, class, at, ps) = hook::texture(t);
            out.push(Ev::Kw("Texture"));
            out.push(pos(at));
            out.push(s(name));
            out.push(s(ty));
            out.push(s(class));
            params(ps, out);
        }
    }
}

pub fn predirective(p: &PreDirective, out: &mut Vec<Ev>) {
    let mut nums = |kw: &'static str, p: &Pos, v: &[F], out: &mut Vec<Ev>| {
        out.push(Ev::Kw(kw));
        out.push(pos(hook::pos(p)));
        for x in v {
            out.push(Ev::X(*x));
        }
    };
    let flat = |m: &pbrtrs::verif::Matrix3f| {
        let m = &m.mat;
        [m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2]]
    };
    match p {
        PreDirective::Identity(p) => nums("Identity", p, &[], out),
        PreDirective::Translate(p, v) => nums("Translate", p, &[v.x, v.y, v.z], out),
        PreDirective::Scale(p, v) => nums("Scale", p, &[v.x, v.y, v.z], out),
        PreDirective::Rotate(p, a, v) => nums("Rotate", p, &[*a, v.x, v.y, v.z], out),
        PreDirective::LookAt(p, m) => nums("LookAt", p, &flat(m), out),
        PreDirective::Transform(p, m) => nums("Transform", p, &flat(m), out),
        PreDirective::ConcatTransform(p, m) => nums("ConcatTransform", p, &flat(m), out),
        PreDirective::TransformTimes(p, a, b) => nums("TransformTimes", p, &[*a, *b], out),
        PreDirective::CoordinateSystem(p, x) => {
            nums("CoordinateSystem", p, &[], out);
            out.push(s(x))
        }
        PreDirective::CoordSysTransform(p, x) => {
            nums("CoordSysTransform", p, &[], out);
            out.push(s(x))
        }
        PreDirective::ActiveTransform(p, x) => {
            nums("ActiveTransform", p, &[], out);
            out.push(s(x))
        }
        PreDirective::Camera(d) => dir("Camera", d, out),
        PreDirective::Sampler(d) => dir("Sampler", d, out),
        PreDirective::Film(d) => dir("Film", d, out),
        PreDirective::Filter(d) => dir("Filter", d, out),
        PreDirective::Integrator(d) => dir("Integrator", d, out),
        PreDirective::Accelerator(d) => dir("Accelerator", d, out),
        PreDirective::Include(p, f) => {
            nums("Include", p, &[], out);
            out.push(path(f))
        }
    }
}

pub fn parse(b: &[u8]) -> Result<Vec<Ev>, ()> {
    match Parser::parse(text(b)) {
        Err(_) => Err(()),
        Ok((pre, world)) => {
            let mut out = vec![];
            for p in &pre {
                predirective(p, &mut out);
            }
            directive(&world, &mut out);
            Ok(out)
        }
    }
}

fn same_kind(a: &Ev, b: &Ev) -> bool {
    match (a, b) {
        (Ev::Kw(x), Ev::Kw(y)) => beq(x.as_bytes(), y.as_bytes()),
        (Ev::N(x), Ev::N(y)) => x == y,
        (Ev::Pos(..), Ev::Pos(..)) | (Ev::S(_), Ev::S(_)) | (Ev::I(_), Ev::I(_)) | (Ev::X(_), Ev::X(_)) | (Ev::B(_), Ev::B(_)) => true,
        _ => false,
    }
}

pub fn cmp_events(w: &[Ev], g: &[Ev], m: Mask) {
    let mut same = w.len() == g.len();
    if same {
        for i in 0..w.len() {
            if !same_kind(&w[i], &g[i]) {
                same = false;
                break;
            }
        }
    }
    if !same {
        if m.structure {
            sym::fail("the scene has different directives, collections or counts")
        }
        return;
    }
    for i in 0..w.len() {
        match (&w[i], &g[i]) {
            (Ev::Pos(a, b), Ev::Pos(c, d)) => {
                if m.pos {
                    sym::check(sym::and(a == c, b == d), "position in the scene")
                }
            }
            (Ev::S(a), Ev::S(b)) => {
                if m.strs {
                    sym::check(beq(a, b), "string or name in the scene")
                }
            }
            (Ev::I(a), Ev::I(b)) => {
                if m.nums {
                    sym::check(a == b, "integer in the scene")
                }
            }
            (Ev::X(a), Ev::X(b)) => {
                if m.nums {
                    sym::check(fclose(*a, *b), "float in the scene")
                }
            }
            (Ev::B(a), Ev::B(b)) => {
                if m.nums {
                    sym::check(a == b, "boolean in the scene")
                }
            }
            _ => {}
        }
    }
}

pub fn cmp_scene(real: &Result<Vec<Ev>, ()>, want: &spec::Scene, m: Mask) {
    match (&want.res, real) {
        (Err(Bad::Unclaimed), _) => {}
        (Err(Bad::Reject), Err(_)) => sym::cover("rejected"),
        (Err(Bad::Reject), Ok(_)) => {
            if m.structure {
                sym::fail("a malformed scene was accepted")
            }
        }
        (Ok(_), Err(_)) => {
            if m.structure && !want.may_err {
                sym::fail("a well-formed scene was rejected")
            }
        }
        (Ok(w), Ok(g)) => {
            sym::cover("accepted");
            cmp_events(w, g, m)
        }
    }
}

/// the first row and column a message names, as (r, c)
fn place(m: &[u8]) -> Option<(usize, usize)> {
    let mut i = 0;
    while i < m.len() {
        if m[i] == b'(' {
            let (mut j, mut v, mut n) = (i + 1, [0usize; 2], [0usize; 2]);
            for k in 0..2 {
                while j < m.len() && spec::is_digit(m[j]) && n[k] < 9 {
                    v[k] = v[k] * 10 + (m[j] - b'0') as usize;
                    n[k] += 1;
                    j += 1;
                }
                if k == 0 {
                    while j < m.len() && (m[j] == b',' || m[j] == b' ') {
                        j += 1;
                    }
                }
            }
            if n[0] > 0 && n[1] > 0 && j < m.len() && m[j] == b')' {
                return Some((v[0], v[1]));
            }
        }
        i += 1;
    }
    None
}
/// the error names the place of the fault
fn faulty(msg: Option<&str>, f: &spec::Fault) {
    let at = match msg {
        Some(m) => place(m.as_bytes()),
        None => None,
    };
    let (r, c) = match at {
        Some(x) => x,
        None => {
            if f.must {
                sym::fail("the error does not say where")
            }
            return;
        }
    };
    sym::cover("named a place");
    let mut ok = false;
    for (a, b) in &f.at {
        ok = ok || (*a == r && *b == c);
    }
    if let Some((a, b)) = f.span {
        ok = ok || (a <= (r, c) && (r, c) <= b);
    }
    if !ok {
        sym::fail("the error names another place")
    }
}
pub fn errors(b: &[u8]) {
    let t = spec::tokenize(b);
    let got = hook::tokenize(text(b));
    if let (Err(Bad::Reject), Some(f), Err(e)) = (&t.res, &t.fault, &got) {
        faulty(match e { TokenizerError::Str(s) => Some(s), _ => None }, f);
    }
}
pub fn scene_errors(b: &[u8]) {
    let got = Parser::parse(text(b));
    let want = spec::parse(b);
    if let (Err(Bad::Reject), Some(f), Err(e), false) = (&want.res, &want.fault, &got, want.may_err) {
        faulty(match e { ParserError::Str(s) => Some(s), _ => None }, f);
    }
}
