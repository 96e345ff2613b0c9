//! Looks for texts worth judging.
//!
//! Mutates texts and keeps (N) those that reach new branches of the library
//! under test, by the counters the compiler puts there, and (D) those whose
//! answer is not the one an earlier state of the library (baseline/) gave.
//! Neither says that an answer is right or wrong: every text kept is run again
//! by the conformance harness and judged by TLC against the specification.
//!
//!   seeker SECONDS EXECS SEED KIND VIEWS INPUT OUTPUT CURRENT
//!
//! INPUT and OUTPUT hold frames "<tag> <nbytes>\n<bytes>"; tags of INPUT are
//! obj, mtl, word, size; of OUTPUT Nobj, Nmtl, Dobj, Dmtl, and Pobj, Pmtl for
//! the text read just before a D one.  CURRENT always holds the text being
//! read, for whoever finds this process dead.

use std::collections::HashMap;
use std::fmt::Write as _;
use std::fs::{self, File};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------- answers

/// An answer, its parts as hashes.
#[derive(PartialEq, Clone)]
struct Answer {
    st: String,
    line: usize,
    parts: [u64; PARTS],
}

const PARTS: usize = 13;

struct Hash(u64);

impl Hash {
    fn new() -> Self {
        Hash(0xcbf2_9ce4_8422_2325)
    }
    fn n(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
    }
    fn f(&mut self, x: f64) {
        self.n(if x.is_nan() { 1 } else { x.to_bits() });
    }
    fn s(&mut self, x: &str) {
        self.n(x.len() as u64);
        for c in x.as_bytes().chunks(8) {
            let mut b = [0; 8];
            b[..c.len()].copy_from_slice(c);
            self.n(u64::from_le_bytes(b));
        }
    }
}

impl std::fmt::Write for Hash {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.n(b as u64);
        }
        Ok(())
    }
}

macro_rules! reader {
    ($name:ident, $krate:ident) => {
        mod $name {
            use super::{line_of, Answer, Hash, PARTS};
            use std::fmt::Write as _;
            use $krate::{mtl, obj};

            fn vtn(h: &mut Hash, i: &obj::VTNIndex) {
                match *i {
                    obj::VTNIndex::V(a) => {
                        h.n(1);
                        h.n(a as u64);
                    }
                    obj::VTNIndex::VT(a, b) => {
                        h.n(2);
                        h.n(a as u64);
                        h.n(b as u64);
                    }
                    obj::VTNIndex::VN(a, c) => {
                        h.n(3);
                        h.n(a as u64);
                        h.n(c as u64);
                    }
                    obj::VTNIndex::VTN(a, b, c) => {
                        h.n(4);
                        h.n(a as u64);
                        h.n(b as u64);
                        h.n(c as u64);
                    }
                }
            }

            pub fn obj(text: &str, views: bool) -> Answer {
                match obj::parse(text) {
                    Err(e) => Answer { st: format!("{:?}", e.kind), line: e.line_number, parts: [0; PARTS] },
                    Ok(set) => {
                        let mut p: [Hash; PARTS] = std::array::from_fn(|_| Hash::new());
                        for l in &set.material_libraries {
                            p[0].s(l);
                        }
                        for o in &set.objects {
                            p[1].s(&o.name);
                            p[2].n(o.vertex_set.len() as u64);
                            for v in &o.vertex_set {
                                p[2].f(v.x);
                                p[2].f(v.y);
                                p[2].f(v.z);
                                p[2].f(v.w);
                            }
                            p[3].n(o.texture_vertex_set.len() as u64);
                            for v in &o.texture_vertex_set {
                                p[3].f(v.u);
                                p[3].f(v.v);
                                p[3].f(v.w);
                            }
                            p[4].n(o.normal_vertex_set.len() as u64);
                            for v in &o.normal_vertex_set {
                                p[4].f(v.x);
                                p[4].f(v.y);
                                p[4].f(v.z);
                            }
                            p[5].n(o.group_set.len() as u64);
                            for g in &o.group_set {
                                p[5].s(&g.0);
                            }
                            p[6].n(o.smoothing_group_set.len() as u64);
                            for g in &o.smoothing_group_set {
                                p[6].n(g.0 as u64);
                            }
                            p[7].n(o.element_set.len() as u64);
                            for e in &o.element_set {
                                match e {
                                    obj::Element::Point(a) => {
                                        p[7].n(1);
                                        vtn(&mut p[7], a);
                                    }
                                    obj::Element::Line(a, b) => {
                                        p[7].n(2);
                                        vtn(&mut p[7], a);
                                        vtn(&mut p[7], b);
                                    }
                                    obj::Element::Face(a, b, c) => {
                                        p[7].n(3);
                                        vtn(&mut p[7], a);
                                        vtn(&mut p[7], b);
                                        vtn(&mut p[7], c);
                                    }
                                }
                            }
                            p[8].n(o.shape_set.len() as u64);
                            for s in &o.shape_set {
                                p[8].n(s.element as u64);
                                p[8].n(s.groups.len() as u64);
                                for &g in &s.groups {
                                    p[8].n(g as u64);
                                }
                                p[8].n(s.smoothing_group as u64);
                            }
                            p[9].n(o.geometry_set.len() as u64);
                            for g in &o.geometry_set {
                                match &g.material_name {
                                    None => p[9].n(0),
                                    Some(m) => p[9].s(m),
                                }
                                p[9].n(g.shapes.len() as u64);
                                for &s in &g.shapes {
                                    p[9].n(s as u64);
                                }
                            }
                            if views {
                                for v in &o.vertex_set {
                                    let _ = write!(p[10], "{} ", v);
                                }
                                for v in &o.texture_vertex_set {
                                    let _ = write!(p[10], "{} ", v);
                                }
                                for v in &o.normal_vertex_set {
                                    let _ = write!(p[10], "{} ", v);
                                }
                                for v in &o.group_set {
                                    let _ = write!(p[10], "{} ", v);
                                }
                                for v in &o.smoothing_group_set {
                                    let _ = write!(p[10], "{} ", v);
                                }
                                for v in &o.element_set {
                                    let _ = write!(p[10], "{} ", v);
                                }
                                let _ = write!(p[10], "{}", o);
                                let (a, b, c) = (o.vertex_set.len(), o.texture_vertex_set.len(), o.normal_vertex_set.len());
                                let mut look = |i: obj::VTNIndex| match o.get_vtn_triple(i) {
                                    None => p[11].n(0),
                                    Some(t) => {
                                        let (k, v, t, n) = match t {
                                            obj::VTNTriple::V(v) => (1, v, None, None),
                                            obj::VTNTriple::VT(v, t) => (2, v, Some(t), None),
                                            obj::VTNTriple::VN(v, n) => (3, v, None, Some(n)),
                                            obj::VTNTriple::VTN(v, t, n) => (4, v, Some(t), Some(n)),
                                        };
                                        p[11].n(k);
                                        p[11].f(v.x);
                                        p[11].f(v.w);
                                        if let Some(t) = t {
                                            p[11].f(t.u);
                                            p[11].f(t.w);
                                        }
                                        if let Some(n) = n {
                                            p[11].f(n.x);
                                            p[11].f(n.z);
                                        }
                                    }
                                };
                                let ends = |n: usize| [0, n / 2, n.wrapping_sub(1), n, n + 1, usize::MAX];
                                for i in ends(a) {
                                    look(obj::VTNIndex::V(i));
                                    for j in ends(b) {
                                        look(obj::VTNIndex::VT(i, j));
                                        for k in ends(c) {
                                            look(obj::VTNIndex::VTN(i, j, k));
                                        }
                                    }
                                    for k in ends(c) {
                                        look(obj::VTNIndex::VN(i, k));
                                    }
                                }
                            }
                        }
                        p[1].n(set.objects.len() as u64);
                        if views {
                            let _ = write!(p[10], "{}", set);
                        }
                        Answer { st: "ok".to_owned(), line: 0, parts: p.map(|h| h.0) }
                    }
                }
            }

            /// Which parts of the two results, and their clones, are equal.
            pub fn equal(obj: bool, a: &str, b: &str) -> u64 {
                let mut h = Hash::new();
                fn items<T: PartialEq>(h: &mut Hash, a: &[T], b: &[T]) {
                    for (x, y) in a.iter().zip(b) {
                        h.n((x == y) as u64 * 2 + (x != y) as u64);
                    }
                    if let (Some(x), Some(y)) = (a.first(), b.last()) {
                        h.n((x == y) as u64);
                        h.n((y == x) as u64);
                    }
                    h.n((a == b) as u64);
                }
                if obj {
                    let (r, q) = (obj::parse(a), obj::parse(b));
                    h.n((r == q) as u64 * 2 + (r != q) as u64);
                    h.n((q == r) as u64 * 2 + (r.clone() == q) as u64);
                    h.n((q.clone() == q) as u64);
                    if let (Ok(r), Ok(q)) = (&r, &q) {
                        items(&mut h, &r.objects, &q.objects);
                        for (x, y) in r.objects.iter().zip(&q.objects) {
                            items(&mut h, &x.vertex_set, &y.vertex_set);
                            items(&mut h, &x.texture_vertex_set, &y.texture_vertex_set);
                            items(&mut h, &x.normal_vertex_set, &y.normal_vertex_set);
                            items(&mut h, &x.group_set, &y.group_set);
                            items(&mut h, &x.smoothing_group_set, &y.smoothing_group_set);
                            items(&mut h, &x.element_set, &y.element_set);
                            items(&mut h, &x.shape_set, &y.shape_set);
                            items(&mut h, &x.geometry_set, &y.geometry_set);
                        }
                    }
                } else {
                    let (r, q) = (mtl::parse(a), mtl::parse(b));
                    h.n((r == q) as u64 * 2 + (r != q) as u64);
                    h.n((q == r) as u64 * 2 + (r.clone() == q) as u64);
                    h.n((q.clone() == q) as u64);
                    if let (Ok(r), Ok(q)) = (&r, &q) {
                        items(&mut h, &r.materials, &q.materials);
                        for (x, y) in r.materials.iter().zip(&q.materials) {
                            let c = |m: &mtl::Material| [m.color_ambient, m.color_diffuse, m.color_specular, m.color_emissive];
                            items(&mut h, &c(x), &c(y));
                        }
                    }
                }
                h.0
            }

            pub fn mtl(text: &str) -> Answer {
                match mtl::parse(text) {
                    Err(e) => {
                        let d = format!("{:?}", e);
                        let kind = d.split("kind: ").nth(1).and_then(|s| s.split(',').next()).unwrap_or("?").to_owned();
                        Answer { st: kind, line: line_of(&e.to_string()), parts: [0; PARTS] }
                    }
                    Ok(set) => {
                        let mut p: [Hash; PARTS] = std::array::from_fn(|_| Hash::new());
                        for m in &set.materials {
                            p[0].s(&m.name);
                            for c in [&m.color_ambient, &m.color_diffuse, &m.color_specular, &m.color_emissive] {
                                p[1].f(c.r);
                                p[1].f(c.g);
                                p[1].f(c.b);
                            }
                            p[2].f(m.specular_exponent);
                            p[2].f(m.dissolve);
                            match m.optical_density {
                                None => p[2].n(0),
                                Some(x) => p[2].f(x),
                            }
                            let _ = write!(p[3], "{:?} ", m.illumination_model);
                            let _ = write!(p[4], "{:?}", m);
                        }
                        Answer { st: "ok".to_owned(), line: 0, parts: p.map(|h| h.0) }
                    }
                }
            }
        }
    };
}
reader!(now, wavefront_obj);
reader!(then, reader_baseline);

fn line_of(message: &str) -> usize {
    message.split("at line ").nth(1).and_then(|s| s.split(':').next()).and_then(|s| s.parse().ok()).unwrap_or(0)
}

#[derive(Copy, Clone, PartialEq, Eq, Hash)]
enum Kind {
    Obj,
    Mtl,
}

/// What is looked at besides the result itself.
#[derive(Clone)]
struct Views {
    /// its accessors and its displayed text
    shown: bool,
    /// its equality with what another text gives
    other: Option<String>,
}

fn run_now(kind: Kind, text: &str, views: &Views) -> Answer {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut a = match kind {
            Kind::Obj => now::obj(text, views.shown),
            Kind::Mtl => now::mtl(text),
        };
        if let Some(b) = &views.other {
            a.parts[PARTS - 1] = now::equal(kind == Kind::Obj, text, b);
        }
        a
    }));
    r.unwrap_or_else(|_| Answer { st: "panic".to_owned(), line: 0, parts: [0; PARTS] })
}

fn run_then(kind: Kind, text: &str, views: &Views) -> Answer {
    let mut a = match kind {
        Kind::Obj => then::obj(text, views.shown),
        Kind::Mtl => then::mtl(text),
    };
    if let Some(b) = &views.other {
        a.parts[PARTS - 1] = then::equal(kind == Kind::Obj, text, b);
    }
    a
}

/// What is different between two answers, coarsely.
fn signature(a: &Answer, b: &Answer) -> String {
    let mut s = format!("{}/{}", a.st, b.st);
    if a.st == b.st && a.line != b.line {
        s.push_str(" line");
    }
    for (i, (x, y)) in a.parts.iter().zip(&b.parts).enumerate() {
        if x != y {
            let _ = write!(s, " {}", i);
        }
    }
    s
}

// ------------------------------------------------------------------ counters

extern "C" {
    #[link_name = "__start___llvm_prf_cnts"]
    static mut COUNTERS: u64;
    #[link_name = "__stop___llvm_prf_cnts"]
    static mut COUNTERS_END: u64;
}

fn counters() -> &'static mut [u64] {
    unsafe {
        let a = std::ptr::addr_of_mut!(COUNTERS);
        let b = std::ptr::addr_of_mut!(COUNTERS_END);
        std::slice::from_raw_parts_mut(a, (b as usize - a as usize) / 8)
    }
}

fn bucket(n: u64) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=63 => 32,
        64..=255 => 64,
        _ => 128,
    }
}

// -------------------------------------------------------------------- random

struct Rng(u64);

impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_f491_4f6c_dd1d) >> 11
    }
    fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        xs[self.below(xs.len())]
    }
}

// ----------------------------------------------------------------- mutations

struct Seeds {
    words: Vec<String>,
    fresh: Vec<String>,
    sizes: Vec<usize>,
}

const NAMES: &[&str] = &["a", "b", "c", "default", "wood", "A", "a.001", "x_1", "off", "1", "é", "-1", "0"];
const NUMBERS: &[&str] = &[
    "0", "1", "-1", "2", "0.5", "-0", "1e3", "1e-310", "nan", "inf", ".5", "5.", "+1", "100", "1000000", "0.1", "-2.5", "00", "1e400",
    "16777217", "0.333333333333333314829616256247390992939",
];
const CHARS: &[&str] = &[
    " ", "\t", "\\", "\n", "\r", "\r\n", "#", "/", "-", "+", ".", "e", "0", "1", "9", "a", "é", "\u{a0}", "\u{2028}", "\u{b}", "\u{c}",
    "\u{feff}", "🙂", "\0", "\u{7f}", "\u{85}", "x", "_", "\"",
];
const MAPS: &[&str] = &["map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_Bump", "bump", "disp", "map_d", "decal"];

impl Seeds {
    fn word<'a>(&'a self, r: &mut Rng) -> &'a str {
        if !self.fresh.is_empty() && r.chance(30) {
            return &self.fresh[r.below(self.fresh.len())];
        }
        if self.words.is_empty() {
            return "a";
        }
        &self.words[r.below(self.words.len())]
    }
    fn name(&self, r: &mut Rng) -> String {
        match r.below(10) {
            0 => self.word(r).to_owned(),
            1 => format!("{}{}", self.word(r), r.pick(NAMES)),
            2 => format!("{}{}", r.pick(NAMES), self.word(r)),
            3 => "n".repeat(self.size(r).min(600)),
            _ => r.pick(NAMES).to_owned(),
        }
    }
    fn size(&self, r: &mut Rng) -> usize {
        if !self.sizes.is_empty() && r.chance(40) {
            let n = self.sizes[r.below(self.sizes.len())];
            return (n + r.below(3)).saturating_sub(1).min(3000);
        }
        [2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 31, 32, 33, 64, 65, 100, 128, 256, 257][r.below(19)]
    }
    fn number(&self, r: &mut Rng) -> String {
        match r.below(8) {
            0 => r.pick(NUMBERS).to_owned(),
            1 => self.word(r).to_owned(),
            2 => format!("{}", r.below(2000) as f64 / 16.0 - 60.0),
            3 => format!("{:e}", (r.below(2_000_000) as f64 - 1e6) * 10f64.powi(r.below(60) as i32 - 30)),
            4 => format!("0.{}{}", r.next(), r.below(10)),
            _ => format!("{}", r.below(12) as i64 - 3),
        }
    }
}

/// Counts of v, vt, vn before byte `upto`: (all, of earlier objects).
fn counts(text: &str, upto: usize) -> ([usize; 3], [usize; 3]) {
    let (mut all, mut base) = ([0; 3], [0; 3]);
    for line in text[..upto].split(['\n', '\r']) {
        match line.split([' ', '\t', '\\', '#']).find(|w| !w.is_empty()) {
            Some("v") => all[0] += 1,
            Some("vt") => all[1] += 1,
            Some("vn") => all[2] += 1,
            Some("o") => base = all,
            _ => {}
        }
    }
    (all, base)
}

fn statement(r: &mut Rng, seeds: &Seeds, kind: Kind, all: [usize; 3], base: [usize; 3]) -> String {
    let mut s = String::new();
    if kind == Kind::Mtl {
        match r.below(14) {
            0 | 1 => {
                let _ = write!(s, "newmtl {}", seeds.name(r));
            }
            2..=5 => {
                let _ = write!(s, "{} {} {} {}", r.pick(&["Ka", "Kd", "Ks", "Ke"]), seeds.number(r), seeds.number(r), seeds.number(r));
            }
            6..=8 => {
                let _ = write!(s, "{} {}", r.pick(&["Ns", "d", "Ni"]), seeds.number(r));
            }
            9 => {
                let _ = write!(s, "illum {}", r.pick(&["0", "1", "2", "2", "3"]));
            }
            _ => {
                let _ = write!(s, "{} {}", r.pick(MAPS), seeds.name(r));
            }
        }
        return s;
    }
    let have = [all[0] - base[0], all[1] - base[1], all[2] - base[2]];
    let kinds = if have[0] == 0 { 10 } else { 18 };
    match r.below(kinds) {
        0 | 1 => {
            let _ = write!(s, "v {} {} {}", seeds.number(r), seeds.number(r), seeds.number(r));
            if r.chance(25) {
                let _ = write!(s, " {}", seeds.number(r));
            }
        }
        2 | 3 => {
            s.push_str("vt");
            for _ in 0..1 + r.below(3) {
                let _ = write!(s, " {}", seeds.number(r));
            }
        }
        4 | 5 => {
            let _ = write!(s, "vn {} {} {}", seeds.number(r), seeds.number(r), seeds.number(r));
        }
        6 => {
            s.push('g');
            for _ in 0..r.below(4) {
                let _ = write!(s, " {}", seeds.name(r));
            }
        }
        7 => {
            let _ = write!(s, "s {}", r.pick(&["off", "0", "1", "2", "3", "1", "18446744073709551615"]));
        }
        8 => {
            let _ = write!(s, "usemtl {}", seeds.name(r));
        }
        9 => {
            let _ = write!(s, "o {}", seeds.name(r));
        }
        k => {
            let (kw, n) = match k {
                10 | 11 => ("p", 1 + r.below(3)),
                12..=14 => ("l", 2 + r.below(3)),
                _ => ("f", 3 + r.below(4)),
            };
            let n = if r.chance(10) { n.max(seeds.size(r).min(80)) } else { n };
            let form = if kw == "p" { 0 } else { r.below(4) };
            s.push_str(kw);
            for _ in 0..n {
                s.push(' ');
                for part in 0..3 {
                    let wanted = part == 0 || (part == 1 && form & 1 == 1) || (part == 2 && form & 2 == 2);
                    if part == 1 && form != 0 {
                        s.push('/');
                    }
                    if part == 2 && form & 2 == 2 {
                        s.push('/');
                    }
                    if wanted {
                        let i = r.below(have[part].max(1));
                        if r.chance(50) {
                            let _ = write!(s, "-{}", have[part].max(1) - i);
                        } else {
                            let _ = write!(s, "{}", base[part] + i + 1);
                        }
                    }
                }
            }
        }
    }
    s
}

fn boundary(text: &str, mut i: usize) -> usize {
    i = i.min(text.len());
    while !text.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// Start of the line at or before a random place, or the end of the text.
fn line_starts(text: &str) -> Vec<usize> {
    let mut at = vec![0];
    for (i, b) in text.bytes().enumerate() {
        if b == b'\n' || (b == b'\r' && text.as_bytes().get(i + 1) != Some(&b'\n')) {
            at.push(i + 1);
        }
    }
    if *at.last().unwrap() != text.len() {
        at.push(text.len());
    }
    at
}

fn words_of(text: &str) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut start = None;
    for (i, c) in text.char_indices() {
        let blank = matches!(c, ' ' | '\t' | '\\' | '\n' | '\r');
        match (blank, start) {
            (false, None) => start = Some(i),
            (true, Some(a)) => {
                out.push((a, i));
                start = None;
            }
            _ => {}
        }
    }
    if let Some(a) = start {
        out.push((a, text.len()));
    }
    out
}

fn replace(text: &str, a: usize, b: usize, with: &str) -> String {
    let mut s = String::with_capacity(text.len() + with.len());
    s.push_str(&text[..a]);
    s.push_str(with);
    s.push_str(&text[b..]);
    s
}

fn mutate(r: &mut Rng, seeds: &Seeds, kind: Kind, text: &str, other: &str) -> String {
    let mut t = text.to_owned();
    for _ in 0..[1, 1, 1, 2, 2, 3, 5][r.below(7)] {
        let starts = line_starts(&t);
        let lines = starts.len().saturating_sub(1);
        let op = r.below(30);
        match op {
            0 if lines > 0 => {
                let i = r.below(lines);
                t = replace(&t, starts[i], starts[i + 1], "");
            }
            1 | 2 if lines > 0 => {
                let i = r.below(lines);
                let line = t[starts[i]..starts[i + 1]].to_owned();
                if op == 2 {
                    t = replace(&t, starts[i], starts[i + 1], "");
                }
                let at = line_starts(&t);
                let j = at[r.below(at.len())];
                t.insert_str(j, &line);
            }
            3 => {
                let at = line_starts(other);
                let a = starts[r.below(starts.len())];
                let b = at[r.below(at.len())];
                t = format!("{}{}", &t[..a], &other[b..]);
            }
            4 => {
                let at = line_starts(other);
                if at.len() > 1 {
                    let i = r.below(at.len() - 1);
                    let j = (i + 1 + r.below(3)).min(at.len() - 1);
                    let p = starts[r.below(starts.len())];
                    t.insert_str(p, &other[at[i]..at[j]]);
                }
            }
            5..=9 => {
                let p = starts[r.below(starts.len())];
                let (all, base) = counts(&t, p);
                let mut s = statement(r, seeds, kind, all, base);
                s.push('\n');
                if p > 0 && !t[..p].ends_with(['\n', '\r']) {
                    s.insert(0, '\n');
                }
                t.insert_str(p, &s);
            }
            10 | 11 => {
                let ws = words_of(&t);
                if !ws.is_empty() {
                    let (a, b) = ws[r.below(ws.len())];
                    let w = match r.below(4) {
                        0 => seeds.word(r).to_owned(),
                        1 => {
                            let os = words_of(other);
                            if os.is_empty() {
                                "a".to_owned()
                            } else {
                                let (c, d) = os[r.below(os.len())];
                                other[c..d].to_owned()
                            }
                        }
                        2 => {
                            let (c, d) = ws[r.below(ws.len())];
                            t[c..d].to_owned()
                        }
                        _ => seeds.name(r),
                    };
                    t = replace(&t, a, b, &w);
                }
            }
            12..=14 => {
                // a number in a word
                let bytes = t.as_bytes();
                let ds: Vec<usize> = (0..bytes.len())
                    .filter(|&i| bytes[i].is_ascii_digit() && (i == 0 || !bytes[i - 1].is_ascii_digit()))
                    .collect();
                if !ds.is_empty() {
                    let a = ds[r.below(ds.len())];
                    let mut b = a;
                    while b < bytes.len() && bytes[b].is_ascii_digit() {
                        b += 1;
                    }
                    let v: u64 = t[a..b].parse().unwrap_or(0);
                    let w = match r.below(12) {
                        0 => v.wrapping_add(1).to_string(),
                        1 => v.wrapping_sub(1).min(v).to_string(),
                        2 => "0".to_owned(),
                        3 => format!("0{}", v),
                        4 => format!("-{}", v),
                        5 => format!("+{}", v),
                        6 => v.wrapping_mul(10).to_string(),
                        7 => v.wrapping_add(1 << [8, 16, 31, 32, 63][r.below(5)]).to_string(),
                        8 => seeds.number(r),
                        9 => seeds.size(r).to_string(),
                        10 => format!("{}/{}", v, v),
                        _ => format!("{}", r.below(20)),
                    };
                    t = replace(&t, a, b, &w);
                }
            }
            15 => {
                let ws = words_of(&t);
                if !ws.is_empty() {
                    let (a, b) = ws[r.below(ws.len())];
                    t = replace(&t, a, b, "");
                }
            }
            16 => {
                let ws = words_of(&t);
                if !ws.is_empty() {
                    let (a, b) = ws[r.below(ws.len())];
                    let w = format!(" {}", &t[a..b]).repeat(if r.chance(70) { 1 } else { seeds.size(r) });
                    t.insert_str(b, &w);
                }
            }
            17 | 18 if lines > 0 => {
                let i = r.below(lines);
                let j = (i + 1 + r.below(3)).min(lines);
                let block = t[starts[i]..starts[j]].repeat(if r.chance(50) { 1 + r.below(3) } else { seeds.size(r) });
                t.insert_str(starts[j], &block);
            }
            19 | 20 => {
                let i = boundary(&t, r.below(t.len() + 1));
                let c = r.pick(CHARS);
                if r.chance(50) {
                    t.insert_str(i, c);
                } else {
                    let j = boundary(&t, i + 1).max(i);
                    let j = if j == i { t[i..].chars().next().map_or(i, |c| i + c.len_utf8()) } else { j };
                    t = replace(&t, i, j, c);
                }
            }
            21 => {
                let to = r.pick(&["\r\n", "\r", "\n"]);
                let u = t.replace("\r\n", "\n").replace('\r', "\n");
                t = u.replace('\n', to);
            }
            22 => {
                let i = starts[r.below(starts.len())];
                let c = r.pick(&["\n", "# c\n", " \n", "\r\n", "\r", "#\r", "#12345678\r", " ", "\t", "\\", "# v 1 2 3\n"]);
                t.insert_str(i, c);
            }
            23 => {
                let ws = words_of(&t);
                if !ws.is_empty() {
                    let (_, b) = ws[r.below(ws.len())];
                    let c = r.pick(&["  ", "\t", "\\", "#", " # c", " \\", "\\\\", "\n", "\r", "\\\n"]);
                    t.insert_str(b, c);
                }
            }
            24 if lines > 0 => {
                // another keyword
                let i = r.below(lines);
                let line = &t[starts[i]..starts[i + 1]];
                if let Some(&(a, b)) = words_of(line).first() {
                    let kw: &str = if kind == Kind::Obj {
                        r.pick(&["v", "vt", "vn", "p", "l", "f", "g", "s", "o", "usemtl", "mtllib", "vp", "end"])
                    } else {
                        r.pick(&["newmtl", "Ka", "Kd", "Ks", "Ke", "Ns", "d", "Ni", "illum", "map_Kd", "bump", "map_Bump", "decal", "Tr"])
                    };
                    let (a, b) = (starts[i] + a, starts[i] + b);
                    t = replace(&t, a, b, kw);
                }
            }
            25 => {
                let ws = words_of(&t);
                if ws.len() > 1 {
                    let i = r.below(ws.len() - 1);
                    let j = i + 1 + r.below(ws.len() - 1 - i);
                    let (x, y) = (t[ws[i].0..ws[i].1].to_owned(), t[ws[j].0..ws[j].1].to_owned());
                    t = replace(&t, ws[j].0, ws[j].1, &x);
                    t = replace(&t, ws[i].0, ws[i].1, &y);
                }
            }
            26 => {
                if !t.is_empty() && !t.ends_with(['\n', '\r']) {
                    t.push('\n');
                }
                if kind == Kind::Obj && r.chance(70) {
                    let _ = write!(t, "o {}\n", seeds.name(r));
                }
                t.push_str(other);
            }
            27 => {
                let i = boundary(&t, r.below(t.len() + 1));
                t.truncate(i);
            }
            28 => {
                let ws = words_of(&t);
                if !ws.is_empty() {
                    let (a, b) = ws[r.below(ws.len())];
                    let w = match r.below(3) {
                        0 => t[a..b].to_uppercase(),
                        1 => t[a..b].to_lowercase(),
                        _ => format!("{}{}", &t[a..b], seeds.word(r)),
                    };
                    t = replace(&t, a, b, &w);
                }
            }
            29 => {
                while t.ends_with(['\n', '\r']) {
                    t.pop();
                }
            }
            _ => {}
        }
    }
    t
}

/// Drop the n-th line (from 1).
fn without_line(text: &str, n: usize) -> Option<String> {
    let at = line_starts(text);
    if n == 0 || n >= at.len() {
        return None;
    }
    Some(replace(text, at[n - 1], at[n], ""))
}

// ----------------------------------------------------------------------- run

static TICK: AtomicU64 = AtomicU64::new(0);

fn frames(path: &str) -> Vec<(String, Vec<u8>)> {
    let data = fs::read(path).expect("input");
    let mut out = vec![];
    let mut i = 0;
    while i < data.len() {
        let Some(e) = data[i..].iter().position(|&b| b == b'\n') else { break };
        let head = String::from_utf8_lossy(&data[i..i + e]).into_owned();
        let mut h = head.split(' ');
        let tag = h.next().unwrap_or("").to_owned();
        let n: usize = h.next().and_then(|s| s.parse().ok()).unwrap_or(0);
        let a = i + e + 1;
        out.push((tag, data[a..a + n].to_vec()));
        i = a + n;
    }
    out
}

struct Found {
    text: String,
    before: String,
}

struct Seek {
    views: Views,
    current: File,
    cov: HashMap<Kind, Vec<u8>>,
    found: HashMap<(Kind, String), Vec<Found>>,
    total: usize,
    execs: u64,
    previous: String,
}

impl Seek {
    fn read_now(&mut self, kind: Kind, text: &str) -> (Answer, bool) {
        let tag: &[u8; 4] = if kind == Kind::Obj { b"obj " } else { b"mtl " };
        let mut head = Vec::with_capacity(12 + text.len());
        head.extend_from_slice(tag);
        head.extend_from_slice(&(text.len() as u64).to_le_bytes());
        head.extend_from_slice(text.as_bytes());
        let _ = self.current.write_at(&head, 0);
        let c = counters();
        c.fill(0);
        let a = run_now(kind, text, &self.views);
        TICK.fetch_add(1, Ordering::Relaxed);
        self.execs += 1;
        let seen = self.cov.entry(kind).or_insert_with(|| vec![0; c.len()]);
        let mut new = false;
        for (s, n) in seen.iter_mut().zip(c.iter()) {
            if *n != 0 {
                let b = bucket(*n);
                if *s & b == 0 {
                    *s |= b;
                    new = true;
                }
            }
        }
        (a, new)
    }

    fn differ(&mut self, kind: Kind, text: &str, now: &Answer, then: &Answer) {
        let sig = signature(now, then);
        let n = self.found.get(&(kind, sig.clone())).map_or(0, |v| v.len());
        if n >= 16 || self.total >= 400 {
            return;
        }
        self.total += 1;
        let before = self.views.other.clone().unwrap_or_else(|| self.previous.clone());
        // the same difference on fewer lines
        let mut small = text.to_owned();
        let mut tries = 0;
        let mut i = line_starts(&small).len();
        while i > 1 && tries < 300 {
            i -= 1;
            tries += 1;
            if let Some(s) = without_line(&small, i) {
                let (a, _) = self.read_now(kind, &s);
                let b = run_then(kind, &s, &self.views);
                if a != b && signature(&a, &b) == sig {
                    small = s;
                }
            }
        }
        let e = self.found.entry((kind, sig)).or_default();
        if small.len() < text.len() && !e.iter().any(|f| f.text == small) {
            let partner = self.views.other.clone().unwrap_or_default();
            e.push(Found { text: small, before: partner });
        }
        e.push(Found { text: text.to_owned(), before });
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let seconds: f64 = args[1].parse().unwrap();
    let limit: u64 = args[2].parse().unwrap();
    let seed: u64 = args[3].parse().unwrap();
    let kinds: Vec<Kind> = match args[4].as_str() {
        "obj" => vec![Kind::Obj],
        "mtl" => vec![Kind::Mtl],
        _ => vec![Kind::Obj, Kind::Obj, Kind::Obj, Kind::Mtl],
    };
    let equality = args[5] == "2";
    let views = Views { shown: args[5] == "1", other: None };
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1);
    for _ in 0..8 {
        r.next();
    }
    let mut seeds = Seeds { words: vec![], fresh: vec![], sizes: vec![] };
    let mut corpus: HashMap<Kind, Vec<(String, bool)>> = HashMap::new();
    corpus.insert(Kind::Obj, vec![]);
    corpus.insert(Kind::Mtl, vec![]);
    let mut start: Vec<(Kind, String)> = vec![];
    for (tag, data) in frames(&args[6]) {
        let Ok(s) = String::from_utf8(data) else { continue };
        match tag.as_str() {
            "obj" => start.push((Kind::Obj, s)),
            "mtl" => start.push((Kind::Mtl, s)),
            "word" => seeds.words.push(s),
            "fresh" => seeds.fresh.push(s),
            "size" => seeds.sizes.push(s.parse().unwrap_or(2)),
            _ => {}
        }
    }
    let current = File::options().create(true).write(true).truncate(true).open(&args[8]).expect("current");
    let mut seek =
        Seek { views, current, cov: HashMap::new(), found: HashMap::new(), total: 0, execs: 0, previous: String::new() };
    // A call that does not come back is left for the driver to see in CURRENT.
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let t = TICK.load(Ordering::Relaxed);
            if t != last {
                last = t;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(12) {
                std::process::exit(77);
            }
        }
    });
    let t0 = Instant::now();
    let mut novel: Vec<(Kind, String)> = vec![];
    let mut queue: Vec<(Kind, String)> = start.into_iter().filter(|(k, _)| kinds.contains(k)).rev().collect();
    let from_seeds = queue.len() as u64;
    loop {
        if seek.execs & 63 == 0 && t0.elapsed().as_secs_f64() > seconds || seek.execs > limit + from_seeds {
            break;
        }
        let (kind, mut text, seeded) = match queue.pop() {
            Some((k, t)) => {
                if equality {
                    seek.views.other = Some(t.clone());
                }
                (k, t, true)
            }
            None => {
                let kind = kinds[r.below(kinds.len())];
                let c = &corpus[&kind];
                let t = if c.is_empty() {
                    String::new()
                } else {
                    let mut i = r.below(c.len());
                    for _ in 0..3 {
                        let k = r.below(c.len());
                        if r.chance(30) {
                            i = i.max(k);
                        } else if c[i].0.len() > c[k].0.len() && r.chance(60) {
                            i = k;
                        }
                        if !c[i].1 && r.chance(70) {
                            i = r.below(c.len());
                        }
                    }
                    let j = r.below(c.len());
                    if equality {
                        seek.views.other = Some(c[i].0.clone());
                    }
                    mutate(&mut r, &seeds, kind, &c[i].0, &c[j].0)
                };
                (kind, t, false)
            }
        };
        let most = if seeded { 8000 } else { [250, 250, 600, 600, 600, 1500, 6000][r.below(7)] };
        if text.len() > most {
            let at = line_starts(&text);
            // keep some stretch of lines, more often the first ones
            let from = if r.chance(60) { 0 } else { at[r.below(at.len())] };
            let to = at.iter().rev().find(|&&i| i <= from + most).copied().unwrap_or(from);
            text = text[from..to.max(from)].to_owned();
        }
        let mut then = run_then(kind, &text, &seek.views);
        if !seeded && then.st != "ok" {
            // mend it, mostly
            let mut tries = 0;
            while then.st != "ok" && tries < 4 && r.chance(60) {
                tries += 1;
                match without_line(&text, then.line) {
                    Some(s) => text = s,
                    None => break,
                }
                then = run_then(kind, &text, &seek.views);
            }
        }
        let (now, new) = seek.read_now(kind, &text);
        let differs = now != then;
        if differs {
            seek.differ(kind, &text, &now, &then);
        }
        if new || (seeded && r.chance(30)) || (differs && r.chance(20)) {
            let c = corpus.get_mut(&kind).unwrap();
            if c.len() < 6000 {
                c.push((text.clone(), then.st == "ok"));
            }
            if new && !seeded && novel.len() < 1500 {
                novel.push((kind, text.clone()));
            }
        }
        seek.previous = text;
    }
    let mut out = vec![];
    let mut put = |tag: &str, kind: Kind, t: &str| {
        let k = if kind == Kind::Obj { "obj" } else { "mtl" };
        out.extend_from_slice(format!("{}{} {}\n", tag, k, t.len()).as_bytes());
        out.extend_from_slice(t.as_bytes());
    };
    for (k, t) in &novel {
        put("N", *k, t);
    }
    let mut sigs: Vec<_> = seek.found.iter().collect();
    sigs.sort_by_key(|(k, _)| k.1.clone());
    for ((k, _), fs) in sigs {
        for f in fs {
            if !f.before.is_empty() {
                put("P", *k, &f.before);
            }
            put("D", *k, &f.text);
        }
    }
    let covered: usize = seek.cov.values().map(|v| v.iter().filter(|&&b| b != 0).count()).sum();
    let head = format!("{} {} {} {}", seek.execs, counters().len(), covered, seek.total);
    let mut all = format!("stats {}\n", head.len()).into_bytes();
    all.extend_from_slice(head.as_bytes());
    all.extend_from_slice(&out);
    let tmp = format!("{}.tmp", args[7]);
    File::create(&tmp).and_then(|mut f| f.write_all(&all)).expect("output");
    fs::rename(&tmp, &args[7]).expect("output");
    // no counters to be written anywhere
    unsafe { _exit(0) }
}

extern "C" {
    fn _exit(code: i32) -> !;
}
