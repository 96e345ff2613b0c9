//! Conformance harness: runs the real parser on inputs read from stdin and
//! prints, for each, one JSON line with the complete observable outcome.
//!
//! Frame format on stdin:  "<op> <nbytes>\n" followed by that many bytes.
//! Ops: "obj", "mtl"      parse, print the whole result;
//!      "objx"            the same, plus accessors and Display;
//!      "objd", "mtld"    parse, print a digest of the result;
//!      "objw", "mtlw"    parse through every entry point, print the digests;
//!      "par <n>"         the next n frames (obj or mtl) are parsed by n threads
//!                        at once, sixty times each: the different digests, one line per frame;
//!      "storm <n> <ms>"  the next n frames are parsed by eight threads for <ms>
//!                        milliseconds, each choosing at random what is next;
//!      "objm"            as objx, for objects made from the parsed ones through
//!                        their public fields;
//!      "eqobj", "eqmtl"  two texts (the length of the first comes before them):
//!                        both results and which of their parts are equal;
//!      "alterobj", "altermtl"
//!                        each part of the result against itself with one thing changed;
//!      "colors"          colours of few values, all pairs, and their order;
//!      "types"           the has_same_type_as relation, tabulated;
//!      "shows"           references, elements and smoothing groups made of the
//!                        numbers in the text, each with what Display says.
//! Only the public API of the crate is used.

use std::fmt::Write as _;
use std::io::{self, BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use wavefront_obj::{mtl, obj};

const BIG: usize = 2_147_483_647;

fn js(out: &mut String, s: &str) {
    // The lexer cuts bytes: what it returns must still be a string.
    if std::str::from_utf8(s.as_bytes()).is_err() {
        out.push_str("\"(not UTF-8) ");
        for b in s.as_bytes() {
            let _ = write!(out, "{:02x}", b);
        }
        out.push('"');
        return;
    }
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(out, "\\u{:04x}", u);
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

fn hex(out: &mut String, x: f64) {
    // All NaNs are one value here: payload and sign of a NaN are not part of
    // what the library promises.
    if x.is_nan() {
        out.push_str("\"nan\"");
    } else {
        let _ = write!(out, "\"{:016x}\"", x.to_bits());
    }
}

fn hexes(out: &mut String, xs: &[f64]) {
    out.push('[');
    for (i, x) in xs.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        hex(out, *x);
    }
    out.push(']');
}

/// TLC has 32-bit integers; no legitimate index or count comes near the limit.
fn num(out: &mut String, n: usize) {
    let _ = write!(out, "{}", n.min(BIG));
}

fn list<T>(out: &mut String, xs: &[T], mut f: impl FnMut(&mut String, &T)) {
    out.push('[');
    for (i, x) in xs.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        f(out, x);
    }
    out.push(']');
}

fn vtn(out: &mut String, i: &obj::VTNIndex) {
    use obj::VTNIndex::*;
    out.push('[');
    match *i {
        V(v) => {
            num(out, v);
            out.push_str(",-1,-1");
        }
        VT(v, t) => {
            num(out, v);
            out.push(',');
            num(out, t);
            out.push_str(",-1");
        }
        VN(v, n) => {
            num(out, v);
            out.push_str(",-1,");
            num(out, n);
        }
        VTN(v, t, n) => {
            num(out, v);
            out.push(',');
            num(out, t);
            out.push(',');
            num(out, n);
        }
    }
    out.push(']');
}

fn elem_refs(e: &obj::Element) -> (&'static str, Vec<obj::VTNIndex>) {
    match *e {
        obj::Element::Point(a) => ("p", vec![a]),
        obj::Element::Line(a, b) => ("l", vec![a, b]),
        obj::Element::Face(a, b, c) => ("f", vec![a, b, c]),
    }
}

fn object(out: &mut String, o: &obj::Object) {
    out.push_str("{\"name\":");
    js(out, &o.name);
    out.push_str(",\"v\":");
    list(out, &o.vertex_set, |out, v| hexes(out, &[v.x, v.y, v.z, v.w]));
    out.push_str(",\"vt\":");
    list(out, &o.texture_vertex_set, |out, v| hexes(out, &[v.u, v.v, v.w]));
    out.push_str(",\"vn\":");
    list(out, &o.normal_vertex_set, |out, v| hexes(out, &[v.x, v.y, v.z]));
    out.push_str(",\"g\":");
    list(out, &o.group_set, |out, g| js(out, &g.0));
    out.push_str(",\"s\":");
    list(out, &o.smoothing_group_set, |out, s| {
        let _ = write!(out, "\"{}\"", s.0);
    });
    out.push_str(",\"e\":");
    list(out, &o.element_set, |out, e| {
        let (k, refs) = elem_refs(e);
        let _ = write!(out, "{{\"k\":\"{}\",\"x\":", k);
        list(out, &refs, vtn);
        out.push('}');
    });
    out.push_str(",\"sh\":");
    list(out, &o.shape_set, |out, s| {
        out.push_str("{\"e\":");
        num(out, s.element);
        out.push_str(",\"g\":");
        list(out, &s.groups, |out, g| num(out, *g));
        out.push_str(",\"s\":");
        num(out, s.smoothing_group);
        out.push('}');
    });
    out.push_str(",\"geo\":");
    list(out, &o.geometry_set, |out, g| {
        out.push_str("{\"m\":[");
        if let Some(m) = &g.material_name {
            js(out, m);
        }
        out.push_str("],\"sh\":");
        list(out, &g.shapes, |out, s| num(out, *s));
        out.push('}');
    });
    out.push('}');
}

fn objset(out: &mut String, r: &Result<obj::ObjectSet, obj::ParseError>) {
    match r {
        Ok(set) => {
            out.push_str("\"st\":\"ok\",\"libs\":");
            list(out, &set.material_libraries, |out, l| js(out, l));
            out.push_str(",\"objs\":");
            list(out, &set.objects, object);
        }
        Err(e) => {
            out.push_str("\"st\":\"err\",\"line\":");
            num(out, e.line_number);
            let _ = write!(out, ",\"kind\":\"{:?}\",\"disp\":", e.kind);
            js(out, &e.to_string());
        }
    }
}

fn color(out: &mut String, c: &mtl::Color) {
    hexes(out, &[c.r, c.g, c.b]);
}

fn opt(out: &mut String, name: &str, m: &Option<String>) {
    let _ = write!(out, ",\"{}\":[", name);
    if let Some(m) = m {
        js(out, m);
    }
    out.push(']');
}

fn material(out: &mut String, m: &mtl::Material) {
    out.push_str("{\"name\":");
    js(out, &m.name);
    out.push_str(",\"Ka\":");
    color(out, &m.color_ambient);
    out.push_str(",\"Kd\":");
    color(out, &m.color_diffuse);
    out.push_str(",\"Ks\":");
    color(out, &m.color_specular);
    out.push_str(",\"Ke\":");
    color(out, &m.color_emissive);
    out.push_str(",\"Ns\":");
    hexes(out, &[m.specular_exponent]);
    out.push_str(",\"d\":");
    hexes(out, &[m.dissolve]);
    out.push_str(",\"Ni\":");
    match m.optical_density {
        Some(x) => hexes(out, &[x]),
        None => out.push_str("[]"),
    }
    let illum = match m.illumination_model {
        mtl::IlluminationModel::Ambient => "0",
        mtl::IlluminationModel::AmbientDiffuse => "1",
        mtl::IlluminationModel::AmbientDiffuseSpecular => "2",
    };
    let _ = write!(out, ",\"illum\":[\"{}\"]", illum);
    opt(out, "map_Ka", &m.map_ambient);
    opt(out, "map_Kd", &m.map_diffuse);
    opt(out, "map_Ks", &m.map_specular);
    opt(out, "map_Ke", &m.map_emissive);
    opt(out, "map_Ns", &m.map_specular_exponent);
    opt(out, "bump", &m.map_bump);
    opt(out, "disp", &m.map_displacement);
    opt(out, "map_d", &m.map_dissolve);
    opt(out, "decal", &m.map_decal);
    out.push('}');
}

fn between<'s>(s: &'s str, a: &str, b: &str) -> Option<&'s str> {
    let i = s.find(a)? + a.len();
    let j = s[i..].find(b)? + i;
    Some(&s[i..j])
}

const MTL_KINDS: [mtl::ErrorKind; 7] = [
    mtl::ErrorKind::EndOfFile,
    mtl::ErrorKind::ExpectedTagStatement,
    mtl::ErrorKind::ExpectedFloat,
    mtl::ErrorKind::ExpectedInteger,
    mtl::ErrorKind::ExpectedEndOfInput,
    mtl::ErrorKind::UnknownIlluminationModel,
    mtl::ErrorKind::ErrorParsingMaterial,
];

/// The kind named first in the Debug text, outside of any quoted message.
fn mtl_kind(debug: &str) -> String {
    let mut plain = String::new();
    let (mut quoted, mut escaped) = (false, false);
    for c in debug.chars() {
        if quoted {
            if escaped {
                escaped = false;
            } else if c == '\\' {
                escaped = true;
            } else if c == '"' {
                quoted = false;
            }
        } else if c == '"' {
            quoted = true;
        } else {
            plain.push(c);
        }
    }
    for w in plain.split(|c: char| !c.is_alphanumeric() && c != '_') {
        for k in MTL_KINDS.iter() {
            if w == format!("{:?}", k) {
                return w.to_string();
            }
        }
    }
    String::from("?")
}

/// The fields of an MTL parse error are private: the line is in its Display
/// text and the kind in its Debug text.
fn mtlset(out: &mut String, r: &Result<mtl::MaterialSet, mtl::ParseError>) {
    match r {
        Ok(set) => {
            out.push_str("\"st\":\"ok\",\"mats\":");
            list(out, &set.materials, material);
        }
        Err(e) => {
            let disp = e.to_string();
            let line = between(&disp, "line ", ":")
                .and_then(|s| s.trim().parse::<usize>().ok())
                .unwrap_or(0);
            let debug = format!("{:?}", e);
            let kind = mtl_kind(&debug);
            out.push_str("\"st\":\"err\",\"line\":");
            num(out, line);
            out.push_str(",\"kind\":");
            js(out, &kind);
            out.push_str(",\"disp\":");
            js(out, &disp);
        }
    }
}

fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        String::from("?")
    }
}

/// Run something of the code under test; a panic is an outcome like any other.
fn guarded(f: impl FnOnce(&mut String)) -> String {
    let mut body = String::new();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut out = String::new();
        f(&mut out);
        out
    }));
    match r {
        Ok(out) => body.push_str(&out),
        Err(p) => {
            body.push_str("\"st\":\"panic\",\"msg\":");
            js(&mut body, &panic_text(&*p));
        }
    }
    body
}

fn obj_body(s: &str) -> String {
    guarded(|out| objset(out, &obj::parse(s)))
}

fn mtl_body(s: &str) -> String {
    guarded(|out| mtlset(out, &mtl::parse(s)))
}

/// A digest of an answer (FNV-1a, 64 bits), short enough to log every call.
fn digest(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}

/// Texts read in between: one of each language, and one with a fault in each.
const OTHERS: [&str; 4] = [
    "mtllib q.mtl\no q\nv 9 8 7 6\nvt 5 4\nvn 3 2 1\ng y z\ns 9\nusemtl w\nf 1/1/1 -1/-1/-1 1/1/1 1/1/1\n",
    "v 9 8 7\ng y z\ns 9\nusemtl w\nf 1 1\n",
    "newmtl q\nKa 9 8 7\nd .25\nillum 1\nmap_Kd z.png\nnewmtl r\nNi 3\n",
    "newmtl q\nKa 9 8 7\nillum 9\n",
];

/// The same text through every entry point: (how, digest of the answer).
fn obj_ways(s: &str) -> Vec<(&'static str, String)> {
    let mut ways = vec![];
    ways.push(("parse(&str)", obj_body(s)));
    ways.push(("parse(String)", guarded(|out| objset(out, &obj::parse(String::from(s))))));
    ways.push(("parse(&String)", guarded(|out| objset(out, &obj::parse(&String::from(s))))));
    ways.push(("Parser", guarded(|out| objset(out, &obj::Parser::new(s).parse_objset()))));
    ways.push((
        "clone",
        guarded(|out| {
            let p = obj::Parser::new(s);
            let mut q = p.clone();
            drop(p);
            objset(out, &q.parse_objset())
        }),
    ));
    // A clone taken before a parse is not advanced by it.
    ways.push((
        "clone after use",
        guarded(|out| {
            let mut p = obj::Parser::new(s);
            let mut q = p.clone();
            let _ = p.parse_objset();
            objset(out, &q.parse_objset())
        }),
    ));
    // The text as part of a larger buffer: nothing outside it is read.
    ways.push((
        "slice",
        guarded(|out| {
            let buf = format!("v 9 9 9\n{}\nv 8 8 8", s);
            objset(out, &obj::parse(&buf[8..8 + s.len()]))
        }),
    ));
    // Other calls between making a parser and using it.
    for other in OTHERS.iter() {
        ways.push((
            "interrupted",
            guarded(|out| {
                let mut p = obj::Parser::new(s);
                let mut q = obj::Parser::new(other);
                let _ = mtl::parse(other);
                let _ = q.parse_objset();
                let r = p.parse_objset();
                let _ = q.parse_objset();
                objset(out, &r)
            }),
        ));
    }
    ways.push(("parse(&str)", obj_body(s)));
    // A parser that has read its text to the end is left with the empty text.
    let mut p = obj::Parser::new(s);
    if let Ok(Ok(_)) = catch_unwind(AssertUnwindSafe(|| p.parse_objset())) {
        ways.push(("again", guarded(|out| objset(out, &p.parse_objset()))));
        ways.push(("again", guarded(|out| objset(out, &p.parse_objset()))));
    }
    ways.into_iter().map(|(n, b)| (n, digest(&b))).collect()
}

fn mtl_ways(s: &str) -> Vec<(&'static str, String)> {
    let mut ways = vec![];
    ways.push(("parse(&str)", mtl_body(s)));
    ways.push(("parse(String)", guarded(|out| mtlset(out, &mtl::parse(String::from(s))))));
    ways.push(("parse(&String)", guarded(|out| mtlset(out, &mtl::parse(&String::from(s))))));
    ways.push(("Parser", guarded(|out| mtlset(out, &mtl::Parser::new(s).parse_mtlset()))));
    ways.push((
        "slice",
        guarded(|out| {
            let buf = format!("newmtl q\n{}\nnewmtl z", s);
            mtlset(out, &mtl::parse(&buf[9..9 + s.len()]))
        }),
    ));
    for other in OTHERS.iter() {
        ways.push((
            "interrupted",
            guarded(|out| {
                let mut p = mtl::Parser::new(s);
                let mut q = mtl::Parser::new(other);
                let _ = obj::parse(other);
                let _ = q.parse_mtlset();
                let r = p.parse_mtlset();
                let _ = q.parse_mtlset();
                mtlset(out, &r)
            }),
        ));
    }
    ways.push(("parse(&str)", mtl_body(s)));
    let mut p = mtl::Parser::new(s);
    if let Ok(Ok(_)) = catch_unwind(AssertUnwindSafe(|| p.parse_mtlset())) {
        ways.push(("again", guarded(|out| mtlset(out, &p.parse_mtlset()))));
        ways.push(("again", guarded(|out| mtlset(out, &p.parse_mtlset()))));
    }
    ways.into_iter().map(|(n, b)| (n, digest(&b))).collect()
}

fn via(out: &mut String, ways: &[(&'static str, String)]) {
    out.push_str("\"via\":");
    list(out, ways, |out, (how, dig)| {
        out.push('[');
        js(out, how);
        out.push(',');
        js(out, dig);
        out.push(']');
    });
}

/// An object written back out with the library's own Display text.
fn rewrite(o: &obj::Object) -> String {
    let mut t = String::new();
    if !o.name.is_empty() {
        let _ = writeln!(t, "o {}", o.name);
    }
    for v in &o.vertex_set {
        let _ = writeln!(t, "{}", v);
    }
    for v in &o.texture_vertex_set {
        let _ = writeln!(t, "{}", v);
    }
    for v in &o.normal_vertex_set {
        let _ = writeln!(t, "{}", v);
    }
    let mut mats: Vec<Option<&String>> = vec![None; o.element_set.len()];
    for g in &o.geometry_set {
        for &i in &g.shapes {
            if let Some(m) = mats.get_mut(i) {
                *m = g.material_name.as_ref();
            }
        }
    }
    for (i, e) in o.element_set.iter().enumerate() {
        if let Some(m) = mats[i] {
            let _ = writeln!(t, "usemtl {}", m);
        }
        if let Some(sh) = o.shape_set.get(i) {
            t.push('g');
            for g in &sh.groups {
                if let Some(g) = o.group_set.get(*g) {
                    let _ = write!(t, " {}", g);
                }
            }
            t.push('\n');
            if let Some(s) = o.smoothing_group_set.get(sh.smoothing_group) {
                let _ = writeln!(t, "s {}", s);
            }
        }
        let _ = writeln!(t, "{}", e);
    }
    t
}

fn triple(out: &mut String, t: Option<obj::VTNTriple>) {
    use obj::VTNTriple::*;
    let v = |v: &obj::Vertex| [v.x, v.y, v.z, v.w];
    let vt = |v: &obj::TextureVertex| [v.u, v.v, v.w];
    let vn = |v: &obj::NormalVertex| [v.x, v.y, v.z];
    match t {
        None => out.push_str("[\"none\",[],[],[]]"),
        Some(V(a)) => {
            out.push_str("[\"v\",");
            hexes(out, &v(a));
            out.push_str(",[],[]]");
        }
        Some(VT(a, b)) => {
            out.push_str("[\"vt\",");
            hexes(out, &v(a));
            out.push(',');
            hexes(out, &vt(b));
            out.push_str(",[]]");
        }
        Some(VN(a, c)) => {
            out.push_str("[\"vn\",");
            hexes(out, &v(a));
            out.push_str(",[],");
            hexes(out, &vn(c));
            out.push(']');
        }
        Some(VTN(a, b, c)) => {
            out.push_str("[\"vtn\",");
            hexes(out, &v(a));
            out.push(',');
            hexes(out, &vt(b));
            out.push(',');
            hexes(out, &vn(c));
            out.push(']');
        }
    }
}

fn probes(n: usize) -> Vec<usize> {
    let mut p = vec![0, n / 2, n.saturating_sub(1), n, n + 1, 1 << 32, usize::MAX];
    p.sort();
    p.dedup();
    p
}

fn lookups(o: &obj::Object) -> Vec<obj::VTNIndex> {
    use obj::VTNIndex::*;
    let (pv, pt, pn) = (
        probes(o.vertex_set.len()),
        probes(o.texture_vertex_set.len()),
        probes(o.normal_vertex_set.len()),
    );
    let mut q = vec![];
    for &a in &pv {
        q.push(V(a));
        for &b in &pt {
            q.push(VT(a, b));
        }
        for &c in &pn {
            q.push(VN(a, c));
        }
    }
    for &b in &pt {
        for &c in &pn {
            let m = o.vertex_set.len() / 2;
            q.push(VTN(m, b, c));
            q.push(VTN(o.vertex_set.len(), b, c));
        }
    }
    for &a in &pv {
        q.push(VTN(
            a,
            o.texture_vertex_set.len().saturating_sub(1),
            o.normal_vertex_set.len().saturating_sub(1),
        ));
    }
    // A sample of the references the parser itself produced.
    let refs: Vec<obj::VTNIndex> = o.element_set.iter().flat_map(|e| elem_refs(e).1).collect();
    let step = refs.len() / 24 + 1;
    q.extend(refs.iter().step_by(step));
    q
}

fn accessor(out: &mut String, o: &obj::Object) {
    let qs = lookups(o);
    list(out, &qs, |out, q| {
        out.push_str("{\"q\":");
        vtn(out, q);
        out.push_str(",\"r\":");
        triple(out, o.get_vtn_triple(*q));
        out.push('}');
    });
}

fn ends<T: std::fmt::Display>(out: &mut String, xs: &[T]) {
    let mut v: Vec<String> = vec![];
    if let (Some(a), Some(b)) = (xs.first(), xs.last()) {
        v.push(a.to_string());
        v.push(b.to_string());
    }
    list(out, &v, |out, s| js(out, s));
}

/// What Display says: the summary, the end items of each set one by one, and
/// every element and smoothing group as displayed.
fn displays(out: &mut String, o: &obj::Object, text: &str) {
    out.push_str("{\"sum\":");
    js(out, &o.to_string());
    out.push_str(",\"v\":");
    ends(out, &o.vertex_set);
    out.push_str(",\"vt\":");
    ends(out, &o.texture_vertex_set);
    out.push_str(",\"vn\":");
    ends(out, &o.normal_vertex_set);
    out.push_str(",\"g\":");
    ends(out, &o.group_set);
    out.push_str(",\"s\":");
    ends(out, &o.smoothing_group_set);
    out.push_str(",\"e\":");
    ends(out, &o.element_set);
    out.push_str(",\"es\":");
    list(out, &o.element_set, |out, e| js(out, &e.to_string()));
    out.push_str(",\"ss\":");
    list(out, &o.smoothing_group_set, |out, s| js(out, &s.to_string()));
    out.push_str(",\"rt\":");
    js(out, text);
    out.push('}');
}

fn obj_extra(s: &str) -> String {
    let mut out = obj_body(s);
    let extra = catch_unwind(AssertUnwindSafe(|| {
        let mut x = String::new();
        if let Ok(set) = obj::parse(s) {
            x.push_str(",\"acc\":");
            list(&mut x, &set.objects, accessor);
            x.push_str(",\"dis\":");
            list(&mut x, &set.objects, |out, o| displays(out, o, &rewrite(o)));
            x.push_str(",\"setdis\":");
            js(&mut x, &set.to_string());
            // A parser that has consumed its input has nothing left to give.
            let mut p = obj::Parser::new(s);
            let _ = p.parse_objset();
            x.push_str(",\"again\":{");
            objset(&mut x, &p.parse_objset());
            x.push('}');
        }
        x
    }));
    match extra {
        Ok(x) => out.push_str(&x),
        Err(p) => {
            out.push_str(",\"xpanic\":");
            js(&mut out, &panic_text(&*p));
        }
    }
    out
}

/// Objects no text may be needed for: the fields of an object are public.
fn made(o: &obj::Object) -> Vec<obj::Object> {
    let mut all = vec![];
    let mut with = |f: &dyn Fn(&mut obj::Object)| {
        let mut m = o.clone();
        f(&mut m);
        all.push(m);
    };
    with(&|m| m.vertex_set.clear());
    with(&|m| m.texture_vertex_set.clear());
    with(&|m| m.normal_vertex_set.clear());
    with(&|m| m.group_set.clear());
    with(&|m| m.smoothing_group_set.clear());
    with(&|m| {
        m.element_set.clear();
        m.name.clear();
    });
    with(&|m| m.shape_set.clear());
    with(&|m| m.geometry_set.clear());
    with(&|m| {
        m.vertex_set.reverse();
        m.texture_vertex_set.reverse();
        m.normal_vertex_set.reverse();
        m.group_set.reverse();
        m.element_set.reverse();
        m.smoothing_group_set.reverse();
    });
    with(&|m| {
        m.vertex_set.truncate(1);
        m.texture_vertex_set.truncate(2);
        m.normal_vertex_set.truncate(3);
        m.group_set.truncate(1);
        m.element_set.truncate(1);
    });
    with(&|m| {
        m.vertex_set.extend(o.vertex_set.iter());
        m.texture_vertex_set.extend(o.texture_vertex_set.iter());
        m.normal_vertex_set.extend(o.normal_vertex_set.iter());
        m.group_set.extend(o.group_set.iter().cloned());
        m.smoothing_group_set.extend(o.smoothing_group_set.iter());
        m.element_set.extend(o.element_set.iter());
    });
    with(&|m| {
        for (i, e) in m.element_set.iter_mut().enumerate() {
            let up = |r: obj::VTNIndex| {
                let d = [0, 1, 7, 98, 998, 65534, 1 << 20, (1 << 30) + 5][i % 8];
                match r {
                    obj::VTNIndex::V(a) => obj::VTNIndex::VN(a + d, a),
                    obj::VTNIndex::VT(a, b) => obj::VTNIndex::VTN(a, b + d, d),
                    obj::VTNIndex::VN(a, c) => obj::VTNIndex::VT(c, a + d),
                    obj::VTNIndex::VTN(a, b, c) => obj::VTNIndex::VTN(c + d, a, b),
                }
            };
            *e = match *e {
                obj::Element::Point(a) => obj::Element::Line(up(a), a),
                obj::Element::Line(a, b) => obj::Element::Face(up(b), a, up(a)),
                obj::Element::Face(a, _, c) => obj::Element::Point(up(if i % 2 == 0 { a } else { c })),
            };
        }
        for (i, s) in m.smoothing_group_set.iter_mut().enumerate() {
            s.0 = [0, 1, 9, 10, 255, 1 << 31, usize::MAX][(s.0.wrapping_add(i)) % 7];
        }
        for g in m.group_set.iter_mut() {
            g.0.push('s');
        }
    });
    all.push(obj::Object::default());
    all.push(obj::Object {
        name: String::from("made"),
        vertex_set: vec![obj::Vertex { x: -0.0, y: f64::MAX, z: 5e-324, w: -1.5 }],
        texture_vertex_set: vec![obj::TextureVertex { u: 1e300, v: -0.0, w: 0.1 }; 2],
        normal_vertex_set: vec![obj::NormalVertex { x: f64::INFINITY, y: f64::NEG_INFINITY, z: 1.0 / 3.0 }; 3],
        group_set: vec![obj::Group::default(), obj::Group(String::from("other"))],
        smoothing_group_set: vec![obj::SmoothingGroup(3), obj::SmoothingGroup::default()],
        ..obj::Object::default()
    });
    all
}

fn obj_made(s: &str) -> String {
    guarded(|out| {
        let set = match obj::parse(s) {
            Ok(set) => set,
            Err(_) => return out.push_str("\"st\":\"err\""),
        };
        let mut objects: Vec<obj::Object> = set.objects.iter().take(2).flat_map(made).collect();
        for o in objects.iter_mut() {
            o.element_set.truncate(40);
        }
        let set = obj::ObjectSet { material_libraries: set.material_libraries, objects };
        out.push_str("\"st\":\"ok\",\"libs\":");
        list(out, &set.material_libraries, |out, l| js(out, l));
        out.push_str(",\"objs\":");
        list(out, &set.objects, object);
        out.push_str(",\"acc\":");
        list(out, &set.objects, accessor);
        out.push_str(",\"dis\":");
        list(out, &set.objects, |out, o| displays(out, o, ""));
        out.push_str(",\"setdis\":");
        js(out, &set.to_string());
        out.push_str(",\"again\":{\"st\":\"ok\",\"libs\":[],\"objs\":[]}");
    })
}

// ---------------------------------------------------------------- equality

/// Pairs of parts: what they are, what they contain, whether they are equal.
struct Items(String);

impl Items {
    fn pair<T: PartialEq>(&mut self, kind: &str, a: &T, b: &T, show: &dyn Fn(&mut String, &T)) {
        let out = &mut self.0;
        if !out.is_empty() {
            out.push(',');
        }
        let _ = write!(out, "{{\"k\":\"{}\",\"a\":", kind);
        show(out, a);
        out.push_str(",\"b\":");
        show(out, b);
        let _ = write!(out, ",\"eq\":{},\"ne\":{}}}", a == b, a != b);
    }

    /// The same places of both, and a few different ones.
    fn pairs<T: PartialEq>(&mut self, kind: &str, a: &[T], b: &[T], show: &dyn Fn(&mut String, &T)) {
        let n = a.len().min(b.len());
        for i in (0..n.min(4)).chain(n.saturating_sub(2).max(4)..n) {
            self.pair(kind, &a[i], &b[i], show);
        }
        // the places where the two differ, as far as their texts say
        let mut shown = 0;
        for i in 4..n.saturating_sub(2) {
            let (mut x, mut y) = (String::new(), String::new());
            show(&mut x, &a[i]);
            show(&mut y, &b[i]);
            if x != y && shown < 3 {
                shown += 1;
                self.pair(kind, &a[i], &b[i], show);
            }
        }
        for i in 0..a.len().min(4) {
            for j in 0..i {
                self.pair(kind, &a[i], &a[j], show);
            }
        }
        if let (Some(x), Some(y)) = (a.first(), b.last()) {
            self.pair(kind, x, y, show);
            self.pair(kind, y, x, show);
        }
    }
}

fn element(out: &mut String, e: &obj::Element) {
    let (k, refs) = elem_refs(e);
    let _ = write!(out, "{{\"k\":\"{}\",\"x\":", k);
    list(out, &refs, vtn);
    out.push('}');
}

fn entry(out: &mut String, s: &obj::ShapeEntry) {
    out.push_str("{\"e\":");
    num(out, s.element);
    out.push_str(",\"g\":");
    list(out, &s.groups, |out, g| num(out, *g));
    out.push_str(",\"s\":");
    num(out, s.smoothing_group);
    out.push('}');
}

fn geometry(out: &mut String, g: &obj::Geometry) {
    out.push_str("{\"m\":[");
    if let Some(m) = &g.material_name {
        js(out, m);
    }
    out.push_str("],\"sh\":");
    list(out, &g.shapes, |out, s| num(out, *s));
    out.push('}');
}

fn order(o: Option<std::cmp::Ordering>) -> &'static str {
    match o {
        Some(std::cmp::Ordering::Less) => "<",
        Some(std::cmp::Ordering::Equal) => "=",
        Some(std::cmp::Ordering::Greater) => ">",
        None => "?",
    }
}

fn shape(e: &obj::Element, s: &obj::ShapeEntry, o: &obj::Object) -> obj::Shape {
    obj::Shape {
        element: *e,
        groups: s.groups.iter().filter_map(|&g| o.group_set.get(g).cloned()).collect(),
        smoothing_groups: o.smoothing_group_set.get(s.smoothing_group).cloned().into_iter().collect(),
    }
}

fn obj_items(a: &obj::ObjectSet, b: &obj::ObjectSet) -> String {
    let mut it = Items(String::new());
    let n = a.objects.len().min(b.objects.len());
    for i in (0..n.min(2)).chain(n.saturating_sub(1).max(2)..n) {
        let (x, y) = (&a.objects[i], &b.objects[i]);
        it.pairs("v", &x.vertex_set, &y.vertex_set, &|out, v| hexes(out, &[v.x, v.y, v.z, v.w]));
        it.pairs("vt", &x.texture_vertex_set, &y.texture_vertex_set, &|out, v| hexes(out, &[v.u, v.v, v.w]));
        it.pairs("vn", &x.normal_vertex_set, &y.normal_vertex_set, &|out, v| hexes(out, &[v.x, v.y, v.z]));
        it.pairs("g", &x.group_set, &y.group_set, &|out, g| js(out, &g.0));
        it.pairs("s", &x.smoothing_group_set, &y.smoothing_group_set, &|out, s| {
            let _ = write!(out, "\"{}\"", s.0);
        });
        it.pairs("element", &x.element_set, &y.element_set, &element);
        it.pairs("entry", &x.shape_set, &y.shape_set, &entry);
        it.pairs("geometry", &x.geometry_set, &y.geometry_set, &geometry);
        let refs = |o: &obj::Object| -> Vec<obj::VTNIndex> {
            o.element_set.iter().take(4).flat_map(|e| elem_refs(e).1).collect()
        };
        let (p, q) = (refs(x), refs(y));
        it.pairs("vtn", &p, &q, &vtn);
        let p: Vec<_> = p.iter().filter_map(|&r| x.get_vtn_triple(r)).collect();
        let q: Vec<_> = q.iter().filter_map(|&r| y.get_vtn_triple(r)).collect();
        it.pairs("triple", &p, &q, &|out, t| triple(out, Some(*t)));
        let shapes = |o: &obj::Object| -> Vec<obj::Shape> {
            o.element_set.iter().zip(&o.shape_set).take(4).map(|(e, s)| shape(e, s, o)).collect()
        };
        it.pairs("shape", &shapes(x), &shapes(y), &|out, s| {
            out.push_str("{\"e\":");
            element(out, &s.element);
            out.push_str(",\"g\":");
            list(out, &s.groups, |out, g| js(out, &g.0));
            out.push_str(",\"s\":");
            list(out, &s.smoothing_groups, |out, s| {
                let _ = write!(out, "\"{}\"", s.0);
            });
            out.push('}');
        });
        if x.element_set.len() < 60 {
            it.pair("object", x, y, &object);
        }
    }
    it.0
}

fn mtl_items(a: &mtl::MaterialSet, b: &mtl::MaterialSet) -> (String, String) {
    let mut it = Items(String::new());
    let mut ord = String::new();
    it.pairs("material", &a.materials, &b.materials, &material);
    let colors = |m: &mtl::MaterialSet| -> Vec<mtl::Color> {
        m.materials.iter().take(3).flat_map(|m| [m.color_ambient, m.color_diffuse, m.color_specular, m.color_emissive]).collect()
    };
    let (p, q) = (colors(a), colors(b));
    it.pairs("color", &p, &q, &color);
    let mut put = |s: String| {
        if !ord.is_empty() {
            ord.push(',');
        }
        ord.push_str(&s);
    };
    for (x, y) in p.iter().zip(&q).chain(p.iter().zip(p.iter().skip(1))).take(12) {
        let parts = [(x.r, y.r), (x.g, y.g), (x.b, y.b)].map(|(a, b)| format!("\"{}\"", order(a.partial_cmp(&b))));
        put(format!("{{\"k\":\"color\",\"c\":[{}],\"o\":\"{}\"}}", parts.join(","), order(x.partial_cmp(y))));
    }
    use mtl::IlluminationModel::*;
    let models = [(Ambient, 0), (AmbientDiffuse, 1), (AmbientDiffuseSpecular, 2)];
    for (x, i) in &models {
        for (y, j) in &models {
            put(format!("{{\"k\":\"illum\",\"a\":\"{}\",\"b\":\"{}\",\"o\":\"{}\"}}", i, j, order(Some(x.cmp(y)))));
            put(format!("{{\"k\":\"illum\",\"a\":\"{}\",\"b\":\"{}\",\"o\":\"{}\"}}", i, j, order(x.partial_cmp(y))));
        }
    }
    (it.0, ord)
}

/// A vector with one thing changed: an item, their order, or their number.
fn altered<T: Clone>(xs: &[T], item: &dyn Fn(&T) -> Vec<T>) -> Vec<Vec<T>> {
    let n = xs.len();
    let mut out = vec![];
    let mut places = vec![0, 1, 2, 3, 4, 7, 8, 16, 31, 32, 63, 64, 100, n / 2, n.wrapping_sub(2), n.wrapping_sub(1)];
    places.retain(|&i| i < n);
    places.sort();
    places.dedup();
    for &i in &places {
        let all = item(&xs[i]);
        let few = if places.len() > 6 { 2 } else { all.len() };
        for (k, y) in all.iter().enumerate() {
            if k < few || (k + i) % 5 == 0 {
                let mut v = xs.to_vec();
                v[i] = y.clone();
                out.push(v);
            }
        }
        if i + 1 < n {
            let mut v = xs.to_vec();
            v.swap(i, i + 1);
            out.push(v);
        }
    }
    if n > 0 {
        out.push(xs[..n - 1].to_vec());
        out.push(xs[1..].to_vec());
        let mut v = xs.to_vec();
        v.push(xs[n - 1].clone());
        out.push(v);
        out.push(vec![]);
    }
    out
}

fn altered_number(x: f64) -> Vec<f64> {
    let b = x.to_bits();
    vec![
        f64::from_bits(b ^ 1),
        -x,
        x + 1.0,
        f64::NAN,
        f64::from_bits(b ^ 1 << 20),
        x as f32 as f64,
        x * (1.0 + 1e-9),
        f64::from_bits(b ^ 1 << 30),
        0.0,
    ]
}

fn altered_place(x: usize) -> Vec<usize> {
    vec![x + 1, x ^ 2, x + 256, x + (1 << 16), x.wrapping_sub(1).min(1 << 20), 0]
}

fn altered_name(x: &String) -> Vec<String> {
    let mut out = vec![format!("{}x", x), x.to_uppercase(), x.to_lowercase(), String::new(), format!("{}.001", x), format!("_{}", x), format!("{} ", x)];
    let cs: Vec<char> = x.chars().collect();
    for i in [0, cs.len() / 2, cs.len().wrapping_sub(1)] {
        if i < cs.len() {
            let mut d = cs.clone();
            d[i] = if d[i] == 'q' { 'r' } else { 'q' };
            out.push(d.into_iter().collect());
        }
    }
    let back: String = cs.iter().rev().collect();
    out.push(back);
    out
}

fn altered_ref(r: &obj::VTNIndex) -> Vec<obj::VTNIndex> {
    use obj::VTNIndex::*;
    let (a, b, c) = match *r {
        V(a) => (a, a, a),
        VT(a, b) => (a, b, b),
        VN(a, c) => (a, c, c),
        VTN(a, b, c) => (a, b, c),
    };
    let mut out = vec![V(a), VT(a, b), VN(a, c), VTN(a, b, c), VN(a, b), VT(a, c), VTN(a, b, a), VTN(a, a, c), VT(b, a), VN(c, a), VTN(c, b, a), VTN(b, a, c)];
    for i in altered_place(a) {
        out.extend([V(i), VT(i, b), VN(i, c), VTN(i, b, c)]);
    }
    for i in altered_place(b) {
        out.extend([VT(a, i), VTN(a, i, c)]);
    }
    for i in altered_place(c) {
        out.extend([VN(a, i), VTN(a, b, i)]);
    }
    out
}

fn altered_element(e: &obj::Element) -> Vec<obj::Element> {
    use obj::Element::*;
    let (a, b, c) = match *e {
        Point(a) => (a, a, a),
        Line(a, b) => (a, b, b),
        Face(a, b, c) => (a, b, c),
    };
    let mut out = vec![Point(a), Line(a, b), Face(a, b, c), Line(b, a), Face(b, c, a), Face(c, b, a), Face(a, c, b)];
    for (k, r) in altered_ref(&a).into_iter().enumerate() {
        match k % 3 {
            0 => out.extend([Point(r), Face(a, b, r)]),
            1 => out.extend([Line(r, b), Face(a, r, c)]),
            _ => out.extend([Line(a, r), Face(r, b, c)]),
        }
    }
    out
}

fn altered_entry(s: &obj::ShapeEntry) -> Vec<obj::ShapeEntry> {
    let mut out = vec![];
    for e in altered_place(s.element) {
        out.push(obj::ShapeEntry { element: e, groups: s.groups.clone(), smoothing_group: s.smoothing_group });
    }
    for g in altered(&s.groups, &|g| altered_place(*g)) {
        out.push(obj::ShapeEntry { element: s.element, groups: g, smoothing_group: s.smoothing_group });
    }
    for n in altered_place(s.smoothing_group) {
        out.push(obj::ShapeEntry { element: s.element, groups: s.groups.clone(), smoothing_group: n });
    }
    out
}

fn altered_geometry(g: &obj::Geometry) -> Vec<obj::Geometry> {
    let mut out = vec![];
    let names = match &g.material_name {
        None => vec![Some(String::new()), Some(String::from("default"))],
        Some(m) => altered_name(m).into_iter().map(Some).chain([None]).collect(),
    };
    for m in names {
        out.push(obj::Geometry { material_name: m, shapes: g.shapes.clone() });
    }
    for s in altered(&g.shapes, &|s| altered_place(*s)) {
        out.push(obj::Geometry { material_name: g.material_name.clone(), shapes: s });
    }
    out
}

fn altered_vertex(v: &obj::Vertex) -> Vec<obj::Vertex> {
    let mut out = vec![];
    for c in 0..4 {
        for x in altered_number([v.x, v.y, v.z, v.w][c]) {
            let mut u = *v;
            *[&mut u.x, &mut u.y, &mut u.z, &mut u.w][c] = x;
            out.push(u);
        }
    }
    out.push(obj::Vertex { x: v.y, y: v.x, z: v.z, w: v.w });
    out
}

fn altered_texture(v: &obj::TextureVertex) -> Vec<obj::TextureVertex> {
    let mut out = vec![];
    for c in 0..3 {
        for x in altered_number([v.u, v.v, v.w][c]) {
            let mut u = *v;
            *[&mut u.u, &mut u.v, &mut u.w][c] = x;
            out.push(u);
        }
    }
    out
}

fn altered_normal(v: &obj::NormalVertex) -> Vec<obj::NormalVertex> {
    let mut out = vec![];
    for c in 0..3 {
        for x in altered_number([v.x, v.y, v.z][c]) {
            let mut u = *v;
            *[&mut u.x, &mut u.y, &mut u.z][c] = x;
            out.push(u);
        }
    }
    out
}

fn altered_group(g: &obj::Group) -> Vec<obj::Group> {
    altered_name(&g.0).into_iter().map(obj::Group).collect()
}

fn altered_smoothing(s: &obj::SmoothingGroup) -> Vec<obj::SmoothingGroup> {
    let n = s.0;
    [n.wrapping_add(1), 0, n ^ 1 << 32, n ^ 1 << 16, n ^ 256, usize::MAX].into_iter().map(obj::SmoothingGroup).collect()
}

fn altered_object(o: &obj::Object) -> Vec<obj::Object> {
    let mut out = vec![];
    macro_rules! field {
        ($f:ident, $values:expr) => {
            for (k, x) in $values.into_iter().enumerate() {
                if k % 3 == 0 || k < 4 {
                    let mut p = o.clone();
                    p.$f = x;
                    out.push(p);
                }
            }
        };
    }
    field!(name, altered_name(&o.name));
    field!(vertex_set, altered(&o.vertex_set, &altered_vertex));
    field!(texture_vertex_set, altered(&o.texture_vertex_set, &altered_texture));
    field!(normal_vertex_set, altered(&o.normal_vertex_set, &altered_normal));
    field!(group_set, altered(&o.group_set, &altered_group));
    field!(smoothing_group_set, altered(&o.smoothing_group_set, &altered_smoothing));
    field!(element_set, altered(&o.element_set, &altered_element));
    field!(shape_set, altered(&o.shape_set, &altered_entry));
    field!(geometry_set, altered(&o.geometry_set, &altered_geometry));
    out
}

fn altered_color(c: &mtl::Color) -> Vec<mtl::Color> {
    let mut out = vec![];
    for k in 0..3 {
        for x in altered_number([c.r, c.g, c.b][k]) {
            let mut d = *c;
            *[&mut d.r, &mut d.g, &mut d.b][k] = x;
            out.push(d);
        }
    }
    out
}

fn altered_material(m: &mtl::Material) -> Vec<mtl::Material> {
    let mut out = vec![];
    macro_rules! field {
        ($f:ident, $values:expr) => {
            for x in $values {
                let mut p = m.clone();
                p.$f = x;
                out.push(p);
            }
        };
    }
    macro_rules! map {
        ($f:ident) => {
            field!($f, match &m.$f {
                None => vec![Some(String::new()), Some(String::from("x"))],
                Some(x) => altered_name(x).into_iter().map(Some).chain([None]).collect(),
            })
        };
    }
    field!(name, altered_name(&m.name));
    field!(color_ambient, altered_color(&m.color_ambient));
    field!(color_diffuse, altered_color(&m.color_diffuse));
    field!(color_specular, altered_color(&m.color_specular));
    field!(color_emissive, altered_color(&m.color_emissive));
    field!(specular_exponent, altered_number(m.specular_exponent));
    field!(dissolve, altered_number(m.dissolve));
    field!(optical_density, match m.optical_density {
        None => vec![Some(1.0), Some(0.0), Some(f64::NAN)],
        Some(x) => altered_number(x).into_iter().map(Some).chain([None]).collect(),
    });
    field!(illumination_model, vec![
        mtl::IlluminationModel::Ambient,
        mtl::IlluminationModel::AmbientDiffuse,
        mtl::IlluminationModel::AmbientDiffuseSpecular
    ]);
    map!(map_ambient);
    map!(map_diffuse);
    map!(map_specular);
    map!(map_emissive);
    map!(map_specular_exponent);
    map!(map_bump);
    map!(map_displacement);
    map!(map_dissolve);
    map!(map_decal);
    out
}

impl Items {
    /// Some of the parts, each against what it may be altered to.
    fn alter<T: PartialEq + Clone>(&mut self, kind: &str, xs: &[T], f: &dyn Fn(&T) -> Vec<T>, show: &dyn Fn(&mut String, &T)) {
        let n = xs.len();
        for i in [0, n / 2, n.wrapping_sub(1)] {
            if i < n && (i == 0 || i != n / 2 || n > 2) {
                for y in f(&xs[i]) {
                    self.pair(kind, &xs[i], &y, show);
                }
            }
        }
    }
}

fn no_answer() -> &'static str {
    "\"st\":\"eq\",\"r\":{\"st\":\"ok\",\"libs\":[],\"objs\":[]},\"q\":{\"st\":\"ok\",\"libs\":[],\"objs\":[]},\
     \"eq\":true,\"qe\":true,\"ne\":false,\"copy\":[{\"same\":true,\"eq\":true},{\"same\":true,\"eq\":true}]"
}

fn obj_alter(s: &str) -> String {
    guarded(|out| {
        let set = match obj::parse(s) {
            Ok(set) => set,
            Err(_) => return out.push_str("\"st\":\"err\""),
        };
        let mut it = Items(String::new());
        for o in set.objects.iter().take(2) {
            it.alter("v", &o.vertex_set, &altered_vertex, &|out, v| hexes(out, &[v.x, v.y, v.z, v.w]));
            it.alter("vt", &o.texture_vertex_set, &altered_texture, &|out, v| hexes(out, &[v.u, v.v, v.w]));
            it.alter("vn", &o.normal_vertex_set, &altered_normal, &|out, v| hexes(out, &[v.x, v.y, v.z]));
            it.alter("g", &o.group_set, &altered_group, &|out, g| js(out, &g.0));
            it.alter("s", &o.smoothing_group_set, &altered_smoothing, &|out, s| {
                let _ = write!(out, "\"{}\"", s.0);
            });
            let refs: Vec<obj::VTNIndex> = o.element_set.iter().take(2).flat_map(|e| elem_refs(e).1).collect();
            it.alter("vtn", &refs, &altered_ref, &vtn);
            it.alter("element", &o.element_set, &altered_element, &element);
            it.alter("entry", &o.shape_set, &altered_entry, &entry);
            it.alter("geometry", &o.geometry_set, &altered_geometry, &geometry);
            if s.len() < 600 {
                it.alter("object", std::slice::from_ref(o), &altered_object, &object);
            }
        }
        let _ = write!(out, "{},\"items\":[{}],\"ord\":[]", no_answer(), it.0);
    })
}

fn mtl_alter(s: &str) -> String {
    guarded(|out| {
        let set = match mtl::parse(s) {
            Ok(set) => set,
            Err(_) => return out.push_str("\"st\":\"err\""),
        };
        let mut it = Items(String::new());
        it.alter("material", &set.materials, &altered_material, &material);
        for m in set.materials.iter().take(2) {
            it.alter("color", &[m.color_ambient, m.color_diffuse], &altered_color, &color);
        }
        let _ = write!(out, "{},\"items\":[{}],\"ord\":[]", no_answer(), it.0);
    })
}

/// All pairs of colours of a few values.
fn color_pairs() -> String {
    let mut out = String::new();
    let mut it = Items(String::new());
    let values = [0.0, 1.0, f64::NAN, -0.0];
    let mut all = vec![];
    for &r in &values[..3] {
        for &g in &values {
            for &b in &values[..3] {
                all.push(mtl::Color { r, g, b });
            }
        }
    }
    let mut ord: Vec<String> = vec![];
    for x in &all {
        for y in &all {
            let parts = [(x.r, y.r), (x.g, y.g), (x.b, y.b)].map(|(a, b)| format!("\"{}\"", order(a.partial_cmp(&b))));
            let o = order(x.partial_cmp(y));
            ord.push(format!("{{\"k\":\"color\",\"c\":[{}],\"o\":\"{}\"}}", parts.join(","), o));
            let (lt, le, gt, ge) = (x < y, x <= y, x > y, x >= y);
            // the operators, told as an order
            let told = match (lt, le, gt, ge) {
                (true, true, false, false) => "<",
                (false, true, false, true) => "=",
                (false, false, true, true) => ">",
                (false, false, false, false) => "?",
                _ => "!",
            };
            ord.push(format!("{{\"k\":\"color\",\"c\":[{}],\"o\":\"{}\"}}", parts.join(","), told));
            it.pair("color", x, y, &color);
        }
    }
    let _ = write!(out, "{},\"items\":[{}],\"ord\":[{}]", no_answer(), it.0, ord.join(","));
    out
}

fn eq_body<T: PartialEq + Clone, E: PartialEq + Clone>(
    r: &Result<T, E>,
    q: &Result<T, E>,
    show: &dyn Fn(&mut String, &Result<T, E>),
    rest: &dyn Fn(&T, &T) -> (String, String),
) -> String {
    guarded(|out| {
        let body = |out: &mut String, x: &Result<T, E>| {
            out.push('{');
            show(out, x);
            out.push('}');
        };
        let copy = |x: &Result<T, E>| {
            let (mut a, mut b) = (String::new(), String::new());
            let y = x.clone();
            body(&mut a, x);
            body(&mut b, &y);
            format!("{{\"same\":{},\"eq\":{}}}", a == b, *x == y)
        };
        let copies = [copy(r), copy(q)].join(",");
        out.push_str("\"st\":\"eq\",\"r\":");
        body(out, r);
        out.push_str(",\"q\":");
        body(out, q);
        let _ = write!(out, ",\"eq\":{},\"qe\":{},\"ne\":{},\"copy\":[{}]", r == q, q == r, r != q, copies);
        let (items, ord) = match (r, q) {
            (Ok(a), Ok(b)) => rest(a, b),
            _ => (String::new(), String::new()),
        };
        let _ = write!(out, ",\"items\":[{}],\"ord\":[{}]", items, ord);
    })
}

fn two(s: &str) -> (&str, &str) {
    let (n, rest) = s.split_once('\n').expect("two texts");
    rest.split_at(n.parse().expect("length"))
}

fn obj_eq(s: &str) -> String {
    let (a, b) = two(s);
    guarded(|out| {
        let (r, q) = (obj::parse(a), obj::parse(b));
        out.push_str(&eq_body(&r, &q, &objset, &|a, b| (obj_items(a, b), String::new())));
    })
}

fn mtl_eq(s: &str) -> String {
    let (a, b) = two(s);
    guarded(|out| {
        let (r, q) = (mtl::parse(a), mtl::parse(b));
        out.push_str(&eq_body(&r, &q, &mtlset, &|a, b| mtl_items(a, b)));
    })
}

fn types() -> String {
    use obj::VTNIndex::*;
    let all = [
        V(0), V(7), VT(0, 0), VT(7, 3), VT(3, 7), VN(0, 0), VN(7, 3), VN(3, 7),
        VTN(0, 0, 0), VTN(7, 3, 5), VTN(5, 7, 3), V(usize::MAX), VTN(1, 1, 1), VN(1, 1), VT(1, 1), V(1),
    ];
    let mut out = String::from("\"st\":\"types\",\"rows\":[");
    let mut first = true;
    for a in &all {
        for b in &all {
            if !first {
                out.push(',');
            }
            first = false;
            out.push_str("{\"a\":");
            vtn(&mut out, a);
            out.push_str(",\"b\":");
            vtn(&mut out, b);
            let _ = write!(out, ",\"same\":{}}}", a.has_same_type_as(b));
        }
    }
    out.push(']');
    out
}

/// References, elements and smoothing groups made of given numbers.  The
/// numbers are written as decimal words: they need not fit in 32 bits.
fn shows(s: &str) -> String {
    use obj::{Element, VTNIndex};
    fn parts(q: &VTNIndex) -> [Option<usize>; 3] {
        match *q {
            VTNIndex::V(v) => [Some(v), None, None],
            VTNIndex::VT(v, t) => [Some(v), Some(t), None],
            VTNIndex::VN(v, n) => [Some(v), None, Some(n)],
            VTNIndex::VTN(v, t, n) => [Some(v), Some(t), Some(n)],
        }
    }
    fn row(out: &mut String, k: &str, xs: &[VTNIndex], text: &str) {
        let _ = write!(out, "{{\"k\":\"{}\",\"x\":", k);
        list(out, xs, |out, q| {
            list(out, &parts(q), |out, p| match p {
                Some(n) => js(out, &n.to_string()),
                None => js(out, "-"),
            })
        });
        out.push_str(",\"t\":");
        js(out, text);
        out.push('}');
    }
    let ns: Vec<usize> = s.split_whitespace().filter_map(|w| w.parse().ok()).collect();
    guarded(|out| {
        out.push_str("\"st\":\"shows\",\"rows\":[");
        let mut first = true;
        let mut sep = |out: &mut String| {
            if !first {
                out.push(',');
            }
            first = false;
        };
        let form = |k: usize, a: usize, b: usize, c: usize| match k % 4 {
            0 => VTNIndex::V(a),
            1 => VTNIndex::VT(a, b),
            2 => VTNIndex::VN(a, c),
            _ => VTNIndex::VTN(a, b, c),
        };
        let at = |i: usize| ns[i % ns.len()];
        for i in 0..ns.len() {
            let (a, b, c) = (at(i), at(i * 7 + 3), at(i * 11 + 5));
            for k in 0..4 {
                for q in [form(k, a, b, c), form(k, b, c, a), form(k, c, a, b), form(k, a, a, a), form(k, 0, a, a), form(k, a, 0, 0)] {
                    sep(out);
                    row(out, "q", &[q], &q.to_string());
                }
            }
            for k in 0..4 {
                let (p, q, r) = (form(k, a, b, c), form(k + i, b, a, a), form(k + i / 4, c, c, b));
                for (e, n) in [(Element::Point(p), 1), (Element::Line(p, q), 2), (Element::Face(p, q, r), 3), (Element::Line(r, p), 0)] {
                    sep(out);
                    let xs: &[VTNIndex] = &[[r, p, p], [p, q, r]][(n > 0) as usize];
                    row(out, ["l", "p", "l", "f"][n], &xs[..[2, 1, 2, 3][n]], &e.to_string());
                }
            }
            sep(out);
            row(out, "s", &[VTNIndex::V(a)], &obj::SmoothingGroup(a).to_string());
        }
        out.push_str("],\"pairs\":[");
        let mut first = true;
        for i in 0..ns.len() {
            for k in 0..16 {
                let (p, q) = (form(k / 4, at(i), at(i + 1), at(i + 2)), form(k, at(i * 3), at(i), at(i * 5 + 1)));
                if !first {
                    out.push(',');
                }
                first = false;
                out.push_str("{\"x\":");
                list(out, &[p, q], |out, q| {
                    list(out, &parts(q), |out, p| match p {
                        Some(n) => js(out, &n.to_string()),
                        None => js(out, "-"),
                    })
                });
                let _ = write!(out, ",\"same\":{}}}", p.has_same_type_as(&q));
            }
        }
        out.push(']');
    })
}

fn run(op: &str, text: &str) -> String {
    match op {
        "shows" => shows(text),
        "obj" => obj_body(text),
        "mtl" => mtl_body(text),
        "objx" => obj_extra(text),
        "objw" => {
            let mut out = String::new();
            via(&mut out, &obj_ways(text));
            out
        }
        "mtlw" => {
            let mut out = String::new();
            via(&mut out, &mtl_ways(text));
            out
        }
        "objd" => format!("\"dig\":\"{}\"", digest(&obj_body(text))),
        "mtld" => format!("\"dig\":\"{}\"", digest(&mtl_body(text))),
        "objm" => obj_made(text),
        "eqobj" => obj_eq(text),
        "eqmtl" => mtl_eq(text),
        "alterobj" => obj_alter(text),
        "altermtl" => mtl_alter(text),
        "colors" => guarded(|out| out.push_str(&color_pairs())),
        "types" => guarded(|out| out.push_str(&types())),
        _ => panic!("unknown op {}", op),
    }
}

fn frame(input: &mut impl BufRead) -> Option<(String, String)> {
    let mut head = String::new();
    if input.read_line(&mut head).expect("read") == 0 {
        return None;
    }
    let mut it = head.split_whitespace();
    let op = it.next()?.to_string();
    let n: usize = it.next()?.parse().ok()?;
    if op == "par" || op == "storm" {
        return Some((op, head[head.find(' ')? + 1..].trim().to_string()));
    }
    let mut buf = vec![0u8; n];
    input.read_exact(&mut buf).expect("short frame");
    Some((op, String::from_utf8(buf).expect("frame is not UTF-8")))
}

/// The library is called on a modest stack: what it needs must not grow with the text.
const STACK: usize = 512 * 1024;

#[repr(C)]
struct Limit {
    soft: u64,
    hard: u64,
}

extern "C" {
    fn setrlimit(resource: i32, limit: *const Limit) -> i32;
}

/// Running away with memory ends this process, not the sandbox.
fn limits() {
    let memory = Limit { soft: 6 << 30, hard: 6 << 30 };
    let core = Limit { soft: 0, hard: 0 };
    // RLIMIT_AS and RLIMIT_CORE on Linux
    unsafe {
        setrlimit(9, &memory);
        setrlimit(4, &core);
    }
}

fn main() {
    limits();
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(serve)
        .expect("thread")
        .join()
        .expect("serve");
}

type Ways = Vec<(&'static str, String)>;

fn read(op: &str, text: &str) -> String {
    digest(&if op == "obj" { obj_body(text) } else { mtl_body(text) })
}

fn note(ways: &mut Ways, how: &'static str, dig: String) {
    if !ways.iter().any(|(h, d)| *h == how && *d == dig) {
        ways.push((how, dig));
    }
}

/// A thread for each text, sixty readings each.
fn together(frames: &[(String, String)]) -> Vec<Ways> {
    let barrier = std::sync::Barrier::new(frames.len().max(1));
    std::thread::scope(|sc| {
        let hs: Vec<_> = frames
            .iter()
            .map(|(op, text)| {
                let barrier = &barrier;
                std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, move || {
                    barrier.wait();
                    let mut ways = vec![];
                    for _ in 0..60 {
                        note(&mut ways, "concurrent", read(op, text));
                    }
                    ways
                }).expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

/// Eight threads, each reading what it likes, from where it lies or from a
/// buffer of its own that held another text before.
fn storm(frames: &[(String, String)], ms: u64) -> Vec<Ways> {
    let end = std::time::Instant::now() + std::time::Duration::from_millis(ms);
    let barrier = std::sync::Barrier::new(8);
    let mut all: Vec<Ways> = vec![vec![]; frames.len()];
    let parts: Vec<Vec<Ways>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8u64)
            .map(|k| {
                let barrier = &barrier;
                std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, move || {
                    let mut ways: Vec<Ways> = vec![vec![]; frames.len()];
                    let mut x = 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(2 * k + 1);
                    let mut buf = String::new();
                    // at first each thread reads another text, none read before, then
                    // all read the same, then a few of them, then any
                    for round in 0u64.. {
                        if round >= 64 && round & 31 == 0 && std::time::Instant::now() > end {
                            break;
                        }
                        if round < 64 {
                            barrier.wait();
                        }
                        x ^= x << 13;
                        x ^= x >> 7;
                        x ^= x << 17;
                        let r = (x.wrapping_mul(0x2545_f491_4f6c_dd1d) >> 33) as usize;
                        let i = match round {
                            0..=31 => (round * 8 + k) as usize % frames.len(),
                            32..=63 => round as usize % frames.len(),
                            _ if round >> 10 & 1 == 0 => ((round >> 11) as usize * 3 + r % 3) % frames.len(),
                            _ => r % frames.len(),
                        };
                        let (op, text) = &frames[i];
                        if r & 0x10000 == 0 {
                            note(&mut ways[i], "storm", read(op, text));
                        } else {
                            buf.clear();
                            buf.push_str(text);
                            note(&mut ways[i], "storm copy", read(op, &buf));
                        }
                    }
                    ways
                }).expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for part in parts {
        for (a, ways) in all.iter_mut().zip(part) {
            for (how, dig) in ways {
                note(a, how, dig);
            }
        }
    }
    all
}

fn serve() {
    let stdin = io::stdin();
    let mut input = stdin.lock();
    let stdout = io::stdout();
    let mut output = stdout.lock();
    while let Some((op, text)) = frame(&mut input) {
        if op == "par" || op == "storm" {
            let mut it = text.split(' ').map(|x| x.parse::<usize>().unwrap());
            let n = it.next().unwrap();
            let frames: Vec<(String, String)> = (0..n).map(|_| frame(&mut input).expect("frame")).collect();
            let found = match it.next() {
                None => together(&frames),
                Some(ms) => storm(&frames, ms as u64),
            };
            for ways in found {
                let mut out = String::new();
                via(&mut out, &ways);
                writeln!(output, "{{{}}}", out).unwrap();
            }
        } else {
            writeln!(output, "{{{}}}", run(&op, &text)).unwrap();
        }
        output.flush().unwrap();
    }
}
