//! Explorations over characters and words: totality (P01), numbers (P04), names (P12).

use crate::explore::*;
use crate::mtlm::{self, ColorM};
use crate::objm;
use crate::monitor;
use crate::run::*;
use crate::{mtl, obj};
use std::sync::Arc;

// ------------------------------------------------------------------------------------------------ P01

/// Loads the text as both formats, or one of them: it has to come back.
fn total(w: &mut W, f: Option<Fmt>, text: &str) {
    for fmt in [Fmt::Obj, Fmt::Mtl] {
        if f.is_some_and(|f| f != fmt) {
            continue;
        }
        let (out, class) = match fmt {
            Fmt::Obj => {
                let r = w.obj(text);
                let c = match &r {
                    Ok(Ok(m)) => hash_of(&(m.vertices.len(), m.faces.len(), m.lines.len(), m.points.len(), m.groups.len(), m.normals.len(), m.textures.len(), m.material_libs.len())),
                    Ok(Err(_)) => 1,
                    Err(_) => 2,
                };
                (r.err(), c)
            },
            Fmt::Mtl => {
                let r = w.mtl(text);
                let c = match &r {
                    Ok(Ok(m)) => hash_of(&(m.len(), m.first().map(|m| m.name.len()), 7u8)),
                    Ok(Err(_)) => 3,
                    Err(_) => 4,
                };
                (r.err(), c)
            },
        };
        // Every text is a state of the exploration of its own; what it does is a coarser outcome.
        w.state(hash_of(&(fmt, text)));
        w.outcome(class);
        if let Some(p) = out {
            let v = Violation {
                family: w.family.clone(),
                kind: "doc".into(),
                fmt,
                docs: vec![text.to_string()],
                expected: "Ok or Err".into(),
                actual: p,
                mask: objm::ALL,
            };
            w.violation(v);
        }
    }
}

/// All strings of up to `len` symbols, joined by `sep`, behind a prefix. One task per first symbol.
fn strings(family: &str, fmt: Option<Fmt>, prefix: &'static str, symbols: &'static [&'static str], sep: &'static str, len: usize) -> Vec<Task> {
    (0..symbols.len())
        .map(|first| {
            task(family, move |w| {
                for n in 0..len {
                    power(symbols.len(), n, |c| {
                        let mut t = String::from(prefix);
                        t.push_str(symbols[first]);
                        for &i in c {
                            t.push_str(sep);
                            t.push_str(symbols[i]);
                        }
                        // An edge from each text to the one that is one symbol longer.
                        w.transition(hash_of(&(fmt, &t)));
                        total(w, fmt, &t);
                        !w.stopped()
                    });
                }
                w.sample(&format!("{prefix}{}...", symbols[first]));
            })
        })
        .collect()
}

use crate::obj::power;

const CHARS: [&str; 20] = ["v", "n", "f", "g", "s", "1", "9", "-", "+", ".", "e", "/", "#", " ", "\t", "\n", "\r", "é", "𝄞", "\0"];
const CHARS_MTL: [&str; 18] = ["d", "K", "a", "n", "1", "-", "+", ".", "e", "o", "/", "#", " ", "\t", "\n", "\r", "é", "𝄞"];
const WORDS_OBJ: [&str; 34] = [
    "v", "vn", "vt", "vp", "f", "l", "p", "g", "s", "o", "usemtl", "usemap", "mtllib", "maplib", "lod", "bevel", "shadow_obj", "1", "-1", "-9", "0", "1.5", "/",
    "//", "1/2/3", "1//-3", "on", "off", "#", "\n", "x", "é", "99999999999", "-2147483648",
];
const WORDS_MTL: [&str; 34] = [
    "newmtl", "Ka", "Kd", "Tf", "spectral", "xyz", "Ns", "d", "-halo", "illum", "map_Kd", "map_d", "bump", "refl", "map_aat", "disp", "-blendu", "-cc", "-clamp", "-bm",
    "-type", "-mm", "-o", "-texres", "-imfchan", "-boost", "1", "-1", "1.5", "on", "#", "\n", "x", "99999999999",
];
const PREFIX_OBJ: [&str; 14] =
    ["v ", "vt 1 ", "f ", "f 1/", "l 1 ", "p ", "g ", "s ", "usemtl ", "mtllib ", "lod ", "bevel ", "v 1 2 3\nf -1 -1 ", "o\t"];
const PREFIX_MTL: [&str; 12] = [
    "newmtl ", "newmtl a\nKd ", "newmtl a\nKd spectral ", "newmtl a\nKa xyz ", "newmtl a\nd ", "newmtl a\nillum ", "newmtl a\nmap_Kd ", "newmtl a\nmap_Kd -o ",
    "newmtl a\nbump -bm ", "newmtl a\nrefl -type ", "newmtl a\nmap_aat ", "newmtl a\n",
];

pub const RICH_OBJ: &str = "# a file\nmtllib a b.mtl\nmaplib m.map\no thing\nv 1.0 -2.5 3e5 # c\r\nv 0.5 .5 5. 1\nv 1 2 3\nvn 0 0 1\nvt 0.5\nvt 0.5 1 0\n\n\
usemtl röd 1\nusemap off\ng a b\ns 1\nf 1 2 3\nf 1/1 2/2/1 3//1 -1\nf -1/-1/-1 1/ 2//\nl 1 2/1\np 1 -2\n\tg default\nlod 5\nbevel on\nc_interp ON\nd_interp off\n\
s off\nshadow_obj s.obj\ntrace_obj t.obj\nusemap 日本.png\nf 3 2 1";
pub const RICH_MTL: &str = "# a file\nnewmtl röd 1\nKa 0.5 .5 5.\nKd spectral a.rfl 0.5\r\nKs xyz 1\nKe xyz 1 2 3 # c\nTf 1e0 1 -1\nNs 200\nd 0.5\nd -halo 0.25\nTr 0.5\n\n\
sharpness 60\nNi 1.5\nillum 2\nmap_Ka -blendu on -s 1 1 1 -o 0 0 0 -mm 0 1 日本.mpc\nmap_Kd -cc off -t 1 b.png\nnewmtl b\n\tmap_Ks -clamp ON c.png\n\
map_Ns -imfchan r d.png\nmap_d -texres 512 e.png\nmap_aat on\ndisp -s 1 f.png\nmap_disp g.png\ndecal -blendv OFF h.png\nbump -bm 0.5 -boost 2 i.png\nrefl -type sphere j.png";

fn edits(base: &str, with: &[&str]) -> Vec<String> {
    let at: Vec<usize> = base.char_indices().map(|(i, _)| i).chain([base.len()]).collect();
    let mut r = vec![];
    for (k, &i) in at.iter().enumerate() {
        let next = at.get(k + 1).copied();
        // Cut, rest, insert, replace, delete, double.
        r.push(base[..i].to_string());
        r.push(base[i..].to_string());
        for x in with {
            r.push(format!("{}{x}{}", &base[..i], &base[i..]));
            if let Some(n) = next {
                r.push(format!("{}{x}{}", &base[..i], &base[n..]));
            }
        }
        if let Some(n) = next {
            r.push(format!("{}{}", &base[..i], &base[n..]));
            r.push(format!("{}{}", &base[..n], &base[i..]));
            if let Some(&m) = at.get(k + 2) {
                r.push(format!("{}{}{}{}", &base[..i], &base[n..m], &base[i..n], &base[m..]));
            }
        }
    }
    r
}

const INSERTS: [&str; 22] =
    ["\n", "\r", " ", "\t", "#", "/", "-", "+", ".", "e", "0", "9", "v", "s", "\0", "é", "𝄞", "\u{feff}", "\\", "\"", "9999999999", "\u{85}"];

pub fn p01(th: bool) -> Vec<Task> {
    let mut t = vec![];
    let extra = th as usize;
    t.extend(strings("characters", Some(Fmt::Obj), "", &CHARS, "", 4 + extra));
    t.extend(strings("characters", Some(Fmt::Mtl), "", &CHARS_MTL, "", 4 + extra));
    for p in PREFIX_OBJ {
        t.extend(strings("characters-as-arguments", Some(Fmt::Obj), p, &CHARS, "", 3 + extra));
    }
    for p in PREFIX_MTL {
        t.extend(strings("characters-as-arguments", Some(Fmt::Mtl), p, &CHARS_MTL, "", 3 + extra));
    }
    t.extend(strings("words", Some(Fmt::Obj), "", &WORDS_OBJ, " ", 3 + extra));
    t.extend(strings("words", Some(Fmt::Obj), "v 1 2 3\n", &WORDS_OBJ, "", 3 + extra));
    t.extend(strings("words", Some(Fmt::Mtl), "newmtl a\n", &WORDS_MTL, " ", 3 + extra));
    t.extend(strings("words", Some(Fmt::Mtl), "newmtl ", &WORDS_MTL, "", 3 + extra));
    // Every character there is, alone, as argument, inside a name and a number.
    let step = 0x800;
    let last = 0x110000;
    for a in (0..last).step_by(step) {
        t.push(task("every-character", move |w| {
            for c in (a..a + step as u32).filter_map(char::from_u32) {
                let quick: &[(Fmt, String)] = &[(Fmt::Obj, format!("usemtl {c}x{c}\nf {c}\n")), (Fmt::Mtl, format!("newmtl x{c}\n{c}Kd 1{c} 1 1"))];
                for (f, x) in quick {
                    total(w, Some(*f), x);
                }
                if th || c < '\u{3100}' {
                    for x in [format!("{c}"), format!("v 1{c} 2 3"), format!("v{c}1 2 3"), format!("f 1/{c}2 3 4"), format!("g {c} {c}{c}"), format!("s {c}"), format!("lod 1{c}")] {
                        total(w, Some(Fmt::Obj), &x);
                    }
                    for x in [format!("{c}"), format!("newmtl {c}"), format!("newmtl a\nmap_Kd -o 1{c} {c}.png"), format!("newmtl a\n{c}"), format!("newmtl a\nillum {c}1")] {
                        total(w, Some(Fmt::Mtl), &x);
                    }
                }
                if w.stopped() {
                    return;
                }
            }
        }));
    }
    // Every single edit of a file that has everything; pairs of edits of small files (thorough).
    for (f, base) in [(Fmt::Obj, RICH_OBJ), (Fmt::Mtl, RICH_MTL)] {
        let all = Arc::new(edits(base, &INSERTS));
        for chunk in 0..all.len().div_ceil(500) {
            let all = all.clone();
            t.push(task("edits", move |w| {
                for x in all.iter().skip(chunk * 500).take(500) {
                    total(w, Some(f), x);
                }
            }));
        }
        let lines: Vec<&str> = base.lines().collect();
        let texts: Vec<String> = lines.iter().flat_map(|l| edits(l, &INSERTS)).collect();
        let pre = if f == Fmt::Mtl { "newmtl a\n" } else { "v 1 2 3\n" };
        t.push(task("edits-of-lines", move |w| {
            for x in &texts {
                total(w, Some(f), &format!("{pre}{x}"));
                total(w, Some(f), x);
            }
        }));
        if th {
            for l in lines {
                if l.len() > 40 {
                    continue;
                }
                t.push(task("two-edits-of-lines", move |w| {
                    for x in edits(l, &INSERTS) {
                        for y in edits(&x, &INSERTS[..9]) {
                            total(w, Some(f), &format!("{pre}{y}"));
                            if w.stopped() {
                                return;
                            }
                        }
                    }
                }));
            }
        }
    }
    t.extend(monitor::wide_names(th, |w, f, x| total(w, Some(f), x)));
    // Every small name of characters of each width, with each kind of statement behind it; all pairs of statements.
    let chars = ["a", "é", "€", "😀"];
    let mut names: Vec<String> = vec![];
    for len in 1..=if th { 5 } else { 4 } {
        power(4, len, |c| {
            names.push(c.iter().map(|&i| chars[i]).collect());
            true
        });
    }
    let (names, obj_words, mtl_words) = (Arc::new(names), obj::vocabulary(), mtl::vocabulary());
    let texts = |f: Fmt, few: bool| -> Arc<Vec<String>> {
        Arc::new(match f {
            Fmt::Obj => if few { obj::kinds(1) } else { obj_words.clone() }.into_iter().map(|s| s.text).collect(),
            Fmt::Mtl => if few { mtl::kinds(1) } else { mtl_words.clone() }.into_iter().map(|s| s.text).collect(),
        })
    };
    let obj_heads: &[&str] = &["usemtl @", "usemap @", "g @", "g a @", "o @", "mtllib @", "maplib @", "shadow_obj @", "trace_obj @", "v 1 2 3 # @", "f 1 2 3 #@", "@", "s @", "# @"];
    let mtl_heads: &[&str] = &["newmtl @", "map_Kd @", "Ka spectral @", "map_d -imfchan @ a", "refl -type @ b", "Ns 1 # @", "Kd 1 1 1 #@", "@", "# @", "map_Kd a # @"];
    for (f, heads, pre) in [(Fmt::Obj, obj_heads, ""), (Fmt::Mtl, mtl_heads, "newmtl a\n")] {
        for &head in heads {
            let (names, then) = (names.clone(), texts(f, true));
            t.push(task("names-and-statements", move |w| {
                for n in names.iter() {
                    let first = format!("{pre}{}\n", head.replace('@', n));
                    for x in then.iter() {
                        total(w, Some(f), &format!("{first}{x}\n"));
                        total(w, Some(f), &format!("{x} {n}\n{first}"));
                    }
                    for x in heads {
                        total(w, Some(f), &format!("{first}{}", x.replace('@', "é€")));
                    }
                    if w.stopped() {
                        return;
                    }
                }
            }));
        }
        let all = texts(f, false);
        for i in 0..all.len() {
            let all = all.clone();
            t.push(task("vocabulary", move |w| {
                for x in all.iter() {
                    total(w, Some(f), &format!("{pre}{}\n{x}\n", all[i]));
                }
            }));
        }
    }
    // Extreme indices and coordinates in turn, in lists of every length.
    let extremes = ["-2147483648", "2147483647", "-1", "1", "0", "-2", "2147483646"];
    for a in extremes {
        for b in extremes {
            t.push(task("extreme-numbers", move |w| {
                for n in (1..=if th { 300 } else { 70 }).chain([100, 128, 129]) {
                    let list = |form: &str| -> String { (0..n).map(|i| format!(" {}", form.replace('@', if i % 2 == 0 { a } else { b }).replace('%', if i % 2 == 0 { b } else { a }))).collect() };
                    for pre in ["", "v 1 2 3\nvt 1\nvn 1 1 1\n"] {
                        for (k, form) in [("f", "@"), ("f", "@/%/@"), ("f", "@//%"), ("l", "@"), ("l", "@/%"), ("p", "@")] {
                            total(w, Some(Fmt::Obj), &format!("{pre}{k}{}\n", list(form)));
                        }
                    }
                    if w.stopped() {
                        return;
                    }
                }
                for x in [format!("s {a}\nf 1 2 3\ns {b}\nf 1 2 3"), format!("lod {a}\nlod {b}"), format!("v {a} {b} {a} {b}\nvt {a} {b} {a}\nvn {a} {b} {a}\nv {b} {a} {b}")] {
                    total(w, Some(Fmt::Obj), &x);
                }
                for x in ["illum @\nillum %", "map_Kd -texres @ a\nmap_Kd -texres % a", "bump -bm @ -mm @ % -o @ % @ -s % @ % a", "Kd @ % @\nKa xyz % @ %\nKs spectral a @\nTf xyz @", "Ns @\nNi %\nd @\nd -halo %\nTr @\nsharpness %"] {
                    total(w, Some(Fmt::Mtl), &format!("newmtl a\n{}", x.replace('@', a).replace('%', b)));
                }
            }));
        }
    }
    t.extend(monitor::unoptimized_loads(th));
    // Size: many lines, many arguments, long words.
    let mut lens = lengths(th);
    lens.retain(|&n| n > 0);
    let lines_obj = Arc::new(
        obj::full(1).into_iter().map(|s| s.text).chain(["f -1 -1 -1", "foo", "f", "v", "#", "\r", "\t", "é", "/", "g g", "s on"].map(String::from)).collect::<Vec<_>>(),
    );
    let lines_mtl = Arc::new(mtl::full(1).into_iter().map(|s| s.text).chain(["foo", "Kd", "#", "\r", "\t", "é", "-o", "newmtl"].map(String::from)).collect::<Vec<_>>());
    for &n in &lens {
        for (f, lines) in [(Fmt::Obj, lines_obj.clone()), (Fmt::Mtl, lines_mtl.clone())] {
            t.push(task("many-lines", move |w| {
                for l in lines.iter() {
                    let pre = if f == Fmt::Mtl { "newmtl a\n" } else { "v 1 2 3\n" };
                    total(w, Some(f), &format!("{pre}{}", format!("{l}\n").repeat(n)));
                    if w.stopped() {
                        return;
                    }
                }
            }));
        }
    }
    for n in lens.iter().copied().filter(|&n| n <= if th { 5000 } else { 2049 }) {
        t.push(task("many-arguments", move |w| {
            let heads = ["v", "vn", "vt", "f", "l", "p", "g", "s", "lod", "usemtl", "mtllib", "o", "bevel", "foo", ""];
            for head in heads {
                for arg in ["1", "1/2/3", "-1", "1.5", "x", "/", "on", "f", "é", "-1//-1"] {
                    total(w, Some(Fmt::Obj), &format!("{head}{}", format!(" {arg}").repeat(n)));
                }
                if w.stopped() {
                    return;
                }
            }
            for head in ["Kd", "Kd spectral", "Kd xyz", "Ns", "d", "illum", "map_Kd", "bump", "refl", "map_aat", "foo", "newmtl"] {
                for arg in ["1", "x", "-o 1", "-blendu on", "-bm 1", "-type x", "-mm 1 2", "-texres 1", "-imfchan r", "Kd", "é", "-s 1 2 3"] {
                    total(w, Some(Fmt::Mtl), &format!("newmtl a\n{head}{}", format!(" {arg}").repeat(n)));
                }
                if w.stopped() {
                    return;
                }
            }
        }));
    }
    lens.extend([131072, 1_000_000]);
    for &n in &lens {
        t.push(task("long-words", move |w| {
            for c in ["1", "9", "0", ".", "-", "+", "e", "/", "#", "a", "é", "𝄞", " ", "\t", "\r", "\n", "1.", "1e", "/1", "\\"] {
                if w.stopped() {
                    return;
                }
                // A run of slashes or separate words makes a token of every one of them.
                if (c.contains(['/', '#', ' ', '\t']) || c.len() > 1) && n > 4100 && c.is_ascii() {
                    continue;
                }
                let x = c.repeat(n);
                for head in ["", "v ", "v 1.", "v -0.", "v 1e", "v 1e-", "f ", "f 1/", "usemtl ", "g ", "s ", "lod ", "#"] {
                    total(w, Some(Fmt::Obj), &format!("{head}{x} 2 3"));
                }
                for head in ["", "newmtl ", "newmtl a\nKd ", "newmtl a\nNs 1e-", "newmtl a\nmap_Kd ", "newmtl a\nmap_Kd -o ", "newmtl a\nillum ", "newmtl a\n#"] {
                    total(w, Some(Fmt::Mtl), &format!("{head}{x} 2 3"));
                }
            }
        }));
    }
    t
}

// ------------------------------------------------------------------------------------------------ P04

/// sign? (digits (. digits?)? | . digits) ((e|E) sign? digits)?
pub fn is_literal(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    let digits = |i: &mut usize| {
        let a = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        *i - a
    };
    if i < b.len() && matches!(b[i], b'+' | b'-') {
        i += 1;
    }
    let whole = digits(&mut i);
    let mut frac = 0;
    if i < b.len() && b[i] == b'.' {
        i += 1;
        frac = digits(&mut i);
    }
    if whole + frac == 0 {
        return false;
    }
    if i < b.len() && matches!(b[i], b'e' | b'E') {
        i += 1;
        if i < b.len() && matches!(b[i], b'+' | b'-') {
            i += 1;
        }
        if digits(&mut i) == 0 {
            return false;
        }
    }
    i == b.len()
}

pub fn is_integer(s: &str) -> bool {
    let d = s.strip_prefix(['+', '-']).unwrap_or(s);
    !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit())
}

/// A numeric position: how to write a statement with a literal there.
type ObjPos = Box<dyn Fn(&str) -> objm::Stmt + Send + Sync>;
type MtlPos = Box<dyn Fn(&str) -> mtlm::Stmt + Send + Sync>;

fn float_positions() -> (Vec<ObjPos>, Vec<MtlPos>) {
    let mut o: Vec<ObjPos> = vec![];
    let mut m: Vec<MtlPos> = vec![];
    fn with<'a>(n: usize, i: usize, x: &'a str) -> Vec<&'a str> {
        let mut c = ["2", "3", "4", "5"][..n].to_vec();
        c[i] = x;
        c
    }
    for n in 3..=4 {
        for i in 0..n {
            o.push(Box::new(move |x| obj::v(&with(n, i, x))));
        }
    }
    for n in 1..=3 {
        for i in 0..n {
            if n == 3 {
                o.push(Box::new(move |x| obj::vn(&with(n, i, x))));
            }
            o.push(Box::new(move |x| obj::vt(&with(n, i, x))));
            for c in 0..5 {
                if n == 3 {
                    m.push(Box::new(move |x| mtl::rgb(c, &with(n, i, x))));
                }
                m.push(Box::new(move |x| mtl::xyz(c, &with(n, i, x))));
            }
            for k in ['o', 's', 't'] {
                for mp in [0, 3, 7, 8] {
                    m.push(Box::new(move |x| mtl::map(mp, "f.png", &[mtl::ost(k, &with(n, i, x))])));
                }
            }
        }
    }
    for c in 0..5 {
        m.push(Box::new(move |x| mtl::spectral(c, "f.rfl", Some(x))));
    }
    for i in 0..4 {
        m.push(Box::new(move |x| mtl::scalar(i, x)));
    }
    m.push(Box::new(|x| mtl::alpha(x)));
    m.push(Box::new(|x| mtl::halo(x)));
    for mp in [1, 4, 7, 8] {
        m.push(Box::new(move |x| mtl::map(mp, "f.png", &[mtl::mm(x, "2")])));
        m.push(Box::new(move |x| mtl::map(mp, "f.png", &[mtl::mm("2", x)])));
    }
    m.push(Box::new(|x| mtl::map(7, "f.png", &[mtl::bm(x)])));
    (o, m)
}

fn obj_stmt(w: &mut W, s: objm::Stmt) {
    doc::<Obj>(w, &[s], objm::ALL);
}
fn mtl_stmt(w: &mut W, s: mtlm::Stmt) {
    doc::<Mtl>(w, &[mtl::new("a"), s], mtlm::ALL);
}

/// The statement with `mark` (a literal) replaced by something that is no number there.
fn obj_bad(s: &objm::Stmt, mark: &str, by: &str) -> objm::Stmt {
    objm::st(s.text.replacen(mark, by, 1), objm::Sem::Bad)
}
fn mtl_bad(s: &mtlm::Stmt, mark: &str, by: &str) -> mtlm::Stmt {
    mtlm::st(s.text.replacen(mark, by, 1), mtlm::Sem::Bad)
}

pub const NOT_NUMBERS: [&str; 45] = [
    "x", "1x", "x1", "--1", "-+1", "+-1", "1-", "1+", "1-1", "0x10", "1_000", "1,5", "1.2.3", "1..2", "..1", ".", "-.", "+", "-", "e", "e5", ".e5", "1e", "1e+", "1e-", "1e5e5",
    "1e5.5", "1.5f", "1f", "nan", "NaN", "inf", "-inf", "infinity", "é", "١", "$1", "1%", "on", "off", "(1)", "\"1\"", "'1'", "1;", "½",
];

fn literals(th: bool) -> Vec<String> {
    let mut r = vec![];
    let ints = ["", "0", "1", "7", "12", "007", "340", "16777217", "2147483647", "2147483648", "4294967296", "99999999999999999999"];
    let fracs = ["", ".", ".0", ".5", ".25", ".1", ".0000001", ".123456789", ".999999999999"];
    let exps = ["", "e0", "e5", "E-3", "e+10", "E07", "e-45", "e38", "e39", "e-50", "e400", "e-99999"];
    for i in ints {
        for f in fracs {
            for e in exps {
                for s in ["", "-", "+"] {
                    let x = format!("{s}{i}{f}{e}");
                    if is_literal(&x) {
                        r.push(x);
                    }
                }
            }
        }
    }
    let hard = [
        "3.4028235e38",
        "3.4028236e38",
        "3.40282356e38",
        "3.40282357e38",
        "340282346638528859811704183484516925440",
        "340282356779733661637539395458142568447",
        "1.17549435e-38",
        "1.1754942e-38",
        "1.4e-45",
        "7e-46",
        "7.1e-46",
        "16777217.0",
        "16777219",
        "16777219.0",
        "33554433",
        "33554435",
        "9007199254740993",
        "1.000000059604644775390625",
        "1.00000005960464477539062500000000001",
        "1.00000005960464477539062499999999999",
        "0.1",
        "0.2",
        "0.3",
        "8388608.5",
        "8388609.5",
        "8388609.50000000000000000000000000001",
        "1.00000017881393432617187499",
        "1.000000178813934326171875",
        "1.00000017881393432617187500000000000001",
        "4.9406564584124654e-324",
        "123456789012345678901234567890",
        "0.00000000000000000000000000000000000000000001",
    ];
    r.extend(hard.iter().flat_map(|x| [x.to_string(), format!("-{x}")]));
    for k in (1..=60).chain([100, 127, 128, 129, 255, 256, 257, 400, 1000]).chain(if th { 2000..2003 } else { 0..0 }) {
        r.push(format!("1{}", "0".repeat(k)));
        r.push(format!("0.{}1", "0".repeat(k)));
        r.push(format!("{}1.5", "0".repeat(k)));
        r.push(format!("0.{}", "1".repeat(k)));
        r.push("9".repeat(k));
        r.push(format!("1.5e{}", "0".repeat(k) + "2"));
        r.push(format!("1.{}e-5", "0".repeat(k)));
        r.push(format!("{}.{}e-{k}", "3".repeat(k), "3".repeat(k)));
    }
    r
}

pub fn p04(th: bool) -> Vec<Task> {
    let mut t = vec![];
    // Every text over the characters of a number, in one position of each format.
    const NUM: [char; 9] = ['+', '-', '.', '0', '1', '9', 'e', 'E', '5'];
    let len = if th { 7 } else { 6 };
    for first in 0..9 {
        for second in 0..=9 {
            t.push(task("all-texts", move |w| {
                let run = |w: &mut W, x: &str| {
                    let (o, m) = if is_literal(x) {
                        (obj::v(&[x, "2", "3"]), mtl::scalar(0, x))
                    } else {
                        (objm::st(format!("v {x} 2 3"), objm::Sem::Bad), mtlm::st(format!("Ns {x}"), mtlm::Sem::Bad))
                    };
                    obj_stmt(w, o);
                    if x.len() < len {
                        mtl_stmt(w, m);
                    }
                };
                if second == 9 {
                    return run(w, &NUM[first].to_string());
                }
                for n in 0..=len - 2 {
                    power(9, n, |c| {
                        let x: String = [first, second].iter().chain(c).map(|&i| NUM[i]).collect();
                        run(w, &x);
                        !w.stopped()
                    });
                }
            }));
        }
    }
    // Every literal of the menu in every position.
    let lits = Arc::new(literals(th));
    let (o, m) = float_positions();
    for p in o {
        let lits = lits.clone();
        t.push(task("every-position", move |w| {
            for x in lits.iter() {
                obj_stmt(w, p(x));
            }
            let s = p("77");
            for x in NOT_NUMBERS {
                obj_stmt(w, obj_bad(&s, "77", x));
            }
        }));
    }
    for p in m {
        let lits = lits.clone();
        t.push(task("every-position", move |w| {
            for x in lits.iter() {
                mtl_stmt(w, p(x));
                if w.stopped() {
                    return;
                }
            }
            let s = p("77");
            for x in NOT_NUMBERS {
                // After the last optional number a word may be the file name of the map.
                let mut doubled = s.text.replacen("77", x, 1);
                if s.text.contains(".png") && !doubled.ends_with("f.png") {
                    doubled.push_str(" f.png");
                }
                mtl_stmt(w, mtlm::st(doubled, mtlm::Sem::Bad));
                mtl_stmt(w, mtl_bad(&s, "77", x));
            }
        }));
    }
    // All values with few significant bits, in two notations.
    let bits = if th { 20 } else { 16 };
    for hi in 0..256u32 {
        t.push(task("all-short-floats", move |w| {
            for lo in 0..1u32 << (bits - 8) {
                let f = f32::from_bits(((hi << (bits - 8)) | lo) << (32 - bits));
                if !f.is_finite() {
                    continue;
                }
                let (a, b) = (format!("{f}"), format!("{f:e}"));
                obj_stmt(w, obj::v(&[&a, &b, "1"]));
                if w.stopped() {
                    return;
                }
                if bits == 16 || lo % 16 == 0 {
                    mtl_stmt(w, mtl::rgb(0, &[&a, &b, "1"]));
                    // Halfway to the next value, and just beside it.
                    let g = f32::from_bits(f.to_bits() + 1);
                    if g.is_finite() && f != 0.0 {
                        let mid = format!("{:e}", (f as f64 + g as f64) / 2.0);
                        let (m, e) = mid.split_once('e').unwrap();
                        let m = if m.contains('.') { m.to_string() } else { format!("{m}.0") };
                        obj_stmt(w, obj::vn(&[&format!("{m}e{e}"), &format!("{m}00000000000000000000001e{e}"), "1"]));
                    }
                }
            }
        }));
    }
    // The ways in which programs print exponents, behind plain and long mantissas.
    for sign in ["", "-", "+"] {
        t.push(task("exponent-spellings", move |w| {
            let exps = [
                "e0", "E0", "e+0", "e-0", "e00", "E00", "e+00", "E+00", "e-00", "e+000", "E-000", "e+01", "E-01", "e+02", "e-02", "E+03", "e-003",
                "e+05", "E-05", "e+10", "e-010", "e01", "e007",
            ];
            for i in ["0", "1", "2", "7", "9", "10", "12", "99", "100", "101", "123", "255", "999", "1000", "1234", "99999", "123456", "16777217", ""] {
                for f in [
                    "", ".", ".0", ".00", ".000000", ".5", ".50", ".500000", ".25", ".1", ".10", ".12", ".123", ".1234", ".12345", ".5678", ".123456", ".654321",
                    ".1234567", ".99", ".999999", ".000001", ".0000004", ".3333333333",
                ] {
                    for e in exps {
                        let x = format!("{sign}{i}{f}{e}");
                        if is_literal(&x) {
                            obj_stmt(w, obj::v(&[&x, "1", &x]));
                            mtl_stmt(w, mtl::rgb(1, &["1", &x, &x]));
                        }
                        if w.stopped() {
                            return;
                        }
                    }
                }
            }
        }));
    }
    t.push(task("decimals", move |w| {
        for i in 0..if th { 1_000_000 } else { 100_000 } {
            let x = if th { format!("{}.{:05}", i / 100_000, i % 100_000) } else { format!("{}.{:04}", i / 10_000, i % 10_000) };
            obj_stmt(w, obj::vt(&[&x]));
            if w.stopped() {
                return;
            }
        }
    }));
    // Integer arguments.
    type IntPos = (&'static str, fn(i32) -> objm::Sem);
    fn tri(i: usize, k: usize, x: i32) -> objm::Sem {
        let mut r = [(2, Some(3), Some(4)), (5, Some(6), Some(7)), (8, Some(9), Some(10))];
        match k {
            0 => r[i].0 = x,
            1 => r[i].1 = Some(x),
            _ => r[i].2 = Some(x),
        }
        objm::Sem::F(r.to_vec())
    }
    const INTS: [IntPos; 16] = [
        ("f @/3/4 5/6/7 8/9/10", |x| tri(0, 0, x)),
        ("f 2/@/4 5/6/7 8/9/10", |x| tri(0, 1, x)),
        ("f 2/3/@ 5/6/7 8/9/10", |x| tri(0, 2, x)),
        ("f 2/3/4 5/@/7 8/9/10", |x| tri(1, 1, x)),
        ("f 2/3/4 5/6/7 @/9/10", |x| tri(2, 0, x)),
        ("f 2/3/4 5/6/7 8/@/10", |x| tri(2, 1, x)),
        ("f 2/3/4 5/6/7 8/9/@", |x| tri(2, 2, x)),
        ("f 1 2 @", |x| objm::Sem::F(vec![(1, None, None), (2, None, None), (x, None, None)])),
        ("f 1//@ 2 3", |x| objm::Sem::F(vec![(1, None, Some(x)), (2, None, None), (3, None, None)])),
        ("l @ 2", |x| objm::Sem::L(vec![(x, None), (2, None)])),
        ("l 1/2 3/@", |x| objm::Sem::L(vec![(1, Some(2)), (3, Some(x))])),
        ("l 1/@ 3", |x| objm::Sem::L(vec![(1, Some(x)), (3, None)])),
        ("p @", |x| objm::Sem::P(vec![x])),
        ("p 1 @ 3", |x| objm::Sem::P(vec![1, x, 3])),
        ("p 1 2 3 @", |x| objm::Sem::P(vec![1, 2, 3, x])),
        ("s @\nf 1 2 3", |x| objm::Sem::S(x)),
    ];
    let face = || objm::Sem::F(vec![(1, None, None), (2, None, None), (3, None, None)]);
    let run_int = move |w: &mut W, pos: &IntPos, x: &str, val: Option<i32>| {
        let text = pos.0.replace('@', x);
        let mut st = objm::State::default();
        match val {
            Some(v) => {
                st.apply(&(pos.1)(v));
                if text.starts_with("s ") {
                    st.apply(&face());
                }
            },
            None => st.bad = true,
        }
        let h = st.hash();
        w.state(h);
        w.transition(hash_of(&(h, &text)));
        Obj::check(w, &text, &st, objm::ALL);
    };
    let spans: [std::ops::RangeInclusive<i64>; 8] = [
        0..=70_000,
        (1 << 20) - 40..=(1 << 20) + 40,
        (1 << 23) - 40..=(1 << 23) + 40,
        (1 << 24) - 400..=(1 << 24) + 400,
        (1 << 30) - 40..=(1 << 30) + 40,
        (1 << 31) - 300..=(1 << 31) + 300,
        (1 << 32) - 300..=(1 << 32) + 1500,
        (1 << 33) - 40..=(1 << 33) + 40,
    ];
    let far = ["9223372036854775807", "9223372036854775808", "18446744073709551616", "18446744073709551617", "340282366920938463463374607431768211457", "99999999999999999999999999999999999999999999999"];
    let values: Arc<Vec<(String, Option<i32>)>> = Arc::new(
        spans
            .into_iter()
            .flatten()
            .map(|i| (i.to_string(), i32::try_from(i).ok()))
            .chain((0..60).map(|k| (format!("1{}", "0".repeat(k)), (k < 10).then(|| 10i32.pow(k as u32)))))
            .chain((0..40).map(|k| (format!("{}7", "0".repeat(k)), Some(7))))
            .chain((1..40).map(|k| ("9".repeat(k), (k < 10).then(|| (10i64.pow(k as u32) - 1) as i32))))
            .chain(far.iter().map(|x| (x.to_string(), None)))
            .chain([("+5".into(), Some(5)), ("+0012".into(), Some(12)), ("-2147483649".into(), None), ("-4294967297".into(), None), ("-99999999999".into(), None)])
            .collect(),
    );
    for pos in &INTS {
        let values = values.clone();
        t.push(task("integers", move |w| {
            for (x, v) in values.iter() {
                run_int(w, pos, x, *v);
                if w.stopped() {
                    return;
                }
            }
            for x in NOT_NUMBERS {
                // s takes on and off, too.
                if !matches!(x, "on" | "off") {
                    run_int(w, pos, x, None);
                }
            }
            for x in ["1.0", "1.", ".5", "1e0", "1E2", "2.5", "1e400", "-1.5"] {
                run_int(w, pos, x, None);
            }
        }));
    }
    let v2 = values.clone();
    t.push(task("integers", move |w| {
        for (x, v) in v2.iter() {
            let l = v.and_then(|v| u8::try_from(v).ok());
            obj_stmt(w, objm::st(format!("lod {x}"), l.map_or(objm::Sem::Bad, objm::Sem::Lod)));
            // 2^31 to 2^32 - 1 would fit the field of illum; refusing them is as good.
            let big = x.parse::<i64>().is_ok_and(|i| (1 << 31..1 << 32).contains(&i));
            if !big {
                mtl_stmt(w, mtlm::st(format!("illum {x}"), v.and_then(|v| u32::try_from(v).ok()).map_or(mtlm::Sem::Bad, mtlm::Sem::Illum)));
            }
            let sem = |v: Option<i32>, mp: usize| match v {
                Some(v) => mtl::map(mp, "f.png", &[mtl::texres(v)]).sem,
                None => mtlm::Sem::Bad,
            };
            for mp in [0, 7] {
                mtl_stmt(w, mtlm::st(format!("{} -texres {x} f.png", mtlm::MAPS[mp]), sem(*v, mp)));
            }
        }
        for x in NOT_NUMBERS.into_iter().chain(["1.0", "1.", ".5", "1e0", "1E2", "2.5", "1e400"]) {
            obj_stmt(w, objm::st(format!("lod {x}"), objm::Sem::Bad));
            mtl_stmt(w, mtlm::st(format!("illum {x}"), mtlm::Sem::Bad));
            for mp in 0..9 {
                mtl_stmt(w, mtlm::st(format!("{} -texres {x} f.png", mtlm::MAPS[mp]), mtlm::Sem::Bad));
            }
        }
        for x in ["-1", "-128", "-256", "-255", "256", "257", "512"] {
            obj_stmt(w, objm::st(format!("lod {x}"), objm::Sem::Bad));
        }
        for x in ["-1", "-2", "-4294967295", "-2147483648"] {
            mtl_stmt(w, mtlm::st(format!("illum {x}"), mtlm::Sem::Bad));
        }
    }));
    // Every text over the characters of a number, as an integer.
    for first in 0..9 {
        t.push(task("all-texts-as-integers", move |w| {
            for n in 0..if th { 5 } else { 4 } {
                power(9, n, |c| {
                    let x: String = [first].iter().chain(c).map(|&i| NUM[i]).collect();
                    let val = is_integer(&x).then(|| x.parse::<i32>().unwrap());
                    if !x.starts_with('-') {
                        run_int(w, &INTS[3], &x, val);
                        run_int(w, &INTS[12], &x, val);
                    }
                    let l = val.and_then(|v| u8::try_from(v).ok());
                    obj_stmt(w, objm::st(format!("lod {x}"), l.map_or(objm::Sem::Bad, objm::Sem::Lod)));
                    let sem = val.map_or(mtlm::Sem::Bad, |v| mtl::map(1, "f.png", &[mtl::texres(v)]).sem);
                    mtl_stmt(w, mtlm::st(format!("map_Kd -texres {x} f.png"), sem));
                    !w.stopped()
                });
            }
        }));
    }
    t
}

// ------------------------------------------------------------------------------------------------ P12

/// What the text after "keyword " means as a name: without blanks around it and without a comment.
fn name_of(rest: &str) -> Option<&str> {
    let b = rest.as_bytes();
    let end = (0..b.len()).find(|&i| b[i] == b'#' && (i == 0 || b[i - 1] == b' ' || b[i - 1] == b'\t')).unwrap_or(b.len());
    let s = rest[..end].trim_matches([' ', '\t']);
    (!s.is_empty()).then_some(s)
}

const NAME_POSITIONS: usize = 8;

/// Loads a document with `rest` after the keyword number `k`.
fn name_doc(w: &mut W, k: usize, rest: &str) {
    let name = name_of(rest);
    if k == 6 {
        let Some(n) = name else {
            return mtl_doc(w, &[mtlm::st(format!("newmtl {rest}"), mtlm::Sem::Bad)]);
        };
        return mtl_doc(w, &[mtlm::st(format!("newmtl {rest}"), mtlm::Sem::New(n.into())), mtl::illum(2)]);
    }
    if k == 7 {
        let Some(n) = name else { return };
        let words: Vec<String> = n.split([' ', '\t']).filter(|s| !s.is_empty()).map(String::from).collect();
        return doc::<Obj>(w, &[objm::st(format!("g {rest}"), objm::Sem::G(words)), obj::f(&[(1, None, None), (2, None, None), (3, None, None)])], objm::ALL);
    }
    let (kw, sem): (&str, fn(String) -> objm::Sem) = [
        ("usemtl", objm::Sem::UseMtl as fn(String) -> objm::Sem),
        ("usemap", |n| objm::Sem::UseMap((!n.eq_ignore_ascii_case("off")).then_some(n))),
        ("mtllib", objm::Sem::MtlLib),
        ("maplib", objm::Sem::MapLib),
        ("shadow_obj", objm::Sem::Shadow),
        ("trace_obj", objm::Sem::Trace),
    ][k];
    doc::<Obj>(w, &[objm::st(format!("{kw} {rest}"), name.map_or(objm::Sem::Bad, |n| sem(n.into())))], objm::ALL);
}

fn mtl_doc(w: &mut W, s: &[mtlm::Stmt]) {
    doc::<Mtl>(w, s, mtlm::ALL);
}

/// A single word that is not itself a number, option or kind of colour, nor begins a comment.
pub fn plain_word(x: &str) -> bool {
    const KW: [&str; 16] = [
        "spectral", "xyz", "-halo", "-type", "-texres", "-blendu", "-blendv", "-boost", "-clamp", "-imfchan", "-bm", "-cc", "-mm", "-o", "-s", "-t",
    ];
    // A # right behind a number may be a comment.
    let numbered = x.match_indices('#').any(|(i, _)| is_literal(&x[..i]));
    !x.is_empty() && !x.starts_with('#') && !numbered && !x.contains([' ', '\t', '\n', '\r']) && !is_literal(x) && !KW.contains(&&x.to_lowercase()[..])
}

const WORD_POSITIONS: usize = 6;

fn word_doc(w: &mut W, k: usize, x: &str) {
    if !plain_word(x) {
        return;
    }
    let s = match k {
        0 => mtl::map(1, x, &[]),
        1 => mtl::spectral(1, x, None),
        2 => mtl::map(3, "f.png", &[mtl::imf(x)]),
        3 => mtl::map(8, "f.png", &[mtl::ty(x)]),
        4 => mtl::map_at(7, "bump", x, &[mtl::mm("1", "2"), mtl::bm("3")], 1),
        _ => mtl::spectral(0, x, Some("2")),
    };
    mtl_doc(w, &[mtl::new("a"), s]);
}

pub fn p12(th: bool) -> Vec<Task> {
    let mut t = vec![];
    const SYM: [&str; 17] = ["a", "B", "1", "0", ".", "/", "-", "+", "#", " ", "\t", "e", "é", "日", "\\", "\"", "v"];
    let len = if th { 5 } else { 4 };
    for k in 0..NAME_POSITIONS {
        for first in 0..SYM.len() {
            t.push(task("all-names", move |w| {
                // One symbol more where the time is.
                for n in 0..if k == 0 || k == 6 { len } else { len - 1 } {
                    power(SYM.len(), n, |c| {
                        let x: String = [first].iter().chain(c).map(|&i| SYM[i]).collect();
                        name_doc(w, k, &x);
                        !w.stopped()
                    });
                }
            }));
        }
    }
    for k in 0..WORD_POSITIONS {
        for first in 0..SYM.len() {
            t.push(task("all-words", move |w| {
                for n in 0..if k == 0 { len } else { len - 1 } {
                    power(SYM.len(), n, |c| {
                        let x: String = [first].iter().chain(c).map(|&i| SYM[i]).collect();
                        word_doc(w, k, &x);
                        !w.stopped()
                    });
                }
            }));
        }
    }
    // Keywords, numbers, references, paths, alone and joined with anything else.
    let menu: Vec<&str> = vec![
        "mtllib", "usemtl", "bevel", "c_interp", "d_interp", "lod", "shadow_obj", "trace_obj", "maplib", "usemap", "vt", "vn", "vp", "v", "f", "l", "p", "o", "g", "s", "V", "F", "newmtl",
        "spectral", "xyz", "map_Kd", "map_d", "Kd", "d", "-halo", "-o", "-type", "-bm", "-mm", "on", "off", "On", "default", "12", "007", "1e5", "1E5", "1.", ".5", "-1", "+1", "1.50", "0x1F",
        "99999999999", "1e999", "1/2", "1//2", "1/2/3", "/", "//", "./a.mtl", "../b/c.png", "C:\\d\\e.mtl", "/abs/f.obj", "01_x.png", "-a", "3d", "a#1", "a##", "a/#b", "01", "1a", "1.5x",
        "x1.5", "1-2", "1_2", "--", "-", "+", ".", "..", "...", "e", "E", "nan", "inf", "NaN", "ÄÖ", "straße", "日本語", "𝄞𝄞", "a,b", "a;b", "a=b", "(a)", "[b]", "{c}", "'q'", "\"q\"", "`", "~", "!",
        "@", "$", "%", "^", "&", "*", "?", "|", "<", ">", "\u{feff}x", "K\u{301}", "İ", "ı", "ſ", "\u{212a}d", "usemtl2", "vx", "fx", "sphere", "Map", "OFFICE", "offset", "only", "no",
        "Material", "Material.001", "MAT_Wood", "Mat_1", "M_01", "Cube_Cube.001", "None", "NONE", "none", "null", "Default", "DEFAULT", "defaultMat", "initialShadingGroup", "lambert1SG", "Cube.001_Material", "wire_177028149", "(null)",
        "01 - Default", "textures\\wood.png", "http://a.b/c.mtl", "%20", "a&b", "true", "false", "0x10", "Untitled", "(none)", "unnamed", "white", "_", "__", "a_", "_a", "a.", ".a", "a.b.c", "a..b", "a/./b", "~/a", "$HOME", "*.png",
    ];
    let menu = Arc::new(menu);
    for a in 0..menu.len() {
        let menu = menu.clone();
        t.push(task("confusable-names", move |w| {
            let x = menu[a];
            for k in 0..NAME_POSITIONS {
                name_doc(w, k, x);
                for y in menu.iter() {
                    for sep in [" ", "", "  ", "\t", ".", "/", "-", "#", "_"] {
                        name_doc(w, k, &format!("{x}{sep}{y}"));
                    }
                }
                for tail in [" ", "\t ", " # c", "\t#c", " #", " # a # b", " #a b", "# c", "#"] {
                    name_doc(w, k, &format!("{x}{tail}"));
                    name_doc(w, k, &format!(" \t{x}{tail}"));
                }
            }
            for k in 0..WORD_POSITIONS {
                word_doc(w, k, x);
                for y in menu.iter() {
                    for sep in ["", ".", "/", "-", "_", "#"] {
                        word_doc(w, k, &format!("{x}{sep}{y}"));
                    }
                }
            }
        }));
    }
    // Every character there is.
    for a in (0..0x110000u32).step_by(0x400) {
        if !th && a >= 0x3400 && a % 0x4000 != 0 {
            continue;
        }
        t.push(task("every-character", move |w| {
            for c in (a..a + 0x400).filter_map(char::from_u32).filter(|c| !c.is_whitespace() && !c.is_control()) {
                for x in [format!("{c}"), format!("a{c}"), format!("{c}a"), format!("1{c}"), format!("a{c} b")] {
                    for k in 0..NAME_POSITIONS {
                        name_doc(w, k, &x);
                    }
                    for k in 0..2 {
                        word_doc(w, k, &x);
                    }
                }
                if w.stopped() {
                    return;
                }
            }
        }));
    }
    // Blanks of other scripts and control characters inside of a name. (Not those that are taken for the end of a line
    // or for blanks somewhere; where they split words is open.)
    t.push(task("other-blanks", move |w| {
        const BLANKS: [char; 7] = [' ', '\t', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}'];
        let all = (1..0x3400u32).filter_map(char::from_u32).filter(|c| (c.is_whitespace() || c.is_control()) && !['\n', '\r'].contains(c) && !BLANKS.contains(c));
        for c in all {
            for x in [format!("a{c}b"), format!("a{c}{c}b"), format!("1{c}2"), format!("a {c}b"), format!("a{c} b"), format!("é{c}日 1"), format!("a{c}#b"), format!("a/{c}b.png")] {
                for k in 0..NAME_POSITIONS - 1 {
                    name_doc(w, k, &x);
                }
            }
        }
    }));
    // Length.
    for n in lengths(th) {
        if n == 0 {
            continue;
        }
        t.push(task("long-names", move |w| {
            for c in ["a", "1", "é", "/", "-", "𝄞", "aB", "a b"] {
                let x = c.repeat(n);
                for k in 0..NAME_POSITIONS {
                    if !(k == 7 && c.contains(' ') && n > 5000) {
                        name_doc(w, k, &x);
                    }
                }
                for k in 0..WORD_POSITIONS {
                    word_doc(w, k, &format!("{x}.png"));
                }
            }
            // Many names on one g statement.
            if n <= 1100 {
                let names: Vec<String> = (0..n).map(|i| if i % 3 == 0 { format!("{i}") } else { format!("n{i}") }).collect();
                name_doc(w, 7, &names.join(" "));
                name_doc(w, 7, &names.join(" \t"));
            }
        }));
    }
    // A colour is looked at as well: the type of a spectral name is told by its place.
    t.push(task("spectral", move |w| {
        for c in 0..5 {
            for x in ["1x", "x1", "1.5.rfl", "on", "a#b", "é.rfl"] {
                mtl_doc(w, &[mtl::new("a"), mtl::spectral(c, x, None), mtl::spectral((c + 1) % 5, x, Some("0.5"))]);
                let s = mtlm::Sem::Color(c, ColorM::Spectral(x.into(), 1.0));
                mtl_doc(w, &[mtl::new("a"), mtlm::st(format!("{}  SPECTRAL\t{x} # {x}", mtlm::COLORS[c]), s)]);
            }
        }
    }));
    t
}
