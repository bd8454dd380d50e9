//! All or nothing (P02, P03): good documents are loaded completely, a line that cannot be read refuses the
//! document wherever it stands.

use crate::explore::*;
use crate::run::*;
use crate::text::NOT_NUMBERS;
use crate::{mtl, mtlm, obj, objm};
use std::sync::Arc;

pub fn bad_obj() -> Vec<objm::Stmt> {
    let mut r: Vec<String> = [
        // Missing arguments.
        "v", "v 1", "v 1 2", "vn", "vn 1", "vn 1 2", "vt", "f", "l", "p", "usemtl", "usemap", "mtllib", "maplib", "shadow_obj", "trace_obj", "o", "s", "lod", "bevel", "c_interp", "d_interp",
        // Surplus arguments.
        "v 1 2 3 4 5", "v 1 2 3 4 5 6", "vn 1 2 3 4", "vn 1 2 3 x", "vt 1 2 3 4", "vt 1 2 3 x", "v 1 2 3 x", "v 1 2 3 4 x", "s 1 2", "s 1 x", "s off 1", "s off off", "lod 1 2", "lod 1 x",
        "bevel on off", "bevel on on", "c_interp off 1", "d_interp on x", "f 1 2 3 x", "l 1 2 x", "p 1 2 x", "f 1 2 3 on", "p 1 on",
        // The wrong kind.
        "v a b c", "v 1/2 3 4", "v 1,2,3", "v on off on", "v 1 2 3/", "v 1 / 3", "vn a b c", "vn 1 2 3/4", "vt a", "vt 1 b", "vt on", "vt 1/2", "f a b c", "f 1.5 2 3", "f 1 2 3.0", "f 1/2/3/4 2 3",
        "f 1 2 1/2/3/4", "f /1 2 3", "f //1 2 3", "f 1/a 2 3", "f 1/2/a 2 3", "f 1///2 2 3", "f on 2 3", "f 1/2.5 3 4", "f 1//2.5 3 4", "f 1/2/3x 4 5", "f 1\\2 3 4", "f 1 2 2147483648",
        "f 1/4294967297 2 3", "f 1//99999999999 2 3", "f 1/2/2147483648 2 3", "f 1,2,3", "f 1:2 3 4", "f x/1/1 2/1/1 3/1/1", "l a b", "l 1/2/3 4/5/6", "l 1//2 3", "l 1//2 3//4", "l 1.5 2", "l 1/1.5 2", "l 1/a 2",
        "l 1 99999999999", "p a", "p 1/2", "p 1//2", "p 1/", "p 1.5", "p 1 2.5", "p 99999999999", "p on", "p 1 2/3", "p /1", "s a", "s 1.5", "s a b", "s -", "s 2147483648", "s 1/2", "s o", "s offs", "s /",
        "lod a", "lod -1", "lod 256", "lod 1.5", "lod on", "lod 99999999999", "lod 1/2", "bevel 1", "bevel 0", "bevel yes", "bevel true", "bevel o", "bevel onn", "bevel of", "bevel /", "c_interp 1",
        "c_interp yes", "c_interp x", "c_interp 1.5", "d_interp 0", "d_interp no", "d_interp offf", "d_interp -1",
        // Statements that are not supported.
        "vp 1 2 3", "vp 1", "vp", "cstype bezier", "cstype rat bspline", "deg 3", "deg 3 3", "bmat u 1 2", "step 1 1", "curv 0 1 1 2", "curv2 1 2", "surf 0 1 0 1 1 2", "parm u 0 1", "trim 0 1 1",
        "hole 0 1 1", "scrv 0 1 1", "sp 1", "end", "con 1 0 1 1 2 0 1 1", "mg 1 0.5", "mg off", "ctech cparm 1", "stech cparma 1 1", "call x.obj", "csh ls", "bsp 1 2", "bzp 1 2", "cdc 1 2", "cdp 1", "res 1 1",
        "newmtl a", "Kd 1 1 1", "map_Kd a.png",
        // No statements at all.
        "foo", "foo 1 2 3", "x", "vertex 1 2 3", "1 2 3", "1", "-1", "1.5", "0 v 1 2 3", "/", "//", "/ v 1 2 3", "1/2/3", "1 v 1 2 3", "on", "off", "default", "// comment", "; v 1 2 3", "\\", ".", "-", "é", "'", "\"v 1 2 3\"",
        // Keywords glued to something.
        "v1 2 3", "v1 1 2 3", "vv 1 2 3", "vx 1 2 3", "vnn 1 2 3", "vn1 2 3 4", "vt1 2", "vtt 1", "f1 2 3", "ff 1 2 3", "f/1 2 3", "l1 2", "ll 1 2", "p1", "pp 1", "g1", "gg a", "s1", "ss 1", "soff", "oo x", "ox", "usemtla", "usemtlx a",
        "usemapx a", "mtllibx a", "maplibx a", "lod1", "lodx 1", "bevelon", "bevelx on", "c_interpx on", "d_interpx on", "shadow_objx a", "trace_objx a", "v# 1 2 3", "-v 1 2 3", "v- 1 2 3", "v: 1 2 3",
        // Two statements on a line.
        "v 1 2 3 v 1 2 3", "v 1 2 3 f 1 2 3", "v 1 2 3 4 vn 1 2 3", "f 1 2 3 v 1 2 3", "f 1 2 3 f 1 2 3", "s 1 s 2", "s 1 f 1 2 3", "s off v 1 2 3", "vn 1 2 3 vn 1 2 3", "vn 1 2 3 vt 1", "vt 1 vt 2", "vt 1 2 v 1 2 3",
        "lod 1 lod 2", "p 1 p 2", "p 1 v 1 2 3", "l 1 2 l 3 4", "l 1 2 p 3", "bevel on v 1 2 3", "bevel on bevel off", "c_interp on s 1", "f 1 2 3 g a", "v 1 2 3 usemtl a", "f 1 2 3 s 1", "p 1 mtllib a", "v v 1 2 3",
        "f f 1 2 3", "s s 1",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    // Every argument of every statement replaced by something that is no number.
    let base = [("v 1 2 3", false), ("v 1 2 3 4", false), ("vn 1 2 3", false), ("vt 1", false), ("vt 1 2", false), ("vt 1 2 3", false), ("f 1 2 3", true), ("f 1 2 3 4", true), ("l 1 2", true), ("l 1 2 3", true), ("p 1", true), ("p 1 2", true)];
    for (b, _) in base {
        let words: Vec<&str> = b.split(' ').collect();
        for i in 1..words.len() {
            for x in NOT_NUMBERS {
                let mut w = words.clone();
                w[i] = x;
                r.push(w.join(" "));
            }
        }
    }
    r.into_iter().map(|s| objm::st(s, objm::Sem::Bad)).collect()
}

pub fn bad_mtl() -> Vec<mtlm::Stmt> {
    let mut r: Vec<String> = [
        "newmtl", "d", "d x", "d 1 2", "d 1 x", "d -halo", "d -halo x", "d -halo 1 2", "d -halo 1 x", "d 1 -halo", "d -foo 1", "d -halo -halo 1", "d -o 1", "d on", "illum", "illum x", "illum 1.5", "illum -1",
        "illum 1 2", "illum 4294967296", "illum on", "map_aat", "map_aat 1", "map_aat maybe", "map_aat on off", "map_aat on on", "map_aat onn", "map_aat a.png",
        // Not supported.
        "foo", "foo 1", "Km 0.5", "map_Ke a.png", "map_Tf a.png", "map_bump a.png", "map_Bump a.png", "map_refl a.png", "map_opacity a.png", "map_Tr a.png", "map_Ni a.png", "norm a.png", "Pr 0.5", "Pm 0.5", "Ps 1", "Pc 1",
        "Pcr 1", "aniso 1", "anisor 1", "Tk 1 1 1", "N 1", "K 1 1 1", "v 1 2 3", "f 1 2 3", "g a", "usemtl a", "mtllib a", "1", "1 2 3", "-1", "1.5", "on", "off", "/", "//", "; x", "é", "-", "\\", "\"Kd 1 1 1\"",
        // Options and words that only belong inside a statement.
        "-o 1", "-halo 1", "-blendu on", "-type sphere", "-bm 1", "-mm 0 1", "-cc on", "spectral a.rfl", "spectral a.rfl 1", "xyz 1 2 3", "xyz", "-o 1 map_Kd a.png",
        // Glued.
        "Kd1 1 1 1", "Kdx 1 1 1", "Kda 1 1 1", "Ns1", "Nsx 1", "d1", "dd 1", "dx 1", "illum2", "illumx 1", "Trx 1", "Nix 1", "sharpnessx 1", "newmtla", "newmtlx a", "map_Kdx a.png", "map_kda a.png", "map_Kd_ a.png", "mapKd a.png",
        "map_ a.png", "map a.png", "dispx a.png", "decals a.png", "bumpx a.png", "bump_map a.png", "reflx a.png", "map_aatx on", "map_dx a.png", "map_dispx a.png", "-Kd 1 1 1", "Kd: 1 1 1", "Kd, 1 1 1", "Kd/1/1/1", "_Kd 1 1 1",
        // Two statements on a line.
        "Kd 1 1 1 Ks 1 1 1", "Kd 1 1 1 Kd 2 2 2", "Ns 1 Ns 2", "Ns 1 d 1", "illum 1 illum 2", "illum 1 Kd 1 1 1", "d 1 d 2", "d 1 illum 1", "Kd spectral a.rfl Ks spectral b.rfl", "Kd spectral a.rfl 1 Ns 1",
        "Kd xyz 1 Ks xyz 1", "Kd xyz 1 2 3 d 1", "map_aat on map_aat off", "map_aat on d 1", "map_Kd a.png map_Ks b.png", "map_Kd a.png Kd 1 1 1", "map_Kd a.png newmtl b", "bump a.png illum 2", "refl a.png d 1", "Kd 1 1 1 newmtl b",
        "Kd Kd 1 1 1", "Ns Ns 1", "illum illum 1", "map_Kd map_Kd a.png", "1 Kd 1 1 1", "x Kd 1 1 1",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for c in mtlm::COLORS {
        for a in [
            "", " 1", " 1 2", " 1 2 3 4", " 1 2 3 x", " x", " x 1 2 3", " 1 2 x", " 1 x 3", " x 2 3", " spectral", " spectral 1", " spectral 1 a.rfl", " spectral a.rfl 1 2", " spectral a.rfl b.rfl", " spectral a.rfl 1 x", " a.rfl", " a.rfl 1",
            " xyz", " xyz x", " xyz 1 2 3 4", " xyz 1 2 3 x", " xyz 1 x", " xyz 1 2 x", " xyz a.rfl", " rgb 1 2 3", " spectral xyz 1", " xyz spectral a.rfl", " 1 2 3 spectral a.rfl", " 1 2 3 xyz 1", " on", " 1/2/3", " 1,2,3", " -o 1 2 3",
            " -halo 1",
        ] {
            r.push(format!("{c}{a}"));
        }
    }
    for s in mtlm::SCALARS {
        for a in ["", " x", " 1 2", " 1 x", " on", " -halo 1", " 1/2", " 1,5", " -o 1", " a.png", " spectral a.rfl"] {
            r.push(format!("{s}{a}"));
        }
    }
    for m in mtlm::MAPS.into_iter().chain(["map_disp"]) {
        for a in ["", " 1", " 1.5", " f.png 1", " 1 f.png", " a.png b.png", " on f.png", " f.png on", " a.png b.png c.png", " -foo f.png", " -foo 1 f.png", " f.png -foo", " f.png -foo 1", " -halo f.png", " -halo 1 f.png", " f.png -halo", " f.png xyz", " spectral f.png", " f.png spectral g.png"] {
            r.push(format!("{m}{a}"));
        }
        for o in ["-blendu", "-blendv", "-cc", "-clamp"] {
            for a in ["", " on", " f.png", " yes f.png", " 1 f.png", " 0 f.png", " true f.png", " on off f.png", " onn f.png", " of f.png", " on 1 f.png", " f.png g.png", " 1.5 f.png", " on -foo f.png"] {
                r.push(format!("{m} {o}{a}"));
            }
            r.push(format!("{m} f.png {o}"));
            r.push(format!("{m} f.png {o} 1"));
            r.push(format!("{m} f.png {o} maybe"));
        }
        for (o, max) in [("-mm", 2), ("-o", 3), ("-s", 3), ("-t", 3), ("-texres", 1), ("-bm", 1), ("-boost", 1)] {
            let nums = ["1", "2", "3", "4"];
            r.push(format!("{m} {o}"));
            r.push(format!("{m} {o} f.png"));
            r.push(format!("{m} f.png {o}"));
            r.push(format!("{m} {o} x f.png"));
            r.push(format!("{m} {o} on f.png"));
            r.push(format!("{m} {o} {}", nums[..max].join(" ")));
            r.push(format!("{m} {o} {} f.png", nums[..max + 1].join(" ")));
            r.push(format!("{m} f.png {o} {}", nums[..max + 1].join(" ")));
            r.push(format!("{m} {o} {} x f.png", nums[..max].join(" ")));
            if o == "-mm" {
                r.push(format!("{m} -mm 1 f.png"));
                r.push(format!("{m} -mm 1 x f.png"));
                r.push(format!("{m} f.png -mm 1"));
            }
        }
        for x in ["1.5", "1e2", "99999999999", "2147483648", "-2147483649"] {
            r.push(format!("{m} -texres {x} f.png"));
        }
        for o in ["-imfchan", "-type"] {
            r.push(format!("{m} {o}"));
            r.push(format!("{m} {o} f.png"));
            r.push(format!("{m} f.png {o}"));
            r.push(format!("{m} {o} x"));
            r.push(format!("{m} {o} x y f.png"));
            r.push(format!("{m} {o} 1 f.png"));
            r.push(format!("{m} {o} x 1 f.png"));
            r.push(format!("{m} {o} -o f.png"));
        }
    }
    r.into_iter().map(|s| mtlm::st(s, mtlm::Sem::Bad)).collect()
}

/// Each bad line at each place of each good document of up to `depth` statements.
fn everywhere<F: Format>(family: &str, bad: Arc<Vec<F::Stmt>>, good: Arc<Vec<Vec<F::Stmt>>>, pre: Arc<Vec<F::Stmt>>, depth: usize, mask: u32) -> Vec<Task> {
    let mut t = vec![];
    for b in 0..bad.len() {
        let (bad, good, pre) = (bad.clone(), good.clone(), pre.clone());
        t.push(task(family, move |w| {
            for n in 0..=depth {
                obj::power(good[0].len(), n, |c| {
                    for place in 0..=n {
                        let mut d: Vec<F::Stmt> = pre.to_vec();
                        d.extend(c[..place].iter().enumerate().map(|(i, &x)| good[i][x].clone()));
                        d.push(bad[b].clone());
                        d.extend(c[place..].iter().enumerate().map(|(i, &x)| good[place + i][x].clone()));
                        doc::<F>(w, &d, mask);
                        if place == n {
                            no_final_newline::<F>(w, &d, mask);
                        }
                    }
                    !w.stopped()
                });
            }
        }));
    }
    t
}

/// The document without its last line end.
fn no_final_newline<F: Format>(w: &mut W, d: &[F::Stmt], mask: u32) {
    let mut st = F::State::default();
    for s in d {
        F::apply(&mut st, s);
    }
    let text = d.iter().map(F::text).collect::<Vec<_>>().join("\n");
    w.transition(hash_of(&(F::hash(&st), &text)));
    F::check(w, &text, &st, mask);
}

/// Bad lines deep inside long documents, and before and after them. Of the bad lines, fewer are taken for the
/// longer documents.
fn deep<F: Format>(family: &str, bad: Arc<Vec<F::Stmt>>, good: Arc<Vec<F::Stmt>>, pre: Arc<Vec<F::Stmt>>, mask: u32, th: bool) -> Vec<Task> {
    let mut t = vec![];
    for n in lengths(th).into_iter().rev() {
        let few = match n {
            0..=64 => 1,
            65..=300 => 5,
            301..=5000 => if th { 13 } else { 67 },
            _ => if th { 61 } else { 199 },
        };
        let picked: Vec<usize> = (0..bad.len()).step_by(few).collect();
        for chunk in picked.chunks(if n > 300 { 4 } else { 32 }) {
            let (bad, good, pre, chunk) = (bad.clone(), good.clone(), pre.clone(), chunk.to_vec());
            t.push(task(family, move |w| {
                for &i in &chunk {
                    let b = &bad[i];
                    let lines = |k: usize| good.iter().cycle().skip(i).take(k).cloned();
                    // After n good lines, and with as many behind it.
                    long_doc::<F>(w, pre.iter().cloned().chain(lines(n)).chain([b.clone()]), mask);
                    if n <= 2000 {
                        long_doc::<F>(w, pre.iter().cloned().chain(lines(n)).chain([b.clone()]).chain(lines(n)), mask);
                        long_doc::<F>(w, pre.iter().cloned().chain([b.clone()]).chain(lines(n)), mask);
                    }
                    if w.stopped() {
                        return;
                    }
                }
            }));
        }
        // One kind of line only.
        if n <= 5000 {
            for g in 0..good.len() {
                let (bad, good, pre) = (bad.clone(), good.clone(), pre.clone());
                t.push(task(family, move |w| {
                    for b in bad.iter().step_by(if n > 300 { 397 } else { 97 }) {
                        long_doc::<F>(w, pre.iter().cloned().chain(std::iter::repeat_n(good[g].clone(), n)).chain([b.clone()]), mask);
                    }
                }));
            }
        }
    }
    t
}

fn good_without_end<F: Format>(family: &str, table: Vec<Vec<F::Stmt>>, pre: Vec<F::Stmt>, mask: u32) -> Vec<Task>
where
    F::Stmt: Send + Sync,
{
    let table = Arc::new(table);
    (0..table[0].len())
        .map(|a| {
            let (table, pre) = (table.clone(), pre.clone());
            task(family, move |w| {
                for b in 0..table[1].len() {
                    for c in 0..table[2].len() {
                        let d: Vec<F::Stmt> = pre.iter().cloned().chain([table[0][a].clone(), table[1][b].clone(), table[2][c].clone()]).collect();
                        no_final_newline::<F>(w, &d, mask);
                    }
                }
            })
        })
        .collect()
}

fn two<F: Format>(family: &str, bad: Arc<Vec<F::Stmt>>, pre: Arc<Vec<F::Stmt>>, mask: u32) -> Vec<Task> {
    (0..bad.len())
        .map(|i| {
            let (bad, pre) = (bad.clone(), pre.clone());
            task(family, move |w| {
                for b in bad.iter() {
                    let d: Vec<F::Stmt> = pre.iter().cloned().chain([bad[i].clone(), b.clone()]).collect();
                    doc::<F>(w, &d, mask);
                }
            })
        })
        .collect()
}

/// A few bad lines of each sort, for sequences with good ones.
fn some<S: Clone>(v: &[S], step: usize) -> Vec<S> {
    v.iter().step_by(step).cloned().collect()
}

/// Numbers that are no integers, or none that fit.
const NOT_INTEGERS: [&str; 9] = ["1.5", "1.0", "1.", ".5", "1e0", "1E2", "2147483648", "-2147483649", "99999999999"];

/// Each number of the statement (`@` marks those which have to be integers) replaced by everything that is no number,
/// and the statement with a word more.
fn wrong_arguments(bases: &[&str]) -> Vec<String> {
    let mut r = vec![];
    for b in bases {
        let parts: Vec<&str> = b.split('$').collect();
        let good: Vec<&str> = parts[1..].iter().map(|x| x.split_once(['~', '@']).unwrap().0).collect();
        let all = |by: &dyn Fn(usize) -> String| {
            let mut t = parts[0].to_string();
            for (i, x) in parts[1..].iter().enumerate() {
                t += &by(i);
                t += x.split_once(['~', '@']).unwrap().1;
            }
            t
        };
        for i in 0..good.len() {
            let integer = parts[i + 1].starts_with(&format!("{}@", good[i]));
            for x in NOT_NUMBERS.iter().chain(NOT_INTEGERS.iter().filter(|_| integer)) {
                r.push(all(&|k| if k == i { x.to_string() } else { good[k].to_string() }));
                // With a fraction and with a sign everywhere else.
                if !integer {
                    r.push(all(&|k| if k == i { x.to_string() } else { format!("{k}.25") }));
                    r.push(all(&|k| if k == i { x.to_string() } else { format!("-{k}e-1") }));
                }
            }
        }
        // Surplus words. A map with a file may have options behind it, but no further word.
        for x in ["1", "1.5", "-1", "x", "on", "off", "1e5", ".", "-", "é", "nan"] {
            let full = all(&|k| good[k].to_string());
            let integers = b.contains('@') && !b.contains("~") && x.parse::<i32>().is_ok() && ["f", "l", "p"].contains(&&full[..1]);
            let open = full.starts_with("vt") && good.len() < 3 || full.starts_with("v ") && good.len() < 4 || full.starts_with("vn") && good.len() < 3;
            let open = open || full.contains("spectral") && good.is_empty() || full.contains("xyz") && good.len() < 3;
            if !integers && !(open && crate::text::is_literal(x)) {
                r.push(format!("{full} {x}"));
            }
        }
    }
    r
}

/// Each of the bad lines alone, and behind and before a statement of each kind.
fn among<F: Format>(family: &str, bad: Vec<F::Stmt>, kinds: Vec<F::Stmt>, pre: Vec<F::Stmt>, mask: u32) -> Vec<Task> {
    bad.chunks(100)
        .map(|c| {
            let (c, kinds, pre) = (c.to_vec(), kinds.clone(), pre.clone());
            task(family, move |w| {
                for b in &c {
                    let d = [&pre[..], std::slice::from_ref(b)].concat();
                    doc::<F>(w, &d, mask);
                    no_final_newline::<F>(w, &d, mask);
                    for k in &kinds {
                        doc::<F>(w, &[&pre[..], &[k.clone(), b.clone()]].concat(), mask);
                        doc::<F>(w, &[&pre[..], &[b.clone(), k.clone()]].concat(), mask);
                    }
                    if w.stopped() {
                        return;
                    }
                }
            })
        })
        .collect()
}

pub fn p02(th: bool) -> Vec<Task> {
    let m = objm::ALL;
    let mut t = vec![];
    let wrong = wrong_arguments(&[
        "v $1~ $2~ $3~",
        "v $1~ $2~ $3~ $4~",
        "vn $1~ $2~ $3~",
        "vt $1~",
        "vt $1~ $2~",
        "vt $1~ $2~ $3~",
        "f $1@ $2@ $3@",
        "f $-1@ $-2@ $-3@ $-4@",
        "f $1@/$2@ $3@/$4@ $5@/$6@",
        "f $1@//$2@ $3@//$4@ $5@//$6@",
        "f $1@/$2@/$3@ $4@/$5@/$6@ $7@/$8@/$9@",
        "f $1@ $2@/$3@ $4@//$5@ $6@/$7@/$8@",
        "l $1@ $2@",
        "l $1@/$2@ $3@/$4@ $5@",
        "p $1@",
        "p $1@ $2@ $3@",
    ])
    .into_iter()
    .map(|x| objm::st(x, objm::Sem::Bad))
    .collect();
    t.extend(among::<Obj>("wrong-arguments", wrong, obj::kinds(1), vec![], m));
    let d = if th { 4 } else { 3 };
    t.extend(sequences("good-documents", Space::<Obj> { table: obj::table(d, obj::full), depth: d, mask: m, pre: vec![], post: vec![] }));
    let kd = if th { 5 } else { 4 };
    t.extend(sequences("good-documents-of-kinds", Space::<Obj> { table: obj::table(kd, obj::kinds), depth: kd, mask: m, pre: vec![], post: vec![] }));
    t.extend(good_without_end::<Obj>("no-final-line-end", obj::table(3, obj::full), vec![], m));
    let bad = Arc::new(bad_obj());
    let pre = Arc::new(vec![]);
    let kinds = Arc::new(obj::table(3, obj::kinds));
    t.extend(everywhere::<Obj>("bad-line-anywhere", bad.clone(), kinds.clone(), pre.clone(), if th { 2 } else { 1 }, m));
    t.extend(everywhere::<Obj>("bad-line-anywhere-deeper", Arc::new(some(&bad, if th { 11 } else { 13 })), kinds, pre.clone(), if th { 3 } else { 2 }, m));
    t.extend(two::<Obj>("two-bad-lines", bad.clone(), pre.clone(), m));
    t.extend(deep::<Obj>("bad-line-in-long-document", Arc::new(some(&bad, if th { 1 } else { 3 })), Arc::new(obj::kinds(1)), pre, m, th));
    t.extend(crate::grammar::obj_lines(th));
    t.extend(obj::pump("long-good-documents", Arc::new(obj::kinds(1)), Arc::new(obj::kinds(2)), m, th));
    t
}

pub fn p03(th: bool) -> Vec<Task> {
    let m = mtlm::ALL;
    let mut t = vec![];
    let mut bases: Vec<String> = vec![];
    for c in mtlm::COLORS {
        bases.extend(["$1~ $2~ $3~", "xyz $1~", "xyz $1~ $2~", "xyz $1~ $2~ $3~", "spectral a.rfl $2~"].map(|x| format!("{c} {x}")));
    }
    bases.extend(mtlm::SCALARS.map(|s| format!("{s} $1~")));
    bases.extend(["d $1~", "d -halo $1~", "illum $1@"].map(String::from));
    for m in mtlm::MAPS.into_iter().chain(["map_disp"]) {
        for o in ["-mm $1~ $2~", "-o $1~", "-o $1~ $2~", "-o $1~ $2~ $3~", "-s $1~ $2~ $3~", "-t $1~ $2~ $3~", "-bm $1~", "-boost $1~", "-texres $512@"] {
            bases.push(format!("{m} {o} f.png"));
            bases.push(format!("{m} -clamp on {o} -blendu off f.png"));
        }
    }
    let wrong = wrong_arguments(&bases.iter().map(|x| &x[..]).collect::<Vec<_>>());
    let wrong = wrong.into_iter().map(|x| mtlm::st(x, mtlm::Sem::Bad)).collect();
    t.extend(among::<Mtl>("wrong-arguments", wrong, mtl::kinds(1).into_iter().step_by(3).collect(), vec![mtl::new("first")], m));
    let d = if th { 4 } else { 3 };
    t.extend(sequences("good-documents", Space::<Mtl> { table: mtl::table(d, mtl::full), depth: d, mask: m, pre: vec![mtl::new("first")], post: vec![] }));
    t.extend(good_without_end::<Mtl>("no-final-line-end", mtl::table(3, mtl::full), vec![mtl::new("first")], m));
    let bad = Arc::new(bad_mtl());
    let first = Arc::new(vec![mtl::new("first")]);
    let kinds = Arc::new(mtl::table(3, mtl::kinds));
    t.extend(everywhere::<Mtl>("bad-line-anywhere", bad.clone(), kinds.clone(), first.clone(), if th { 2 } else { 1 }, m));
    t.extend(everywhere::<Mtl>("bad-line-before-newmtl", bad.clone(), kinds.clone(), Arc::new(vec![]), 1, m));
    t.extend(everywhere::<Mtl>("bad-line-anywhere-deeper", Arc::new(some(&bad, if th { 19 } else { 31 })), kinds, first.clone(), if th { 3 } else { 2 }, m));
    t.extend(two::<Mtl>("two-bad-lines", Arc::new(some(&bad, if th { 1 } else { 2 })), first.clone(), m));
    t.extend(deep::<Mtl>("bad-line-in-long-document", Arc::new(some(&bad, if th { 1 } else { 5 })), Arc::new(mtl::kinds(1)), first.clone(), m, th));
    t.extend(crate::grammar::mtl_lines(th));
    t.extend(mtl::pump("long-good-documents", first.to_vec(), Arc::new(mtl::kinds(1)), Arc::new(mtl::kinds(2)), m, th));
    t
}
