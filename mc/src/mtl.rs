//! Statement alphabets and explorations of the MTL properties.

use crate::explore::*;
use crate::mtlm::{self, color_corrected, st, ColorM, MapM, Opt, Sem, Stmt, BUMP, COLORS, MAPS, REFL, SCALARS};
use crate::obj::{fl, onoff, power, VALUES};
use crate::run::*;
use std::sync::Arc;

pub fn new(name: &str) -> Stmt {
    st(format!("newmtl {name}"), Sem::New(name.into()))
}
pub fn rgb(i: usize, c: &[&str]) -> Stmt {
    st(format!("{} {}", COLORS[i], c.join(" ")), Sem::Color(i, ColorM::Rgb(fl(c[0]), fl(c[1]), fl(c[2]))))
}
/// One to three components.
pub fn xyz(i: usize, c: &[&str]) -> Stmt {
    let x = fl(c[0]);
    let (y, z) = (c.get(1).map_or(x, |s| fl(s)), c.get(2).map_or(x, |s| fl(s)));
    st(format!("{} xyz {}", COLORS[i], c.join(" ")), Sem::Color(i, ColorM::Xyz(x, y, z)))
}
pub fn spectral(i: usize, file: &str, factor: Option<&str>) -> Stmt {
    let t = factor.map(|x| format!(" {x}")).unwrap_or_default();
    st(format!("{} spectral {file}{t}", COLORS[i]), Sem::Color(i, ColorM::Spectral(file.into(), factor.map_or(1.0, fl))))
}
pub fn scalar(i: usize, x: &str) -> Stmt {
    st(format!("{} {x}", SCALARS[i]), Sem::Scalar(i, fl(x)))
}
pub fn alpha(x: &str) -> Stmt {
    st(format!("d {x}"), Sem::Alpha(fl(x)))
}
pub fn halo(x: &str) -> Stmt {
    st(format!("d -halo {x}"), Sem::Halo(fl(x)))
}
pub fn illum(n: u32) -> Stmt {
    st(format!("illum {n}"), Sem::Illum(n))
}
pub fn aat(b: bool) -> Stmt {
    st(format!("map_aat {}", onoff(b)), Sem::Aat(b))
}
pub fn nop(t: &str) -> Stmt {
    st(t, Sem::Nop)
}

/// An option as written, and what it means.
pub type O = (String, Opt);

pub fn bool_opt(name: &str, b: bool) -> O {
    let o = match name {
        "-blendu" => Opt::BlendU(b),
        "-blendv" => Opt::BlendV(b),
        "-cc" => Opt::Cc(b),
        "-clamp" => Opt::Clamp(b),
        _ => unreachable!(),
    };
    (format!("{name} {}", onoff(b)), o)
}
pub fn imf(c: &str) -> O {
    (format!("-imfchan {c}"), Opt::Imf(c.into()))
}
pub fn mm(a: &str, b: &str) -> O {
    (format!("-mm {a} {b}"), Opt::Mm(fl(a), fl(b)))
}
pub fn ost(which: char, c: &[&str]) -> O {
    let t = (fl(c[0]), c.get(1).map(|x| fl(x)), c.get(2).map(|x| fl(x)));
    let o = match which {
        'o' => Opt::O(t),
        's' => Opt::S(t),
        't' => Opt::T(t),
        _ => unreachable!(),
    };
    (format!("-{which} {}", c.join(" ")), o)
}
pub fn texres(n: i32) -> O {
    (format!("-texres {n}"), Opt::TexRes(n))
}
pub fn boost(x: &str) -> O {
    (format!("-boost {x}"), Opt::Boost)
}
pub fn bm(x: &str) -> O {
    (format!("-bm {x}"), Opt::Bm(fl(x)))
}
pub fn ty(x: &str) -> O {
    (format!("-type {x}"), Opt::Type(x.into()))
}

/// A map statement with the file name after `at` of the options.
pub fn map_at(map: usize, keyword: &str, file: &str, opts: &[O], at: usize) -> Stmt {
    let mut words: Vec<&str> = opts.iter().map(|o| &o.0[..]).collect();
    words.insert(at, file);
    let os: Vec<Opt> = opts.iter().map(|o| o.1.clone()).collect();
    st(format!("{keyword} {}", words.join(" ")), Sem::Map(map, MapM::new(map, file, &os)))
}
pub fn map(map: usize, file: &str, opts: &[O]) -> Stmt {
    map_at(map, MAPS[map], file, opts, opts.len())
}

fn n(k: usize, i: usize) -> String {
    format!("{k}.{i}5")
}

/// Each option once, with values that differ from place to place.
pub fn options(k: usize) -> Vec<O> {
    let (a, b, c) = (n(k, 1), n(k, 2), n(k, 3));
    vec![
        bool_opt("-blendu", k % 2 == 0),
        bool_opt("-blendv", k % 2 == 0),
        bool_opt("-cc", k % 2 == 0),
        bool_opt("-clamp", k % 2 == 0),
        imf(["r", "g", "b", "m", "l", "z"][k % 6]),
        mm(&a, &b),
        ost('o', &[&a, &b, &c]),
        ost('o', &[&b]),
        ost('s', &[&a, &b, &c]),
        ost('s', &[&b, &c]),
        ost('t', &[&a, &b, &c]),
        ost('t', &[&c]),
        texres(k as i32 * 256),
        boost(&a),
        bm(&a),
        ty(["sphere", "cube_top", "cube_left"][k % 3]),
    ]
}

pub fn colors(k: usize, i: usize) -> Vec<Stmt> {
    let (a, b, c) = (n(k, 1), n(k, 2), n(k, 3));
    vec![
        rgb(i, &[&a, &b, &c]),
        xyz(i, &[&a, &b, &c]),
        xyz(i, &[&a, &b]),
        xyz(i, &[&a]),
        spectral(i, &format!("f{k}.rfl"), None),
        spectral(i, &format!("f{k}.rfl"), Some(&a)),
    ]
}

pub fn scalars(k: usize) -> Vec<Stmt> {
    let mut r: Vec<Stmt> = (0..4).map(|i| scalar(i, &n(k, i + 1))).collect();
    r.extend([alpha(&n(k, 5)), halo(&n(k, 6)), illum(k as u32), aat(true), aat(false)]);
    r
}

pub fn maps(k: usize) -> Vec<Stmt> {
    let o = options(k);
    (0..9)
        .flat_map(|i| {
            let extra = if i == BUMP { vec![o[14].clone()] } else if i == REFL { vec![o[15].clone()] } else { vec![] };
            let some = [vec![o[i % 4].clone(), o[5 + i % 7].clone()], extra].concat();
            [map(i, &format!("t{k}.png"), &[]), map(i, &format!("u{k}.png"), &some)]
        })
        .collect()
}

/// Every kind of statement, newmtl with fresh and with equal names.
pub fn full(k: usize) -> Vec<Stmt> {
    let mut r = vec![new(&format!("m{k}")), new("m")];
    r.extend((0..5).flat_map(|i| {
        let c = colors(k, i);
        [c[i % 2].clone(), c[2 + i % 4].clone()]
    }));
    r.extend(scalars(k));
    r.extend(maps(k));
    r.push(nop("# newmtl x"));
    r
}

/// One statement for each attribute.
pub fn kinds(k: usize) -> Vec<Stmt> {
    let mut r = vec![new(&format!("m{k}"))];
    r.extend((0..5).map(|i| colors(k, i)[i].clone()));
    r.extend(scalars(k).into_iter().take(8));
    r.extend((0..9).map(|i| maps(k)[2 * i + 1].clone()));
    r
}

/// Statements of every kind with values of every sort: zero, one, equal, negative and large ones, names that
/// could mean something, every option by itself.
pub fn vocabulary() -> Vec<Stmt> {
    let mut r = vec![];
    for n in ["a", "b", "A", "ab", "a_b", "default", "None", "none", "off", "on", "1", "0", "Material", "Material.001", "(null)", "é", "a b", "m"] {
        r.push(new(n));
    }
    for i in 0..5 {
        for x in ["0", "1", "-1", "0.5", "1000"] {
            r.push(rgb(i, &[x, x, x]));
        }
        r.extend([rgb(i, &["0", "0", "1"]), rgb(i, &["1", "0", "0"]), xyz(i, &["0"]), xyz(i, &["1", "0"]), xyz(i, &["0", "1"]), xyz(i, &["1", "1", "1"]), xyz(i, &["0.5", "1", "2"])]);
        r.extend([rgb(i, &["0.800000", "0.799999", "0.8"]), rgb(i, &["1.000000", "1.000000", "1.000000"]), rgb(i, &["0.2", "0.4", "0.6"]), rgb(i, &["255", "128", "0"])]);
        r.extend([spectral(i, "a", None), spectral(i, "a", Some("0")), spectral(i, "a", Some("1")), spectral(i, "A.rfl", Some("-1")), spectral(i, "on", None)]);
    }
    for x in ["0", "1", "-1", "0.5", "2", "60", "1000", "1001", "1e30"] {
        r.extend((0..4).map(|i| scalar(i, x)));
        r.extend([alpha(x), halo(x)]);
    }
    r.extend([scalar(0, "225.000000"), scalar(0, "96.078431"), scalar(2, "1.450000"), scalar(3, "1.450000"), scalar(1, "0.000000"), alpha("1.000000"), alpha("0.999999"), halo("0.000000")]);
    r.extend((0..12).chain([255, 256, 65536, 2147483647]).map(illum));
    r.extend([aat(true), aat(false), nop(""), nop("# newmtl x")]);
    let opts = vec![
        vec![bool_opt("-blendu", true)],
        vec![bool_opt("-blendu", false)],
        vec![bool_opt("-blendv", true)],
        vec![bool_opt("-blendv", false)],
        vec![bool_opt("-cc", true)],
        vec![bool_opt("-cc", false)],
        vec![bool_opt("-clamp", true)],
        vec![bool_opt("-clamp", false)],
        vec![imf("r")],
        vec![imf("l")],
        vec![imf("x")],
        vec![mm("0", "1")],
        vec![mm("0", "0")],
        vec![ost('o', &["0", "0", "0"])],
        vec![ost('o', &["1"])],
        vec![ost('s', &["1", "1", "1"])],
        vec![ost('s', &["0", "1"])],
        vec![ost('t', &["0", "0", "0"])],
        vec![ost('t', &["1", "2", "3"])],
        vec![texres(0)],
        vec![texres(512)],
        vec![texres(-1)],
        vec![boost("0")],
        vec![bm("0")],
        vec![bm("1")],
        vec![bm("-1")],
        vec![ty("sphere")],
        vec![ty("Sphere")],
        vec![ty("x")],
        vec![bm("2"), ty("cube_top"), bool_opt("-clamp", true), mm("0", "2"), ost('o', &["1", "2"]), texres(7), imf("m")],
    ];
    for i in 0..9 {
        r.extend(["a", "b.png", "A", "on", "off", "none", "./a.png", "r"].map(|n| map(i, n, &[])));
        r.extend(opts.iter().map(|o| map(i, "a", o)));
    }
    r
}

/// Every two statements of the vocabulary one after the other, in the middle of a document.
pub fn vocabulary_pairs(mask: u32, th: bool) -> Vec<Task> {
    let mut pres = vec![vec![new("a")]];
    // Four statements of any kinds.
    let d = if th { 5 } else { 4 };
    let four = |table: Vec<Vec<Stmt>>| Space::<Mtl> { table, depth: d, mask, pre: vec![new("a")], post: vec![] };
    let mut t = sequences("four-kinds", four(table(d, kinds)));
    t.extend(sequences("four-kinds-equal-values", four(table(1, kinds))));
    if th {
        pres.push([vec![new("a")], kinds(1)[1..].to_vec()].concat());
        pres.push(vec![new("b"), map(0, "b.png", &[]), new("a"), rgb(0, &["1", "1", "1"])]);
    }
    for pre in pres {
        for post in [vec![], vec![new("z"), scalar(0, "1")]] {
            t.extend(sequences_by_first("vocabulary", Space::<Mtl> { table: vec![vocabulary()], depth: 2, mask, pre: pre.clone(), post }));
        }
        if th {
            let some = |k: usize| vocabulary().into_iter().skip(k).step_by(7).collect();
            t.extend(sequences_by_first("vocabulary", Space::<Mtl> { table: (0..3).map(some).collect(), depth: 3, mask, pre, post: vec![] }));
        }
    }
    t
}

pub fn table(depth: usize, f: impl Fn(usize) -> Vec<Stmt>) -> Vec<Vec<Stmt>> {
    (1..=depth.max(1)).map(f).collect()
}

fn space(table: Vec<Vec<Stmt>>, depth: usize, mask: u32, pre: Vec<Stmt>) -> Space<Mtl> {
    Space { table, depth, mask, pre, post: vec![] }
}

pub fn pump(family: &str, pre: Vec<Stmt>, alphabet: Arc<Vec<Stmt>>, tails: Arc<Vec<Stmt>>, mask: u32, thorough: bool) -> Vec<Task> {
    let mut tasks = vec![];
    for i in 0..alphabet.len() {
        for n in lengths(thorough) {
            let (pre, alphabet, tails) = (pre.clone(), alphabet.clone(), tails.clone());
            tasks.push(task(family, move |w| {
                let tails: &[Stmt] = if n <= 40 { &tails } else { &tails[..1] };
                for t in tails {
                    if w.stopped() {
                        return;
                    }
                    long_doc::<Mtl>(w, pre.iter().cloned().chain(std::iter::repeat_n(alphabet[i].clone(), n)).chain([t.clone()]), mask);
                }
            }));
        }
    }
    tasks
}

pub fn pump_distinct(family: &str, gen: fn(usize) -> Stmt, tail: Stmt, mask: u32, lens: &[usize]) -> Vec<Task> {
    lens.iter()
        .map(|&n| {
            let tail = tail.clone();
            task(family, move |w| long_doc::<Mtl>(w, [new("first")].into_iter().chain((1..=n).map(gen)).chain([tail.clone()]), mask))
        })
        .collect()
}

pub fn p15(th: bool) -> Vec<Task> {
    let m = mtlm::ALL;
    let mut t = vec![];
    // Everything before, between and after newmtl, the missing newmtl included.
    t.extend(sequences("all-kinds", space(table(4, full), if th { 4 } else { 3 }, m, vec![])));
    let d = if th { 5 } else { 4 };
    t.extend(sequences("all-kinds-in-a-material", space(table(d, kinds), d, m, vec![new("first")])));
    let few = |k: usize| vec![new("a"), new("A"), new("b"), rgb(1, &[&n(k, 1), "0", "1"]), scalar(0, &n(k, 2)), maps(k)[2].clone(), illum(k as u32)];
    let d = if th { 8 } else { 7 };
    t.extend(sequences("materials", space(table(d, few), d, m, vec![])));
    t.extend(sequences("materials-equal", space(table(1, few), d - 1, m, vec![])));
    t.extend(pump("repeated", vec![new("first")], Arc::new(kinds(1)), Arc::new(kinds(2)), m, th));
    t.extend(pump("repeated-in-second", vec![new("first"), colors(9, 0)[0].clone(), new("first")], Arc::new(kinds(1)), Arc::new(vec![new("z")]), m, th));
    let lens = lengths(th);
    t.extend(pump_distinct("repeated-distinct", |k| if k % 3 == 0 { new(&format!("n{k}")) } else { kinds(k)[k % 23].clone() }, new("z"), m, &lens));
    t.extend(pump_distinct("names-distinct", |k| new(&format!("n{k}")), illum(1), m, &lens));
    // A statement of each kind before the first newmtl, after any number of empty lines.
    t.push(task("no-newmtl", move |w| {
        for s in full(1) {
            for k in 0..40 {
                let d: Vec<Stmt> = (0..k).map(|i| nop(["", "# c", "  "][i % 3])).chain([s.clone(), new("a"), s.clone()]).collect();
                doc::<Mtl>(w, &d, m);
                doc::<Mtl>(w, &d[..d.len() - 2], m);
            }
        }
    }));

    t.extend(vocabulary_pairs(m, th));
    t
}

pub fn p16(th: bool) -> Vec<Task> {
    let m = mtlm::COLS;
    let mut t = vec![];
    let all = |k: usize| (0..5).flat_map(|i| colors(k, i)).collect::<Vec<_>>();
    let d = if th { 4 } else { 3 };
    t.extend(sequences("colour-order", space(table(d, all), d, m, vec![new("a")])));
    t.extend(sequences("colour-order-equal-values", space(table(1, all), d, m, vec![new("a")])));
    // The same few colours again and again.
    let few = |_: usize| (0..5).flat_map(|i| [rgb(i, &["1", "1", "1"]), rgb(i, &["0.5", "0.5", "0.5"])]).collect::<Vec<_>>();
    t.extend(sequences("few-colours", space(table(1, few), if th { 6 } else { 5 }, m, vec![new("a")])));
    let few = |_: usize| (0..5).flat_map(|i| [rgb(i, &["1", "1", "1"]), xyz(i, &["1"]), spectral(i, "a.rfl", Some("1"))]).collect::<Vec<_>>();
    t.extend(sequences("few-colours", space(table(1, few), if th { 5 } else { 4 }, m, vec![new("a")])));
    let d = if th { 4 } else { 3 };
    t.extend(sequences("among-all-kinds", space(table(d, full), d, m, vec![new("a")])));
    for i in 0..5 {
        for &a in &VALUES {
            t.push(task("component-values", move |w| {
                for pre in [vec![new("a")], [vec![new("a")], all(9)].concat()] {
                    let run = |w: &mut W, s: Stmt| doc::<Mtl>(w, &[&pre[..], &[s]].concat(), m);
                    run(w, xyz(i, &[a]));
                    run(w, spectral(i, "x.rfl", Some(a)));
                    for &b in &VALUES {
                        run(w, xyz(i, &[a, b]));
                        for &c in &VALUES {
                            run(w, xyz(i, &[a, b, c]));
                            run(w, rgb(i, &[a, b, c]));
                        }
                    }
                }
            }));
        }
    }
    let alphabet: Vec<Stmt> = (0..5).flat_map(|i| [colors(1, i)[0].clone(), colors(1, i)[3].clone(), colors(1, i)[4].clone()]).collect();
    t.extend(pump("repeated", vec![new("a")], Arc::new(alphabet), Arc::new(all(2)), m, th));
    t.extend(pump("among-repeated", vec![new("a"), rgb(0, &["1", "2", "3"])], Arc::new(kinds(1)), Arc::new(vec![xyz(3, &["4"])]), m, th));

    t.extend(vocabulary_pairs(m, th));
    t
}

pub fn p17(th: bool) -> Vec<Task> {
    let m = mtlm::SCALS;
    let mut t = vec![];
    let d = if th { 6 } else { 5 };
    t.extend(sequences("scalar-order", space(table(d, scalars), d, m, vec![new("a")])));
    t.extend(sequences("scalar-order-equal-values", space(table(1, scalars), d, m, vec![new("a")])));
    let d = if th { 4 } else { 3 };
    t.extend(sequences("among-all-kinds", space(table(d, full), d, m, vec![new("a")])));
    t.push(task("values", move |w| {
        let mut vals: Vec<String> = VALUES.iter().map(|s| s.to_string()).collect();
        vals.extend((0..=1000).map(|i| i.to_string()));
        vals.extend((0..=100).map(|i| format!("{}.{:02}", i / 50, i)));
        let makes: Vec<fn(&str) -> Stmt> = vec![|x| scalar(0, x), |x| scalar(1, x), |x| scalar(2, x), |x| scalar(3, x), alpha, halo];
        for x in &vals {
            for mk in &makes {
                doc::<Mtl>(w, &[new("a"), mk(x)], m);
                for other in scalars(3) {
                    doc::<Mtl>(w, &[new("a"), other.clone(), mk(x)], m);
                    doc::<Mtl>(w, &[new("a"), mk(x), other], m);
                }
            }
        }
        for i in (0..=1100).chain([32767, 32768, 65535, 65536, 16777216, 16777217, i32::MAX as u32]) {
            doc::<Mtl>(w, &[new("a"), illum(i)], m);
            doc::<Mtl>(w, &[new("a"), illum(3), illum(i), illum(0)], m);
            doc::<Mtl>(w, &[new("a"), illum(0), alpha("1"), illum(i)], m);
        }
    }));
    t.extend(pump("repeated", vec![new("a")], Arc::new(scalars(1)), Arc::new(scalars(2)), m, th));
    t.extend(pump("among-repeated", vec![new("a"), halo("3")], Arc::new(kinds(1)), Arc::new(vec![scalar(2, "4")]), m, th));

    t.extend(vocabulary_pairs(m, th));
    t
}

/// An option whose repetition means its last value. (-bm and -type are not covered by that rule.)
fn single(opts: &[O]) -> bool {
    let count = |f: fn(&Opt) -> bool| opts.iter().filter(|o| f(&o.1)).count();
    count(|o| matches!(o, Opt::Bm(_))) <= 1 && count(|o| matches!(o, Opt::Type(_))) <= 1
}

/// All option lists up to a length on every kind of map, the file name at every place.
fn option_lists(family: &str, maps: &'static [(usize, &'static str)], menu: fn(usize) -> Vec<O>, len: usize, every_place: bool, mask: u32) -> Vec<Task> {
    let mut t = vec![];
    for &(mp, keyword) in maps {
        for first in 0..menu(1).len() {
            t.push(task(family, move |w| {
                for n in 0..len {
                    let menus: Vec<Vec<O>> = (1..=n + 1).map(menu).collect();
                    power(menus[0].len(), n, |c| {
                        let mut os = vec![menus[0][first].clone()];
                        os.extend(c.iter().enumerate().map(|(i, &x)| menus[i + 1][x].clone()));
                        if single(&os) {
                            let places = if every_place { 0..=os.len() } else { os.len()..=os.len() };
                            for at in places {
                                doc::<Mtl>(w, &[new("a"), map_at(mp, keyword, "f.png", &os, at)], mask);
                            }
                        }
                        !w.stopped()
                    });
                }
            }));
        }
    }
    t
}

const ALL_MAPS: [(usize, &str); 10] = [
    (0, "map_Ka"),
    (1, "map_Kd"),
    (2, "map_Ks"),
    (3, "map_Ns"),
    (4, "map_d"),
    (5, "disp"),
    (5, "map_disp"),
    (6, "decal"),
    (7, "bump"),
    (8, "refl"),
];

fn short_options(k: usize) -> Vec<O> {
    let o = options(k);
    // Leave out -bm and -type, and the second forms of -o, -s, -t.
    [0, 1, 2, 3, 4, 5, 6, 9, 11, 12, 13].iter().map(|&i| o[i].clone()).collect()
}

/// Map statements of one file name (and of two) with different options: nothing belongs to the file.
fn same_files(m: u32) -> Vec<Task> {
    (0..9usize)
        .map(|first| {
            task("same-files", move |w| {
                // No option, each of them, all of them.
                let choices = |k: usize| {
                    let o = options(k);
                    let mut r = vec![vec![]];
                    r.extend(o.iter().map(|x| vec![x.clone()]));
                    r.push(o);
                    // What means the same as nothing, or is below it; alike in all of them.
                    r.extend([bm("-1"), bm("0"), bm("1"), ost('o', &["0", "0", "0"]), ost('s', &["1"]), mm("0", "1"), bool_opt("-clamp", false)].map(|x| vec![x]));
                    r
                };
                let (a, b, c) = (choices(1), choices(2), choices(3));
                for second in 0..9 {
                    for x in &a {
                        for y in &b {
                            for between in [false, true] {
                                let mut l = vec![new("a"), map(first, "f.png", x)];
                                if between {
                                    l.push(new("b"));
                                }
                                l.push(map(second, "f.png", y));
                                doc::<Mtl>(w, &l, m);
                                if w.stopped() {
                                    return;
                                }
                                // And once more, with nothing, or another file meanwhile.
                                l.push(map(first, "f.png", &[]));
                                doc::<Mtl>(w, &l, m);
                                let n = l.len();
                                l.insert(n - 1, map(first, "g.png", &c[1]));
                                doc::<Mtl>(w, &l, m);
                            }
                        }
                    }
                }
            })
        })
        .collect()
}

pub fn p18(th: bool) -> Vec<Task> {
    let m = mtlm::MAPBITS;
    let mut t = same_files(m);
    t.extend(option_lists("options", &ALL_MAPS, options, if th { 4 } else { 3 }, true, m));
    t.extend(option_lists("options-deep", &ALL_MAPS, short_options, if th { 5 } else { 4 }, false, m));
    // All options at once, rotated and reversed; every option repeated many times.
    t.push(task("all-options", move |w| {
        for (mp, keyword) in ALL_MAPS {
            for i in 0..16 {
                for rev in [false, true] {
                    let mut os = options(2);
                    os.rotate_left(i);
                    if rev {
                        os.reverse();
                    }
                    for at in 0..=os.len() {
                        doc::<Mtl>(w, &[new("a"), map_at(mp, keyword, "f.png", &os, at)], m);
                    }
                }
            }
            for k in (2..=40).chain([64, 65, 128, 129, 256, 257]) {
                for i in 0..14 {
                    let os: Vec<O> = (1..=k).map(|j| options(j)[i].clone()).collect();
                    doc::<Mtl>(w, &[new("a"), map(mp, "f.png", &os)], m);
                }
                let os: Vec<O> = (1..=k).flat_map(|j| options(j).into_iter().take(14)).collect();
                if k <= 20 {
                    doc::<Mtl>(w, &[new("a"), map(mp, "f.png", &os)], m);
                }
            }
        }
    }));
    // Values of options.
    for &(mp, _) in &ALL_MAPS {
        t.push(task("option-values", move |w| {
            let run = |w: &mut W, o: O| doc::<Mtl>(w, &[new("a"), map(mp, "f.png", &[o.clone()]), map_at(mp, MAPS[mp], "g.png", &[o], 0)], m);
            for &a in &VALUES {
                run(w, boost(a));
                for x in ['o', 's', 't'] {
                    run(w, ost(x, &[a]));
                    for &b in &VALUES {
                        run(w, ost(x, &[a, b]));
                        for &c in &VALUES {
                            run(w, ost(x, &[a, b, c]));
                        }
                    }
                }
                for &b in &VALUES {
                    run(w, mm(a, b));
                }
            }
            for b in [false, true] {
                for name in ["-blendu", "-blendv", "-cc", "-clamp"] {
                    run(w, bool_opt(name, b));
                }
            }
            for c in ["r", "g", "b", "m", "l", "z", "R"] {
                run(w, imf(c));
            }
            for r in (0..=1100).chain([2048, 4096, 8192, 32768, 65536, 16777217, i32::MAX, -1]) {
                run(w, texres(r));
            }
        }));
    }
    for first in '!'..='~' {
        t.push(task("channels", move |w| {
            let mut all = words(first);
            if first == 'a' {
                all.extend(["red", "green", "blue", "matte", "luma", "luminance", "alpha", "depth", "z_depth", "rgb", "rgba"].iter().flat_map(|x| spellings(x)));
            }
            for x in all {
                for mp in [3, 4, 5, 6, 7] {
                    doc::<Mtl>(w, &[new("a"), map(mp, "f.png", &[imf(&x), bool_opt("-clamp", true)])], m);
                }
            }
        }));
    }
    // Map statements after each other: no setting carries over, each goes to its own map.
    let pairs = |k: usize| {
        let o = options(k);
        let mut r = vec![];
        for mp in 0..9 {
            r.push(map(mp, &format!("f{k}.png"), &[]));
            r.push(map(mp, &format!("g{k}.png"), &o[..6]));
            r.push(map(mp, &format!("h{k}.png"), &o[6..]));
        }
        r.push(new(&format!("m{k}")));
        r
    };
    let d = if th { 4 } else { 3 };
    t.extend(sequences("map-order", space(table(d, pairs), d, m, vec![new("a")])));
    t.extend(sequences("map-order-equal-values", space(table(1, pairs), d, m, vec![new("a")])));
    let d = if th { 4 } else { 3 };
    t.extend(sequences("among-all-kinds", space(table(d, full), d, m, vec![new("a")])));
    t.extend(pump("repeated", vec![new("a")], Arc::new(maps(1)), Arc::new(maps(2)), m, th));

    t.extend(vocabulary_pairs(m, th));
    t
}

/// All plain words of one and two characters that begin with one.
fn words(first: char) -> Vec<String> {
    let mut r = vec![first.to_string()];
    r.extend(('!'..='~').map(|c| format!("{first}{c}")));
    r.retain(|x| crate::text::plain_word(x));
    r
}

/// A word in other cases and with other separators.
fn spellings(x: &str) -> Vec<String> {
    let title = |x: &str| x[..1].to_uppercase() + &x[1..];
    let all: Vec<String> = x.split('_').map(title).collect();
    vec![x.into(), x.to_uppercase(), title(x), all.join("_"), all.join(""), x.replace('_', "-"), x.replace('_', ""), format!("{x}1"), format!("{x}_"), format!("{x}.png"), format!("my{x}"), title(x).replace('e', "E")]
}

pub fn p19(th: bool) -> Vec<Task> {
    let m = mtlm::EXTRA;
    let mut t = same_files(m);
    // The whole of bump and refl, whatever else is there: the option combines with every other one.
    t.extend(option_lists("options", &[(7, "bump"), (8, "refl")], options, if th { 5 } else { 4 }, true, mtlm::MAPBITS | m));
    t.extend(option_lists("no-effect-elsewhere", &ALL_MAPS, options, if th { 4 } else { 3 }, true, m));
    t.push(task("values", move |w| {
        let mut nums: Vec<String> = VALUES.iter().map(|s| s.to_string()).collect();
        nums.extend((0..=300).map(|i| i.to_string()));
        nums.extend((0..=100).map(|i| format!("{}.{:02}", i / 30, i)));
        for x in &nums {
            for mp in 0..9 {
                doc::<Mtl>(w, &[new("a"), map(mp, "f.png", &[bm(x)]), map(7, "g.png", &[]), map(8, "g.png", &[])], m);
                doc::<Mtl>(w, &[new("a"), map(mp, "f.png", &[bm("7"), ty("cube_top")]), map_at(7, "bump", "g.png", &[bm(x)], 0)], m);
            }
        }
        for x in ["sphere", "cube_top", "cube_bottom", "cube_front", "cube_back", "cube_left", "cube_right"].iter().flat_map(|x| spellings(x)) {
            doc::<Mtl>(w, &[new("a"), map(8, "f.png", &[ty(&x)])], mtlm::MAPBITS | m);
            for o in options(1).into_iter().chain(options(2)).filter(|o| !o.0.starts_with("-type")) {
                doc::<Mtl>(w, &[new("a"), map_at(8, "refl", "f.png", &[o.clone(), ty(&x)], 0)], mtlm::MAPBITS | m);
                doc::<Mtl>(w, &[new("a"), map_at(8, "refl", "f.png", &[ty(&x), o], 2)], mtlm::MAPBITS | m);
            }
        }
        let types = ["sphere", "cube_top", "cube_bottom", "cube_front", "cube_back", "cube_left", "cube_right", "Sphere", "x", "a.b", "type", "bumpy", "f.png"];
        for x in types {
            for mp in 0..9 {
                doc::<Mtl>(w, &[new("a"), map(mp, "f.png", &[ty(x)]), map(7, "g.png", &[]), map(8, "g.png", &[])], mtlm::MAPBITS | m);
                doc::<Mtl>(w, &[new("a"), map(mp, "f.png", &[bm("7"), ty("other")]), map_at(8, "refl", "g.png", &[ty(x)], 0)], mtlm::MAPBITS | m);
            }
        }
    }));
    for first in '!'..='~' {
        t.push(task("types", move |w| {
            for x in words(first) {
                doc::<Mtl>(w, &[new("a"), map(8, "f.png", &[ty(&x), mm("1", "2")])], mtlm::MAPBITS | m);
            }
        }));
    }
    // Beside every other map with each option: the whole of all maps.
    for other in 0..9 {
        t.push(task("beside-other-maps", move |w| {
            let choices = |k: usize| {
                let o = options(k);
                let mut r = vec![vec![]];
                r.extend(o.iter().map(|x| vec![x.clone()]));
                r.push(o);
                r
            };
            for x in choices(1) {
                for (mp, own) in [(BUMP, bm("1")), (BUMP, bm("-3.5")), (REFL, ty("sphere")), (REFL, ty("t"))] {
                    for mut y in choices(2) {
                        // The same option twice is left open for these two.
                        y.retain(|o| o.0.split(' ').next() != own.0.split(' ').next());
                        for at in [0, y.len()] {
                            y.insert(at, own.clone());
                            let (a, b) = (map(other, "f.png", &x), map(mp, "g.png", &y));
                            y.remove(at);
                            doc::<Mtl>(w, &[new("a"), a.clone(), b.clone()], mtlm::MAPBITS | m);
                            doc::<Mtl>(w, &[new("a"), b.clone(), a.clone()], mtlm::MAPBITS | m);
                            doc::<Mtl>(w, &[new("a"), a.clone(), new("b"), b.clone(), a.clone()], mtlm::MAPBITS | m);
                            if w.stopped() {
                                return;
                            }
                        }
                    }
                }
            }
        }));
    }
    let pairs = |k: usize| {
        let o = options(k);
        let mut r = vec![];
        for mp in [0, 3, 5, BUMP, REFL] {
            r.push(map(mp, &format!("f{k}.png"), &[]));
            r.push(map(mp, &format!("g{k}.png"), &o[14..15]));
            r.push(map(mp, &format!("h{k}.png"), &o[15..]));
            r.push(map(mp, &format!("i{k}.png"), &[o[15].clone(), o[if color_corrected(mp) { 2 } else { 4 }].clone(), o[14].clone()]));
        }
        r.push(new(&format!("m{k}")));
        r
    };
    let d = if th { 5 } else { 4 };
    t.extend(sequences("map-order", space(table(d, pairs), d, m, vec![new("a")])));
    t.extend(sequences("map-order-equal-values", space(table(1, pairs), d - 1, m, vec![new("a")])));
    t.extend(sequences("among-all-kinds", space(table(3, full), if th { 4 } else { 3 }, m, vec![new("a")])));
    t.extend(pump("repeated", vec![new("a"), map(7, "x", &[bm("3")]), map(8, "y", &[ty("cube_top")])], Arc::new(kinds(1)), Arc::new(maps(2)), m, th));

    t.extend(vocabulary_pairs(m, th));
    t
}
