//! Which lines are statements: acceptors for the lines of both formats, and all lines over vocabularies of words,
//! of which those and only those have to load (P02, P03). Nothing is said about what they load as.

use crate::explore::*;
use crate::obj::power;
use crate::run::*;
use crate::text::{is_literal, plain_word};
use crate::{mtl, mtlm, objm};

fn number(x: &str) -> bool {
    is_literal(x)
}
fn int(x: &str) -> Option<i32> {
    x.parse().ok()
}
fn switch(x: &str) -> bool {
    x.eq_ignore_ascii_case("on") || x.eq_ignore_ascii_case("off")
}
/// `slots` is the largest number of indices.
fn reference(x: &str, slots: usize) -> bool {
    let p: Vec<&str> = x.split('/').collect();
    let index = |x: &str| int(x).is_some();
    match p[..] {
        [v] => index(v),
        [v, t] => slots >= 2 && index(v) && index(t),
        [v, "", n] => slots >= 3 && index(v) && index(n),
        [v, t, n] => slots >= 3 && index(v) && index(t) && index(n),
        _ => false,
    }
}

/// Whether a line of an OBJ document is one; None where the format leaves room.
pub fn obj_line(words: &[&str]) -> Option<bool> {
    let a = &words[1..];
    let numbers = |from: usize, to: usize| Some((from..=to).contains(&a.len()) && a.iter().all(|x| number(x)));
    let references = |slots: usize, least: usize| match a.iter().all(|x| reference(x, slots)) && !a.is_empty() {
        true if a.len() < least => None,
        ok => Some(ok),
    };
    // A trailing slash leaves an index out, and blanks around slashes are left open.
    let open = a.iter().any(|x| x.starts_with('/') || x.ends_with('/'));
    match &words[0].to_ascii_lowercase()[..] {
        "f" | "l" if open => None,
        "v" => numbers(3, 4),
        "vn" => numbers(3, 3),
        "vt" => numbers(1, 3),
        "f" => references(3, 3),
        "l" => references(2, 2),
        "p" => references(1, 1),
        "s" => Some(a.len() == 1 && (int(a[0]).is_some() || switch(a[0]))),
        "lod" => Some(a.len() == 1 && int(a[0]).is_some_and(|n| (0..=255).contains(&n))),
        "bevel" | "c_interp" | "d_interp" => Some(a.len() == 1 && switch(a[0])),
        "usemtl" | "usemap" | "mtllib" | "maplib" | "shadow_obj" | "trace_obj" | "o" => Some(!a.is_empty()),
        "g" => (!a.is_empty()).then_some(true),
        _ => Some(false),
    }
}

/// The options of a map and its file.
fn map_line(mut a: &[&str]) -> bool {
    let mut files = 0;
    // So many of the words are the arguments of the option.
    let count = |a: &[&str], max: usize| a.iter().take(max).take_while(|x| number(x)).count();
    while let Some((x, rest)) = a.split_first() {
        let n = match &x.to_ascii_lowercase()[..] {
            "-blendu" | "-blendv" | "-cc" | "-clamp" if rest.first().is_some_and(|x| switch(x)) => 1,
            "-mm" if count(rest, 2) == 2 => 2,
            "-o" | "-s" | "-t" if count(rest, 3) > 0 => count(rest, 3),
            "-bm" | "-boost" if count(rest, 1) == 1 => 1,
            "-texres" if rest.first().is_some_and(|x| int(x).is_some()) => 1,
            "-imfchan" | "-type" if rest.first().is_some_and(|x| plain_word(x)) => 1,
            _ if plain_word(x) => {
                files += 1;
                0
            },
            _ => return false,
        };
        a = &rest[n..];
    }
    files == 1
}

pub fn mtl_line(words: &[&str]) -> Option<bool> {
    let a = &words[1..];
    let number_at = |i: usize| a.get(i).is_some_and(|x| number(x));
    Some(match &words[0].to_ascii_lowercase()[..] {
        "newmtl" => !a.is_empty(),
        "ka" | "kd" | "ks" | "ke" | "tf" => match a.first() {
            Some(&"spectral") => a.get(1).is_some_and(|x| plain_word(x)) && (a.len() == 2 || a.len() == 3 && number_at(2)),
            Some(&"xyz") => (2..=4).contains(&a.len()) && a[1..].iter().all(|x| number(x)),
            _ => a.len() == 3 && a.iter().all(|x| number(x)),
        },
        "ns" | "ni" | "tr" | "sharpness" => a.len() == 1 && number_at(0),
        "d" => a.len() == 1 && number_at(0) || a.len() == 2 && a[0] == "-halo" && number_at(1),
        "illum" => match a {
            // From 2^31 on the format leaves room.
            [x] if x.parse::<u32>().is_ok() && int(x).is_none() => return None,
            [x] => int(x).is_some_and(|n| n >= 0),
            _ => false,
        },
        "map_aat" => a.len() == 1 && switch(a[0]),
        "map_ka" | "map_kd" | "map_ks" | "map_ns" | "map_d" | "map_disp" | "disp" | "decal" | "bump" | "refl" => map_line(a),
        _ => false,
    })
}

/// One line, alone.
fn line(w: &mut W, fmt: Fmt, words: &[&str]) {
    let text = words.join(" ");
    match fmt {
        Fmt::Obj => {
            if let Some(ok) = obj_line(words) {
                doc::<Obj>(w, &[objm::st(text, if ok { objm::Sem::Nop } else { objm::Sem::Bad })], 0);
            }
        },
        Fmt::Mtl => {
            if let Some(ok) = mtl_line(words) {
                let sem = match ok {
                    true if words[0] == "newmtl" => mtlm::Sem::New(words[1..].join(" ")),
                    true => mtlm::Sem::Nop,
                    false => mtlm::Sem::Bad,
                };
                doc::<Mtl>(w, &[mtl::new("a"), mtlm::st(text, sem)], 0);
            }
        },
    }
}

/// All lines of a keyword and up to `depth` words.
fn all_lines(family: &str, fmt: Fmt, keywords: &'static [&'static str], words: &'static [&'static str], depth: usize) -> Vec<Task> {
    let mut t = vec![];
    for &k in keywords {
        for first in 0..words.len() {
            t.push(task(family, move |w| {
                if first == 0 {
                    line(w, fmt, &[k]);
                }
                for n in 0..depth {
                    power(words.len(), n, |c| {
                        let mut l = vec![k, words[first]];
                        l.extend(c.iter().map(|&i| words[i]));
                        line(w, fmt, &l);
                        !w.stopped()
                    });
                }
            }));
        }
    }
    t
}

/// Integers around the ends of their ranges, and those that are in range again in fewer bits.
fn integers() -> Vec<String> {
    let mut r: Vec<i128> = vec![];
    for b in [7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100] {
        for d in [-1, 0, 1, 2, 5, 100, 200] {
            r.extend([(1i128 << b) + d, -(1i128 << b) + d]);
        }
    }
    r.extend([-2, -1, 0, 1, 99, 100, 101, 300, 999, 1000, 100_000, 10_000_000_000]);
    r.sort();
    r.dedup();
    let whole = ["1.0", "2.", "0.0", ".0", "-1.0", "+1.0", "1e0", "1e1", "10e-1", "1E2", "255.0", "256.0", "1.50", "512.0", "2147483647.0"];
    r.iter().map(|x| x.to_string()).chain(whole.map(String::from)).collect()
}

fn integer_lines(fmt: Fmt) -> Task {
    task("integers", move |w| {
        let forms: &[&str] = match fmt {
            Fmt::Obj => &[
                "lod @", "s @", "p @", "p 1 @", "l @ 1", "l 1 @", "l 1/@ 2", "l 1 2/@", "f @ 1 2", "f 1 2 @", "f 1/@ 2/1 3/1", "f 1/1 2/1 3/@", "f 1//@ 2//1 3//1", "f 1//1 2//1 3//@", "f 1/1/@ 2/1/1 3/1/1",
                "f 1/@/1 2/1/1 3/1/1", "f @/1/1 2/1/1 3/1/1", "f 1 2 3 4 @", "v @ 1 2", "vt @", "vn 1 2 @",
            ],
            Fmt::Mtl => &["illum @", "map_Kd -texres @ f.png", "refl f.png -texres @", "bump -mm 1 2 -texres @ f.png", "Ns @", "map_Kd -o @ f.png", "d @", "Kd 1 @ 2"],
        };
        for f in forms {
            for i in integers() {
                let text = f.replace('@', &i);
                line(w, fmt, &text.split(' ').collect::<Vec<_>>());
            }
        }
    })
}

/// Lines of many references, one of which is none.
fn one_of_many() -> Vec<Task> {
    let forms = [("f", "7"), ("f", "7/8"), ("f", "7//9"), ("f", "7/8/9"), ("l", "7"), ("l", "7/8"), ("p", "7")];
    let wrong = ["x", "1.5", "7/", "7//", "7/8/", "7/8/9/1", "7/x", "7/8/x", "7//x", "7x", "on", "v", "4294967297", "7/4294967297", "-", "7-8", "7,8", "é"];
    forms
        .into_iter()
        .map(|(k, good)| {
            task("one-of-many-references", move |w| {
                for n in (1..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257]) {
                    for x in wrong {
                        // A trailing slash leaves an index out.
                        if x.ends_with('/') && k != "p" {
                            continue;
                        }
                        for place in [0, 1, 2, n / 2, n - 1, n] {
                            let mut l = vec![good; n];
                            if place <= n {
                                l.insert(place, x);
                            }
                            l.insert(0, k);
                            line(w, Fmt::Obj, &l);
                        }
                    }
                }
            })
        })
        .collect()
}

/// Sequences of options on a map, one item of which is none or one too many, at each place.
fn option_items(th: bool) -> Vec<Task> {
    const GOOD: [&str; 9] = ["-blendu on", "-cc off", "-mm 1 2", "-o 1", "-s 1 2", "-t 1 2 3", "-texres 4", "-imfchan l", "-bm 5"];
    const MORE: [&str; 16] = [
        "", "f.png", "g.png", "1", "-mm 1", "-o", "-blendu", "-clamp 1", "-texres 1.5", "-imfchan", "-type", "-foo", "-halo 1", "xyz", "spectral", "-bm x",
    ];
    let depth = if th { 5 } else { 4 };
    let mut t = vec![];
    for m in ["map_Kd", "map_d", "bump", "refl"] {
        for extra in MORE {
            t.push(task("option-items", move |w| {
                for n in 0..=depth {
                    power(GOOD.len(), n, |c| {
                        for place in 0..=n {
                            for file in [0, n / 2, n] {
                                let mut items: Vec<&str> = c.iter().map(|&i| GOOD[i]).collect();
                                items.insert(file, "f.png");
                                if !extra.is_empty() {
                                    items.insert(place + (place > file) as usize, extra);
                                }
                                let text = format!("{m} {}", items.join(" "));
                                line(w, Fmt::Mtl, &text.split(' ').collect::<Vec<_>>());
                            }
                            if extra.is_empty() {
                                break;
                            }
                        }
                        !w.stopped()
                    });
                }
            }));
        }
    }
    t
}

const OBJ_KEYWORDS: [&str; 23] = [
    "v", "vn", "vt", "f", "l", "p", "s", "lod", "bevel", "c_interp", "d_interp", "usemtl", "usemap", "mtllib", "maplib", "shadow_obj", "trace_obj", "o", "g", "vp", "1", "x", "newmtl",
];
const OBJ_WORDS: [&str; 17] = ["/", "1/", "/1", "1", "-2", "2.5", "1e3", "x", "on", "Off", "1/2", "1//2", "1/2/3", "1/2/3/4", "300", "v", "1x"];

const MTL_KEYWORDS: [&str; 27] = [
    "newmtl", "Ka", "Kd", "Ks", "Ke", "Tf", "Ns", "Ni", "Tr", "sharpness", "d", "illum", "map_aat", "map_Ka", "map_Kd", "map_Ks", "map_Ns", "map_d", "map_disp", "disp", "decal", "bump", "refl", "v", "1", "-o", "spectral",
];
const MTL_WORDS: [&str; 20] =
    ["1/", "1", "2.5", "x", "on", "off", "spectral", "xyz", "-halo", "-blendu", "-clamp", "-mm", "-o", "-t", "-texres", "-imfchan", "-type", "-bm", "-foo", "1x"];
const SHORT_MTL_WORDS: [&str; 7] = ["1", "2.5", "x", "on", "-blendu", "-mm", "-o"];
const COLOR_WORDS: [&str; 8] = ["1", "2.5", "x", "spectral", "xyz", "-halo", "on", "1x"];

/// What is left of a word, or becomes of it, by one edit; its beginnings; and what follows each of them.
fn misspelt(word: &str) -> Vec<String> {
    let mut r = vec![];
    let n = word.len();
    for i in 0..=n {
        r.push(word[..i].to_string());
        r.push(word[i..].to_string());
        for c in ('a'..='z').chain(['_', '-', '1', 'K', '.', ':', '=', '(']) {
            r.push(format!("{}{c}{}", &word[..i], &word[i..]));
            if i < n {
                r.push(format!("{}{c}{}", &word[..i], &word[i + 1..]));
            }
        }
        if i < n {
            r.push(format!("{}{}", &word[..i], &word[i + 1..]));
        }
        if i + 1 < n {
            r.push(format!("{}{}{}{}", &word[..i], &word[i + 1..i + 2], &word[i..i + 1], &word[i + 2..]));
        }
    }
    r.extend([format!("{word}{word}"), format!("{word}s"), format!("#{word}"), word.replace('_', ""), word.replace('_', "-"), format!("map_{word}"), format!("use{word}"), format!("-{word}"), word.trim_start_matches('-').into()]);
    r.retain(|x| !x.is_empty() && !x.starts_with('#'));
    r.sort();
    r.dedup();
    r
}

/// All words of one and two characters, of three (four) letters, and misspelt keywords, as keywords and as options.
fn every_word(fmt: Fmt, th: bool) -> Vec<Task> {
    let obj = ["@", "@ 1", "@ 1 2", "@ 1 2 3", "@ a", "@ on", "@ 1/1 2/2 3/3", "bevel @", "c_interp @", "d_interp @", "s @", "lod @", "p @", "f 1 2 @", "f 1 2 3 @", "v 1 2 @", "v 1 2 3 @", "vt 1 @"];
    let mtl = [
        "@", "@ 1", "@ 1 2 3", "@ a", "@ on", "map_Kd @ f.png", "map_Kd @ 1 f.png", "refl @ on f.png", "bump f.png @ 1", "disp f.png @", "map_d @ x f.png", "Kd @ 1 2 3", "Ka @ a.rfl", "Ke @ a.rfl 1", "Tf @ 1", "d @ 1", "Ns @", "Ns 1 @", "illum @",
        "map_aat @", "map_Kd -blendu @ f.png", "disp f.png -clamp @", "map_Ks -cc @ f.png", "map_Ka f.png @", "Ks 1 1 @", "illum 2 @",
    ];
    let forms: &'static [&'static str] = match fmt {
        Fmt::Obj => Box::leak(Box::new(obj)),
        Fmt::Mtl => Box::leak(Box::new(mtl)),
    };
    let try_all = move |w: &mut W, x: &str| {
        for f in forms {
            let text = f.replace('@', x);
            line(w, fmt, &text.split(' ').collect::<Vec<_>>());
        }
    };
    let mut t = vec![];
    let letters: Vec<char> = ('a'..='z').chain(['_', '-', 'K']).collect();
    let chars: Vec<char> = ('!'..='~').chain(['é', 'λ', '“', '😀']).filter(|c| *c != '#').collect();
    for a in chars.clone() {
        let chars = chars.clone();
        t.push(task("every-word", move |w| {
            // A slash right before a word belongs to a reference.
            try_all(w, &a.to_string());
            for b in &chars {
                try_all(w, &format!("{a}{b}"));
            }
        }));
    }
    for &a in &letters {
        let letters = letters.clone();
        t.push(task("every-word", move |w| {
            for n in 2..=if th { 3 } else { 2 } {
                power(letters.len(), n, |c| {
                    let x: String = std::iter::once(a).chain(c.iter().map(|&i| letters[i])).collect();
                    try_all(w, &x);
                    if fmt == Fmt::Mtl && n == 2 {
                        try_all(w, &format!("-{x}"));
                        try_all(w, &format!("map_{x}"));
                    }
                    !w.stopped()
                });
            }
        }));
    }
    let words: Vec<&str> = match fmt {
        Fmt::Obj => OBJ_KEYWORDS.into_iter().chain(["on", "off"]).collect(),
        Fmt::Mtl => MTL_KEYWORDS.into_iter().chain(["xyz", "-halo", "-type", "-texres", "-blendu", "-blendv", "-boost", "-clamp", "-imfchan", "-bm", "-cc", "-mm", "-s", "-t", "on", "off"]).collect(),
    };
    for k in words {
        t.push(task("misspelt", move |w| {
            for x in misspelt(k) {
                try_all(w, &x);
            }
        }));
    }
    t
}

/// Lines of up to 6 (7) values of every sort, all equal but for two.
fn values(fmt: Fmt, th: bool) -> Vec<Task> {
    const VALUES: [&str; 16] = ["1", "0", "-1", "1.0", "0.0", "0.5", "-1.5", "1e0", "2.", ".5", "+1", "00", "255", "on", "off", "a"];
    let obj = OBJ_KEYWORDS.iter().map(|k| (k.to_string(), ""));
    let mtl = MTL_KEYWORDS.iter().copied().chain(["Ka spectral a.rfl", "Tf spectral", "Kd xyz", "d -halo"]).map(|k| (k.to_string(), ""));
    let option = ["map_Kd -o", "map_d -s", "bump -t", "refl -mm", "disp -texres", "bump -bm", "decal -boost", "map_Ka -clamp", "map_Ns -imfchan", "refl -type", "map_Ks f.png -o"].map(|k| (k.to_string(), "f.png"));
    let forms: Vec<(String, &str)> = match fmt {
        Fmt::Obj => obj.collect(),
        Fmt::Mtl => mtl.chain(option.clone()).chain(option.map(|(k, _)| (k, ""))).collect(),
    };
    let mut t = vec![];
    for (head, tail) in forms {
        t.push(task("values", move |w| {
            let head: Vec<&str> = head.split(' ').collect();
            for base in VALUES {
                for n in 1..=if th { 7 } else { 6 } {
                    for i in 0..n {
                        for j in i..n {
                            power(VALUES.len(), 2, |c| {
                                let mut a = vec![base; n];
                                (a[i], a[j]) = (VALUES[c[0]], VALUES[c[1]]);
                                let l: Vec<&str> = head.iter().copied().chain(a).chain((!tail.is_empty()).then_some(tail)).collect();
                                line(w, fmt, &l);
                                !w.stopped()
                            });
                        }
                    }
                }
            }
        }));
    }
    t
}

pub fn obj_lines(th: bool) -> Vec<Task> {
    let mut t = all_lines("all-lines", Fmt::Obj, &OBJ_KEYWORDS, &OBJ_WORDS, if th { 5 } else { 4 });
    if !th {
        t.extend(all_lines("all-lines", Fmt::Obj, &["v", "f"], &OBJ_WORDS, 5));
    }
    t.push(integer_lines(Fmt::Obj));
    t.extend(one_of_many());
    t.extend(every_word(Fmt::Obj, th));
    t.extend(values(Fmt::Obj, th));
    t
}

pub fn mtl_lines(th: bool) -> Vec<Task> {
    let mut t = all_lines("all-lines", Fmt::Mtl, &MTL_KEYWORDS, &MTL_WORDS, if th { 4 } else { 3 });
    t.extend(all_lines("all-lines", Fmt::Mtl, &["map_Kd"], &MTL_WORDS, if th { 5 } else { 4 }));
    t.extend(all_lines("all-lines-of-colours", Fmt::Mtl, &["Ka", "Kd", "Ks", "Ke", "Tf", "d", "Ns"], &COLOR_WORDS, 5));
    t.extend(all_lines("all-lines-of-maps", Fmt::Mtl, &["map_Kd", "map_Ns", "disp", "bump", "refl"], &SHORT_MTL_WORDS, if th { 7 } else { 6 }));
    t.push(integer_lines(Fmt::Mtl));
    t.extend(option_items(th));
    t.extend(every_word(Fmt::Mtl, th));
    t.extend(values(Fmt::Mtl, th));
    t
}
