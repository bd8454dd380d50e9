//! Reference state machine for MTL documents. It works on statements, never on text.

use crate::objm::{feq, oeq};
use nobject_rs::{ColorCorrectedMap, ColorType, DisolveType, Material, MaterialError, NonColorCorrectedMap, ObjError};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug)]
pub enum ColorM {
    Rgb(f32, f32, f32),
    Spectral(String, f32),
    Xyz(f32, f32, f32),
}

pub const COLORS: [&str; 5] = ["Ka", "Kd", "Ks", "Ke", "Tf"];
pub const SCALARS: [&str; 4] = ["Ns", "Tr", "sharpness", "Ni"];
/// map_disp is another name of disp.
pub const MAPS: [&str; 9] = ["map_Ka", "map_Kd", "map_Ks", "map_Ns", "map_d", "disp", "decal", "bump", "refl"];
pub const BUMP: usize = 7;
pub const REFL: usize = 8;

pub fn color_corrected(map: usize) -> bool {
    matches!(map, 0 | 1 | 2 | REFL)
}

pub type Triple = (f32, Option<f32>, Option<f32>);

#[derive(Clone, Debug, Default)]
pub struct MapM {
    pub file: String,
    pub blend_u: Option<bool>,
    pub blend_v: Option<bool>,
    pub clamp: Option<bool>,
    pub mm: Option<(f32, f32)>,
    pub o: Option<Triple>,
    pub s: Option<Triple>,
    pub t: Option<Triple>,
    pub texres: Option<i32>,
    /// Colour corrected maps only.
    pub cc: Option<bool>,
    /// Other maps only.
    pub imf: Option<String>,
    /// bump only
    pub bm: Option<f32>,
    /// refl only
    pub ty: String,
}

#[derive(Clone, Debug)]
pub enum Opt {
    BlendU(bool),
    BlendV(bool),
    Cc(bool),
    Clamp(bool),
    Imf(String),
    Mm(f32, f32),
    O(Triple),
    S(Triple),
    T(Triple),
    TexRes(i32),
    Boost,
    Bm(f32),
    Type(String),
}

impl MapM {
    /// The map of kind `map` with these options, applied in order.
    pub fn new(map: usize, file: &str, opts: &[Opt]) -> MapM {
        let mut m = MapM { file: file.to_string(), ..Default::default() };
        for o in opts {
            match o {
                Opt::BlendU(b) => m.blend_u = Some(*b),
                Opt::BlendV(b) => m.blend_v = Some(*b),
                Opt::Clamp(b) => m.clamp = Some(*b),
                Opt::Mm(a, b) => m.mm = Some((*a, *b)),
                Opt::O(x) => m.o = Some(*x),
                Opt::S(x) => m.s = Some(*x),
                Opt::T(x) => m.t = Some(*x),
                Opt::TexRes(i) => m.texres = Some(*i),
                Opt::Cc(b) => {
                    if color_corrected(map) {
                        m.cc = Some(*b)
                    }
                },
                Opt::Imf(c) => {
                    if !color_corrected(map) {
                        m.imf = Some(c.clone())
                    }
                },
                Opt::Bm(x) => {
                    if map == BUMP {
                        m.bm = Some(*x)
                    }
                },
                Opt::Type(t) => {
                    if map == REFL {
                        m.ty = t.clone()
                    }
                },
                Opt::Boost => {},
            }
        }
        m
    }
}

#[derive(Clone, Debug)]
pub enum Sem {
    New(String),
    Color(usize, ColorM),
    Scalar(usize, f32),
    Alpha(f32),
    Halo(f32),
    Illum(u32),
    Aat(bool),
    Map(usize, MapM),
    Nop,
    Bad,
}

#[derive(Clone, Debug)]
pub struct Stmt {
    pub text: String,
    pub sem: Sem,
}

pub fn st(text: impl Into<String>, sem: Sem) -> Stmt {
    Stmt { text: text.into(), sem }
}

#[derive(Clone, Debug, Default)]
pub struct MatM {
    pub name: String,
    pub colors: [Option<ColorM>; 5],
    pub scalars: [Option<f32>; 4],
    /// (halo, factor)
    pub dissolve: Option<(bool, f32)>,
    pub illum: Option<u32>,
    pub aat: Option<bool>,
    pub maps: [Option<MapM>; 9],
}

#[derive(Clone, Debug, Default)]
pub struct State {
    pub mats: Vec<MatM>,
    /// A statement came before the first newmtl.
    pub orphan: bool,
    pub bad: bool,
}

impl State {
    pub fn apply(&mut self, sem: &Sem) {
        match sem {
            Sem::New(n) => return self.mats.push(MatM { name: n.clone(), ..Default::default() }),
            Sem::Nop => return,
            Sem::Bad => return self.bad = true,
            _ => {},
        }
        let Some(m) = self.mats.last_mut() else {
            self.orphan = true;
            return;
        };
        match sem {
            Sem::Color(i, c) => m.colors[*i] = Some(c.clone()),
            Sem::Scalar(i, x) => m.scalars[*i] = Some(*x),
            Sem::Alpha(x) => m.dissolve = Some((false, *x)),
            Sem::Halo(x) => m.dissolve = Some((true, *x)),
            Sem::Illum(i) => m.illum = Some(*i),
            Sem::Aat(b) => m.aat = Some(*b),
            Sem::Map(i, x) => m.maps[*i] = Some(x.clone()),
            Sem::New(_) | Sem::Nop | Sem::Bad => unreachable!(),
        }
    }
    pub fn hash(&self) -> u64 {
        let mut h = crate::run::Fx::default();
        for m in &self.mats {
            hash_mat(m, &mut h);
        }
        (self.mats.len(), self.orphan, self.bad).hash(&mut h);
        h.finish()
    }
}

fn hash_f(x: f32, h: &mut crate::run::Fx) {
    h.write_u32(x.to_bits());
}
fn hash_of(x: Option<f32>, h: &mut crate::run::Fx) {
    match x {
        None => h.write_u64(1 << 40),
        Some(x) => hash_f(x, h),
    }
}
fn hash_t(x: &Option<Triple>, h: &mut crate::run::Fx) {
    match x {
        None => h.write_u64(1 << 41),
        Some((a, b, c)) => {
            hash_f(*a, h);
            hash_of(*b, h);
            hash_of(*c, h);
        },
    }
}
fn hash_mat(m: &MatM, h: &mut crate::run::Fx) {
    m.name.hash(h);
    for c in &m.colors {
        match c {
            None => h.write_u64(0),
            Some(ColorM::Rgb(a, b, c)) => {
                h.write_u64(1);
                hash_f(*a, h);
                hash_f(*b, h);
                hash_f(*c, h);
            },
            Some(ColorM::Xyz(a, b, c)) => {
                h.write_u64(2);
                hash_f(*a, h);
                hash_f(*b, h);
                hash_f(*c, h);
            },
            Some(ColorM::Spectral(s, f)) => {
                h.write_u64(3);
                s.hash(h);
                hash_f(*f, h);
            },
        }
    }
    for s in &m.scalars {
        hash_of(*s, h);
    }
    m.dissolve.map(|(b, f)| (b, f.to_bits())).hash(h);
    (m.illum, m.aat).hash(h);
    for x in &m.maps {
        match x {
            None => h.write_u64(0),
            Some(x) => {
                (&x.file, x.blend_u, x.blend_v, x.clamp, x.texres, x.cc, &x.imf, &x.ty).hash(h);
                x.mm.map(|(a, b)| (a.to_bits(), b.to_bits())).hash(h);
                hash_t(&x.o, h);
                hash_t(&x.s, h);
                hash_t(&x.t, h);
                hash_of(x.bm, h);
            },
        }
    }
}

// What to compare.
pub const NAMES: u32 = 1;
pub const COLS: u32 = 2;
pub const SCALS: u32 = 4;
pub const MAPBITS: u32 = 8;
/// -bm and -type
pub const EXTRA: u32 = 16;
pub const ALL: u32 = 31;

fn teq(a: &Option<Triple>, b: &Option<Triple>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => feq(a.0, b.0) && oeq(a.1, b.1) && oeq(a.2, b.2),
        _ => false,
    }
}

pub fn same_color(a: &Option<ColorM>, b: &Option<ColorM>) -> bool {
    use ColorM::*;
    match (a, b) {
        (None, None) => true,
        (Some(Rgb(a, b, c)), Some(Rgb(x, y, z))) | (Some(Xyz(a, b, c)), Some(Xyz(x, y, z))) => feq(*a, *x) && feq(*b, *y) && feq(*c, *z),
        (Some(Spectral(s, f)), Some(Spectral(t, g))) => s == t && feq(*f, *g),
        _ => false,
    }
}

fn same_map(a: &Option<MapM>, b: &Option<MapM>, mask: u32) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => {
            let m = mask & MAPBITS == 0
                || (a.file == b.file
                    && a.blend_u == b.blend_u
                    && a.blend_v == b.blend_v
                    && a.clamp == b.clamp
                    && a.cc == b.cc
                    && a.imf == b.imf
                    && a.texres == b.texres
                    && match (a.mm, b.mm) {
                        (None, None) => true,
                        (Some(a), Some(b)) => feq(a.0, b.0) && feq(a.1, b.1),
                        _ => false,
                    }
                    && teq(&a.o, &b.o)
                    && teq(&a.s, &b.s)
                    && teq(&a.t, &b.t));
            m && (mask & EXTRA == 0 || (oeq(a.bm, b.bm) && a.ty == b.ty))
        },
        _ => false,
    }
}

pub fn same_mat(a: &MatM, b: &MatM, mask: u32) -> bool {
    (mask & NAMES == 0 || a.name == b.name)
        && (mask & COLS == 0 || (0..5).all(|i| same_color(&a.colors[i], &b.colors[i])))
        && (mask & SCALS == 0
            || ((0..4).all(|i| oeq(a.scalars[i], b.scalars[i]))
                && a.illum == b.illum
                && a.aat == b.aat
                && match (a.dissolve, b.dissolve) {
                    (None, None) => true,
                    (Some((h, x)), Some((i, y))) => h == i && feq(x, y),
                    _ => false,
                }))
        && (mask & (MAPBITS | EXTRA) == 0 || (0..9).all(|i| same_map(&a.maps[i], &b.maps[i], mask)))
}

pub fn same(e: &State, m: &[Material], mask: u32) -> bool {
    e.mats.len() == m.len() && e.mats.iter().zip(m).all(|(a, b)| same_mat(a, &of_material(b), mask))
}

fn color(c: &Option<ColorType>) -> Option<ColorM> {
    c.as_ref().map(|c| match c {
        ColorType::Rgb(r, g, b) => ColorM::Rgb(*r, *g, *b),
        ColorType::Spectral(s, f) => ColorM::Spectral(s.clone(), *f),
        ColorType::CieXyz(x, y, z) => ColorM::Xyz(*x, *y, *z),
    })
}
fn cc(m: &ColorCorrectedMap) -> MapM {
    MapM {
        file: m.file_name.clone(),
        blend_u: m.blend_u,
        blend_v: m.blend_v,
        clamp: m.clamp,
        mm: m.texture_range,
        o: m.offset,
        s: m.scale,
        t: m.turbulance,
        texres: m.texture_res,
        cc: m.color_correct,
        ..Default::default()
    }
}
fn ncc(m: &NonColorCorrectedMap) -> MapM {
    MapM {
        file: m.file_name.clone(),
        blend_u: m.blend_u,
        blend_v: m.blend_v,
        clamp: m.clamp,
        mm: m.texture_range,
        o: m.offset,
        s: m.scale,
        t: m.turbulance,
        texres: m.texture_res,
        imf: m.imf_chan.clone(),
        ..Default::default()
    }
}

pub fn of_material(m: &Material) -> MatM {
    MatM {
        name: m.name.clone(),
        colors: [color(&m.ambient), color(&m.diffuse), color(&m.specular), color(&m.emissive_coefficient), color(&m.transmission_factor)],
        scalars: [m.specular_exponent, m.transparancy, m.sharpness, m.index_of_refraction],
        dissolve: m.disolve.map(|d| match d {
            DisolveType::Alpha(x) => (false, x),
            DisolveType::Halo(x) => (true, x),
        }),
        illum: m.illumination_mode,
        aat: m.anti_alias_map,
        maps: [
            m.texture_map_ambient.as_ref().map(cc),
            m.texture_map_diffuse.as_ref().map(cc),
            m.texture_map_specular.as_ref().map(cc),
            m.shininess_map.as_ref().map(ncc),
            m.disolve_map.as_ref().map(ncc),
            m.displacement_map.as_ref().map(ncc),
            m.decal.as_ref().map(ncc),
            // A bump or reflection map without settings shows as one without a file.
            m.bump_map.as_ref().map(|b| MapM { bm: b.bump_multiplier, ..b.map_settings.as_ref().map(ncc).unwrap_or_default() }),
            m.reflection_map.as_ref().map(|r| MapM { ty: r.reflection_type.clone(), ..r.map_settings.as_ref().map(cc).unwrap_or_default() }),
        ],
    }
}

pub fn of_materials(m: &[Material]) -> State {
    State { mats: m.iter().map(of_material).collect(), ..Default::default() }
}

pub fn is_new_material_error(e: &ObjError) -> bool {
    matches!(e, ObjError::MaterialParse(MaterialError::NewMaterial))
}

/// -0.0 and 0.0 are the same number.
fn norm(s: String) -> String {
    let mut out = String::new();
    let mut rest = &s[..];
    while let Some(i) = rest.find("-0.0") {
        let (a, b) = rest.split_at(i);
        out.push_str(a);
        if b[4..].starts_with(|c: char| c.is_ascii_digit() || c == 'e') {
            out.push('-');
        }
        out.push_str("0.0");
        rest = &b[4..];
    }
    out + rest
}

/// The parts `mask` of a state as text.
pub fn show(s: &State, mask: u32) -> String {
    use std::fmt::Write;
    let mut o = String::from("Ok\n");
    for m in &s.mats {
        writeln!(o, "material {}", if mask & NAMES != 0 { format!("{:?}", m.name) } else { String::new() }).unwrap();
        if mask & COLS != 0 {
            for (i, c) in m.colors.iter().enumerate() {
                if let Some(c) = c {
                    writeln!(o, "  {} {}", COLORS[i], norm(format!("{c:?}"))).unwrap();
                }
            }
        }
        if mask & SCALS != 0 {
            for (i, c) in m.scalars.iter().enumerate() {
                if let Some(c) = c {
                    writeln!(o, "  {} {}", SCALARS[i], norm(format!("{c:?}"))).unwrap();
                }
            }
            if let Some((h, x)) = m.dissolve {
                writeln!(o, "  d {} {}", if h { "halo" } else { "alpha" }, norm(format!("{x:?}"))).unwrap();
            }
            if let Some(i) = m.illum {
                writeln!(o, "  illum {i}").unwrap();
            }
            if let Some(b) = m.aat {
                writeln!(o, "  map_aat {b}").unwrap();
            }
        }
        if mask & (MAPBITS | EXTRA) != 0 {
            for (i, c) in m.maps.iter().enumerate() {
                if let Some(c) = c {
                    let mut c = c.clone();
                    if mask & EXTRA == 0 {
                        c.bm = None;
                        c.ty.clear();
                    }
                    if mask & MAPBITS == 0 {
                        c = MapM { bm: c.bm, ty: c.ty, ..Default::default() };
                    }
                    writeln!(o, "  {} {}", MAPS[i], norm(format!("{c:?}"))).unwrap();
                }
            }
        }
    }
    o
}
