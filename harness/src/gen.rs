//! Workload generation: images of many families, and random API configurations.
use crate::rng::Rng;
use imagequant::*;

pub fn rgba(r: u8, g: u8, b: u8, a: u8) -> RGBA { RGBA::new(r, g, b, a) }

pub const FAMILIES: &[&str] = &["flat", "few", "noise", "noisea", "hgrad", "grad2", "photo", "photonoise", "clusters", "checker", "alphagrad", "cutout", "neardup", "grey", "stripes", "alphax", "sprinkle", "edges"];

pub fn any_color(r: &mut Rng) -> RGBA {
    match r.below(10) {
        0 => rgba(0, 0, 0, 255), 1 => rgba(255, 255, 255, 255),
        2 => rgba(r.u8(), r.u8(), r.u8(), 0),
        3 => { let a = r.pick(&[1, 2, 127, 128, 253, 254]); rgba(r.u8(), r.u8(), r.u8(), a) },
        4 => rgba(r.u8(), r.u8(), r.u8(), r.u8()),
        5 => { let v = r.u8(); rgba(v, v, v, 255) },
        6 => rgba(r.pick(&[0, 1, 254, 255]), r.pick(&[0, 1, 254, 255]), r.pick(&[0, 1, 254, 255]), 255),
        _ => rgba(r.u8(), r.u8(), r.u8(), 255),
    }
}
pub fn opaque(r: &mut Rng) -> RGBA { rgba(r.u8(), r.u8(), r.u8(), 255) }

/// n distinct colours (all fully transparent ones count as the same)
pub fn distinct_colors(r: &mut Rng, n: usize) -> Vec<RGBA> {
    let mut seen = std::collections::HashSet::new();
    let mut v = Vec::new();
    let style = r.below(6);
    let base = any_color(r);
    let mut tries = 0;
    while v.len() < n {
        tries += 1;
        let c = match style {
            0 => opaque(r),
            1 => rgba(r.u8(), r.u8(), r.u8(), r.u8()),
            2 if tries < 4000 => { // near-identical colours
                let mut j = |x: u8| x.saturating_add(r.below(7) as u8).saturating_sub(r.below(7) as u8);
                rgba(j(base.r), j(base.g), j(base.b), j(base.a))
            },
            3 => { let a = r.pick(&[1, 2, 3, 8, 127, 128, 200, 252, 253, 254, 255]); rgba(r.u8(), r.u8(), r.u8(), a) },
            _ => any_color(r),
        };
        let key = if c.a == 0 { 0 } else { u32::from_le_bytes([c.r, c.g, c.b, c.a]) };
        if seen.insert(key) { v.push(c); }
    }
    v
}

pub fn key(c: RGBA) -> u32 { if c.a == 0 { 0 } else { u32::from_le_bytes([c.r, c.g, c.b, c.a]) } }
pub fn count_distinct(px: &[RGBA]) -> usize {
    px.iter().map(|&c| key(c)).collect::<std::collections::HashSet<_>>().len()
}

fn clamp(v: f64) -> u8 { v.clamp(0., 255.) as u8 }

/// smooth "photographic" field
struct Photo([[f64; 5]; 9]);
impl Photo {
    fn new(r: &mut Rng) -> Self {
        let mut p = [[0.; 5]; 9];
        for p in &mut p { *p = [r.f() * 9., r.f() * 9., r.f() * 6.3, 20. + r.f() * 60., r.f()]; }
        Photo(p)
    }
    fn at(&self, x: f64, y: f64) -> [f64; 3] {
        let mut o = [128.; 3];
        for c in 0..3 {
            for k in 0..3 {
                let p = &self.0[c * 3 + k];
                o[c] += (x * p[0] + y * p[1] + p[2]).sin() * p[3];
            }
        }
        o
    }
}

pub fn image(r: &mut Rng, w: usize, h: usize, family: usize) -> Vec<RGBA> {
    let n = w * h;
    let (fw, fh) = (w as f64, h as f64);
    match FAMILIES[family % FAMILIES.len()] {
        "flat" => vec![any_color(r); n],
        "few" => {
            let k = r.range(1, 300);
            let cs = distinct_colors(r, k);
            let run = r.range(1, 9);
            let mut v = Vec::with_capacity(n);
            while v.len() < n { let c = r.pick(&cs); for _ in 0..r.range(1, run) { v.push(c); } }
            v.truncate(n);
            v
        },
        "noise" => (0..n).map(|_| opaque(r)).collect(),
        "noisea" => (0..n).map(|_| rgba(r.u8(), r.u8(), r.u8(), r.u8())).collect(),
        "hgrad" => {
            let (a, b) = (any_color(r), any_color(r));
            let hz = r.chance(0.5);
            (0..n).map(|i| {
                let t = if hz { (i % w) as f64 / fw } else { (i / w) as f64 / fh };
                let m = |x: u8, y: u8| clamp(x as f64 * (1. - t) + y as f64 * t);
                rgba(m(a.r, b.r), m(a.g, b.g), m(a.b, b.b), m(a.a, b.a))
            }).collect()
        },
        "grad2" => {
            let b = r.u8();
            (0..n).map(|i| rgba(clamp((i % w) as f64 * 256. / fw), clamp((i / w) as f64 * 256. / fh), b, 255)).collect()
        },
        "photo" | "photonoise" | "cutout" | "alphagrad" => {
            let p = Photo::new(r);
            let noise = if FAMILIES[family % FAMILIES.len()] == "photonoise" { 3. + r.f() * 20. } else { 0. };
            let cut = FAMILIES[family % FAMILIES.len()] == "cutout";
            let ag = FAMILIES[family % FAMILIES.len()] == "alphagrad";
            let rad = 0.2 + r.f() * 0.3;
            (0..n).map(|i| {
                let (x, y) = ((i % w) as f64 / fw, (i / w) as f64 / fh);
                let c = p.at(x, y);
                let mut g = |v: f64| if noise > 0. { clamp(v + r.gauss() * noise) } else { clamp(v) };
                let (cr, cg, cb) = (g(c[0]), g(c[1]), g(c[2]));
                let d = ((x - 0.5).powi(2) + (y - 0.5).powi(2)).sqrt();
                let a = if cut {
                    if d < rad { 255 } else if d < rad + 0.04 { clamp((rad + 0.04 - d) / 0.04 * 255.) } else { 0 }
                } else if ag { clamp(x * 280. - 10.) } else { 255 };
                rgba(cr, cg, cb, a)
            }).collect()
        },
        "clusters" => {
            let k = r.range(2, 12);
            let cs: Vec<_> = (0..k).map(|_| (opaque(r), r.f() * 10., r.range(1, 20))).collect();
            let total: usize = cs.iter().map(|c| c.2).sum();
            (0..n).map(|_| {
                let mut t = r.below(total);
                let c = cs.iter().find(|c| if t < c.2 { true } else { t -= c.2; false }).unwrap();
                let mut g = |v: u8| clamp(v as f64 + r.gauss() * c.1);
                rgba(g(c.0.r), g(c.0.g), g(c.0.b), 255)
            }).collect()
        },
        "checker" => {
            let (a, b) = (any_color(r), any_color(r));
            let s = r.range(1, 9);
            (0..n).map(|i| if ((i % w) / s + (i / w) / s) % 2 == 0 { a } else { b }).collect()
        },
        "neardup" => {
            let base = any_color(r);
            let s = r.range(2, 12);
            (0..n).map(|_| {
                let mut j = |x: u8| x.saturating_add(r.below(s) as u8).saturating_sub(r.below(s) as u8);
                rgba(j(base.r), j(base.g), j(base.b), j(base.a).max(1))
            }).collect()
        },
        "grey" => (0..n).map(|i| { let v = if r.chance(0.1) { r.u8() } else { (i % 256) as u8 }; rgba(v, v, v, 255) }).collect(),
        "stripes" => {
            let k = r.range(2, 40);
            let cs: Vec<_> = (0..k).map(|_| any_color(r)).collect();
            let hz = r.chance(0.5);
            let s = r.range(1, 5);
            (0..n).map(|i| cs[(if hz { i % w } else { i / w }) / s % k]).collect()
        },
        "alphax" => (0..n).map(|_| { let a = r.pick(&[0, 1, 2, 127, 253, 254, 255]); rgba(r.u8() & 0xf0, r.u8() & 0xf0, r.u8() & 0xf0, a) }).collect(),
        "sprinkle" => {
            let bg = any_color(r);
            let p = 0.002 + r.f() * 0.05;
            (0..n).map(|_| if r.chance(p) { any_color(r) } else { bg }).collect()
        },
        _ => { // edges: shapes on photographic background
            let p = Photo::new(r);
            let k = r.range(1, 6);
            let rects: Vec<_> = (0..k).map(|_| (r.f(), r.f(), r.f() * 0.5, r.f() * 0.5, any_color(r))).collect();
            (0..n).map(|i| {
                let (x, y) = ((i % w) as f64 / fw, (i / w) as f64 / fh);
                for q in &rects { if x >= q.0 && x < q.0 + q.2 && y >= q.1 && y < q.1 + q.3 { return q.4; } }
                let c = p.at(x, y);
                rgba(clamp(c[0]), clamp(c[1]), clamp(c[2]), 255)
            }).collect()
        },
    }
}

/// sizes beyond limits of narrow integers and of the library's own decisions (area, rows, length of a row)
pub fn big_size(r: &mut Rng) -> (usize, usize) {
    match r.below(8) {
        0 => (r.range(65_530, 66_000), r.range(1, 4)),
        1 => (r.range(1, 4), r.range(65_530, 66_000)),
        2 => (r.range(1000, 9000), r.range(1, 12)),
        3 => (r.range(1, 12), r.range(1000, 9000)),
        4 => (r.range(513, 700), r.range(513, 600)),
        5 => (r.range(256, 258), r.range(255, 1025)),
        6 => (r.range(2, 40), r.range(1024, 4200)),
        _ => (r.range(300, 600), r.range(300, 600)),
    }
}

pub fn size(r: &mut Rng) -> (usize, usize) {
    if !cfg!(miri) && r.chance(0.02) { return big_size(r); }
    match r.below(16) {
        0 => (1, 1),
        1 => (1, r.range(2, 300)),
        2 => (r.range(2, 300), 1),
        3 => (r.range(2, 3), r.range(2, 60)),
        4 => (r.range(3, 8), r.range(3, 8)),
        5 => (r.range(4, 40), r.range(126, 132)),
        6 => (r.range(4, 30), r.range(250, 420)),
        7 => (r.range(200, 400), r.range(2, 20)),
        8 => (r.range(100, 180), r.range(100, 180)),
        _ => (r.range(4, 90), r.range(4, 90)),
    }
}

pub fn or_big(r: &mut Rng, p: f64, s: (usize, usize)) -> (usize, usize) { if !cfg!(miri) && r.chance(p) { big_size(r) } else { s } }

pub fn small_size(r: &mut Rng) -> (usize, usize) {
    if !cfg!(miri) && r.chance(0.015) { return big_size(r); }
    match r.below(8) {
        0 => (1, r.range(1, 40)), 1 => (r.range(1, 40), 1),
        2 => (r.range(1, 8), r.range(1, 8)),
        3 => (r.range(1, 8), r.range(127, 140)),
        _ => (r.range(2, 40), r.range(2, 40)),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Src { Owned, OwnedStride, Borrowed, BorrowedStride, Callback }
pub const SRCS: [Src; 5] = [Src::Owned, Src::OwnedStride, Src::Borrowed, Src::BorrowedStride, Src::Callback];

#[derive(Clone, Debug)]
pub struct Cfg {
    pub w: usize,
    pub h: usize,
    pub family: usize,
    pub speed: i32,
    pub max_colors: u32,
    pub quality: Option<(u8, u8)>,
    pub post: u8,
    pub last_transparent: bool,
    pub dither: Option<f32>,
    pub gamma: f64,
    pub fixed: Vec<RGBA>,
    pub src: Src,
}

impl Cfg {
    /// plain configuration: everything at its default
    pub fn plain(w: usize, h: usize) -> Self {
        Cfg { w, h, family: 0, speed: 4, max_colors: 256, quality: None, post: 0, last_transparent: false, dither: None, gamma: 0., fixed: vec![], src: Src::Borrowed }
    }
    pub fn random(r: &mut Rng) -> Self {
        let (w, h) = size(r);
        Self::random_sized(r, w, h)
    }
    pub fn random_sized(r: &mut Rng, w: usize, h: usize) -> Self {
        let mut c = Cfg::plain(w, h);
        c.family = r.below(FAMILIES.len());
        c.speed = if r.chance(0.35) { r.range(1, 10) as i32 } else { r.range(3, 10) as i32 };
        c.max_colors = match r.below(5) { 0 => 256, 1 => r.range(2, 8) as u32, 2 => r.range(2, 32) as u32, _ => r.range(2, 256) as u32 };
        if r.chance(0.25) { let t = r.below(101); c.quality = Some((if r.chance(0.6) { 0 } else { r.below(t + 1) as u8 }, t as u8)); }
        if r.chance(0.15) { c.post = r.range(0, 4) as u8; }
        c.last_transparent = r.chance(0.2);
        c.dither = match r.below(4) { 0 => None, 1 => Some(0.), 2 => Some(1.), _ => Some(r.f() as f32) };
        if r.chance(0.15) { c.gamma = r.pick(&[0.45455, 0.5, 0.3, 1.0, 0.7]); }
        if r.chance(0.25) { let n = r.range(1, 12); c.fixed = distinct_colors(r, n); }
        c.src = r.pick(&SRCS);
        c
    }
    pub fn attr(&self) -> Result<Attributes, String> {
        let mut a = Attributes::new();
        let e = |x: Error| format!("setter refused valid value: {x:?} in {self:?}");
        a.set_speed(self.speed).map_err(e)?;
        a.set_max_colors(self.max_colors).map_err(e)?;
        if let Some((m, t)) = self.quality { a.set_quality(m, t).map_err(e)?; }
        a.set_min_posterization(self.post).map_err(e)?;
        a.set_last_index_transparent(self.last_transparent);
        Ok(a)
    }
    pub fn desc(&self) -> String {
        format!("{}x{} {} speed{} max{} q{:?} post{} lit{} dither{:?} gamma{} fixed{} {:?}", self.w, self.h, FAMILIES[self.family % FAMILIES.len()], self.speed, self.max_colors, self.quality, self.post, self.last_transparent as u8, self.dither, self.gamma, self.fixed.len(), self.src)
    }
    pub fn g(&self) -> f64 { if self.gamma > 0. { self.gamma } else { crate::color::SRGB } }
}

/// pixels plus a padded copy for stride sources
pub struct Pix { pub w: usize, pub h: usize, pub px: Vec<RGBA>, pub stride: usize, pub padded: Vec<RGBA> }

impl Pix {
    pub fn new(r: &mut Rng, w: usize, h: usize, px: Vec<RGBA>) -> Self {
        let stride = w + r.below(5);
        let short_tail = r.chance(0.5);
        let mut padded = Vec::with_capacity(stride * h + 3);
        for row in px.chunks_exact(w) {
            padded.extend_from_slice(row);
            for _ in w..stride { padded.push(any_color(r)); }
        }
        if short_tail { padded.truncate(stride * (h - 1) + w); } else { for _ in 0..r.below(4) { padded.push(any_color(r)); } }
        Pix { w, h, px, stride, padded }
    }
    pub fn image<'a>(&'a self, a: &Attributes, src: Src, gamma: f64) -> Result<Image<'a>, Error> {
        match src {
            Src::Owned => a.new_image(&self.px[..], self.w, self.h, gamma),
            Src::OwnedStride => a.new_image_stride(&self.padded[..], self.w, self.h, self.stride, gamma),
            Src::Borrowed => a.new_image_borrowed(&self.px, self.w, self.h, gamma),
            Src::BorrowedStride => Image::new_stride_borrowed(a, &self.padded, self.w, self.h, self.stride, gamma),
            Src::Callback => unsafe {
                Image::new_fn(a, move |row: &mut [std::mem::MaybeUninit<RGBA>], y: usize| {
                    for (d, s) in row.iter_mut().zip(&self.px[y * self.w..][..self.w]) { d.write(*s); }
                }, self.w, self.h, gamma)
            },
        }
    }
}

pub fn make_image<'a>(cfg: &Cfg, a: &Attributes, p: &'a Pix) -> Result<Image<'a>, String> {
    let mut img = p.image(a, cfg.src, cfg.gamma).map_err(|e| format!("image refused: {e:?} in {}", cfg.desc()))?;
    for &c in &cfg.fixed { img.add_fixed_color(c).map_err(|e| format!("fixed colour refused: {e:?}"))?; }
    Ok(img)
}

/// pixel as displayed
pub fn shown(pal: &[RGBA], idx: u8) -> RGBA { pal[idx as usize] }
