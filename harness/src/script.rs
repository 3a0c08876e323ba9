//! Random API programs: a generated list of operations on a small set of objects, and a backend
//! that executes them on the Rust API, reporting the outcome of every operation.
use crate::gen::*;
use crate::rng::Rng;
use crate::run::{hash_bytes, hash_px};
use imagequant::*;
use std::mem::MaybeUninit;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub enum Op {
    NewAttr(usize), CopyAttr(usize, usize), DropAttr(usize),
    Speed(usize, i32), MaxColors(usize, u32), Quality(usize, u32, u32), Post(usize, i32), Last(usize, bool), GetAttr(usize),
    LogCb(usize),
    Progress(usize, Option<u32>), // abort at the n-th call
    NewImage { slot: usize, attr: usize, w: usize, h: usize, family: usize, seed: u64, src: Src, gamma: f64 },
    DropImage(usize), CloneImage(usize, usize),
    ImgFixed(usize, RGBA), Importance(usize, u64, usize), Background(usize, usize), GetImage(usize),
    NewHist(usize, usize), DropHist(usize), HistImage(usize, usize, usize), HistColors(usize, usize, Vec<(RGBA, u32)>, f64), HistFixed(usize, RGBA, f64),
    Quantize(usize, usize, usize), HistQuantize(usize, usize, usize),
    Dither(usize, f32), Gamma(usize, f64), ResProgress(usize, Option<u32>), CloneRes(usize, usize), DropRes(usize), GetRes(usize), Palette(usize),
    Remap(usize, usize, usize), // result, image, way
}
use Op::*;

/// takes the callback away
pub const NO_CALLBACK: u32 = u32::MAX;
pub const NA: usize = 3;
pub const NI: usize = 4;
pub const NH: usize = 2;
pub const NR: usize = 3;

pub struct Opt { pub max_side: usize, pub hostile: bool, pub clones: bool, pub min_speed: i32, pub sources: bool }
impl Opt { pub fn std() -> Self { Opt { max_side: 40, hostile: true, clones: true, min_speed: 3, sources: true } } }

fn gen_size(r: &mut Rng, m: usize) -> (usize, usize) {
    if !cfg!(miri) && m >= 40 && r.chance(0.01) { return big_size(r); }
    match r.below(10) { 0 => (1, 1), 1 => (1, r.range(1, m)), 2 => (r.range(1, m), 1), 3 if m >= 40 => (r.range(1, 6), r.range(129, 160)), _ => (r.range(1, m), r.range(1, m)) }
}

/// which slots hold an object, as far as the generator can tell
#[derive(Default)]
struct Live { a: [bool; NA], i: [bool; NI], h: [bool; NH], r: [bool; NR] }
fn pick_live(r: &mut Rng, l: &[bool]) -> usize {
    if r.chance(0.95) { let v: Vec<usize> = (0..l.len()).filter(|&i| l[i]).collect(); if !v.is_empty() { return r.pick(&v); } }
    r.below(l.len())
}

pub fn generate(r: &mut Rng, n: usize, o: &Opt) -> Vec<Op> {
    let mut v = vec![NewAttr(0)];
    let mut l = Live::default();
    l.a[0] = true;
    let sizes: Vec<(usize, usize)> = (0..2).map(|_| gen_size(r, o.max_side)).collect();
    let gamma = |r: &mut Rng| if r.chance(0.8) { 0. } else if o.hostile && r.chance(0.2) { r.pick(&[-0.1, 1.5, f64::NAN, f64::INFINITY]) } else { r.pick(&[0.45455, 0.45455, 0.3, 0.7, 1.0, 0.99, 0.45, 0.4545, 0.454545, 0.3002, 0.7004]) };
    let img = |r: &mut Rng, l: &mut Live, v: &mut Vec<Op>, slot: usize| {
        let (w, h) = if r.chance(0.8) { r.pick(&sizes) } else { gen_size(r, o.max_side) };
        let g = gamma(r);
        l.i[slot] = true;
        v.push(NewImage { slot, attr: pick_live(r, &l.a), w, h, family: r.below(FAMILIES.len()), seed: r.u64() % 7, src: if o.sources { r.pick(&SRCS) } else { Src::Borrowed }, gamma: g });
    };
    v.push(Speed(0, r.range(o.min_speed as usize, 10) as i32));
    for s in 0..r.range(1, NI) { img(r, &mut l, &mut v, s); }
    if r.chance(0.5) { v.push(NewAttr(1)); v.push(Speed(1, r.range(o.min_speed as usize, 10) as i32)); l.a[1] = true; }
    let first = r.range(1, n.max(4) / 3);
    for k in 0..n {
        if k == first && !l.r.contains(&true) { v.push(Quantize(0, pick_live(r, &l.i), 0)); l.r[0] = true; }
        let (la, li, lh, lr) = (pick_live(r, &l.a), pick_live(r, &l.i), pick_live(r, &l.h), pick_live(r, &l.r));
        match r.below(54) {
            0 => { let a = r.below(NA); l.a[a] = true; v.push(NewAttr(a)); if o.min_speed > 1 { v.push(Speed(a, o.min_speed)); } },
            1 => { let b = r.below(NA); if l.a[la] && la != b { l.a[b] = true; } v.push(CopyAttr(la, b)) },
            2 => if r.chance(0.3) { l.a[la] = false; v.push(DropAttr(la)) },
            3 => v.push(Speed(la, if o.hostile && r.chance(0.2) { r.pick(&[0, 11, -5, i32::MAX, i32::MIN, 100]) } else { r.range(o.min_speed as usize, 10) as i32 })),
            4 | 5 => v.push(MaxColors(la, if o.hostile && r.chance(0.2) { r.pick(&[0, 1, 257, u32::MAX, 65538]) } else { r.range(2, 256) as u32 })),
            6 => { let t = r.below(101) as u32; let m = if r.chance(0.8) { 0 } else { r.below(t as usize + 1) as u32 }; v.push(if o.hostile && r.chance(0.2) { Quality(la, r.pick(&[0, 50, 101, 255]), r.pick(&[0, 40, 101, 255])) } else { Quality(la, m, t) }) },
            7 => v.push(Post(la, if o.hostile && r.chance(0.3) { r.pick(&[-1, 5, 255, 8]) } else { r.below(5) as i32 })),
            8 => v.push(Last(la, r.chance(0.5))),
            9 => { let s = if o.hostile && r.chance(0.1) { r.range(1, 30) as u32 } else { 0 }; v.push(Progress(la, if s > 0 { Some(s) } else if r.chance(0.3) { Some(NO_CALLBACK) } else { None })) },
            10 | 11 | 12 | 13 | 14 => { let s = r.below(NI); img(r, &mut l, &mut v, s) },
            15 | 16 => if o.clones { let j = r.below(NI); if l.i[li] && li != j { l.i[j] = true; } v.push(CloneImage(li, j)) },
            17 => if r.chance(0.5) { l.i[li] = false; v.push(DropImage(li)) },
            18 | 19 => v.push(ImgFixed(li, any_color(r))),
            20 => v.push(Importance(li, r.u64() % 1000, if o.hostile && r.chance(0.2) { r.range(1, 4) } else { 0 })),
            21 | 22 => { let j = pick_live(r, &l.i); if l.i[li] && li != j { l.i[j] = false; } v.push(Background(li, j)) },
            23 => v.push(GetImage(li)),
            24 | 25 => { let h = r.below(NH); l.h[h] = true; v.push(NewHist(h, la)) },
            26 => if r.chance(0.3) { l.h[lh] = false; v.push(DropHist(lh)) },
            27 | 28 => v.push(HistImage(lh, la, li)),
            29 => { let n = r.range(if o.hostile { 0 } else { 1 }, 30); let n = if !cfg!(miri) && o.max_side >= 40 && r.chance(0.01) { r.range(65000, 140000) } else { n };
                let cs = (0..n).map(|_| (any_color(r), r.below(100) as u32)).collect(); let g = gamma(r); v.push(HistColors(lh, la, cs, g)) },
            30 => { let c = any_color(r); let g = gamma(r); v.push(HistFixed(lh, c, g)) },
            31 | 32 | 33 | 34 | 35 => { let s = r.below(NR); l.r[s] = true; v.push(Quantize(la, li, s)) },
            36 | 37 => { let s = r.below(NR); l.r[s] = true; v.push(HistQuantize(la, lh, s)) },
            38 | 39 => v.push(Dither(lr, if o.hostile && r.chance(0.2) { r.pick(&[-0.1, 1.1, f32::NAN, f32::INFINITY]) } else { r.pick(&[0., 1., 0.5, 0.25]) })),
            40 => v.push(Gamma(lr, if o.hostile && r.chance(0.3) { r.pick(&[0., 1., -1., f64::NAN]) } else { r.pick(&[0.45455, 0.3, 0.8, 0.4546, 0.3001]) })),
            41 => { let s = if o.hostile && r.chance(0.3) { r.range(1, 6) as u32 } else { 0 }; v.push(ResProgress(lr, if s > 0 { Some(s) } else if r.chance(0.3) { Some(NO_CALLBACK) } else { None })) },
            42 => if o.clones { let j = r.below(NR); if l.r[lr] && lr != j { l.r[j] = true; } v.push(CloneRes(lr, j)) },
            43 => v.push(if r.chance(0.5) { GetRes(lr) } else { Palette(lr) }),
            44 => if r.chance(0.4) { l.r[lr] = false; v.push(DropRes(lr)) } else { v.push(GetAttr(la)) },
            45 => v.push(LogCb(la)),
            _ => v.push(Remap(lr, li, r.below(if o.hostile { 5 } else { 3 }))),
        }
    }
    v
}

pub fn pixels(w: usize, h: usize, family: usize, seed: u64) -> Vec<RGBA> {
    image(&mut Rng::new(seed * 77 + 5), w, h, family)
}
pub fn importance(seed: u64, n: usize) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let z = r.chance(0.3);
    (0..n).map(|i| if z && i % 3 == 0 { 0 } else { r.u8() }).collect()
}

pub type Log = Arc<Mutex<Vec<String>>>;

pub struct Rust {
    pub attrs: Vec<Option<Attributes>>,
    pub images: Vec<Option<Image<'static>>>,
    pub hists: Vec<Option<Histogram>>,
    pub res: Vec<Option<QuantizationResult>>,
    pub log: Log,
    /// pixel stores of borrowed images; freed at the end
    pub store: Vec<Box<[RGBA]>>,
    pub calls: Arc<Mutex<Vec<f32>>>,
}

fn er(r: Result<(), Error>) -> String { match r { Ok(()) => "ok".into(), Err(e) => format!("{e:?}") } }

impl Rust {
    pub fn new() -> Self {
        Rust { attrs: (0..NA).map(|_| None).collect(), images: (0..NI).map(|_| None).collect(), hists: (0..NH).map(|_| None).collect(), res: (0..NR).map(|_| None).collect(), log: Default::default(), store: vec![], calls: Default::default() }
    }
    fn borrow(&mut self, v: Vec<RGBA>) -> &'static [RGBA] {
        let b = v.into_boxed_slice();
        let p: &'static [RGBA] = unsafe { &*(&b[..] as *const [RGBA]) };
        self.store.push(b);
        p
    }
    pub fn exec(&mut self, op: &Op) -> Option<String> {
        Some(match op {
            NewAttr(a) => { self.attrs[*a] = Some(Attributes::new()); "new".into() },
            CopyAttr(a, b) => { if a == b { return None; } let c = self.attrs[*a].as_ref()?.clone(); self.attrs[*b] = Some(c); "copied".into() },
            DropAttr(a) => { self.attrs[*a].take()?; "dropped".into() },
            Speed(a, v) => er(self.attrs[*a].as_mut()?.set_speed(*v)),
            MaxColors(a, v) => er(self.attrs[*a].as_mut()?.set_max_colors(*v)),
            Quality(a, m, t) => er(self.attrs[*a].as_mut()?.set_quality(*m as u8, *t as u8)),
            Post(a, v) => { self.attrs[*a].as_ref()?; let Ok(v) = u8::try_from(*v) else { return Some("ValueOutOfRange".into()) }; er(self.attrs[*a].as_mut()?.set_min_posterization(v)) },
            Last(a, v) => { self.attrs[*a].as_mut()?.set_last_index_transparent(*v); "ok".into() },
            GetAttr(a) => { let a = self.attrs[*a].as_ref()?; format!("{} {} {} {:?}", a.speed(), a.max_colors(), a.min_posterization(), a.quality()) },
            LogCb(a) => {
                let log = self.log.clone();
                self.attrs[*a].as_mut()?.set_log_callback(move |_, m| log.lock().unwrap().push(m.to_string()));
                let log = self.log.clone();
                self.attrs[*a].as_mut()?.set_log_flush_callback(move |_| log.lock().unwrap().push("FLUSH".to_string()));
                "ok".into()
            },
            Progress(a, n) => { let cb = progress(*n, self.calls.clone()); self.attrs[*a].as_mut()?.set_progress_callback(cb); "ok".into() },
            NewImage { slot, attr, w, h, family, seed, src, gamma } => {
                let px = pixels(*w, *h, *family, *seed);
                let stride = *w + 3;
                let padded = || { let mut v = Vec::with_capacity(stride * h); for row in px.chunks_exact(*w) { v.extend_from_slice(row); v.extend([rgba(1, 2, 3, 4); 3]); } v.truncate(stride * (h - 1) + w); v };
                let a = self.attrs[*attr].take()?;
                let r = match src {
                    Src::Owned => a.new_image(px, *w, *h, *gamma),
                    Src::OwnedStride => a.new_image_stride(padded(), *w, *h, stride, *gamma),
                    Src::Borrowed => { let p = self.borrow(px); a.new_image_borrowed(p, *w, *h, *gamma) },
                    Src::BorrowedStride => { let p = self.borrow(padded()); Image::new_stride_borrowed(&a, p, *w, *h, stride, *gamma) },
                    Src::Callback => { let w = *w; unsafe { Image::new_fn(&a, move |row: &mut [MaybeUninit<RGBA>], y: usize| { for (d, s) in row.iter_mut().zip(&px[y * w..][..w]) { d.write(*s); } }, w, *h, *gamma) } },
                };
                self.attrs[*attr] = Some(a);
                match r { Ok(i) => { self.images[*slot] = Some(i); "image".into() }, Err(e) => format!("{e:?}") }
            },
            DropImage(i) => { self.images[*i].take()?; "dropped".into() },
            CloneImage(i, j) => { if i == j { return None; } let c = self.images[*i].as_ref()?.clone(); self.images[*j] = Some(c); "cloned".into() },
            ImgFixed(i, c) => er(self.images[*i].as_mut()?.add_fixed_color(*c)),
            Importance(i, seed, off) => { let im = self.images[*i].as_mut()?; let n = im.width() * im.height(); let n = if *off > 0 { n.saturating_sub(*off).max(1) } else { n }; er(im.set_importance_map(importance(*seed, n))) },
            Background(i, j) => {
                if i == j { return None; }
                self.images[*i].as_ref()?;
                let b = self.images[*j].take()?;
                er(self.images[*i].as_mut()?.set_background(b))
            },
            GetImage(i) => { let i = self.images[*i].as_ref()?; format!("{}x{}", i.width(), i.height()) },
            NewHist(h, a) => { let x = Histogram::new(self.attrs[*a].as_ref()?); self.hists[*h] = Some(x); "hist".into() },
            DropHist(h) => { self.hists[*h].take()?; "dropped".into() },
            HistImage(h, a, i) => { let a = self.attrs[*a].as_ref()?; let i = self.images[*i].as_mut()?; er(self.hists[*h].as_mut()?.add_image(a, i)) },
            HistColors(h, a, cs, g) => { self.attrs[*a].as_ref()?; let e: Vec<_> = cs.iter().map(|&(color, count)| HistogramEntry { color, count }).collect(); er(self.hists[*h].as_mut()?.add_colors(&e, *g)) },
            HistFixed(h, c, g) => er(self.hists[*h].as_mut()?.add_fixed_color(*c, *g)),
            Quantize(a, i, r) => {
                let q = self.attrs[*a].as_ref()?.quantize(self.images[*i].as_mut()?);
                match q { Ok(q) => { let s = res_info(&q); self.res[*r] = Some(q); s }, Err(e) => format!("{e:?}") }
            },
            HistQuantize(a, h, r) => {
                let q = { let a = self.attrs[*a].as_ref()?; self.hists[*h].as_mut()?.quantize(a) };
                match q { Ok(q) => { let s = res_info(&q); self.res[*r] = Some(q); s }, Err(e) => format!("{e:?}") }
            },
            Dither(r, v) => er(self.res[*r].as_mut()?.set_dithering_level(*v)),
            Gamma(r, v) => er(self.res[*r].as_mut()?.set_output_gamma(*v)),
            ResProgress(r, n) => { let cb = progress(*n, self.calls.clone()); self.res[*r].as_mut()?.set_progress_callback(cb); "ok".into() },
            CloneRes(r, s) => { if r == s { return None; } let c = self.res[*r].as_ref()?.clone(); self.res[*s] = Some(c); "cloned".into() },
            DropRes(r) => { self.res[*r].take()?; "dropped".into() },
            GetRes(r) => res_info(self.res[*r].as_ref()?),
            Palette(r) => { let p = self.res[*r].as_mut()?.palette_vec(); format!("{} {:016x}", p.len(), hash_px(0, &p)) },
            Remap(r, i, way) => {
                let q = self.res[*r].as_mut()?;
                let im = self.images[*i].as_mut()?;
                let n = im.width() * im.height();
                let got = match way {
                    0 => q.remapped(im).map(|(p, v)| (p, v)),
                    1 => { let mut v = vec![7u8; n / 2]; q.remap_into_vec(im, &mut v).map(|p| (p, v)) },
                    2 => { let mut v: Vec<MaybeUninit<u8>> = vec![MaybeUninit::uninit(); n + 5]; q.remap_into(im, &mut v).map(|()| (q.palette_vec(), v[..n].iter().map(|b| unsafe { b.assume_init() }).collect())) },
                    3 => { let mut v: Vec<MaybeUninit<u8>> = vec![MaybeUninit::uninit(); n - 1]; q.remap_into(im, &mut v).map(|()| unreachable!()) },
                    _ => { let v: Vec<u8> = vec![]; let mut v = v; q.remap_into_vec(im, &mut v).map(|p| (p, v)) },
                };
                match got {
                    Ok((p, v)) => format!("{} {:016x} {:016x} {}", p.len(), hash_px(0, &p), hash_bytes(0, &v), res_info(q)),
                    Err(e) => format!("{e:?}"),
                }
            },
        })
    }
}

pub fn progress(n: Option<u32>, calls: Arc<Mutex<Vec<f32>>>) -> impl Fn(f32) -> ControlFlow + Send + Sync + 'static {
    let k = std::sync::atomic::AtomicU32::new(0);
    move |p| {
        if n == Some(NO_CALLBACK) { return ControlFlow::Continue; }
        calls.lock().unwrap().push(p);
        let i = 1 + k.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if Some(i) == n { ControlFlow::Break } else { ControlFlow::Continue }
    }
}

pub fn res_info(q: &QuantizationResult) -> String {
    format!("{} {:?} {:?} {:?} {:?}", q.output_gamma(), q.quantization_error().map_or(-1., |e| e), q.quantization_quality().map_or(-1, i32::from), q.remapping_error().map_or(-1., |e| e), q.remapping_quality().map_or(-1, i32::from))
}

/// whole program; outcomes of all operations
pub fn run_rust(ops: &[Op]) -> Vec<String> {
    let mut b = Rust::new();
    let mut out = Vec::new();
    for o in ops { if let Some(s) = b.exec(o) { out.push(format!("{}: {s}", name(o))); } }
    let log = b.log.clone();
    b.attrs.clear();
    let l = log.lock().unwrap();
    out.push(format!("log {} lines {:016x}", l.len(), hash_bytes(0, l.join("\n").as_bytes())));
    out
}

pub fn name(o: &Op) -> String { let s = format!("{o:?}"); s[..s.len().min(90)].to_string() }
pub fn digest(v: &[String]) -> u64 { hash_bytes(0, v.join("\n").as_bytes()) }
