//! Failed operations: the right error, and everything stays usable.
use super::*;
use crate::rng::Rng;
use crate::script::{generate, name, Op, Opt, Rust};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Arc;

/// stops once, at the n-th call since set
#[derive(Clone)]
struct Stop(Arc<(AtomicU32, AtomicU32)>);
impl Stop {
    fn new() -> Self { Stop(Arc::new((AtomicU32::new(0), AtomicU32::new(0)))) }
    fn at(&self, n: u32) { self.0 .0.store(0, SeqCst); self.0 .1.store(n, SeqCst); }
    fn calls(&self) -> u32 { self.0 .0.load(SeqCst) }
    fn cb(&self) -> impl Fn(f32) -> ControlFlow + Send + Sync + 'static {
        let s = self.clone();
        move |_| { let i = 1 + s.0 .0.fetch_add(1, SeqCst); if i == s.0 .1.load(SeqCst) { ControlFlow::Break } else { ControlFlow::Continue } }
    }
}

struct Setup { cfg: Cfg, p: Pix, imp: Option<Vec<u8>>, bg: Option<Vec<RGBA>> }
impl Setup {
    fn new(r: &mut Rng) -> Self {
        let (w, h) = if r.chance(0.01) { big_size(r) } else if r.chance(0.15) { (r.range(1, 9), r.range(129, 300)) } else { (r.range(1, 60), r.range(1, 60)) };
        let mut cfg = Cfg::random_sized(r, w, h);
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        if cfg.speed < 3 && r.chance(0.7) { cfg.speed += 3; }
        let px = image(r, w, h, cfg.family);
        let bg = if r.chance(0.2) { Some(px.iter().map(|&p| if r.chance(0.5) { p } else { any_color(r) }).collect()) } else { None };
        let imp = if r.chance(0.3) { Some((0..w * h).map(|i| if i == 0 { 200 } else { r.u8() }).collect()) } else { None };
        Setup { p: Pix::new(r, w, h, px), imp, bg, cfg }
    }
    fn image<'a>(&'a self, a: &Attributes) -> Result<Image<'a>, String> {
        let mut i = make_image(&self.cfg, a, &self.p)?;
        if let Some(m) = &self.imp { i.set_importance_map(&m[..]).map_err(|e| format!("{e:?}"))?; }
        if let Some(b) = &self.bg { i.set_background(a.new_image_borrowed(b, self.cfg.w, self.cfg.h, self.cfg.gamma).map_err(|e| format!("{e:?}"))?).map_err(|e| format!("{e:?}"))?; }
        Ok(i)
    }
}
fn e(x: Error) -> String { format!("{x:?}") }

fn finish(q: &mut QuantizationResult, img: &mut Image, s: &Setup, read_first: bool) -> Result<u64, String> {
    let mut d = hash_bytes(0, crate::script::res_info(q).as_bytes());
    if read_first { d = hash_px(d, q.palette()); }
    if let Some(l) = s.cfg.dither { q.set_dithering_level(l).map_err(e)?; }
    let o = remap_out(q, img).map_err(|x| format!("remap failed {x:?}"))?;
    Ok(d ^ o.digest().rotate_left(3))
}

fn state(q: &mut QuantizationResult) -> (Vec<RGBA>, String) { (q.palette_vec(), crate::script::res_info(q)) }

pub fn run(x: &Ctx) {
    let exact = !cfg!(feature = "mt");
    x.cases("abort_quantize", x.n(500, 8000), |c| {
        let r = &mut c.rng.clone();
        let s = Setup::new(r);
        c.desc(s.cfg.desc());
        let read_first = r.chance(0.5);
        let stop = Stop::new();
        let mut a = s.cfg.attr()?;
        a.set_progress_callback(stop.cb());
        let hist = r.chance(0.5);
        // never failed
        let mut run = |fail: &[u32]| -> Result<Result<u64, String>, String> {
            let mut img = s.image(&a)?;
            let mut h = Histogram::new(&a);
            if hist { stop.at(0); h.add_image(&a, &mut img).map_err(e)?; if !s.cfg.fixed.is_empty() { h.add_fixed_color(rgba(3, 2, 1, 255), 0.).map_err(e)?; } }
            for &k in fail {
                stop.at(k);
                match if hist { h.quantize(&a) } else { a.quantize(&mut img) } { Err(Error::Aborted) => c.hit("aborted"), o => return Err(format!("asked to stop at call {k}, got {:?}", o.map(|_| ()))) }
            }
            stop.at(0);
            let q = if hist { h.quantize(&a) } else { a.quantize(&mut img) };
            let n = stop.calls();
            let mut q = match q { Ok(q) => q, Err(x) => return Ok(Err(format!("{x:?}"))) };
            let d = finish(&mut q, &mut img, &s, read_first);
            stop.at(n);
            if fail.is_empty() { Ok(Ok(d? ^ (n as u64) << 48)) } else { Ok(d.map(|d| d ^ (n as u64) << 48)) }
        };
        let clean = run(&[])?;
        let n = { // calls of a clean run
            let mut img = s.image(&a)?;
            let mut h = Histogram::new(&a);
            if hist { h.add_image(&a, &mut img).map_err(e)?; if !s.cfg.fixed.is_empty() { h.add_fixed_color(rgba(3, 2, 1, 255), 0.).map_err(e)?; } }
            stop.at(0);
            if (if hist { h.quantize(&a) } else { a.quantize(&mut img) }).is_err() { return Err("quantize failed".into()); }
            stop.calls()
        };
        if n == 0 { return Ok(()); }
        let mut points: Vec<u32> = (1..=n).collect();
        r.shuffle(&mut points);
        points.truncate(4);
        for (i, &k) in points.iter().enumerate() {
            let fails: Vec<u32> = if i == 0 { points.clone() } else { vec![k] };
            let got = run(&fails)?;
            if exact && got != clean { return Err(format!("quantizing ({}) again after stopping at call {fails:?} of {n} gives a different outcome than without stopping: {got:?} vs {clean:?}", if hist { "histogram" } else { "image" })); }
        }
        c.distinct(hash_bytes(0, format!("{clean:?}").as_bytes()));
        Ok(())
    });
    x.cases("abort_add_image", x.n(200, 4000), |c| {
        let r = &mut c.rng.clone();
        let s = Setup::new(r);
        c.desc(s.cfg.desc());
        let stop = Stop::new();
        let mut a = s.cfg.attr()?;
        a.set_progress_callback(stop.cb());
        let other = r.chance(0.5);
        let run = |fail: u32| -> Result<(u64, u32), String> {
            let mut img = s.image(&a)?;
            let mut h = Histogram::new(&a);
            stop.at(0);
            if other { h.add_colors(&[HistogramEntry { color: rgba(1, 2, 3, 255), count: 100 }], 0.).map_err(e)?; }
            if fail > 0 {
                stop.at(fail);
                match h.add_image(&a, &mut img) { Err(Error::Aborted) => {}, o => return Err(format!("add_image asked to stop at call {fail}, got {o:?}")) }
            }
            stop.at(0);
            h.add_image(&a, &mut img).map_err(e)?;
            let n = stop.calls();
            let mut q = h.quantize(&a).map_err(e)?;
            Ok((finish(&mut q, &mut img, &s, false)?, n))
        };
        let (d, n) = run(0)?;
        for k in 1..=n { let got = run(k)?; c.hit("aborted"); if exact && got.0 != d { return Err(format!("adding the image again after stopping at call {k} of {n} gives a different palette or image")); } }
        // stopped for good: the histogram is as before
        if n > 0 && other {
            let mut img = s.image(&a)?;
            let mut h = Histogram::new(&a);
            h.add_colors(&[HistogramEntry { color: rgba(1, 2, 3, 255), count: 100 }], 0.).map_err(e)?;
            stop.at(1);
            if h.add_image(&a, &mut img).is_ok() { return Err("not stopped".into()); }
            stop.at(0);
            let p = h.quantize(&a).map_err(e)?.palette_vec();
            if p.len() != 1 || s.cfg.post == 0 && p[0] != rgba(1, 2, 3, 255) { return Err(format!("an image whose addition was stopped is in the palette: {p:?}")); }
        }
        c.distinct(d);
        Ok(())
    });
    // an image refused because of too many fixed colours leaves nothing behind
    x.cases("refused_image", x.n(150, 3000), |c| {
        let r = &mut c.rng.clone();
        let n = r.range(240, 256);
        let extra = 256 - n + r.range(1, 12);
        let cs = distinct_colors(r, n + extra + 1);
        let mut a = Attributes::new();
        a.set_speed(r.range(1, 10) as i32).map_err(e)?;
        let (gh, gi) = (r.pick(&[0., 0.45455, 0.7]), r.pick(&[0., 0.3]));
        let images = r.chance(0.5);
        c.desc(format!("{n} fixed colours, then an image with {extra} more, gamma {gh} and {gi}, speed {}", a.speed()));
        let run = |bad: bool| -> Result<(u64, usize), String> {
            let mut h = Histogram::new(&a);
            if images {
                let mut im = a.new_image(vec![cs[0]], 1, 1, gh).map_err(e)?;
                for &f in &cs[..n] { im.add_fixed_color(f).map_err(e)?; }
                h.add_image(&a, &mut im).map_err(e)?;
            } else {
                for &f in &cs[..n] { h.add_fixed_color(f, gh).map_err(e)?; }
                h.add_colors(&[HistogramEntry { color: cs[0], count: 7 }], gh).map_err(e)?;
            }
            if bad {
                let mut im = a.new_image(vec![cs[n + extra]; 6], 3, 2, gi).map_err(e)?;
                for &f in &cs[n..n + extra] { im.add_fixed_color(f).map_err(e)?; }
                for _ in 0..2 { match h.add_image(&a, &mut im) { Err(Error::BufferTooSmall) => {}, o => return Err(format!("{o:?}")) } }
            }
            // the room that was there still is
            for &f in &cs[n + extra..n + extra + (256 - n).min(1)] { h.add_fixed_color(f, 0.).map_err(|e| format!("a further fixed colour: {e:?}"))?; }
            let mut q = h.quantize(&a).map_err(e)?;
            let p = q.palette_vec();
            Ok((hash_px(q.output_gamma().to_bits(), &p), p.len()))
        };
        let (x, y) = (run(false)?, run(true)?);
        if x != y { return Err(format!("an image refused for its fixed colours changed the palette ({} entries, then {})", x.1, y.1)); }
        c.distinct(x.0);
        Ok(())
    });
    x.cases("abort_remap", x.n(500, 8000), |c| {
        let r = &mut c.rng.clone();
        let s = Setup::new(r);
        c.desc(s.cfg.desc());
        let a = s.cfg.attr()?;
        let before = r.below(4); // history before the failing remap
        let hist = r.chance(0.3);
        let run = |fail: &[u32], stop: &Stop| -> Result<(u64, u32), String> {
            let mut img = s.image(&a)?;
            let mut q = if hist { let mut h = Histogram::new(&a); h.add_image(&a, &mut img).map_err(e)?; h.quantize(&a).map_err(e)? } else { a.quantize(&mut img).map_err(e)? };
            if let Some(l) = s.cfg.dither { q.set_dithering_level(l).map_err(e)?; }
            let mut small = a.new_image(vec![rgba(200, 100, 0, 255); 20], 5, 4, 0.).map_err(e)?;
            let mut d = 0;
            match before {
                1 => { d = hash_px(0, q.palette()); },
                2 => { d = remap_out(&mut q, &mut img).map_err(|x| format!("{x:?}"))?.digest(); },
                3 => { d = remap_out(&mut q, &mut small).map_err(|x| format!("{x:?}"))?.digest(); },
                _ => {},
            }
            q.set_progress_callback(stop.cb());
            for &k in fail {
                stop.at(k);
                // only look at the palette if it has been obtained before, as looking at it early rounds the colours
                let st = if before > 0 { Some(state(&mut q)) } else { None };
                let info = crate::script::res_info(&q);
                let g = if k % 2 == 0 { q.remapped(&mut img).map(|_| ()) } else {
                    let old = vec![77u8; if k % 3 == 0 { 0 } else { 5 }];
                    let mut v = old.clone();
                    let g = q.remap_into_vec(&mut img, &mut v).map(|_| ());
                    // nothing was remapped, so there's nothing to see
                    if g.is_err() && !v.is_empty() && (v.len() != old.len() || v != old) { return Err(format!("stopped remap_into_vec left {} bytes in the vector", v.len())); }
                    g
                };
                match g { Err(Error::Aborted) => {}, o => return Err(format!("asked to stop at call {k}, got {:?}", o)) }
                if crate::script::res_info(&q) != info { return Err(format!("stopped remapping changed the reported numbers from {info} to {}", crate::script::res_info(&q))); }
                if let Some(st) = st { if state(&mut q) != st { return Err("stopped remapping changed the palette obtained before".into()); } }
            }
            stop.at(0);
            let o = remap_out(&mut q, &mut img).map_err(|x| format!("{x:?}"))?;
            Ok((d ^ o.digest().rotate_left(3), stop.calls()))
        };
        let stop = Stop::new();
        let (clean, n) = run(&[], &stop)?;
        if n == 0 { return Ok(()); }
        let mut points: Vec<u32> = (1..=n).collect();
        r.shuffle(&mut points);
        points.truncate(4);
        if n >= 2 && !points.contains(&2) { points.push(2); }
        for (i, &k) in points.iter().enumerate() {
            let fails: Vec<u32> = if i == 0 { points.clone() } else { vec![k] };
            let got = run(&fails, &stop)?;
            c.count("aborted", fails.len() as u64);
            if exact && got.0 != clean { return Err(format!("remapping again after stopping at call {fails:?} of {n} gives a different image than without stopping (history {before})")); }
        }
        c.hit(&format!("history_{before}"));
        c.distinct(clean);
        Ok(())
    });
    x.cases("quality", x.n(400, 8000), |c| {
        let r = &mut c.rng.clone();
        let mut s = Setup::new(r);
        s.cfg.quality = None;
        s.cfg.max_colors = r.range(2, 20) as u32;
        c.desc(s.cfg.desc());
        let hist = r.chance(0.5);
        let t = r.range(1, 100) as u8;
        let run = |fail: bool| -> Result<Option<u64>, String> {
            let mut a = s.cfg.attr()?;
            let mut img = s.image(&a)?;
            let mut h = Histogram::new(&a);
            if hist { h.add_image(&a, &mut img).map_err(e)?; }
            if fail {
                a.set_quality(100, 100).map_err(e)?;
                match if hist { h.quantize(&a) } else { a.quantize(&mut img) } { Ok(_) => return Ok(None), Err(Error::QualityTooLow) => {}, Err(x) => return Err(format!("minimum quality 100: {x:?}")) }
            }
            a.set_quality(0, t).map_err(e)?;
            let mut q = if hist { h.quantize(&a) } else { a.quantize(&mut img) }.map_err(e)?;
            Ok(Some(finish(&mut q, &mut img, &s, false)?))
        };
        let Some(got) = run(true)? else { c.hit("met"); return Ok(()) };
        c.hit("refused");
        let clean = run(false)?.unwrap();
        if exact && got != clean { return Err("quantizing with a lower minimum after a refusal gives a different outcome than without the refusal".into()); }
        c.distinct(clean);
        Ok(())
    });
    x.cases("buffer", x.n(300, 5000), |c| {
        let r = &mut c.rng.clone();
        let s = Setup::new(r);
        c.desc(s.cfg.desc());
        let a = s.cfg.attr()?;
        let n = s.cfg.w * s.cfg.h;
        let short = [0, n / 2, n - 1, n.saturating_sub(s.cfg.w)].map(|x| x.min(n - 1));
        let before = r.chance(0.5);
        let run = |fail: bool| -> Result<u64, String> {
            let mut img = s.image(&a)?;
            let mut q = a.quantize(&mut img).map_err(e)?;
            if let Some(l) = s.cfg.dither { q.set_dithering_level(l).map_err(e)?; }
            let mut d = 0;
            if before { d = remap_out(&mut q, &mut img).map_err(|x| format!("{x:?}"))?.digest(); }
            if fail { for k in short {
                let st = if before { Some(state(&mut q)) } else { None };
                let mut b = vec![std::mem::MaybeUninit::new(0xA5u8); k];
                match q.remap_into(&mut img, &mut b) { Err(Error::BufferTooSmall) => {}, o => return Err(format!("buffer of {k} for {n} pixels: {o:?}")) }
                if b.iter().any(|b| unsafe { b.assume_init() } != 0xA5) { return Err("a refused buffer was written to".into()); }
                if let Some(st) = st { if st != state(&mut q) { return Err("refused remap changed the palette or errors".into()); } }
            } }
            Ok(d ^ remap_out(&mut q, &mut img).map_err(|x| format!("{x:?}"))?.digest().rotate_left(3))
        };
        let clean = run(false)?;
        let got = run(true)?;
        if exact && got != clean { return Err("remapping after a refused buffer gives a different image".into()); }
        c.distinct(clean);
        Ok(())
    });
    // refused settings and additions: a program with and without them
    if exact { x.cases("refused", x.n(1500, 40000), |c| {
        let r = &mut c.rng.clone();
        let o = Opt { max_side: 24, hostile: true, clones: true, min_speed: 4, sources: true };
        let len = r.range(15, 60);
        let mut ops: Vec<Op> = generate(r, len, &o);
        // more refusals than a realistic program has
        for _ in 0..8 {
            let op = match r.below(9) {
                0 => Op::Importance(r.below(4), r.u64() % 1000, r.range(1, 5)),
                1 => Op::HistColors(r.below(2), 0, vec![(rgba(9, 9, 9, 255), 1000)], r.pick(&[1., -1., f64::NAN])),
                2 => Op::HistFixed(r.below(2), any_color(r), r.pick(&[1., -1., f64::NAN])),
                3 => Op::Dither(r.below(3), r.pick(&[2., f32::NAN])),
                4 => Op::Gamma(r.below(3), r.pick(&[0., 1., f64::NAN, -2.])),
                5 => Op::Quality(r.below(3), 50, r.pick(&[40, 101])),
                6 => Op::Remap(r.below(3), r.below(4), 3),
                7 => Op::HistColors(r.below(2), 0, vec![], 0.),
                _ => Op::Speed(r.below(3), r.pick(&[0, 11])),
            };
            let at = r.range(ops.len() / 3, ops.len());
            ops.insert(at, op);
        }
        // a refused call may have used up a call of the progress callback
        ops.retain(|o| !matches!(o, Op::Progress(_, Some(_))));
        let mut a = Rust::new();
        let mut keep = vec![];
        let mut want = vec![];
        let mut dropped = 0;
        for op in &ops {
            let Some(s) = a.exec(op) else { continue };
            let refused = match (op, s.as_str()) {
                (Op::Speed(..) | Op::MaxColors(..) | Op::Quality(..) | Op::Post(..) | Op::Dither(..) | Op::Gamma(..) | Op::ImgFixed(..) | Op::Importance(..) | Op::HistColors(..) | Op::HistFixed(..) | Op::Background(..), s) => s != "ok",
                (Op::Remap(..), "BufferTooSmall") => true,
                (Op::HistImage(..), s) => s != "ok",
                (Op::HistQuantize(..), "Unsupported") => true,
                _ => false,
            };
            if refused {
                dropped += 1;
                // a refused background is gone anyway
                if let Op::Background(_, j) = op { keep.push(Op::DropImage(*j)); want.push(None); }
                c.hit(&format!("refused_{}", &name(op)[..4]));
            } else { keep.push(op.clone()); want.push(Some(s)); }
        }
        let mut b = Rust::new();
        for (k, (op, want)) in keep.iter().zip(&want).enumerate() {
            let got = b.exec(op);
            if want.is_some() && got != *want {
                if c.ctx.only.is_some() { // which of the refused calls
                    for (i, o) in ops.iter().enumerate() {
                        let mut a = Rust::new();
                        let log: Vec<_> = ops.iter().map(|o| a.exec(o)).collect();
                        let mut b = Rust::new();
                        let mut differ = false;
                        for (j, p) in ops.iter().enumerate() { if j == i { if let Op::Background(_, j) = p { b.exec(&Op::DropImage(*j)); } } else if b.exec(p) != log[j] { differ = true; } }
                        if differ && matches!(log[i].as_deref(), Some("BufferTooSmall" | "ValueOutOfRange" | "Unsupported")) { println!("matters: {i} {o:?} {:?}", log[i]); }
                    }
                }
                return Err(format!("without {dropped} refused calls before it, operation {k} {} gives {got:?} instead of {want:?}; program: {:?}", name(op), ops.iter().map(name).collect::<Vec<_>>()));
            }
        }
        if dropped > 0 { c.distinct(hash_bytes(0, format!("{ops:?}").as_bytes())); }
        Ok(())
    }); }
    // one pixel-sized allocation fails, whichever it is
    if !cfg!(miri) && exact { x.cases("memory", x.n(250, 4000), |c| {
        let r = &mut c.rng.clone();
        let mut s = Setup::new(r);
        // a size that no other allocation has
        let (w, h) = r.pick(&[(101, 103), (113, 109), (97, 131), (61, 167), (211, 53)]);
        s.cfg.w = w; s.cfg.h = h; s.cfg.family = r.below(FAMILIES.len());
        s.cfg.src = r.pick(&[Src::Borrowed, Src::BorrowedStride, Src::Callback]);
        let px = image(r, w, h, s.cfg.family);
        s.p = Pix::new(r, w, h, px);
        s.imp = if r.chance(0.4) { Some((0..w * h).map(|_| r.u8()).collect()) } else { None };
        let another = r.chance(0.4); // remaps an image that was not quantized
        s.bg = None;
        if r.chance(0.3) { s.bg = Some(s.p.px.iter().map(|&p| if r.chance(0.5) { p } else { any_color(r) }).collect()); }
        c.desc(s.cfg.desc());
        let a = s.cfg.attr()?;
        let n = w * h;
        let sizes = [n, n * 16, n * 4, n * 8];
        let hist = r.chance(0.4);
        // fail: which operation (0 none, 1 quantize or add_image, 2 remap) and which allocation
        let run = |fail: (u32, u32), seen: &mut [u32; 3]| -> Result<u64, String> {
            let mut img = s.image(&a)?;
            let mut h = Histogram::new(&a);
            let mut q = None;
            for attempt in 0..2 {
                let failing = attempt == 0 && fail.0 == 1;
                if attempt == 0 && fail.0 != 1 { continue; }
                crate::alloc::arm(sizes, if failing { fail.1 } else { 0 });
                let g = if hist { h.add_image(&a, &mut img).map(|_| None) } else { a.quantize(&mut img).map(Some) };
                let (sn, fd) = crate::alloc::disarm();
                if failing {
                    match g { Err(Error::OutOfMemory) => {}, o => if fd > 0 { return Err(format!("allocation {} of {} failed in {}, which returned {:?}", fail.1, seen[1], if hist { "add_image" } else { "quantize" }, o.map(|_| "ok"))); } else { return Err("an allocation made in the first run was not made in the second".into()) } }
                } else { seen[1] = sn; q = g.map_err(|x| format!("{x:?} after the fault"))?; }
            }
            let mut q = match q { Some(q) => q, None => h.quantize(&a).map_err(e)? };
            if let Some(l) = s.cfg.dither { q.set_dithering_level(l).map_err(e)?; }
            if another { img = s.image(&a)?; }
            for attempt in 0..2 {
                let failing = attempt == 0 && fail.0 == 2;
                if attempt == 0 && fail.0 != 2 { continue; }
                let info = crate::script::res_info(&q);
                crate::alloc::arm(sizes, if failing { fail.1 } else { 0 });
                let g = q.remapped(&mut img);
                let (sn, fd) = crate::alloc::disarm();
                if failing {
                    match g { Err(Error::OutOfMemory) => {}, o => if fd > 0 { return Err(format!("allocation {} of {} failed in remapping, which returned {:?}", fail.1, seen[2], o.map(|_| "ok"))); } else { return Err("an allocation made in the first run was not made in the second".into()) } }
                    if crate::script::res_info(&q) != info { return Err("remapping without memory changed the reported numbers".into()); }
                } else {
                    seen[2] = sn;
                    let (p, i) = g.map_err(|x| format!("{x:?} after the fault"))?;
                    return Ok(hash_bytes(hash_px(0, &p), &i) ^ hash_bytes(0, crate::script::res_info(&q).as_bytes()));
                }
            }
            unreachable!()
        };
        let mut seen = [0; 3];
        let clean = run((0, 0), &mut seen)?;
        let total = seen;
        for op in 1..3 { for k in 1..=total[op as usize] {
            let mut seen = total;
            let got = run((op, k), &mut seen)?;
            c.hit(if op == 1 { "fault_quantize" } else { "fault_remap" });
            if got != clean { return Err(format!("repeating after allocation {k} of {} failed in {} gives a different outcome", total[op as usize], if op == 1 { "quantization" } else { "remapping" })); }
        } }
        c.distinct(clean);
        Ok(())
    }); }
    // buffers of worker threads
    if !cfg!(miri) && !exact { x.cases_t("memory_threads", x.n(120, 3000), 1, |c| {
        let r = &mut c.rng.clone();
        // sizes that nothing else has
        let w = r.pick(&[1013, 1511, 811, 2017]);
        let h = r.range(20, 150);
        let fam = r.below(FAMILIES.len());
        let px = image(r, w, h, fam);
        let speed = r.range(3, 10) as i32;
        let dither = r.pick(&[0f32, 0., 1.]);
        let k = r.range(2, 200);
        let given = r.chance(0.6);
        let cols = distinct_colors(r, k);
        c.desc(format!("{w}x{h} {} speed {speed} dither {dither} {k} colours, given {given}", FAMILIES[fam]));
        let mut a = Attributes::new();
        a.set_speed(speed).map_err(e)?;
        a.set_max_colors(k.max(2) as u32).map_err(e)?;
        let stream = r.chance(0.3);
        let make = || -> Result<Image, String> {
            if stream { unsafe { Image::new_fn(&a, |row: &mut [std::mem::MaybeUninit<RGBA>], y: usize| { for (d, s) in row.iter_mut().zip(&px[y * w..][..w]) { d.write(*s); } }, w, h, 0.).map_err(e) } } else { a.new_image_borrowed(&px[..], w, h, 0.).map_err(e) }
        };
        let mut proto = if given { dictated(&cols, speed, 0.)? } else { a.quantize(&mut make()?).map_err(e)? };
        proto.set_dithering_level(dither).map_err(e)?;
        // sums kept by each thread while the palette is improved
        if !given {
            let want = proto.clone().palette_vec();
            for from in [1, 2, 3, r.range(4, 30) as u32] {
                let mut img = make()?;
                crate::alloc::arm_others([want.len().max(2) * 40, 0], from, r.pick(&[1, 1000]));
                let got = a.quantize(&mut img);
                let (seen, failed) = crate::alloc::disarm_others();
                c.count("sums on worker threads", seen as u64);
                c.count("sums failed", failed as u64);
                match got {
                    Ok(mut q) => { if failed > 0 && q.palette_vec() != want { return Err(format!("{failed} allocations on worker threads failed, quantization succeeded with another palette")); } if q.palette_len() == 0 { return Err("no palette".into()); } },
                    Err(Error::OutOfMemory) if failed > 0 => c.hit("quantization reported"),
                    Err(x) => return Err(format!("quantization failed with {x:?} when {failed} allocations failed")),
                }
            }
        }
        let clean = { let mut q = proto.clone(); let (p, i) = q.remapped(&mut make()?).map_err(e)?; (p, i, q.remapping_error()) };
        for _ in 0..4 {
            let from = r.range(1, 16) as u32;
            let len = r.pick(&[1, 2, 1000]);
            let mut q = proto.clone();
            let mut img = make()?;
            let mut out = vec![std::mem::MaybeUninit::new(0xEEu8); w * h];
            crate::alloc::arm_others([w * 4, w * 16], from, len);
            let got = q.remap_into(&mut img, &mut out);
            let (seen, failed) = crate::alloc::disarm_others();
            c.count("allocations on worker threads", seen as u64);
            c.count("failed", failed as u64);
            match got {
                Err(Error::OutOfMemory) => {
                    if failed == 0 { return Err("out of memory although no allocation failed".into()); }
                    c.hit("reported");
                },
                Ok(()) => {
                    c.hit("finished");
                    let idx: Vec<u8> = out.iter().map(|b| unsafe { b.assume_init() }).collect();
                    let pal = q.palette_vec();
                    if dither == 0. { if idx != clean.1 || pal != clean.0 { return Err(format!("{failed} allocations on worker threads failed, remapping succeeded with another image")); } }
                    else if let Some(i) = idx.iter().position(|&i| i as usize >= pal.len()) { return Err(format!("{failed} allocations on worker threads failed, remapping succeeded with invalid index {} at {i}", idx[i])); }
                    if dither == 0. && (q.remapping_error().unwrap_or(-1.) - clean.2.unwrap_or(-1.)).abs() > 1e-6 { return Err(format!("{failed} allocations on worker threads failed, remapping succeeded with error {:?} instead of {:?}", q.remapping_error(), clean.2)); }
                },
                Err(x) => return Err(format!("remapping failed with {x:?} when {failed} allocations failed")),
            }
            // and again with memory
            let (p2, i2) = q.remapped(&mut img).map_err(|x| format!("{x:?} after the fault"))?;
            if dither == 0. && (p2 != clean.0 || i2 != clean.1) { return Err("repeating after a failed allocation gives a different image".into()); }
        }
        c.distinct(hash_bytes(hash_px(0, &clean.0), &clean.1));
        Ok(())
    }); }
}
