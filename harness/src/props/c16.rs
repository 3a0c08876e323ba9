//! Progress values and aborting.
use super::*;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub struct Cb { pub n: Arc<AtomicU32>, pub values: Arc<Mutex<Vec<f32>>> }
/// callback that asks to stop at calls for which `stop` is true, recording everything
pub fn recorder(stop: impl Fn(u32) -> bool + Send + Sync + 'static) -> (impl Fn(f32) -> ControlFlow + Send + Sync + 'static, Cb) {
    let cb = Cb { n: Default::default(), values: Default::default() };
    let (n, v) = (cb.n.clone(), cb.values.clone());
    (move |p| {
        let i = n.fetch_add(1, SeqCst);
        v.lock().unwrap().push(p);
        if stop(i) { ControlFlow::Break } else { ControlFlow::Continue }
    }, cb)
}
impl Cb {
    pub fn count(&self) -> u32 { self.n.load(SeqCst) }
    pub fn check(&self) -> R {
        for &v in self.values.lock().unwrap().iter() { if !(v.is_finite() && (0. ..=100.).contains(&v)) { return Err(format!("progress callback got {v}")); } }
        Ok(())
    }
}

fn base(c: &mut Case) -> (Cfg, Pix) {
    let r = &mut c.rng;
    let (w, h) = if r.chance(0.3) { (r.range(2, 40), r.range(129, 300)) } else { size(r) };
    let mut cfg = Cfg::random_sized(r, w, h);
    if let Some(q) = &mut cfg.quality { if r.chance(0.7) { q.0 = 0; } }
    let px = image(r, w, h, cfg.family);
    let p = Pix::new(r, w, h, px);
    (cfg, p)
}
fn points(r: &mut crate::rng::Rng, n: u32, thorough: bool) -> Vec<u32> {
    let lim = if thorough { 80 } else { 14 };
    if n <= lim { return (0..n).collect(); }
    let mut v: Vec<u32> = (0..n).collect();
    r.shuffle(&mut v);
    v.truncate(lim as usize - 2);
    v.push(0);
    v.push(n - 1);
    v
}

pub fn run(x: &Ctx) {
    x.cases("quantize", x.n(160, 3000), |c| {
        let (cfg, p) = base(c);
        c.desc(cfg.desc());
        let by_hist = c.rng.chance(0.4);
        let op = |a: &Attributes| -> Result<Result<(Vec<RGBA>, Option<f64>), Error>, String> {
            let mut img = make_image(&cfg, a, &p)?;
            let r = if by_hist { let mut h = Histogram::new(a); match h.add_image(a, &mut img) { Ok(()) => h.quantize(a), Err(e) => Err(e) } } else { a.quantize(&mut img) };
            Ok(r.map(|mut q| (q.palette_vec(), q.quantization_error())))
        };
        let plain = op(&cfg.attr()?)?;
        if let Err(e) = &plain { expected_failure(&cfg, Ok(*e))?; }
        let mut a = cfg.attr()?;
        let (cb, log) = recorder(|_| false);
        a.set_progress_callback(cb);
        let watched = op(&a)?;
        log.check()?;
        if watched != plain && !cfg!(feature = "mt") { return Err("installing a progress callback changes the result".into()); }
        let n = log.count();
        c.count("callbacks", n as u64);
        let pts = points(&mut c.rng, n, c.ctx.thorough);
        for i in pts {
            for once in [true, false] {
                if !once && i % 3 != 0 { continue; }
                let mut a = cfg.attr()?;
                let (cb, log) = recorder(move |k| if once { k == i } else { k >= i });
                a.set_progress_callback(cb);
                match op(&a)? {
                    Err(Error::Aborted) => {},
                    o => if log.count() > i { return Err(format!("asked to stop at call {i} of {n} (once: {once}), got {:?}", o.map(|o| o.0.len()))); } else if !cfg!(feature = "mt") { return Err(format!("call {i} made in the first run was not made in the second")); },
                }
                log.check()?;
                c.hit("aborts");
            }
        }
        c.distinct(hash_px(n as u64, &p.px));
        Ok(())
    });
    x.cases("remap", x.n(250, 5000), |c| {
        let (mut cfg, p) = base(c);
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        let with_bg = c.rng.chance(0.2);
        let way = c.rng.below(3);
        c.desc(format!("{} background {with_bg} way {way}", cfg.desc()));
        let bg = image(&mut c.rng, cfg.w, cfg.h, 8);
        let a = cfg.attr()?;
        let op = |cb: Option<Box<dyn Fn(f32) -> ControlFlow + Send + Sync>>| -> Result<Result<u64, Error>, String> {
            let mut img = make_image(&cfg, &a, &p)?;
            if with_bg { img.set_background(a.new_image_borrowed(&bg, cfg.w, cfg.h, 0.).map_err(|e| format!("{e:?}"))?).map_err(|e| format!("{e:?}"))?; }
            let mut q = a.quantize(&mut img).map_err(|e| format!("{e:?}"))?;
            if let Some(d) = cfg.dither { q.set_dithering_level(d).map_err(|e| format!("{e:?}"))?; }
            if let Some(cb) = cb { q.set_progress_callback(cb); }
            Ok(match way {
                0 => q.remapped(&mut img).map(|(p, i)| hash_bytes(hash_px(0, &p), &i)),
                1 => { let mut v = vec![]; q.remap_into_vec(&mut img, &mut v).map(|p| hash_bytes(hash_px(0, &p), &v)) },
                _ => { let mut v = vec![std::mem::MaybeUninit::new(0u8); cfg.w * cfg.h]; q.remap_into(&mut img, &mut v).map(|()| { let p = q.palette_vec(); hash_bytes(hash_px(0, &p), &v.iter().map(|b| unsafe { b.assume_init() }).collect::<Vec<_>>()) }) },
            })
        };
        let plain = op(None)?.map_err(|e| format!("remap failed {e:?}"))?;
        let (cb, log) = recorder(|_| false);
        let watched = op(Some(Box::new(cb)))?.map_err(|e| format!("remap with a progress callback failed {e:?}"))?;
        log.check()?;
        if watched != plain && !cfg!(feature = "mt") { return Err("installing a progress callback changes the result".into()); }
        let n = log.count();
        c.count("callbacks", n as u64);
        let pts = points(&mut c.rng, n, c.ctx.thorough);
        for i in pts {
            let (cb, log) = recorder(move |k| k == i);
            match op(Some(Box::new(cb)))? {
                Err(Error::Aborted) => {},
                o => if log.count() > i { return Err(format!("asked to stop at call {i} of {n}, got {o:?}")); },
            }
            log.check()?;
            c.hit("aborts");
        }
        c.distinct(hash_px(n as u64, &p.px));
        Ok(())
    });
}
