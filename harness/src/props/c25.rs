//! Copies. One world goes through a random history, is copied, and the copy and the original go different ways;
//! a second world with the same history that was never copied tells what should have happened.
use super::*;
use crate::rng::Rng;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
enum S {
    Speed(i32), Max(u32), Quality(u8, u8), Post(u8), Lit(bool), AbortAt(f32), GetAttr,
    Importance(u64), Background(u64), Fixed(RGBA), Quantize, HistQuantize,
    Dither(f32), Gamma(f64), Remap, Palette, GetRes, ResAbortAt(f32), OtherRemap(u64),
}

fn steps(r: &mut Rng, n: usize) -> Vec<S> {
    (0..n).map(|_| match r.below(24) {
        0 => S::Speed(r.range(3, 10) as i32), 1 => S::Max(r.range(2, 256) as u32), 2 => { let t = r.range(0, 100) as u8; S::Quality(if r.chance(0.5) { 0 } else { t / 3 }, t) },
        3 => S::Post(r.below(5) as u8), 4 => S::Lit(r.chance(0.5)), 5 => S::AbortAt(if r.chance(0.8) { 1000. } else { r.f() as f32 * 100. }), 6 => S::GetAttr,
        7 => S::Importance(r.u64()), 8 => S::Background(r.u64()), 9 => S::Fixed(any_color(r)), 10 | 11 | 12 => S::Quantize, 13 => S::HistQuantize,
        14 => S::Dither(r.pick(&[0., 0.5, 1.])), 15 => S::Gamma(r.pick(&[0.3, 0.45455, 0.8])), 16 | 17 | 18 => S::Remap, 19 => S::Palette, 20 | 21 => S::GetRes,
        22 => S::ResAbortAt(if r.chance(0.7) { 1000. } else { r.f() as f32 * 100. }), _ => S::OtherRemap(r.u64()),
    }).collect()
}

#[derive(Clone)]
struct World<'a> { a: Attributes, i: Option<Image<'a>>, r: Option<QuantizationResult>, w: usize, h: usize, log: Arc<Mutex<Vec<String>>> }

impl World<'_> {
    fn step(&mut self, s: &S) -> String {
        let e = |r: Result<(), Error>| match r { Ok(()) => "ok".to_string(), Err(e) => format!("{e:?}") };
        match s {
            S::Speed(v) => e(self.a.set_speed(*v)),
            S::Max(v) => e(self.a.set_max_colors(*v)),
            S::Quality(m, t) => e(self.a.set_quality(*m, *t)),
            S::Post(v) => e(self.a.set_min_posterization(*v)),
            S::Lit(v) => { self.a.set_last_index_transparent(*v); String::new() },
            S::AbortAt(p) => { let (p, l) = (*p, self.log.clone()); self.a.set_progress_callback(move |v| { l.lock().unwrap().push(format!("progress {v}")); if v > p { ControlFlow::Break } else { ControlFlow::Continue } }); String::new() },
            S::GetAttr => format!("{} {} {:?} {}", self.a.speed(), self.a.max_colors(), self.a.quality(), self.a.min_posterization()),
            S::Importance(k) => { let Some(i) = &mut self.i else { return "no image".into() }; let r = &mut Rng::new(*k); e(i.set_importance_map((0..self.w * self.h).map(|_| r.u8()).collect::<Vec<_>>())) },
            S::Background(k) => {
                let Some(i) = &mut self.i else { return "no image".into() };
                let r = &mut Rng::new(*k);
                let px = image(r, self.w, self.h, r.clone().below(FAMILIES.len()));
                let w = self.w;
                let b = if k % 2 == 0 { self.a.new_image(px, self.w, self.h, 0.) } else {
                    unsafe { Image::new_fn(&self.a, move |row: &mut [std::mem::MaybeUninit<RGBA>], y: usize| for (d, s) in row.iter_mut().zip(&px[y * w..][..w]) { d.write(*s); }, self.w, self.h, 0.) }
                };
                match b { Ok(b) => e(i.set_background(b)), Err(e) => format!("{e:?}") }
            },
            S::Fixed(c) => { let Some(i) = &mut self.i else { return "no image".into() }; e(i.add_fixed_color(*c)) },
            S::Quantize => { let Some(i) = &mut self.i else { return "no image".into() }; match self.a.quantize(i) { Ok(r) => { self.r = Some(r); self.step(&S::GetRes) }, Err(e) => format!("{e:?}") } },
            S::HistQuantize => {
                let Some(i) = &mut self.i else { return "no image".into() };
                let mut h = Histogram::new(&self.a);
                if let Err(e) = h.add_image(&self.a, i) { return format!("{e:?}"); }
                match h.quantize(&self.a) { Ok(r) => { self.r = Some(r); self.step(&S::GetRes) }, Err(e) => format!("{e:?}") }
            },
            S::Dither(v) => { let Some(r) = &mut self.r else { return "no result".into() }; e(r.set_dithering_level(*v)) },
            S::Gamma(v) => { let Some(r) = &mut self.r else { return "no result".into() }; e(r.set_output_gamma(*v)) },
            S::Palette => { let Some(r) = &mut self.r else { return "no result".into() }; format!("{:x} {}", hash_px(0, r.palette()), r.palette_len()) },
            S::GetRes => { let Some(r) = &mut self.r else { return "no result".into() }; format!("{:?} {:?} {:?} {:?} {}", r.quantization_error(), r.quantization_quality(), r.remapping_error(), r.remapping_quality(), r.output_gamma()) },
            S::ResAbortAt(p) => { let Some(r) = &mut self.r else { return "no result".into() }; let (p, l) = (*p, self.log.clone()); r.set_progress_callback(move |v| { l.lock().unwrap().push(format!("remap progress {v}")); if v > p { ControlFlow::Break } else { ControlFlow::Continue } }); String::new() },
            S::Remap => {
                let (Some(r), Some(i)) = (&mut self.r, &mut self.i) else { return "nothing".into() };
                match r.remapped(i) { Ok((p, x)) => format!("{:x} {:x} {:?}", hash_px(0, &p), hash_bytes(0, &x), r.remapping_error()), Err(e) => format!("{e:?}") }
            },
            S::OtherRemap(k) => {
                let Some(r) = &mut self.r else { return "no result".into() };
                let g = &mut Rng::new(*k);
                let (w, h) = (g.range(1, 30), g.range(1, 30));
                let px = image(g, w, h, g.clone().below(FAMILIES.len()));
                let mut i = match self.a.new_image(px, w, h, 0.) { Ok(i) => i, Err(e) => return format!("{e:?}") };
                match r.remapped(&mut i) { Ok((p, x)) => format!("{:x} {:x} {:?}", hash_px(0, &p), hash_bytes(0, &x), r.remapping_error()), Err(e) => format!("{e:?}") }
            },
        }
    }
    fn run(&mut self, s: &[S]) -> Vec<String> {
        s.iter().map(|s| { self.log.lock().unwrap().clear(); let o = self.step(s); let l = std::mem::take(&mut *self.log.lock().unwrap()); format!("{o} ({} events {:x})", l.len(), l.iter().fold(1, |h, m| hash_bytes(h, m.as_bytes()))) }).collect()
    }
}

fn world<'a>(cfg: &Cfg, p: &'a Pix) -> Result<World<'a>, String> {
    let mut a = cfg.attr()?;
    let log = Arc::new(Mutex::new(vec![]));
    let l = log.clone();
    a.set_log_callback(move |_, m| l.lock().unwrap().push(m.to_string()));
    let l = log.clone();
    a.set_log_flush_callback(move |_| l.lock().unwrap().push("flush".into()));
    let i = make_image(cfg, &a, p)?;
    Ok(World { a, i: Some(i), r: None, w: cfg.w, h: cfg.h, log })
}

pub fn run(x: &Ctx) {
    x.cases("copies", x.n(6000, 150000), |c| {
        let r = &mut c.rng.clone();
        let (w, h) = if cfg!(miri) { (r.range(1, 6), r.range(1, 6)) } else if r.chance(0.01) { big_size(r) } else { (r.range(1, 40), r.range(1, 40)) };
        let mut cfg = Cfg::random_sized(r, w, h);
        cfg.speed = r.range(3, 10) as i32;
        cfg.fixed.truncate(4);
        cfg.src = r.pick(&SRCS);
        let px = image(r, w, h, cfg.family);
        let p = Pix::new(r, w, h, px);
        let n = r.range(0, 7);
        let before = steps(r, n);
        let n = r.range(0, 7);
        let between = steps(r, n);
        let n = r.range(1, 8);
        let after = steps(r, n);
        let use_copy = r.chance(0.6);
        let drop_other = r.below(4);
        c.desc(format!("{before:?}; copied; {between:?} {}; {after:?} {}", if drop_other == 3 { "other stays" } else { "other dropped" }, cfg.desc()));
        // never copied
        let want = {
            let mut z = world(&cfg, &p)?;
            z.run(&before);
            if use_copy { if let Some(r) = &mut z.r { r.set_progress_callback(|_| ControlFlow::Continue); } }
            let mut v = z.run(&after[..]);
            v.push(z.step(&S::GetAttr));
            v
        };
        let mut z = world(&cfg, &p)?;
        z.run(&before);
        let mut copy = z.clone();
        let (mut used, mut other) = if use_copy { (copy, z) } else { std::mem::swap(&mut copy, &mut z); (copy, z) };
        used.log = used.log.clone();
        other.run(&between);
        let kept = match drop_other { 0 | 1 => { drop(other); None }, 2 => { other.i = None; Some(other) }, _ => Some(other) };
        let mut got = used.run(&after);
        got.push(used.step(&S::GetAttr));
        drop(kept);
        if let Some(k) = (0..want.len()).find(|&k| want[k] != got[k]) {
            return Err(format!("{} after {} was {} by the {}: `{}` instead of `{}`", after.get(k).map_or("settings".into(), |s| format!("{s:?}")), if use_copy { "a copy" } else { "the original" }, "affected", if use_copy { "original" } else { "copy" }, got[k], want[k]));
        }
        let hsh = want.iter().fold(3, |h, s| hash_bytes(h, s.as_bytes()));
        c.distinct(hsh);
        c.hit(if use_copy { "copy used" } else { "original used" });
        for s in &after { if matches!(s, S::Remap | S::OtherRemap(_)) { c.hit("remaps after the copy"); } if matches!(s, S::Quantize) { c.hit("quantizations after the copy"); } }
        Ok(())
    });
    #[cfg(feature = "capi")]
    x.cases("liq_attr_copy", x.n(3000, 60000), |c| {
        use crate::capi::*;
        let r = &mut c.rng.clone();
        let px: Vec<RGBA> = image(r, 12, 9, c.idx as usize);
        let set = |a: *mut Attr, r: &mut Rng, n: usize| unsafe { for _ in 0..n { match r.below(5) {
            0 => { set_speed(a, r.range(3, 10) as _); }, 1 => { set_max_colors(a, r.range(2, 256) as _); },
            2 => { let t = r.range(0, 100) as i32; set_quality(a, t / 4, t); }, 3 => { set_min_posterization(a, r.below(5) as _); }, _ => { set_last_index_transparent(a, r.below(2) as _); },
        } } };
        let look = |a: *mut Attr| unsafe {
            let mut s = format!("{} {} {} {} {} ", get_speed(a), get_max_colors(a), get_min_quality(a), get_max_quality(a), get_min_posterization(a));
            let i = image_create_rgba(a, px.as_ptr(), 12, 9, 0.);
            let mut q = std::ptr::null_mut();
            s += &format!("{} ", image_quantize(i, a, &mut q));
            if !q.is_null() {
                let mut out = [0u8; 108];
                s += &format!("{} {:?} ", write_remapped_image(q, i, out.as_mut_ptr(), 108), palette(q));
                s += &format!("{out:?}");
                result_destroy(q);
            }
            image_destroy(i);
            s
        };
        let (n, m, k) = (r.below(6), r.below(6), r.below(4));
        let (use_copy, gone, seed) = (r.chance(0.6), r.chance(0.5), r.u64());
        c.desc(format!("{n} settings, copied, {m} settings, {k} more; copy used {use_copy}, other destroyed {gone}"));
        unsafe {
            let a = attr_create();
            let g = &mut Rng::new(seed);
            set(a, g, n);
            let mut r2 = g.clone();
            set(a, &mut r2, k);
            let want = look(a);
            attr_destroy(a);
            let a = attr_create();
            set(a, &mut Rng::new(seed), n);
            let b = attr_copy(a);
            if b.is_null() { return Err("no copy".into()); }
            let (used, other) = if use_copy { (b, a) } else { (a, b) };
            set(other, &mut Rng::new(seed ^ 1), m);
            look(other);
            if gone { attr_destroy(other); }
            set(used, &mut g.clone(), k);
            let got = look(used);
            attr_destroy(used);
            if !gone { attr_destroy(other); }
            if got != want { return Err(format!("`{got}` instead of `{want}`")); }
            c.distinct(hash_bytes(1, got.as_bytes()));
        }
        Ok(())
    });
    // a copy of the result has no progress callback
    x.cases("progress", x.n(100, 2000), |c| {
        let r = &mut c.rng.clone();
        let px = image(r, 20, 20, c.idx as usize);
        let p = Pix::new(r, 20, 20, px);
        let cfg = Cfg::plain(20, 20);
        let mut z = world(&cfg, &p)?;
        z.run(&[S::Quantize, S::ResAbortAt(-1.)]);
        if z.r.is_none() { return Ok(()); }
        let mut copy = z.clone();
        if !z.step(&S::Remap).starts_with("Aborted") { return Err("abort ignored by the original".into()); }
        let o = copy.step(&S::Remap);
        if o.starts_with("Aborted") { return Err("copy of a result kept the progress callback".into()); }
        c.distinct(hash_bytes(1, o.as_bytes()));
        Ok(())
    });
}
