//! Fixed colours.
use super::*;
use crate::gen::key;
use std::collections::HashSet;

fn dedup(v: &[RGBA]) -> Vec<RGBA> {
    let mut s = HashSet::new();
    v.iter().copied().filter(|c| s.insert((c.r, c.g, c.b, c.a))).collect()
}

/// the first `max` distinct fixed colours must be in the palette
fn verify(pal: &[RGBA], fixed: &[RGBA], max: usize, what: &str) -> R {
    let d = dedup(fixed);
    let have: HashSet<u32> = pal.iter().map(|&c| key(c)).collect();
    for (i, &c) in d.iter().take(max).enumerate() {
        if c.a == 0 {
            if !pal.iter().any(|p| p.a == 0) { return Err(format!("{what}: fixed transparent colour missing from palette of {}", pal.len())); }
        } else if !have.contains(&key(c)) {
            let near = pal.iter().min_by_key(|p| (p.r as i32 - c.r as i32).pow(2) + (p.g as i32 - c.g as i32).pow(2) + (p.b as i32 - c.b as i32).pow(2) + (p.a as i32 - c.a as i32).pow(2));
            return Err(format!("{what}: fixed colour #{i} {c:?} of {} missing from palette of {} (closest {near:?})", d.len(), pal.len()));
        }
    }
    if pal.len() > max { return Err(format!("{what}: palette of {} exceeds {max}", pal.len())); }
    Ok(())
}

fn fixed_set(r: &mut crate::rng::Rng, px: &[RGBA], n: usize) -> Vec<RGBA> {
    let mut v = match r.below(5) {
        0 => (0..n).map(|_| any_color(r)).collect(),
        1 => { let b = opaque(r); (0..n).map(|i| rgba(b.r.wrapping_add(i as u8), b.g, b.b.wrapping_sub((i / 3) as u8), b.a)).collect() },
        2 => (0..n).map(|_| if px.is_empty() { any_color(r) } else { r.pick(px) }).collect(),
        _ => distinct_colors(r, n),
    };
    if r.chance(0.4) && !v.is_empty() { // duplicates
        for _ in 0..r.below(n / 2 + 2) { let d = r.pick(&v); let at = r.below(v.len() + 1); v.insert(at, d); }
        v.truncate(256);
    }
    v
}

pub fn run(x: &Ctx) {
    x.cases("image", x.n(2500, 50000), |c| {
        let r = &mut c.rng;
        let mut cfg = Cfg::random(r);
        cfg.post = 0;
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        let n = match r.below(5) { 0 => r.range(1, 256), 1 => r.range(1, 8), 2 => cfg.max_colors as usize, 3 => r.range(1, (cfg.max_colors as usize * 3 / 2).min(256)), _ => r.range(1, 40) };
        let px = image(r, cfg.w, cfg.h, cfg.family);
        cfg.fixed = fixed_set(r, &px, n);
        let p = Pix::new(r, cfg.w, cfg.h, px);
        c.desc(cfg.desc());
        let a = cfg.attr()?;
        let mut img = make_image(&cfg, &a, &p)?;
        let mut q = match a.quantize(&mut img) { Ok(q) => q, Err(e) => return Err(format!("quantize failed {e:?}")) };
        if let Some(d) = cfg.dither { q.set_dithering_level(d).map_err(|e| format!("{e:?}"))?; }
        let early = c.rng.chance(0.5);
        if early { verify(q.palette(), &cfg.fixed, cfg.max_colors as usize, "before remap")?; }
        let (pal, idx) = q.remapped(&mut img).map_err(|e| format!("remap failed {e:?}"))?;
        verify(&pal, &cfg.fixed, cfg.max_colors as usize, "after remap")?;
        check_indices(&pal, &idx, &cfg)?;
        c.count("fixed_colours", cfg.fixed.len() as u64);
        if dedup(&cfg.fixed).len() > cfg.max_colors as usize { c.hit("more_fixed_than_max"); }
        c.distinct(hash_px(hash_px(0, &cfg.fixed), &pal));
        Ok(())
    });
    x.cases("histogram", x.n(1500, 30000), |c| {
        let r = &mut c.rng;
        let mut cfg = Cfg::random(r);
        cfg.post = 0; cfg.gamma = 0.;
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        cfg.fixed.clear();
        let a = cfg.attr()?;
        let mut h = Histogram::new(&a);
        let mut fixed: Vec<RGBA> = vec![];
        let mut log = String::new();
        let steps = r.range(1, 5);
        let mut images = 0;
        for _ in 0..steps {
            match r.below(3) {
                0 => {
                    let n = r.range(1, 60);
                    for f in fixed_set(r, &[], n) {
                        if dedup(&fixed).len() >= 256 { break; }
                        h.add_fixed_color(f, 0.).map_err(|e| format!("fixed colour #{} refused: {e:?}", fixed.len()))?;
                        fixed.push(f);
                    }
                    log += "F";
                },
                1 => {
                    let (w, hh) = small_size(r);
                    let fam = r.below(FAMILIES.len());
                    let px = image(r, w, hh, fam);
                    let n = r.below(60);
                    let fs = if n > 0 { fixed_set(r, &px, n) } else { vec![] };
                    let mut img = a.new_image_borrowed(&px, w, hh, 0.).map_err(|e| format!("{e:?}"))?;
                    for &f in &fs { img.add_fixed_color(f).map_err(|e| format!("{e:?}"))?; }
                    let all: Vec<_> = fixed.iter().chain(&fs).copied().collect();
                    match h.add_image(&a, &mut img) {
                        Ok(()) if dedup(&all).len() <= 256 => fixed = all,
                        Ok(()) => return Err(format!("{} distinct fixed colours accepted", dedup(&all).len())),
                        Err(Error::BufferTooSmall) if dedup(&all).len() > 256 => { c.ctx.rep.lock().unwrap().counters.entry("histogram.too_many_refused".into()).and_modify(|v| *v += 1).or_insert(1); },
                        Err(e) => return Err(format!("add_image with {} fixed in total failed {e:?}", dedup(&all).len())),
                    }
                    images += 1;
                    log += "I";
                },
                _ => {
                    let e: Vec<_> = (0..r.range(1, 400)).map(|_| HistogramEntry { color: any_color(r), count: r.range(1, 1000) as u32 }).collect();
                    h.add_colors(&e, 0.).map_err(|e| format!("add_colors refused {e:?}"))?;
                    images += 1;
                    log += "C";
                },
            }
        }
        c.desc(format!("{log} {}", cfg.desc()));
        if fixed.is_empty() && images == 0 { return Ok(()); }
        let mut q = h.quantize(&a).map_err(|e| format!("quantize failed {e:?}"))?;
        verify(q.palette(), &fixed, cfg.max_colors as usize, "histogram palette")?;
        // remap something unrelated: fixed colours stay
        let px = image(&mut c.rng, 20, 20, cfg.family);
        let mut img = a.new_image_borrowed(&px, 20, 20, 0.).map_err(|e| format!("{e:?}"))?;
        let (pal, _) = q.remapped(&mut img).map_err(|e| format!("remap failed {e:?}"))?;
        verify(&pal, &fixed, cfg.max_colors as usize, "after remap")?;
        c.count("fixed_colours", fixed.len() as u64);
        if !fixed.is_empty() { c.distinct(hash_px(hash_px(0, &fixed), &pal)); }
        Ok(())
    });
    // the limit itself
    x.cases("limit", x.n(40, 400), |c| {
        let r = &mut c.rng;
        let cs = { let mut v = vec![]; for i in 0..300u32 { v.push(rgba(i as u8, (i >> 8) as u8 * 100 + r.below(3) as u8, 77, 255)); } v };
        let a = Attributes::new();
        let px = [rgba(1, 2, 3, 255)];
        c.desc("300 fixed colours".into());
        let mut img = a.new_image_borrowed(&px, 1, 1, 0.).map_err(|e| format!("{e:?}"))?;
        let mut h = Histogram::new(&a);
        for (i, &k) in cs.iter().enumerate() {
            let (ri, rh) = (img.add_fixed_color(k), h.add_fixed_color(k, 0.));
            let lim = if cfg!(feature = "large") { 2048 } else { 256 };
            if ri.is_ok() != (i < lim) || rh.is_ok() != (i < lim) { return Err(format!("fixed colour #{i}: image {ri:?} histogram {rh:?}")); }
        }
        c.distinct(hash_px(9, &cs));
        if !cfg!(feature = "large") {
            let mut q = h.quantize(&a).map_err(|e| format!("{e:?}"))?;
            verify(q.palette(), &cs[..256], 256, "histogram")?;
            let mut q = a.quantize(&mut img).map_err(|e| format!("{e:?}"))?;
            verify(q.palette(), &cs[..256], 256, "image")?;
        }
        Ok(())
    });
}
