//! Undithered remap is the nearest palette colour (brute force oracle).
use super::*;
use crate::color::*;

/// compares indices with brute force; returns number of pixels where the choice was not trivial
pub fn check_nearest(px: &[RGBA], img_gamma: f64, pal: &[RGBA], pal_gamma: f64, idx: &[u8], w: usize, every: usize) -> Result<u64, String> {
    let il = Lut::new(img_gamma);
    let pl = Lut::new(pal_gamma);
    let pf = pl.all(pal);
    let mut close = 0;
    let mut last: Option<(RGBA, usize, f64)> = None;
    for (i, (&p, &got)) in px.iter().zip(idx).enumerate().step_by(every) {
        let f = il.f(p);
        let (bi, bd) = match last { Some((lp, bi, bd)) if lp == p => (bi, bd), _ => nearest(&f, &pf) };
        last = Some((p, bi, bd));
        let gd = diff(&f, &pf[got as usize]);
        if gd > bd * 1.0005 + 2e-7 * bd.sqrt() + 1e-12 {
            return Err(format!("pixel {},{} {p:?} got entry {got} {:?} at distance {gd:.3e}, but entry {bi} {:?} is at {bd:.3e}", i % w, i / w, pal[got as usize], pal[bi]));
        }
        if img_gamma == pal_gamma {
            if let Some(e) = pal.iter().position(|&q| crate::gen::key(q) == crate::gen::key(p)) {
                if crate::gen::key(pal[got as usize]) != crate::gen::key(p) && gd > 1e-11 { return Err(format!("pixel {},{} {p:?} is palette entry {e} but got {:?}", i % w, i / w, pal[got as usize])); }
            }
        }
        if bd > 0. { close += 1; }
    }
    Ok(close)
}

pub fn test_palette(r: &mut crate::rng::Rng) -> (Vec<RGBA>, &'static str) {
    let n = match r.below(6) { 0 => 256, 1 => r.range(1, 9), 2 => r.range(200, 256), _ => r.range(1, 256) };
    match r.below(9) {
        0 => ((0..n).map(|_| opaque(r)).collect(), "random"),
        1 => ((0..n).map(|_| rgba(r.u8(), r.u8(), r.u8(), r.u8())).collect(), "rgba"),
        2 => ((0..n).map(|i| { let v = (i * 255 / n.max(1)) as u8; rgba(v, v, v, 255) }).collect(), "greys"),
        3 => { let b = opaque(r); ((0..n).map(|_| { let mut j = |x: u8| x.saturating_add(r.below(16) as u8).saturating_sub(r.below(16) as u8); rgba(j(b.r), j(b.g), j(b.b), 255) }).collect(), "cluster") },
        4 => { // two far clusters and a few outliers
            let (a, b) = (opaque(r), opaque(r));
            ((0..n).map(|i| if i % 17 == 0 { opaque(r) } else { let q = if i % 2 == 0 { a } else { b }; let mut j = |x: u8| x.saturating_add(r.below(24) as u8).saturating_sub(r.below(24) as u8); rgba(j(q.r), j(q.g), j(q.b), 255) }).collect(), "two clusters")
        },
        5 => { let s = r.pick(&[51, 64, 85]); let mut v = vec![]; for a in (0..=255u32).step_by(s) { for b in (0..=255u32).step_by(s) { for d in (0..=255u32).step_by(s) { v.push(rgba(a as u8, b as u8, d as u8, 255)); } } } v.truncate(256); (v, "grid") },
        6 => { let c = opaque(r); ((0..n).map(|i| rgba(c.r, c.g, c.b, (i * 255 / n.max(1)) as u8)).collect(), "alpha ramp") },
        7 => { let mut v: Vec<RGBA> = (0..n).map(|_| any_color(r)).collect(); v.truncate(256); (v, "mixed") },
        _ => (distinct_colors(r, n), "distinct"),
    }
}

pub fn run(x: &Ctx) {
    x.cases("dictated", x.n(4000, 80000), |c| {
        let r = &mut c.rng;
        let (colors, kind) = test_palette(r);
        let s = (r.range(1, 80), r.range(1, 60));
        let (w, h) = or_big(r, 0.02, s);
        let mut cfg = Cfg::plain(w, h);
        cfg.family = r.below(FAMILIES.len());
        cfg.src = r.pick(&SRCS);
        let mut px = image(r, w, h, cfg.family);
        // half of the queries close to palette colours and to midpoints between them
        for p in px.iter_mut() {
            if r.chance(0.4) {
                let (a, b) = (r.pick(&colors), r.pick(&colors));
                let t = if r.chance(0.5) { 128 } else { r.below(256) as u32 };
                let m = |x: u8, y: u8| ((x as u32 * t + y as u32 * (255 - t)) / 255) as u8;
                *p = match r.below(3) { 0 => a, 1 => rgba(m(a.r, b.r), m(a.g, b.g), m(a.b, b.b), m(a.a, b.a)), _ => rgba(a.r ^ 1, a.g, a.b ^ 1, a.a) };
            }
        }
        let p = Pix::new(r, w, h, px);
        let speed = r.range(1, 10) as i32;
        c.desc(format!("palette {kind} {} on {}", colors.len(), cfg.desc()));
        let mut q = dictated(&colors, speed, 0.)?;
        q.set_dithering_level(0.).map_err(|e| format!("{e:?}"))?;
        let a = cfg.attr()?;
        let mut img = make_image(&cfg, &a, &p)?;
        let (pal, idx) = q.remapped(&mut img).map_err(|e| format!("remap failed {e:?}"))?;
        check_indices(&pal, &idx, &cfg)?;
        let g = SRGB;
        let n = check_nearest(&p.px, g, &pal, g, &idx, w, 1)?;
        c.count("pixels_compared", p.px.len() as u64);
        c.count("inexact_choices", n);
        if n > 0 && pal.len() > 1 { c.distinct(hash_bytes(hash_px(0, &pal), &idx)); }
        c.hit(&format!("pal_{kind}"));
        Ok(())
    });
    x.cases("quantized", x.n(1200, 25000), |c| {
        let r = &mut c.rng;
        let mut cfg = Cfg::random(r);
        cfg.dither = Some(0.);
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        let px = image(r, cfg.w, cfg.h, cfg.family);
        let p = Pix::new(r, cfg.w, cfg.h, px);
        c.desc(cfg.desc());
        let o = match quant_remap(&cfg, &p) { Ok(o) => o, Err(e) => return expected_failure(&cfg, e) };
        check_indices(&o.pal, &o.idx, &cfg)?;
        let n = check_nearest(&p.px, cfg.g(), &o.pal, cfg.g(), &o.idx, cfg.w, 1)?;
        c.count("pixels_compared", p.px.len() as u64);
        c.count("inexact_choices", n);
        if n > 0 && o.pal.len() > 1 { c.distinct(hash_bytes(hash_px(0, &o.pal), &o.idx)); }
        Ok(())
    });
    // images larger than the pixel-cache limit are streamed row by row
    x.cases_t("streamed", x.n(2, 12), 4, |c| {
        let r = &mut c.rng;
        let (w, h) = (r.range(2050, 2300), r.range(2050, 2100));
        let mut cfg = Cfg::plain(w, h);
        cfg.speed = r.range(8, 10) as i32;
        cfg.family = r.pick(&[5, 6, 8, 2]);
        cfg.src = if c.idx % 2 == 0 { Src::Callback } else { Src::BorrowedStride };
        cfg.max_colors = r.range(16, 256) as u32;
        cfg.dither = Some(0.);
        let px = image(r, w, h, cfg.family);
        let p = Pix::new(r, w, h, px);
        c.desc(cfg.desc());
        let o = match quant_remap(&cfg, &p) { Ok(o) => o, Err(e) => return expected_failure(&cfg, e) };
        check_indices(&o.pal, &o.idx, &cfg)?;
        let n = check_nearest(&p.px, cfg.g(), &o.pal, cfg.g(), &o.idx, w, 37)?;
        c.count("inexact_choices", n);
        c.distinct(hash_bytes(hash_px(0, &o.pal), &o.idx));
        Ok(())
    });
}
