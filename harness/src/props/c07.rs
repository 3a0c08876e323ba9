//! Palettes are competitive with a plain reference quantizer.
use super::*;
use crate::color::*;

type Hist = Vec<(F, f64)>;

pub fn histogram(px: &[RGBA], l: &Lut) -> Hist {
    let mut m: std::collections::BTreeMap<u32, (f64, RGBA)> = Default::default();
    for &p in px { m.entry(crate::gen::key(p)).or_insert((0., p)).0 += 1.; }
    // no colour counts for more than a tenth of the image
    let cap = px.len() as f64 * 0.1;
    m.values().map(|&(n, p)| (l.f(p), n.min(cap))).collect()
}

pub fn err(h: &Hist, pal: &[F]) -> f64 {
    let (mut s, mut t) = (0., 0.);
    for (f, n) in h { s += nearest(f, pal).1 * n; t += n; }
    std_mse(s / t)
}

/// greedy farthest/heaviest seeding + Lloyd iterations
pub fn reference(h: &Hist, k: usize, iters: usize) -> Vec<F> {
    if h.len() <= k { return h.iter().map(|x| x.0).collect(); }
    let mut best: Vec<f64> = vec![f64::MAX; h.len()];
    let mut pal: Vec<F> = Vec::new();
    let first = (0..h.len()).max_by(|&a, &b| h[a].1.total_cmp(&h[b].1)).unwrap();
    pal.push(h[first].0);
    while pal.len() < k {
        let last = *pal.last().unwrap();
        for (b, x) in best.iter_mut().zip(h) { *b = b.min(diff(&x.0, &last)); }
        let i = (0..h.len()).max_by(|&a, &b| (best[a] * h[a].1).total_cmp(&(best[b] * h[b].1))).unwrap();
        if best[i] <= 0. { break; }
        pal.push(h[i].0);
    }
    for _ in 0..iters {
        let mut s = vec![([0.; 4], 0.); pal.len()];
        for (f, n) in h {
            let (i, _) = nearest(f, &pal);
            for c in 0..4 { s[i].0[c] += f[c] * n; }
            s[i].1 += n;
        }
        for (p, (s, n)) in pal.iter_mut().zip(&s) { if *n > 0. { *p = s.map(|v| v / n); } }
    }
    pal
}

fn palette(cfg: &Cfg, p: &Pix) -> Result<Vec<RGBA>, String> {
    let a = cfg.attr()?;
    let mut img = make_image(cfg, &a, p)?;
    let mut q = a.quantize(&mut img).map_err(|e| format!("quantize failed {e:?}"))?;
    Ok(q.palette_vec())
}

/// normally 0.07..0.11
const LIMIT: f64 = 0.2;

pub fn run(x: &Ctx) {
    x.cases("reference", x.n(700, 15000), |c| {
        let r = &mut c.rng;
        let s = (r.range(12, 64), r.range(12, 64));
        let (w, h) = or_big(r, 0.02, s);
        let mut cfg = Cfg::plain(w, h);
        cfg.family = r.below(FAMILIES.len());
        cfg.speed = r.range(1, 10) as i32;
        cfg.max_colors = match r.below(4) { 0 => 256, 1 => r.range(2, 6) as u32, 2 => r.range(7, 40) as u32, _ => r.range(16, 256) as u32 };
        let px = image(r, w, h, cfg.family);
        let p = Pix::new(r, w, h, px);
        c.desc(cfg.desc());
        let l = Lut::new(0.);
        let hist = histogram(&p.px, &l);
        let pal = palette(&cfg, &p)?;
        let e = err(&hist, &l.all(&pal));
        let re = err(&hist, &reference(&hist, cfg.max_colors as usize, 6));
        let ratio = (e + 1.) / (re + 1.);
        let fast = cfg.speed >= 8;
        let hard = if cfg.max_colors < 16 { 400. } else if fast { 40. } else { 15. };
        if ratio > hard { return Err(format!("palette error {e:.3}, plain k-means achieves {re:.3}")); }
        c.hit(if fast { "fast" } else { "thorough" });
        if ratio > if fast { 2. } else { 1.3 } { c.hit(if fast { "fast_off" } else { "thorough_off" }); }
        if ratio < 1. { c.hit("beats_reference"); }
        let group = ["few", "some", "many"][if cfg.max_colors < 16 { 0 } else if cfg.max_colors < 64 { 1 } else { 2 }];
        let lr = ((e + 0.2) / (re + 0.2)).ln();
        for g in [format!("speed{}", cfg.speed), format!("{group} colours")] {
            c.count(&format!("{g} n"), 1);
            c.count(&format!("{g} log ratio x1000 + 10000"), (lr * 1000. + 10000.) as u64);
        }
        c.sample(format!("palette error {e:.3}, reference {re:.3}"));
        c.distinct(e.to_bits());
        Ok(())
    });
    // only one of the channels differs, in the whole image or half of it
    x.cases("channel", x.n(800, 12000), |c| {
        let r = &mut c.rng;
        let (w, h) = (r.range(12, 60), r.range(12, 60));
        let mut cfg = Cfg::plain(w, h);
        cfg.speed = r.range(1, 10) as i32;
        cfg.max_colors = r.range(4, 64) as u32;
        let chan = r.below(5);
        let (base, lo, hi, noise, mixed) = (opaque(r), r.below(100), r.range(130, 255), r.chance(0.5), r.chance(0.5));
        let px: Vec<RGBA> = (0..w * h).map(|i| {
            let (x, y) = (i % w, i / w);
            let v = (lo + if noise { r.below(hi - lo) } else { (x * (hi - lo) / w + y * 7 % 11).min(hi - lo) }) as u8;
            if mixed && y * 2 >= h { return rgba(v, v, v, 255); }
            match chan { 0 => rgba(v, base.g, base.b, 255), 1 => rgba(base.r, v, base.b, 255), 2 => rgba(base.r, base.g, v, 255), 3 => rgba(0, 0, 0, v), _ => rgba(base.r, base.g, base.b, v) }
        }).collect();
        let p = Pix::new(r, w, h, px);
        let chan = ["red", "green", "blue", "shadow", "alpha"][chan];
        c.desc(format!("{} {chan} noise {noise} mixed {mixed}", cfg.desc()));
        let l = Lut::new(0.);
        let hist = histogram(&p.px, &l);
        let e = err(&hist, &l.all(&palette(&cfg, &p)?));
        let re = err(&hist, &reference(&hist, cfg.max_colors as usize, 6));
        let lr = ((e + 0.2) / (re + 0.2)).ln();
        if lr > 6. { return Err(format!("palette error {e:.3}, plain k-means achieves {re:.3}")); }
        c.count(&format!("{chan} n"), 1);
        c.count(&format!("{chan} log ratio x1000 + 10000"), (lr * 1000. + 10000.) as u64);
        c.distinct(e.to_bits());
        Ok(())
    });
    for g in ["red", "green", "blue", "shadow", "alpha"] {
        let (n, sum) = (x.counter(&format!("channel.{g} n")), x.counter(&format!("channel.{g} log ratio x1000 + 10000")));
        let mean = (sum as f64 / n.max(1) as f64 - 10000.) / 1000.;
        if n >= 100 && mean > LIMIT { x.fail("channel", format!("errors of {n} palettes (only {g} differs) are on average {:.3} times those of plain k-means, more than {:.3}", mean.exp(), LIMIT.exp())); }
    }
    x.cases("groups", x.n(500, 10000), |c| {
        let r = &mut c.rng;
        let k = r.range(2, 24);
        let mut cfg = Cfg::plain(r.range(30, 70), r.range(30, 70));
        cfg.speed = r.range(1, 10) as i32;
        cfg.max_colors = (2 * k + 4 + r.below(40)).min(256) as u32;
        // well separated groups
        let l = Lut::new(0.);
        let mut cs: Vec<RGBA> = vec![];
        let mut t = 0;
        while cs.len() < k && t < 5000 {
            t += 1;
            let n = if r.chance(0.2) { rgba(r.u8(), r.u8(), r.u8(), r.u8()) } else { opaque(r) };
            if cs.iter().all(|&o| diff(&l.f(o), &l.f(n)) > 0.03) { cs.push(n); }
        }
        let n = cfg.w * cfg.h;
        let noise = r.below(5);
        let layout = r.below(3);
        let px: Vec<RGBA> = (0..n).map(|i| {
            let c = match layout { 0 => cs[i * cs.len() / n], 1 => r.pick(&cs), _ => cs[(i % cfg.w) * cs.len() / cfg.w] };
            let mut j = |x: u8| x.saturating_add(r.below(noise + 1) as u8).saturating_sub(r.below(noise + 1) as u8);
            rgba(j(c.r), j(c.g), j(c.b), c.a)
        }).collect();
        let p = Pix::new(r, cfg.w, cfg.h, px);
        c.desc(format!("{} groups, noise {noise}, layout {layout}, {}", cs.len(), cfg.desc()));
        let pal = l.all(&palette(&cfg, &p)?);
        for &g in &cs {
            let share = p.px.iter().filter(|&&q| diff(&l.f(q), &l.f(g)) < 0.005).count();
            if share < n / 60 { continue; }
            let d = nearest(&l.f(g), &pal).1;
            if d > 0.004 { return Err(format!("{share} of {n} pixels are {g:?} and the palette may have {} colours, but the nearest is at {d:.4}", cfg.max_colors)); }
            c.hit("groups_seen");
        }
        c.distinct(hash_px(0, &p.px));
        Ok(())
    });
    x.cases("monotone", x.n(300, 6000), |c| {
        let r = &mut c.rng;
        let (w, h) = (r.range(16, 64), r.range(16, 64));
        let mut cfg = Cfg::plain(w, h);
        cfg.family = r.below(FAMILIES.len());
        cfg.speed = r.range(1, 10) as i32;
        let px = image(r, w, h, cfg.family);
        let p = Pix::new(r, w, h, px);
        let k = r.range(2, 128) as u32;
        let k2 = (k + 1 + r.below(k as usize * 2) as u32).min(256);
        c.desc(format!("{} {k}->{k2}", cfg.desc()));
        let l = Lut::new(0.);
        let hist = histogram(&p.px, &l);
        cfg.max_colors = k;
        let e1 = err(&hist, &l.all(&palette(&cfg, &p)?));
        cfg.max_colors = k2;
        let e2 = err(&hist, &l.all(&palette(&cfg, &p)?));
        let f = if k < 16 { 15. } else { 4. };
        c.hit("more colours");
        if e2 > e1 * 1.2 + 0.3 { c.hit("more colours worse"); }
        if e2 > e1 * f + 2. { c.hit("far worse"); }
        if e2 > e1 * f + 20. { return Err(format!("{k} colours have error {e1:.3}, {k2} colours {e2:.3}")); }
        if cfg.speed > 1 {
            cfg.speed = c.rng.range(1, cfg.speed as usize - 1) as i32;
            let e3 = err(&hist, &l.all(&palette(&cfg, &p)?));
            c.hit("slower");
            if e3 > e2 * 1.2 + 0.3 { c.hit("slower worse"); }
            if e3 > e2 * f + 2. { c.hit("far worse"); }
            if e3 > e2 * f + 20. { return Err(format!("error {e2:.3}, but with the slower speed {} {e3:.3}", cfg.speed)); }
        }
        c.distinct(hash_px(0, &p.px));
        Ok(())
    });
    // e to the power of this is the typical ratio of errors; normally 0.08 0.07 0.11, 0.03..0.08 at speeds 1-7, 0.2 at 8-10
    let groups = (1..=10).map(|s| (format!("speed{s}"), 150, if s < 7 { 0.13 } else if s == 7 { 0.17 } else { 0.3 }))
        .chain([("few", 0.15), ("some", 0.13), ("many", 0.18)].map(|(g, l)| (format!("{g} colours"), 300, l)));
    for (g, least, limit) in groups {
        let (n, sum) = (x.counter(&format!("reference.{g} n")), x.counter(&format!("reference.{g} log ratio x1000 + 10000")));
        let mean = (sum as f64 / n.max(1) as f64 - 10000.) / 1000.;
        if n >= least && mean > limit { x.fail("reference", format!("errors of {n} palettes ({g}) are on average {:.3} times those of plain k-means, more than {:.3}", mean.exp(), limit.exp())); }
    }
    for k in ["more colours", "slower"] {
        let (n, bad) = (x.counter(&format!("monotone.{k}")), x.counter(&format!("monotone.{k} worse")));
        if bad > 2 + n / 100 { x.fail("monotone", format!("{k} made the palette worse {bad} times of {n}")); }
    }
    let (n, far) = (x.counter("monotone.more colours") + x.counter("monotone.slower"), x.counter("monotone.far worse"));
    if far > 2 + n / 300 { x.fail("monotone", format!("more colours or a slower speed made the palette far worse {far} times of {n}")); }
    for (k, limit) in [("fast", 14), ("thorough", 10)] {
        let (n, off) = (x.counter(&format!("reference.{k}")), x.counter(&format!("reference.{k}_off")));
        if n >= 100 && off * limit > n { x.fail("reference", format!("{off} of {n} palettes ({k} speeds) are clearly worse than plain k-means (normally 2-5%)")); }
    }
}
