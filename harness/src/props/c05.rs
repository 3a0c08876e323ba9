//! Minimum quality is enforced and refuses only what it should; target quality saves colours.
use super::*;
use crate::color::*;

struct Base { q: u8, err: f64, len: usize, rerr: f64 }

fn base(cfg: &Cfg, p: &Pix, quality: Option<(u8, u8)>, via_hist: bool) -> Result<Result<Base, Error>, String> {
    let mut c = cfg.clone();
    c.quality = quality;
    c.dither = Some(0.);
    let via = || -> Result<Out, Result<Error, String>> {
        let a = c.attr().map_err(Err)?;
        let mut img = make_image(&c, &a, p).map_err(Err)?;
        let mut h = Histogram::new(&a);
        h.add_image(&a, &mut img).map_err(Ok)?;
        let mut q = h.quantize(&a).map_err(Ok)?;
        q.set_dithering_level(0.).map_err(|e| Err(format!("{e:?}")))?;
        remap_out(&mut q, &mut img).map_err(|e| Err(format!("remap failed {e:?}")))
    };
    match if via_hist { via() } else { quant_remap(&c, p) } {
        Ok(o) => Ok(Ok(Base {
            q: o.qq.ok_or("no quantization quality although a quality range was set")?,
            err: o.qerr.ok_or("no quantization error although a quality range was set")?,
            len: o.pal.len(),
            rerr: o.rerr.ok_or("no remapping error after an undithered remap")?,
        })),
        Err(Ok(e)) => Ok(Err(e)),
        Err(Err(s)) => Err(s),
    }
}

pub fn run(x: &Ctx) {
    x.cases("minimum", x.n(1000, 20000), |c| {
        let r = &mut c.rng;
        let s = (r.range(8, 110), r.range(8, 110));
        let (w, h) = or_big(r, 0.02, s);
        let mut cfg = Cfg::random_sized(r, w, h);
        cfg.fixed.truncate(3);
        cfg.gamma = 0.;
        cfg.speed = r.range(3, 10) as i32;
        if r.chance(0.1) { cfg.speed = r.range(1, 2) as i32; }
        let t = r.pick(&[100u8, 100, 100, 90, 80, 60, 40]);
        let px = image(r, w, h, cfg.family);
        let few = count_distinct(&px) + cfg.fixed.len() <= 256;
        let mask = 255u8 << cfg.post.max(if cfg.speed >= 8 { 1 } else { 0 });
        let classes = count_distinct(&px.iter().map(|p| rgba(p.r & mask, p.g & mask, p.b & mask, p.a & mask)).collect::<Vec<_>>());
        let maybe_few = few || classes + cfg.fixed.len() <= 256 + cfg.fixed.len() * 2;
        let p = Pix::new(r, w, h, px);
        let via_hist = c.rng.chance(0.35);
        if via_hist { c.hit("via_histogram"); }
        c.desc(format!("{} target{t} hist {via_hist}", cfg.desc()));
        let b0 = match base(&cfg, &p, Some((0, t)), via_hist)? { Ok(b) => b, Err(e) => return Err(format!("minimum quality 0 failed with {e:?}")) };
        let limit = |m: u8| std_mse(quality_to_mse(m)) * if few { 0.33 } else { 1. };
        let mut ms: Vec<u8> = vec![1, c.rng.range(0, t as usize) as u8, c.rng.range(0, t as usize) as u8, t];
        // around the decision boundary
        for d in [-9i32, -4, -2, -1, 0, 1, 2, 4, 9] { let m = b0.q as i32 + d; if m >= 0 && m <= t as i32 { ms.push(m as u8); } }
        c.rng.shuffle(&mut ms);
        ms.truncate(5);
        for m in ms {
            let e0 = b0.err;
            match base(&cfg, &p, Some((m, t)), via_hist)? {
                Ok(b) => {
                    c.hit("met");
                    if b.q < m { return Err(format!("minimum quality {m} but the palette's reported quality is {}", b.q)); }
                    if b.err > limit(m) * 1.0001 + 1e-9 && m > 0 { return Err(format!("minimum quality {m} allows error {:.4} but the palette has {:.4}", limit(m), b.err)); }
                    // the promise is about the real picture, not only about the reported number
                    if m > 0 && cfg.post == 0 && cfg.fixed.is_empty() && b.rerr > 5. * std_mse(quality_to_mse(m)) + 1.5 { return Err(format!("minimum quality {m} (error {:.3}) but undithered remapping has error {:.3}", limit(m), b.rerr)); }
                },
                Err(Error::QualityTooLow) => {
                    c.hit("refused");
                    if m == 0 { return Err("minimum quality 0 refused".into()); }
                    let lowest = std_mse(quality_to_mse(m)) * if maybe_few { 0.33 } else { 1. };
                    if e0 < lowest * 0.98 { c.hit("refused_inside"); }
                    let slack = if cfg.fixed.is_empty() { 0.9 } else { 0.5 };
                    if e0 < lowest * slack - 1e-9 { return Err(format!("minimum quality {m} (error up to {lowest:.4}) refused, although without it the palette has error {e0:.4} (quality {})", b0.q)); }
                },
                Err(e) => return Err(format!("minimum quality {m} failed with {e:?}")),
            }
        }
        c.distinct(hash_px(c.idx, &p.px));
        Ok(())
    });
    let (inside, refused) = (x.counter("minimum.refused_inside"), x.counter("minimum.refused"));
    if inside > 3 + refused / 1000 { x.fail("minimum", format!("{inside} of {refused} refusals of a minimum quality that the palette without a minimum meets")); }
    // an image of no more colours than allowed can always be as good as demanded
    x.cases("few", x.n(800, 15000), |c| {
        let r = &mut c.rng.clone();
        let s = (r.range(1, 60), r.range(1, 60));
        let mut cfg = Cfg::random_sized(r, s.0, s.1);
        cfg.fixed.clear();
        cfg.post = 0;
        let k = match r.below(3) { 0 => r.range(1, 12), 1 => r.range(2, 60), _ => r.range(2, 256) };
        cfg.max_colors = (k + r.pick(&[0, 0, 1, 10])).clamp(2, 256) as u32;
        let cs = distinct_colors(r, k);
        let skew = r.range(1, 3);
        let px: Vec<RGBA> = (0..s.0 * s.1).map(|_| { let mut i = r.below(cs.len()); for _ in 1..skew { i = i.min(r.below(cs.len())); } cs[i] }).collect();
        let p = Pix::new(r, s.0, s.1, px);
        let t = r.range(0, 100) as u8;
        let m = if r.chance(0.5) { t } else { r.range(0, t as usize) as u8 };
        c.desc(format!("{} {k} colours quality {m}-{t}", cfg.desc()));
        match base(&cfg, &p, Some((m, t)), r.chance(0.3))? { Ok(b) => { if b.len < count_distinct(&p.px) { c.hit("fewer"); } else { c.hit("all"); } }, Err(e) => { c.hit("refused"); return Err(format!("{e:?} although the palette may have all {} colours of the image", count_distinct(&p.px))); } }
        c.distinct(hash_px(c.idx, &p.px));
        Ok(())
    });
    x.cases("target", x.n(1500, 20000), |c| {
        let r = &mut c.rng;
        let s = (r.range(8, 110), r.range(8, 110));
        let (w, h) = or_big(r, 0.02, s);
        let mut cfg = Cfg::random_sized(r, w, h);
        cfg.fixed.clear();
        cfg.gamma = 0.;
        cfg.post = 0;
        cfg.speed = r.range(3, 10) as i32;
        let px = image(r, w, h, cfg.family);
        let p = Pix::new(r, w, h, px);
        c.desc(cfg.desc());
        let full = base(&cfg, &p, Some((0, 100)), false)?.map_err(|e| format!("{e:?}"))?;
        let n = count_distinct(&p.px);
        let mut lens = vec![];
        for t in [95u8, 80, 60, 40, 20, 5, 0] {
            let b = base(&cfg, &p, Some((0, t)), false)?.map_err(|e| format!("{e:?}"))?;
            if b.len > full.len { return Err(format!("target quality {t} gives {} colours, target 100 gives {}", b.len, full.len)); }
            if b.len < (cfg.max_colors as usize).min(n) {
                c.hit("smaller");
                let lim = std_mse(quality_to_mse(t));
                if b.err > lim * 1.1 + 1e-6 { c.hit("smaller_off"); }
            }
            lens.push(b.len);
        }
        if lens[6] < lens[0] { c.hit("saves"); }
        c.distinct(hash_px(c.idx, &p.px));
        Ok(())
    });
    let (n, off) = (x.counter("target.smaller"), x.counter("target.smaller_off"));
    if off > 3 + n / 2000 { x.fail("target", format!("{off} of {n} palettes smaller than allowed miss the target quality")); }
}
