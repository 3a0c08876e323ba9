//! Gamma conversion.
use super::*;

fn e(x: Error) -> String { format!("{x:?}") }
/// what colour v is in the other gamma
fn conv(v: u8, from: f64, to: f64) -> f64 { (v as f64 / 255.).powf(to / from) * 255. }

fn check(src: &[RGBA], shown: &[RGBA], from: f64, to: f64) -> R {
    for (&s, &o) in src.iter().zip(shown) {
        if s.a != o.a { return Err(format!("alpha of {s:?} became {}", o.a)); }
        if s.a == 0 { continue; }
        for (name, v, g) in [("red", s.r, o.r), ("green", s.g, o.g), ("blue", s.b, o.b)] {
            let w = conv(v, from, to);
            if (g as f64 - w).abs() > 1.02 { return Err(format!("{name} of {s:?} converted from gamma {from} to {to} is {g}, should be {w:.2}")); }
            if (v == 0 || v == 255) && g != v { return Err(format!("{name} {v} of {s:?} became {g}")); }
        }
    }
    Ok(())
}

fn has_all(cs: &[RGBA], pal: &[RGBA], f: f64, to: f64) -> R {
    if pal.len() != cs.len() { return Err(format!("{} palette colours for {} colours", pal.len(), cs.len())); }
    for &s in cs {
        if !pal.iter().any(|&o| check(&[s], &[o], f, to).is_ok()) { return Err(format!("palette at output gamma {to} has no entry for {s:?} (input gamma {f}); converted it is {:.1} {:.1} {:.1}", conv(s.r, f, to), conv(s.g, f, to), conv(s.b, f, to))); }
    }
    Ok(())
}

pub fn run(x: &Ctx) {
    x.cases("convert", x.n(1200, 25000), |c| {
        let r = &mut c.rng.clone();
        let from = match r.below(4) { 0 => 0., 1 => crate::color::SRGB, 2 => 1., _ => 0.2 + r.f() * 0.8 };
        let f = if from == 0. { crate::color::SRGB } else { from };
        let (w, h) = small_size(r);
        let n = r.range(1, 256.min(w * h));
        let cs = distinct_colors(r, n);
        let mut px: Vec<RGBA> = (0..w * h).map(|i| cs[i % n]).collect();
        r.shuffle(&mut px);
        let mut a = Attributes::new();
        a.set_speed(r.range(1, 7) as i32).map_err(e)?;
        c.desc(format!("{w}x{h} {n} colours gamma {from}"));
        let mut img = a.new_image_borrowed(&px, w, h, from).map_err(e)?;
        let by_hist = from < 1. && r.chance(0.3);
        let mut q = if by_hist {
            let mut hst = Histogram::new(&a);
            if r.chance(0.5) { hst.add_colors(&cs.iter().map(|&color| HistogramEntry { color, count: 3 }).collect::<Vec<_>>(), from).map_err(e)?; } else { for &k in &cs { hst.add_fixed_color(k, from).map_err(e)?; } }
            hst.quantize(&a).map_err(e)?
        } else { a.quantize(&mut img).map_err(e)? };
        if (q.output_gamma() - f).abs() > 1e-9 { return Err(format!("output gamma is {} for input gamma {f}", q.output_gamma())); }
        let mut to = f;
        let mut remapped = false;
        // any history of reading palettes, remapping and setting the gamma
        for _ in 0..r.range(2, 7) {
            match r.below(4) {
                0 | 1 => {
                    to = match r.below(10) { 0..=2 => crate::color::SRGB, 3 => 1e-4 + r.f() * r.f() * 0.1, 4 => 0.99 + r.f() * 0.009999, _ => 0.1 + r.f() * 0.89 };
                    q.set_output_gamma(to).map_err(|x| format!("output gamma {to} refused {x:?}"))?;
                    remapped = false;
                    if q.output_gamma() != to { return Err(format!("output gamma {} after setting {to}", q.output_gamma())); }
                    if r.chance(0.3) { if q.set_output_gamma(r.pick(&[0., 1., -0.5, 2., f64::NAN])).is_ok() { return Err("invalid output gamma accepted".into()); } }
                },
                2 => {
                    let pal = q.palette_vec();
                    has_all(&cs, &pal, f, to)?;
                    c.hit("palettes");
                    // reading the palette rounds its colours to 8 bits of that gamma for good, unless it belongs to a remapping
                    if !remapped && to != f { break; }
                },
                _ => {
                    let d = r.pick(&[0., 0., 0.5, 1.]);
                    q.set_dithering_level(d).map_err(e)?;
                    let (pal, idx) = q.remapped(&mut img).map_err(e)?;
                    remapped = true;
                    has_all(&cs, &pal, f, to)?;
                    if d == 0. { super::c03::check_nearest(&px, f, &pal, to, &idx, w, 1)?; c.count("pixels", px.len() as u64); }
                    if to == f { if let Some(i) = (0..px.len()).find(|&i| crate::gen::key(pal[idx[i] as usize]) != crate::gen::key(px[i])) { return Err(format!("{:?} became {:?} with the same input and output gamma", px[i], pal[idx[i] as usize])); } }
                    if q.palette_vec() != pal { return Err("palette differs from the one returned by the remap".into()); }
                    c.hit("remaps");
                },
            }
        }
        c.distinct(hash_px((to * 1e6) as u64, &cs));
        Ok(())
    });
    // explicit sRGB is the default
    x.cases("default", x.n(400, 8000), |c| {
        let r = &mut c.rng.clone();
        let (w, h) = small_size(r);
        let mut cfg = Cfg::random_sized(r, w, h);
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        let px = image(r, w, h, cfg.family);
        let p = Pix::new(r, w, h, px);
        c.desc(cfg.desc());
        let mut run = |g: f64| { cfg.gamma = g; quant_remap(&cfg, &p).map(|o| o.digest()).map_err(|e| format!("{e:?}")) };
        let (a, b) = (run(0.)?, run(0.45455)?);
        if a != b { return Err("explicit sRGB gamma gives a different result than the default".into()); }
        // setting the output gamma to what it is anyway changes nothing
        c.distinct(a);
        Ok(())
    });
    // on any image the output gamma changes the palette colours only, by the conversion
    x.cases("lossy", x.n(400, 8000), |c| {
        let r = &mut c.rng.clone();
        let (w, h) = small_size(r);
        let mut cfg = Cfg::random_sized(r, w, h);
        cfg.post = 0;
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        if cfg.gamma < 0.3 { cfg.gamma = 0.; }
        let px = image(r, w, h, cfg.family);
        let p = Pix::new(r, w, h, px);
        let to = 0.2 + r.f() * 0.7;
        c.desc(format!("{} to {to}", cfg.desc()));
        let run = |g: Option<f64>| -> Result<Out, String> {
            let a = cfg.attr()?;
            let mut img = make_image(&cfg, &a, &p)?;
            let mut q = a.quantize(&mut img).map_err(e)?;
            if let Some(d) = cfg.dither { q.set_dithering_level(d).map_err(e)?; }
            if let Some(g) = g { q.set_output_gamma(g).map_err(e)?; }
            remap_out(&mut q, &mut img).map_err(|e| format!("{e:?}"))
        };
        let (a, b) = (run(None)?, run(Some(to))?);
        if a.pal.len() != b.pal.len() { return Err(format!("palette of {} colours becomes {}", a.pal.len(), b.pal.len())); }
        for (x, y) in a.pal.iter().zip(&b.pal) {
            if x.a != y.a { return Err(format!("alpha of palette colour {x:?} becomes {y:?}")); }
            // palette colours are rounded twice, so a whole step of the source is allowed
            for (v, g) in [(x.r, y.r), (x.g, y.g), (x.b, y.b)] {
                if x.a == 0 { continue; }
                let (lo, hi) = (conv(v.saturating_sub(1), cfg.g(), to) - 1.01, conv(v.saturating_add(1), cfg.g(), to) + 1.01);
                if (g as f64) < lo || (g as f64) > hi { return Err(format!("palette colour {x:?} becomes {y:?} with output gamma {to} instead of {}", cfg.g())); }
            }
        }
        c.distinct(b.digest());
        Ok(())
    });
}
