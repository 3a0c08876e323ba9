//! Reported errors and qualities are truthful.
use super::*;
use crate::color::*;

fn consistent(what: &str, err: Option<f64>, q: Option<u8>) -> R {
    match (err, q) {
        (None, None) => Ok(()),
        (Some(e), Some(q)) => {
            if !e.is_finite() || e < 0. { return Err(format!("{what} error is {e}")); }
            if q > 100 { return Err(format!("{what} quality is {q}")); }
            let m = e * 6. * 0.45 / 65536.;
            let (lo, hi) = (mse_to_quality(m * 1.0000001 + 1e-12), mse_to_quality(m * 0.9999999 - 1e-12));
            if q < lo || q > hi { return Err(format!("{what} error {e} is quality {lo}..{hi} on the 0-100 scale, but {q} was reported")); }
            Ok(())
        },
        _ => Err(format!("{what} error {err:?} but quality {q:?}")),
    }
}

pub fn run(x: &Ctx) {
    x.cases("remapping", x.n(2500, 50000), |c| {
        let r = &mut c.rng;
        let mut cfg = Cfg::random(r);
        cfg.dither = Some(0.);
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        let px = image(r, cfg.w, cfg.h, cfg.family);
        let p = Pix::new(r, cfg.w, cfg.h, px);
        let bgpx = if r.chance(0.25) {
            let f = r.below(FAMILIES.len());
            let mut b = image(r, cfg.w, cfg.h, f);
            for (b, &p) in b.iter_mut().zip(&p.px) { if r.chance(0.4) { *b = p; if r.chance(0.5) { b.g ^= 3; } } }
            Some(b)
        } else { None };
        if bgpx.is_some() && r.chance(0.8) { cfg.fixed.push(rgba(0, 0, 0, 0)); }
        let imp = if r.chance(0.2) { Some((0..cfg.w * cfg.h).map(|_| r.u8()).collect::<Vec<_>>()) } else { None };
        let out_gamma = if r.chance(0.1) { Some(r.pick(&[0.3, 0.5, 0.8])) } else { None };
        c.desc(format!("{} bg{} imp{} outgamma{out_gamma:?}", cfg.desc(), bgpx.is_some() as u8, imp.is_some() as u8));
        let a = cfg.attr()?;
        let mut img = make_image(&cfg, &a, &p)?;
        if let Some(b) = &bgpx {
            img.set_background(a.new_image_borrowed(b, cfg.w, cfg.h, cfg.gamma).map_err(|e| format!("{e:?}"))?).map_err(|e| format!("{e:?}"))?;
        }
        if let Some(m) = &imp { if m.iter().all(|&m| m == 0) { return Ok(()); } img.set_importance_map(&m[..]).map_err(|e| format!("{e:?}"))?; }
        let mut q = a.quantize(&mut img).map_err(|e| format!("quantize failed {e:?}"))?;
        consistent("quantization", q.quantization_error(), q.quantization_quality())?;
        consistent("remapping (before)", q.remapping_error(), q.remapping_quality())?;
        let before = (q.quantization_error(), q.quantization_quality());
        if q.remapping_error() != before.0 { return Err("before remapping, the expected remapping error is not the quantization error".into()); }
        if let Some(g) = out_gamma { q.set_output_gamma(g).map_err(|e| format!("{e:?}"))?; }
        q.set_dithering_level(0.).map_err(|e| format!("{e:?}"))?;
        let (pal, idx) = q.remapped(&mut img).map_err(|e| format!("remap failed {e:?}"))?;
        check_indices(&pal, &idx, &cfg)?;
        if (q.quantization_error(), q.quantization_quality()) != before { return Err("remapping changed the quantization error".into()); }
        let (re, rq) = (q.remapping_error(), q.remapping_quality());
        consistent("remapping", re, rq)?;
        let re = re.ok_or("no remapping error after remapping")?;
        // what is displayed
        let il = Lut::new(cfg.gamma);
        let pl = Lut::new(q.output_gamma());
        let pf = pl.all(&pal);
        let transp = pal.iter().position(|p| p.a == 0);
        let mut sum = 0.;
        for (i, (&p, &m)) in p.px.iter().zip(&idx).enumerate() {
            let f = il.f(p);
            let mut d = diff(&f, &pf[m as usize]);
            if let (Some(b), Some(_)) = (&bgpx, transp) { if pal[m as usize].a == 0 { d = d.min(diff(&il.f(b[i]), &f)); } }
            sum += d;
        }
        let real = std_mse(sum / p.px.len() as f64);
        if (re - real).abs() > real * 3e-3 + 2e-3 { return Err(format!("remapping error reported as {re:.5} is really {real:.5}")); }
        c.count("pixels", idx.len() as u64);
        if real > 0. { c.distinct(real.to_bits()); c.hit("lossy"); }
        if bgpx.is_some() && transp.is_some() { c.hit("background"); }
        c.sample(format!("reported {re:.4} recomputed {real:.4} quality {rq:?}"));
        Ok(())
    });
    x.cases("dithered", x.n(600, 10000), |c| {
        let r = &mut c.rng;
        let mut cfg = Cfg::random(r);
        cfg.dither = Some(0.1 + 0.9 * r.f() as f32);
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        let px = image(r, cfg.w, cfg.h, cfg.family);
        let p = Pix::new(r, cfg.w, cfg.h, px);
        c.desc(cfg.desc());
        let o = match quant_remap(&cfg, &p) { Ok(o) => o, Err(e) => return expected_failure(&cfg, e) };
        consistent("quantization", o.qerr, o.qq)?;
        consistent("remapping", o.rerr, o.rq)?;
        // dithering is not counted: it's the palette's error, measured on the image or while quantizing
        if let (true, Some(e)) = (o.rerr != o.qerr && cfg.post == 0, o.rerr) {
            let e0 = { cfg.dither = Some(0.); quant_remap(&cfg, &p).ok().and_then(|o| o.rerr).ok_or("undithered remap failed")? };
            let ratio = (e + 0.5) / (e0 + 0.5);
            c.hit(&format!("ratio to undithered {:.1}", ratio.clamp(0., 9.9)));
            c.hit("compared");
            if !(0.75..=1.4).contains(&ratio) { c.hit("off"); }
            if !(0.1..=10.).contains(&ratio) { return Err(format!("error {e:.3} reported after dithering, {e0:.3} without (quantization error {:?})", o.qerr)); }
        } else { c.hit("as quantized"); }
        c.distinct(o.digest());
        Ok(())
    });
    let (n, off) = (x.counter("dithered.compared"), x.counter("dithered.off"));
    if off > 8 + n / 10 { x.fail("dithered", format!("{off} of {n} errors reported after dithering are not those of the palette")); }
    // the quantization error is that of the generated palette
    x.cases("quantization", x.n(800, 15000), |c| {
        let r = &mut c.rng;
        let s = (r.range(10, 120), r.range(10, 120));
        let (w, h) = or_big(r, 0.02, s);
        let mut cfg = Cfg::random_sized(r, w, h);
        cfg.fixed.clear();
        cfg.post = 0;
        cfg.quality = Some((0, if r.chance(0.5) { 100 } else { r.range(1, 100) as u8 }));
        cfg.dither = Some(0.);
        let px = image(r, w, h, cfg.family);
        let p = Pix::new(r, w, h, px);
        c.desc(cfg.desc());
        let a = cfg.attr()?;
        let mut img = make_image(&cfg, &a, &p)?;
        img.set_importance_map(vec![255; w * h]).map_err(|e| format!("{e:?}"))?;
        let mut q = a.quantize(&mut img).map_err(|e| format!("quantize failed {e:?}"))?;
        let qe = q.quantization_error().ok_or("no quantization error although a quality range was set")?;
        let l = Lut::new(cfg.gamma);
        let pal = l.all(q.palette());
        // every colour counts by the number of its pixels, but none more than a tenth of the image
        let mask = if cfg.speed >= 8 { 0xfefefefeu32 } else { !0 };
        let mut hist: std::collections::BTreeMap<u32, (f64, RGBA)> = Default::default();
        for &p in &p.px { hist.entry(crate::gen::key(p) & mask).or_insert((0., p)).0 += 1.; }
        let cap = 0.1 * p.px.len() as f64;
        let (mut sum, mut total) = (0., 0.);
        for &(n, p) in hist.values() { sum += n.min(cap) * nearest(&l.f(p), &pal).1; total += n.min(cap); }
        let real = std_mse(sum / total);
        let ratio = (qe + 1.) / (real + 1.);
        // the reported error is of the palette before its last refinement, so single cases may exceed the final one by far
        if ratio < 0.4 || ratio > 2000. { return Err(format!("quantization error reported as {qe:.4}, but the palette's error on the image's colours is {real:.4}")); }
        c.hit("measured");
        if ratio > 15. { c.hit("far_off"); }
        if ratio < 0.7 || ratio > 1.45 { c.hit("off"); }
        c.distinct(real.to_bits());
        c.sample(format!("reported {qe:.3} on the image {real:.3}"));
        Ok(())
    });
    let (n, off) = (x.counter("quantization.measured"), x.counter("quantization.off"));
    let far = x.counter("quantization.far_off");
    if far > 2 + n / 250 { x.fail("quantization", format!("{far} of {n} reported quantization errors are far above the palette's error on the image")); }
    if n >= 300 && off * 16 > n { x.fail("quantization", format!("{off} of {n} reported quantization errors are not in line with the palette's error on the image (normally about 1%)")); }
    // as many pixels as a 32-bit number cannot count
    if cfg!(feature = "mt") && !cfg!(miri) {
        x.cases_t("area", x.n(1, 3), 1, |c| {
            let (w, h) = [(65536usize, 65537usize), (1 << 17, (1 << 15) + 1), (82000, 52500)][c.idx as usize % 3];
            let (c1, c2) = (rgba(10, 90, 20, 255), rgba(200, 30, 60, 255));
            let (p1, p2) = (rgba(20, 80, 40, 255), rgba(180, 30, 90, 255));
            c.desc(format!("{w}x{h}"));
            let mut a = Attributes::new();
            a.set_speed(10).map_err(|e| format!("{e:?}"))?;
            let mut q = dictated(&[p1, p2], 10, 0.)?;
            q.set_dithering_level(0.).map_err(|e| format!("{e:?}"))?;
            let mut img = unsafe { Image::new_fn(&a, move |row: &mut [std::mem::MaybeUninit<RGBA>], y: usize| { row.fill(std::mem::MaybeUninit::new(if y % 4 == 0 { c1 } else { c2 })); }, w, h, 0.).map_err(|e| format!("{e:?}"))? };
            let mut out: Vec<u8> = Vec::new();
            out.try_reserve_exact(w * h).map_err(|e| format!("HARNESS {e}"))?;
            q.remap_into(&mut img, &mut out.spare_capacity_mut()[..w * h]).map_err(|e| format!("remap failed {e:?}"))?;
            let got = q.remapping_error().ok_or("no error")?;
            let l = Lut::new(0.);
            let n1 = (h + 3) / 4;
            let want = std_mse((diff(&l.f(c1), &l.f(p1)) * n1 as f64 + diff(&l.f(c2), &l.f(p2)) * (h - n1) as f64) / h as f64);
            if !((got - want).abs() <= want * 0.01) { return Err(format!("reported error {got}, recomputed {want}")); }
            unsafe { out.set_len(w * h); }
            let pal = q.palette_vec();
            for y in [0, 1, 4, h / 2, h - 2, h - 1] { for x in [0, w / 2, w - 1] {
                let i = out[y * w + x] as usize;
                if pal.get(i) != Some(if y % 4 == 0 { &p1 } else { &p2 }) { return Err(format!("pixel {x},{y} has index {i}")); }
            } }
            c.count("pixels", (w * h) as u64);
            c.distinct(got.to_bits());
            Ok(())
        });
    }
}
