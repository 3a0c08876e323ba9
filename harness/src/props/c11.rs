//! Transparency is faithful and ordered as requested.
use super::*;

/// `near`: the image has almost opaque pixels, so one colour may be rounded to opaque after it has been put in place
fn check_order(pal: &[RGBA], last: bool, near: bool) -> R {
    if last {
        let min = pal.iter().map(|p| p.a).min().unwrap();
        if min < 255 && pal.last().unwrap().a != min { return Err(format!("last entry is {:?} although there is an entry with alpha {min}", pal.last().unwrap())); }
    } else if let Some(o) = pal.iter().position(|p| p.a == 255) {
        let first = if near { pal.iter().enumerate().filter(|p| p.1.a == 255).nth(1).map_or(pal.len(), |p| p.0) } else { o };
        if let Some(t) = pal[first..].iter().position(|p| p.a < 255) { let o = first; return Err(format!("entry {} is not opaque ({:?}) but follows opaque entry {o}", o + t, pal[o + t])); }
    }
    Ok(())
}

pub fn run(x: &Ctx) {
    x.cases("order", x.n(2500, 50000), |c| {
        let r = &mut c.rng;
        let mut cfg = Cfg::random(r);
        cfg.family = r.pick(&[1, 3, 4, 10, 11, 12, 14, 15, 16, 17]);
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        cfg.last_transparent = r.chance(0.5);
        cfg.post = 0; // rounding of alpha could make the order look wrong
        let px = image(r, cfg.w, cfg.h, cfg.family);
        let p = Pix::new(r, cfg.w, cfg.h, px);
        let near = p.px.iter().chain(&cfg.fixed).any(|p| p.a > 240 && p.a < 255);
        let via_hist = r.chance(0.3);
        c.desc(format!("{} hist{}", cfg.desc(), via_hist as u8));
        let a = cfg.attr()?;
        let mut img = make_image(&cfg, &a, &p)?;
        let mut q = if via_hist {
            let mut h = Histogram::new(&a);
            h.add_image(&a, &mut img).map_err(|e| format!("{e:?}"))?;
            h.quantize(&a)
        } else { a.quantize(&mut img) }.map_err(|e| format!("quantize failed {e:?}"))?;
        if c.rng.chance(0.7) { check_order(q.palette(), cfg.last_transparent, near)?; }
        if c.rng.chance(0.6) { q.set_dithering_level(0.).map_err(|e| format!("{e:?}"))?; cfg.dither = Some(0.); }
        else if let Some(d) = cfg.dither { q.set_dithering_level(d).map_err(|e| format!("{e:?}"))?; }
        let (pal, idx) = q.remapped(&mut img).map_err(|e| format!("remap failed {e:?}"))?;
        check_indices(&pal, &idx, &cfg)?;
        if via_hist || cfg.dither == Some(0.) { check_order(&pal, cfg.last_transparent, near)?; }
        else if let Err(e) = check_order(&pal, cfg.last_transparent, near) { c.hit("dithered_order_off"); let _ = e; }
        if pal.iter().any(|p| p.a == 255) && pal.iter().any(|p| p.a < 255) { c.hit(if cfg.last_transparent { "mixed_last" } else { "mixed_first" }); c.distinct(hash_px(0, &pal)); }
        // fully transparent pixels are never shown opaque if the palette has a transparent entry
        if cfg.dither == Some(0.) && pal.iter().any(|p| p.a == 0) {
            for (i, (s, &d)) in p.px.iter().zip(&idx).enumerate() {
                if s.a == 0 && pal[d as usize].a != 0 { return Err(format!("transparent pixel {},{} shown as {:?} although the palette has a transparent entry", i % cfg.w, i / cfg.w, pal[d as usize])); }
            }
            c.hit("with_transparent_entry");
        }
        Ok(())
    });
    // colour hidden under zero alpha has no influence
    x.cases("hidden", x.n(1200, 25000), |c| {
        let r = &mut c.rng;
        let mut cfg = Cfg::random(r);
        cfg.family = r.pick(&[1, 3, 10, 11, 15, 15, 16, 14, 11]);
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        let px = image(r, cfg.w, cfg.h, cfg.family);
        if !px.iter().any(|p| p.a == 0) { return Ok(()); }
        let k = r.below(3);
        let px2: Vec<RGBA> = px.iter().map(|p| if p.a == 0 { match k { 0 => rgba(0, 0, 0, 0), 1 => rgba(255, 255, 255, 0), _ => rgba(r.u8(), r.u8(), r.u8(), 0) } } else { *p }).collect();
        c.desc(cfg.desc());
        let (p, p2) = (Pix::new(&mut c.rng, cfg.w, cfg.h, px), Pix::new(&mut c.rng, cfg.w, cfg.h, px2));
        match (quant_remap(&cfg, &p), quant_remap(&cfg, &p2)) {
            (Ok(a), Ok(b)) => {
                if a.pal != b.pal { return Err(format!("palette changed with the colour of invisible pixels: {:?}", a.pal.iter().zip(&b.pal).find(|(a, b)| a != b))); }
                if a.idx != b.idx { return Err(format!("{} pixels changed with the colour of invisible pixels", a.idx.iter().zip(&b.idx).filter(|(a, b)| a != b).count())); }
                if a.rerr != b.rerr || a.qerr != b.qerr { return Err("error changed with the colour of invisible pixels".into()); }
                c.distinct(a.digest());
            },
            (Err(e), _) | (_, Err(e)) => return expected_failure(&cfg, e),
        }
        Ok(())
    });
    // opaque images stay opaque, entirely transparent ones transparent, binary alpha stays binary where there is room
    x.cases("opacity", x.n(1500, 30000), |c| {
        let r = &mut c.rng;
        let mut cfg = Cfg::random(r);
        cfg.fixed.clear();
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        let mode = r.below(4);
        let mut px = image(r, cfg.w, cfg.h, cfg.family);
        match mode {
            0 | 1 => for p in &mut px { p.a = 255; },
            2 => for p in &mut px { p.a = 0; },
            _ => { cfg.quality = None; cfg.max_colors = cfg.max_colors.max(8); let s = r.range(2, 30); let w = cfg.w; for (i, p) in px.iter_mut().enumerate() { p.a = if (i % w / s + i / w / s) % 2 == 0 { 255 } else { 0 }; } },
        }
        let p = Pix::new(r, cfg.w, cfg.h, px);
        c.desc(format!("mode{mode} {}", cfg.desc()));
        let o = match quant_remap(&cfg, &p) { Ok(o) => o, Err(e) => return expected_failure(&cfg, e) };
        check_indices(&o.pal, &o.idx, &cfg)?;
        match mode {
            0 | 1 => if let Some(b) = o.pal.iter().find(|p| p.a != 255) { return Err(format!("opaque image has palette colour {b:?}")); },
            2 => if let Some(b) = o.pal.iter().find(|p| p.a != 0) { return Err(format!("invisible image has palette colour {b:?}")); },
            _ => {
                let mut worst = 0;
                for (s, &d) in p.px.iter().zip(&o.idx) { worst = worst.max((s.a as i32 - o.pal[d as usize].a as i32).abs()); }
                if worst > 8 { return Err(format!("opacity of a pixel changed by {worst}")); }
            },
        }
        c.hit(&format!("mode{mode}"));
        c.distinct(o.digest());
        Ok(())
    });
}
