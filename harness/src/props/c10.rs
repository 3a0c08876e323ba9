//! Posterization limits precision of the palette and nothing else.
use super::*;
use crate::gen::key;
use std::collections::{BTreeMap, BTreeSet};

fn level(c: u8, n: u8) -> u8 { if n == 0 { c } else { let t = c >> n << n; t | (c >> (8 - n)) } }
fn each(p: RGBA, f: impl Fn(u8) -> u8) -> RGBA { rgba(f(p.r), f(p.g), f(p.b), f(p.a)) }
fn is_level(c: u8, n: u8) -> bool { level(c, n) == c }

fn check_levels(pal: &[RGBA], n: u8) -> R {
    for p in pal {
        if p.a == 0 { continue; }
        for c in [p.r, p.g, p.b, p.a] {
            if !is_level(c, n) { return Err(format!("palette colour {p:?} has a channel that is not one of the {} levels", 256 >> n)); }
        }
    }
    Ok(())
}

pub fn run(x: &Ctx) {
    x.cases("levels", x.n(2000, 40000), |c| {
        let r = &mut c.rng;
        let mut cfg = Cfg::random(r);
        cfg.post = r.range(0, 4) as u8;
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        let px = image(r, cfg.w, cfg.h, cfg.family);
        let p = Pix::new(r, cfg.w, cfg.h, px);
        let via_hist = r.chance(0.25);
        let og = if r.chance(0.2) { Some(r.pick(&[0.3, 0.45455, 0.8])) } else { None };
        c.desc(format!("{} hist{} outgamma{og:?}", cfg.desc(), via_hist as u8));
        let a = cfg.attr()?;
        let mut img = make_image(&cfg, &a, &p)?;
        let mut q = if via_hist {
            let mut h = Histogram::new(&a);
            h.add_image(&a, &mut img).map_err(|e| format!("{e:?}"))?;
            h.quantize(&a)
        } else { a.quantize(&mut img) }.map_err(|e| format!("quantize failed {e:?}"))?;
        if let Some(g) = og { q.set_output_gamma(g).map_err(|e| format!("{e:?}"))?; }
        if c.rng.chance(0.5) { check_levels(q.palette(), cfg.post)?; }
        if let Some(d) = cfg.dither { q.set_dithering_level(d).map_err(|e| format!("{e:?}"))?; }
        let (pal, idx) = q.remapped(&mut img).map_err(|e| format!("remap failed {e:?}"))?;
        check_indices(&pal, &idx, &cfg)?;
        check_levels(&pal, cfg.post)?;
        if og.is_none() && !cfg.fixed.is_empty() {
            let mut seen = BTreeSet::new();
            let fixed: Vec<RGBA> = cfg.fixed.iter().copied().filter(|&f| seen.insert(key(f))).take(cfg.max_colors as usize).collect();
            for f in fixed {
                let want = each(f, |c| level(c, cfg.post));
                if !pal.iter().any(|&p| key(p) == key(want)) { return Err(format!("fixed colour {f:?} is missing as {want:?}")); }
                c.hit("fixed");
            }
        }
        c.hit(&format!("bits{}", cfg.post));
        c.count("palette_colours", pal.len() as u64);
        if cfg.post > 0 && pal.len() > 1 { c.distinct(hash_px(cfg.post as u64, &pal)); }
        c.sample(format!("{:?}", &pal[..pal.len().min(3)]));
        Ok(())
    });
    // image colours equal in the kept bits are one colour: the palette has one entry per class and each pixel gets its own class
    x.cases("classes", x.n(1500, 30000), |c| {
        let r = &mut c.rng;
        let n = r.range(0, 4) as u8;
        let s = (r.range(2, 60), r.range(2, 60));
        let (w, h) = or_big(r, 0.02, s);
        let mut cfg = Cfg::plain(w, h);
        cfg.post = n;
        cfg.speed = r.range(1, if n > 0 { 10 } else { 7 }) as i32; // from speed 8 up one bit is ignored anyway
        cfg.src = r.pick(&SRCS);
        cfg.dither = Some(0.);
        cfg.max_colors = r.range(2, 256) as u32;
        let k = r.range(1, cfg.max_colors as usize);
        let mask = 255u8 << n;
        let mut classes: BTreeMap<u32, RGBA> = Default::default();
        for _ in 0..k { let q = if r.chance(0.3) { rgba(r.u8(), r.u8(), r.u8(), r.u8()) } else { opaque(r) }; let m = each(q, |c| c & mask); if m.a > 0 { classes.entry(u32::from_le_bytes([m.r, m.g, m.b, m.a])).or_insert(m); } }
        if classes.is_empty() { return Ok(()); }
        let cl: Vec<RGBA> = classes.values().copied().collect();
        let low = !mask;
        let px: Vec<RGBA> = (0..w * h).map(|_| { let q = r.pick(&cl); let mut j = || r.u8() & low; rgba(q.r | j(), q.g | j(), q.b | j(), q.a | j()) }).collect();
        let used: BTreeSet<u32> = px.iter().map(|p| { let m = each(*p, |c| c & mask); u32::from_le_bytes([m.r, m.g, m.b, m.a]) }).collect();
        let p = Pix::new(r, w, h, px);
        c.desc(format!("{} classes{}", cfg.desc(), used.len()));
        let o = match quant_remap(&cfg, &p) { Ok(o) => o, Err(e) => return Err(format!("failed {e:?}")) };
        check_levels(&o.pal, n)?;
        if o.pal.len() != used.len() { return Err(format!("{} colours distinguishable after ignoring {n} bits, but {} palette entries", used.len(), o.pal.len())); }
        if n == 0 {
            for (s, &d) in p.px.iter().zip(&o.idx) { if key(*s) != key(o.pal[d as usize]) { return Err(format!("without posterization {s:?} became {:?}", o.pal[d as usize])); } }
        }
        // before remapping refines it, each entry is the posterized form of a colour of one class
        let a = cfg.attr()?;
        let mut img = make_image(&cfg, &a, &p)?;
        let mut q = a.quantize(&mut img).map_err(|e| format!("{e:?}"))?;
        let got: BTreeSet<u32> = q.palette().iter().map(|p| { let m = each(*p, |c| c & mask); u32::from_le_bytes([m.r, m.g, m.b, m.a]) }).collect();
        if got != used { return Err(format!("{} of {} classes are in the palette", got.intersection(&used).count(), used.len())); }
        c.distinct(hash_px(n as u64, &p.px));
        c.hit(&format!("bits{n}"));
        Ok(())
    });
}
