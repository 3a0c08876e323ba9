//! Lossless when the colours fit.
use super::*;
use crate::gen::key;
use std::collections::HashSet;

pub fn run(x: &Ctx) {
    x.cases("lossless", x.n(5000, 100000), |c| {
        let r = &mut c.rng;
        let (w, h) = size(r);
        let mut cfg = Cfg::plain(w, h);
        cfg.speed = r.range(1, 7) as i32;
        cfg.dither = match r.below(3) { 0 => None, 1 => Some(0.), _ => Some(r.f() as f32) };
        cfg.max_colors = match r.below(4) { 0 => 256, 1 => r.range(2, 256) as u32, _ => r.range(2, 40) as u32 };
        cfg.src = r.pick(&SRCS);
        cfg.last_transparent = r.chance(0.2);
        if r.chance(0.25) { cfg.gamma = r.pick(&[0.45455, 0.3, 0.5, 0.7, 0.9, 1.0, 0.35]); }
        if r.chance(0.2) { cfg.quality = Some((r.pick(&[0, 50, 100]), 100)); }
        let n = if r.chance(0.4) { cfg.max_colors as usize } else { r.range(1, cfg.max_colors as usize) };
        let cs = distinct_colors(r, n);
        let style = r.below(4);
        let mut px: Vec<RGBA> = match style {
            0 => (0..w * h).map(|_| r.pick(&cs)).collect(),
            1 => (0..w * h).map(|i| cs[i * n / (w * h)]).collect(),
            2 => (0..w * h).map(|i| cs[(i % w + i / w) % n]).collect(),
            _ => { let mut v = Vec::new(); while v.len() < w * h { let p = r.pick(&cs); for _ in 0..r.range(1, 12) { v.push(p); } } v.truncate(w * h); v },
        };
        if r.chance(0.3) { for p in &mut px { if p.a == 0 { *p = rgba(r.u8(), r.u8(), r.u8(), 0); } } } // arbitrary hidden colour
        let p = Pix::new(r, w, h, px);
        c.desc(format!("{} colours{n} style{style}", cfg.desc()));
        let o = match quant_remap(&cfg, &p) { Ok(o) => o, Err(e) => return Err(format!("failed: {e:?}")) };
        check_indices(&o.pal, &o.idx, &cfg)?;
        for (i, (&s, &d)) in p.px.iter().zip(&o.idx).enumerate() {
            let d = o.pal[d as usize];
            if key(s) != key(d) { return Err(format!("pixel {},{} was {s:?}, shown as {d:?}", i % w, i / w)); }
        }
        let have: HashSet<u32> = p.px.iter().map(|&c| key(c)).collect();
        if let Some(e) = o.pal.iter().find(|&&c| !have.contains(&key(c))) { return Err(format!("palette colour {e:?} is not in the image")); }
        if o.pal.len() != have.len() { return Err(format!("{} palette entries for {} colours", o.pal.len(), have.len())); }
        if o.qerr.map_or(false, |e| e != 0.) || o.qq.map_or(false, |q| q != 100) { return Err(format!("lossless palette reported error {:?} quality {:?}", o.qerr, o.qq)); }
        if !(o.rerr.map_or(true, |e| e >= 0. && e < 1e-6) && o.rq.map_or(true, |q| q == 100)) { return Err(format!("lossless remap reported error {:?} quality {:?}", o.rerr, o.rq)); }
        c.count("pixels", (w * h) as u64);
        if have.len() > 1 { c.distinct(hash_px(0, &p.px)); }
        c.hit(&format!("colours_{}", match have.len() { 1 => "1", 2..=16 => "2-16", 17..=128 => "17-128", _ => "129-256" }));
        Ok(())
    });
    // every single 8-bit RGBA value must survive the round trip through the palette: sweep colour space 256 at a time
    x.cases("sweep", x.n(6000, 200000), |c| {
        let r = &mut c.rng;
        let a = r.pick(&[1u8, 2, 3, 5, 15, 16, 17, 63, 64, 127, 128, 129, 200, 251, 252, 253, 254, 255, 255, 255]);
        let (b0, b1) = (r.u8(), r.u8());
        let which = r.below(4);
        let cs: Vec<RGBA> = (0..=255u8).map(|v| match which { 0 => rgba(v, b0, b1, a), 1 => rgba(b0, v, b1, a), 2 => rgba(b0, b1, v, a), _ => rgba(b0, b1, b0 ^ b1, v) }).collect();
        let mut cfg = Cfg::plain(16, 16);
        cfg.speed = r.range(4, 7) as i32;
        cfg.dither = Some(if r.chance(0.5) { 0. } else { 1. });
        let p = Pix::new(r, 16, 16, cs);
        c.desc(format!("axis{which} {b0},{b1} a{a} {}", cfg.desc()));
        let o = match quant_remap(&cfg, &p) { Ok(o) => o, Err(e) => return Err(format!("failed: {e:?}")) };
        check_indices(&o.pal, &o.idx, &cfg)?;
        for (&s, &d) in p.px.iter().zip(&o.idx) {
            let d = o.pal[d as usize];
            if key(s) != key(d) { return Err(format!("{s:?} shown as {d:?}")); }
        }
        c.count("colours", 256);
        c.distinct(hash_px(7, &p.px));
        Ok(())
    });
}
