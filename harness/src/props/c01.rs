//! Valid output: complete, in range, confined.
use super::*;
use std::mem::MaybeUninit;

fn bytes(v: &mut [u8]) -> &mut [MaybeUninit<u8>] { unsafe { &mut *(v as *mut [u8] as *mut [MaybeUninit<u8>]) } }

pub fn run(x: &Ctx) {
    x.cases("remap", x.n(3000, 60000), |c| {
        let mut cfg = Cfg::random(&mut c.rng);
        let img = image(&mut c.rng, cfg.w, cfg.h, cfg.family);
        let p = Pix::new(&mut c.rng, cfg.w, cfg.h, img);
        if let Some(q) = &mut cfg.quality { if c.rng.chance(0.7) { q.0 = 0; } }
        let api = c.rng.below(4);
        let use_bg = c.rng.chance(0.15);
        let bgpx = if use_bg { let f = c.rng.below(FAMILIES.len()); Some(image(&mut c.rng, cfg.w, cfg.h, f)) } else { None };
        c.desc(format!("{} api{api} bg{}", cfg.desc(), use_bg as u8));
        let n = cfg.w * cfg.h;
        let extra = c.rng.below(70);
        let mut outs = Vec::new();
        // two runs from scratch over buffers with different prior contents: any pixel not written shows
        for sentinel in [0xEEu8, 0x11] {
            let a = cfg.attr()?;
            let mut img = make_image(&cfg, &a, &p)?;
            if let Some(b) = &bgpx {
                let b = a.new_image_borrowed(b, cfg.w, cfg.h, 0.).map_err(|e| format!("{e:?}"))?;
                img.set_background(b).map_err(|e| format!("background refused {e:?}"))?;
            }
            let mut r = match a.quantize(&mut img) {
                Ok(r) => r,
                Err(e) => { c.hit("quality_too_low"); return expected_failure(&cfg, Ok(e)); },
            };
            if let Some(d) = cfg.dither { r.set_dithering_level(d).map_err(|e| format!("{e:?}"))?; }
            let mut big = vec![sentinel; n + extra];
            // too small: refused before anything is written
            if n > 0 && c.rng.chance(0.5) {
                let short = c.rng.below(n);
                match r.remap_into(&mut img, bytes(&mut big[..short])) {
                    Err(Error::BufferTooSmall) => {},
                    o => return Err(format!("buffer of {short} for {n} pixels gave {o:?}")),
                }
                if big.iter().any(|&b| b != sentinel) { return Err("refused buffer was written to".into()); }
                c.hit("short_buffers_refused");
            }
            let pal = match api {
                0 => {
                    r.remap_into(&mut img, bytes(&mut big)).map_err(|e| format!("remap_into failed {e:?}"))?;
                    r.palette().to_vec()
                },
                1 => {
                    r.remap_into(&mut img, bytes(&mut big[..n])).map_err(|e| format!("remap_into failed {e:?}"))?;
                    r.palette_vec()
                },
                2 => {
                    let mut v = vec![sentinel; c.rng.below(2 * n + 1)];
                    let pal = r.remap_into_vec(&mut img, &mut v).map_err(|e| format!("remap_into_vec failed {e:?}"))?;
                    if v.len() != n { return Err(format!("remap_into_vec left {} bytes for {n} pixels", v.len())); }
                    big[..n].copy_from_slice(&v);
                    pal
                },
                _ => {
                    let (pal, v) = r.remapped(&mut img).map_err(|e| format!("remapped failed {e:?}"))?;
                    if v.len() != n { return Err(format!("remapped gave {} bytes for {n} pixels", v.len())); }
                    big[..n].copy_from_slice(&v);
                    pal
                },
            };
            if let Some(i) = big[n..].iter().position(|&b| b != sentinel) { return Err(format!("byte {i} past the {n} pixels was overwritten")); }
            check_indices(&pal, &big[..n], &cfg)?;
            if r.palette() != &pal[..] || r.palette_vec() != pal || r.palette_len() != pal.len() { return Err(format!("palette()/palette_vec()/palette_len() disagree with the remap: {} vs {} vs {}", r.palette().len(), pal.len(), r.palette_len())); }
            outs.push((pal, big[..n].to_vec()));
        }
        if !cfg!(feature = "mt") && outs[0] != outs[1] {
            let d = outs[0].1.iter().zip(&outs[1].1).filter(|(a, b)| a != b).count();
            let at = outs[0].1.iter().zip(&outs[1].1).position(|(a, b)| a != b).unwrap_or(0);
            return Err(format!("output depends on prior buffer contents ({d} pixels differ, first {},{}): not every pixel is written", at % cfg.w, at / cfg.w));
        }
        c.count("pixels", 2 * n as u64);
        c.hit(&format!("speed{}", cfg.speed));
        let k = hash_bytes(hash_px(0, &outs[0].0), &outs[0].1);
        if n > 1 && outs[0].0.len() > 1 { c.distinct(k); }
        c.sample(format!("palette {} indices {:?}..", outs[0].0.len(), &outs[0].1[..outs[0].1.len().min(8)]));
        Ok(())
    });
    // one result reused for several images of different sizes
    x.cases("reuse", x.n(300, 6000), |c| {
        let mut cfg = Cfg::random(&mut c.rng);
        cfg.quality = None;
        let img = image(&mut c.rng, cfg.w, cfg.h, cfg.family);
        let p = Pix::new(&mut c.rng, cfg.w, cfg.h, img);
        c.desc(cfg.desc());
        let a = cfg.attr()?;
        let mut img = make_image(&cfg, &a, &p)?;
        let mut r = a.quantize(&mut img).map_err(|e| format!("quantize failed {e:?}"))?;
        let k = c.rng.range(2, 4);
        for _ in 0..k {
            if c.rng.chance(0.5) { r.set_dithering_level(c.rng.f() as f32).map_err(|e| format!("{e:?}"))?; }
            if c.rng.chance(0.3) { // same image again
                let (pal, idx) = r.remapped(&mut img).map_err(|e| format!("second remap failed {e:?}"))?;
                check_indices(&pal, &idx, &cfg)?;
            } else {
                let (w, h) = size(&mut c.rng);
                let f = c.rng.below(FAMILIES.len());
                let px = image(&mut c.rng, w, h, f);
                let p2 = Pix::new(&mut c.rng, w, h, px);
                let mut c2 = cfg.clone(); c2.w = w; c2.h = h; c2.src = c.rng.pick(&SRCS); c2.fixed.clear();
                let mut i2 = make_image(&c2, &a, &p2)?;
                let (pal, idx) = r.remapped(&mut i2).map_err(|e| format!("remap of another image failed {e:?}"))?;
                check_indices(&pal, &idx, &c2)?;
                c.distinct(hash_bytes(hash_px(3, &pal), &idx));
            }
            c.hit("remaps");
        }
        Ok(())
    });
}
