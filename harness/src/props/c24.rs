//! Palettes of more than 256 colours.
use super::*;
use crate::color::*;
use crate::rng::Rng;
use std::collections::HashSet;

const MAX: usize = 2048;

fn case(r: &mut Rng) -> (Cfg, Pix) {
    let mut cfg = Cfg::random(r);
    cfg.w = cfg.w.min(120); cfg.h = cfg.h.min(120);
    cfg.quality = None;
    let px = image(r, cfg.w, cfg.h, cfg.family);
    let p = Pix::new(r, cfg.w, cfg.h, px);
    (cfg, p)
}
fn digest(seed: u64) -> u64 {
    let r = &mut Rng::new(seed);
    let (mut cfg, p) = case(r);
    if r.chance(0.3) { let n = r.range(1, 256); cfg.fixed = distinct_colors(r, n); }
    match quant_remap(&cfg, &p) { Ok(o) => o.digest(), Err(e) => hash_bytes(7, format!("{e:?}").as_bytes()) }
}
pub fn child(args: &[String]) -> bool {
    for s in &args[2..] { println!("= {:x}", digest(s.parse().unwrap())); }
    true
}

pub fn run(x: &Ctx) {
    // with a limit that fits in a byte
    x.cases("same", x.n(100, 2000), |c| {
        let r = &mut c.rng.clone();
        let seeds: Vec<u64> = (0..40).map(|_| r.u64()).collect();
        let exe = std::env::var_os("LIQ_ST").ok_or("HARNESS no reference build")?;
        let o = std::process::Command::new(exe).arg("c24-ref").args(seeds.iter().map(|s| s.to_string())).output().map_err(|e| format!("HARNESS {e}"))?;
        let t = String::from_utf8_lossy(&o.stdout).to_string();
        let v: Vec<u64> = t.lines().filter_map(|l| u64::from_str_radix(l.strip_prefix("= ")?, 16).ok()).collect();
        if v.len() != seeds.len() { return Err(format!("normal build failed: {t} {}", String::from_utf8_lossy(&o.stderr))); }
        for (s, d) in seeds.iter().zip(v) {
            if digest(*s) != d { let r = &mut Rng::new(*s); return Err(format!("large-palette build computes something else than the normal one, seed {s} {}", case(r).0.desc())); }
            c.distinct(d);
        }
        c.count("compared with the normal build", seeds.len() as u64);
        Ok(())
    });
    // colours that fit, and colours that don't
    x.cases("many", x.n(250, 6000), |c| {
        let r = &mut c.rng.clone();
        let n = match r.below(6) { 0 => r.range(250, 262), 1 => r.range(2040, 2055), 2 => r.range(1, 256), 3 => r.range(2049, 3500), _ => r.range(257, 2048) };
        let cs = distinct_colors(r, n);
        let w = r.range(30, 70);
        let h = n / w + 1 + r.below(30);
        let mut px: Vec<RGBA> = (0..w * h).map(|i| cs[i % n]).collect();
        if r.chance(0.5) { r.shuffle(&mut px); }
        let mut cfg = Cfg::plain(w, h);
        cfg.src = r.pick(&SRCS);
        cfg.speed = r.range(1, 7) as i32;
        let p = Pix::new(r, w, h, px);
        let mut a = Attributes::new();
        if a.max_colors() as usize != MAX { return Err(format!("default limit is {}", a.max_colors())); }
        a.set_speed(cfg.speed).map_err(|e| format!("{e:?}"))?;
        let dither = r.pick(&[0f32, 0.5, 1.]);
        let via_hist = r.chance(0.3);
        c.desc(format!("{n} colours dither {dither} hist {via_hist} {}", cfg.desc()));
        let mut img = make_image(&cfg, &a, &p)?;
        let mut q = if via_hist {
            let mut h = Histogram::new(&a);
            h.add_image(&a, &mut img).map_err(|e| format!("{e:?}"))?;
            h.quantize(&a)
        } else { a.quantize(&mut img) }.map_err(|e| format!("quantize failed {e:?}"))?;
        q.set_dithering_level(dither).map_err(|e| format!("{e:?}"))?;
        let have: HashSet<u32> = cs.iter().map(|&c| key(c)).collect();
        let check = |pal: &[RGBA], when: &str| -> R {
            if pal.len() > MAX || pal.is_empty() { return Err(format!("palette of {} {when}", pal.len())); }
            if n <= MAX {
                let got: HashSet<u32> = pal.iter().map(|&c| key(c)).collect();
                if let Some(e) = pal.iter().find(|c| !have.contains(&key(**c))) { return Err(format!("{e:?} {when} is not a colour of the image")); }
                if let Some(e) = cs.iter().find(|c| !got.contains(&key(**c))) { return Err(format!("{e:?} is missing from the palette {when}")); }
                if pal.len() != have.len() { return Err(format!("{} entries {when} for {} colours", pal.len(), have.len())); }
            }
            Ok(())
        };
        let len = q.palette_len();
        let early = r.chance(0.5);
        if early { let pal = q.palette().to_vec(); check(&pal, "before remapping")?; }
        let mut buf = vec![std::mem::MaybeUninit::new(0xA5u8); w * h];
        match (q.remap_into(&mut img, &mut buf), len > 256) {
            (Err(Error::Unsupported), true) => {
                if buf.iter().any(|b| unsafe { b.assume_init() } != 0xA5) { return Err("refused remapping wrote pixels".into()); }
                c.hit("refused");
            },
            (Ok(()), false) => {
                let pal = q.palette_vec();
                let idx: Vec<u8> = buf.iter().map(|b| unsafe { b.assume_init() }).collect();
                check_indices(&pal, &idx, &Cfg { max_colors: 256, ..cfg.clone() })?;
                for (i, d) in idx.iter().enumerate() { if n <= MAX && key(pal[*d as usize]) != key(p.px[i]) { return Err(format!("pixel {i} was {:?}, shown as {:?}", p.px[i], pal[*d as usize])); } }
                c.hit("remapped");
            },
            (r, _) => return Err(format!("remapping to {len} colours gave {r:?}")),
        }
        let pal = q.palette().to_vec();
        check(&pal, "after remapping")?;
        if pal.len() != len { return Err(format!("palette_len() {len}, {} colours", pal.len())); }
        if n > MAX {
            // eight times the colours have to be worth something
            let lut = Lut::new(SRGB);
            let some: Vec<F> = cs.iter().step_by(7).map(|&c| lut.f(c)).collect();
            let big = palette_error(&some, &lut.all(&pal));
            let mut a2 = Attributes::new();
            a2.set_speed(cfg.speed).and_then(|_| a2.set_max_colors(256)).map_err(|e| format!("{e:?}"))?;
            let mut img = make_image(&cfg, &a2, &p)?;
            let small = palette_error(&some, &lut.all(a2.quantize(&mut img).map_err(|e| format!("{e:?}"))?.palette()));
            c.sample(format!("error {big:.2e} with {}, {small:.2e} with 256", pal.len()));
            if big > small * 0.6 && small > 1e-5 { return Err(format!("error {big:.3e} with {} colours, {small:.3e} with 256", pal.len())); }
        }
        c.distinct(hash_px(n as u64, &pal));
        Ok(())
    });
    // fixed colours beyond a byte
    x.cases("fixed", x.n(250, 6000), |c| {
        let r = &mut c.rng.clone();
        let n = match r.below(3) { 0 => r.range(250, 300), 1 => MAX, _ => r.range(1, MAX) };
        let cs = distinct_colors(r, n);
        let (cfg, p) = case(r);
        let mut a = Attributes::new();
        a.set_speed(cfg.speed).map_err(|e| format!("{e:?}"))?;
        let limit = if r.chance(0.3) { let l = r.range(2, 256); a.set_max_colors(l as u32).map_err(|e| format!("{e:?}"))?; l } else { MAX };
        c.desc(format!("{n} fixed colours, limit {limit} {}", cfg.desc()));
        let via = r.below(3);
        let mut img = make_image(&Cfg { fixed: vec![], ..cfg.clone() }, &a, &p)?;
        let mut q = if via == 0 {
            for &c in &cs { img.add_fixed_color(c).map_err(|e| format!("fixed colour refused {e:?}"))?; }
            if n == MAX && !matches!(img.add_fixed_color(rgba(1, 2, 3, 4)), Err(Error::Unsupported)) { return Err("2049 fixed colours accepted".into()); }
            a.quantize(&mut img)
        } else {
            let mut h = Histogram::new(&a);
            for &c in &cs { h.add_fixed_color(c, 0.).map_err(|e| format!("fixed colour refused {e:?}"))?; }
            if via == 1 { h.add_image(&a, &mut img).map_err(|e| format!("{e:?}"))?; }
            h.quantize(&a)
        }.map_err(|e| format!("quantize failed {e:?}"))?;
        let pal = q.palette().to_vec();
        if pal.len() > limit { return Err(format!("palette of {} exceeds {limit}", pal.len())); }
        let got: HashSet<u32> = pal.iter().map(|&c| key(c)).collect();
        for (i, &f) in cs.iter().take(limit).enumerate() {
            if !got.contains(&key(f)) { return Err(format!("fixed colour #{i} {f:?} is missing from the palette of {}", pal.len())); }
        }
        let mut buf = vec![std::mem::MaybeUninit::new(0xA5u8); cfg.w * cfg.h];
        match (q.remap_into(&mut img, &mut buf), pal.len() > 256) {
            (Err(Error::Unsupported), true) => c.hit("refused"),
            (Ok(()), false) => {
                let n = q.palette_len();
                if buf.iter().any(|b| unsafe { b.assume_init() } as usize >= n) { return Err("index out of range".into()); }
                c.hit("remapped");
            },
            (r, _) => return Err(format!("remapping to {} colours gave {r:?}", pal.len())),
        }
        c.distinct(hash_px(limit as u64, &pal));
        Ok(())
    });
    // more colours than the palette has room for: as good as it can be expected to be
    x.cases("refined", x.n(40, 1000), |c| {
        let r = &mut c.rng.clone();
        let max = r.pick(&[256usize, MAX, MAX, MAX]);
        let n = max * r.range(2, 5);
        let (w, h) = (n / 50 + 1, r.range(50, 60));
        // each colour once or twice, so that weights hardly matter
        let cs: Vec<RGBA> = if r.chance(0.5) { distinct_colors(r, n).into_iter().map(|c| rgba(c.r, c.g, c.b, 255)).collect() } else { (0..n).map(|_| { let v = r.u64(); rgba(v as u8, (v >> 8) as u8, (v >> 16) as u8, 255) }).collect() };
        let px: Vec<RGBA> = (0..w * h).map(|i| cs[i % n]).collect();
        let mut cfg = Cfg::plain(w, h);
        cfg.speed = r.range(1, 7) as i32;
        let mut a = Attributes::new();
        a.set_speed(cfg.speed).map_err(|e| format!("{e:?}"))?;
        if max < MAX { a.set_max_colors(max as u32).map_err(|e| format!("{e:?}"))?; }
        c.desc(format!("{n} colours for {max} speed {}", cfg.speed));
        let mut hi = Histogram::new(&a);
        hi.add_colors(&cs.iter().map(|&c| HistogramEntry { color: c, count: 1 }).collect::<Vec<_>>(), 0.).map_err(|e| format!("{e:?}"))?;
        let via_hist = r.chance(0.5);
        let mut img = a.new_image_borrowed(&px[..], w, h, 0.).map_err(|e| format!("{e:?}"))?;
        let mut q = if via_hist { hi.quantize(&a) } else { a.quantize(&mut img) }.map_err(|e| format!("{e:?}"))?;
        let lut = Lut::new(SRGB);
        let all = lut.all(&cs);
        let pal = lut.all(q.palette());
        let err = palette_error(&all, &pal);
        // what one or two rounds of averaging could still gain
        let mut better = pal.clone();
        for _ in 0..2 { better = lloyd(&all, &better); }
        let err2 = palette_error(&all, &better);
        let (e, gain) = (std_mse(err), err2 / err.max(1e-12));
        c.sample(format!("error {e:.2}, {:.3} of it left after two more rounds of averaging", gain));
        if e > 1. {
            c.hit("judged");
            // observed on the unchanged tree: at least 0.90
            if gain < 0.85 { return Err(format!("palette of {} has error {e:.3}, averaging the nearest colours twice reduces it to {gain:.3} of that", pal.len())); }
        }
        c.distinct(hash_px(n as u64, q.palette()));
        Ok(())
    });
}
