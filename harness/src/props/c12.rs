//! Importance maps.
use super::*;
use crate::color::*;
use std::collections::BTreeSet;

fn mask(r: &mut crate::rng::Rng, w: usize, h: usize) -> Vec<bool> {
    let n = w * h;
    match r.below(6) {
        0 => (0..n).map(|_| r.chance(0.5)).collect(),
        1 => { let k = r.below(n); (0..n).map(|i| i < k).collect() },
        2 => { let k = r.range(1, w); (0..n).map(|i| i % w < k).collect() },
        3 => { let k = r.below(n); (0..n).map(|i| i == k).collect() },
        4 => { let k = r.below(n); (0..n).map(|i| i != k).collect() },
        _ => { let (x0, y0) = (r.below(w), r.below(h)); let (x1, y1) = (r.range(x0 + 1, w), r.range(y0 + 1, h)); (0..n).map(|i| (x0..x1).contains(&(i % w)) && (y0..y1).contains(&(i / w))).collect() },
    }
}

fn set(v: &[RGBA]) -> BTreeSet<u32> { v.iter().map(|&c| crate::gen::key(c)).collect() }

pub fn run(x: &Ctx) {
    // colours under zero importance may be anything
    x.cases("zero", x.n(900, 20000), |c| {
        let r = &mut c.rng.clone();
        let mut cfg = Cfg::random(r);
        // dithering shows the palette that was refined while remapping
        let dither = r.pick(&[0., 0., 0.4, 1.]);
        cfg.dither = Some(dither);
        if dither > 0. && r.chance(0.7) { cfg.speed = r.range(3, 6) as i32; cfg.max_colors = r.range(2, 30) as u32; }
        let early = r.chance(0.5);
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        let px = image(r, cfg.w, cfg.h, cfg.family);
        let m = mask(r, cfg.w, cfg.h);
        let v = if r.chance(0.4) { 7 } else { r.u8().max(1) };
        let map: Vec<u8> = m.iter().map(|&b| if b { if v == 7 { 1 } else { v.saturating_add(r.below(9) as u8) } } else { 0 }).collect();
        let other: Vec<RGBA> = px.iter().zip(&m).map(|(&p, &b)| if b { p } else { any_color(r) }).collect();
        c.desc(format!("{} important {}", cfg.desc(), m.iter().filter(|&&b| b).count()));
        let (p, q) = (Pix::new(r, cfg.w, cfg.h, px), Pix::new(r, cfg.w, cfg.h, other));
        let one = |p: &Pix| -> Result<Result<(Vec<RGBA>, Option<f64>, Vec<RGBA>, Vec<u8>), Error>, String> {
            let a = cfg.attr()?;
            let mut img = make_image(&cfg, &a, p)?;
            img.set_importance_map(&map[..]).map_err(|e| format!("map refused {e:?}"))?;
            let mut q = match a.quantize(&mut img) { Ok(q) => q, Err(e) => return Ok(Err(e)) };
            let pal = if early { q.palette_vec() } else { vec![] };
            q.set_dithering_level(dither).map_err(|e| format!("{e:?}"))?;
            let (p2, idx) = q.remapped(&mut img).map_err(|e| format!("remap failed {e:?}"))?;
            Ok(Ok((pal, q.quantization_error(), p2, idx)))
        };
        match (one(&p)?, one(&q)?) {
            (Ok(a), Ok(b)) => {
                if a.0 != b.0 { return Err(format!("palette depends on pixels with importance 0: {:?} {:?}", &a.0[..a.0.len().min(8)], &b.0[..b.0.len().min(8)])); }
                if a.1 != b.1 { return Err(format!("quantization error depends on pixels with importance 0: {:?} {:?}", a.1, b.1)); }
                if a.2 != b.2 { return Err("palette after remapping depends on pixels with importance 0".into()); }
                let l = Lut::new(cfg.gamma);
                let pf = l.all(&a.2);
                if dither > 0. { c.hit("dithered"); }
                if let Some(i) = (0..map.len()).find(|&i| dither == 0. && map[i] > 0 && a.3[i] != b.3[i] && { let f = l.f(p.px[i]); (diff(&f, &pf[a.3[i] as usize]) - diff(&f, &pf[b.3[i] as usize])).abs() > 1e-6 }) { return Err(format!("pixel {i} with importance {} is remapped differently", map[i])); }
                c.distinct(hash_px(0, &a.2));
            },
            (Err(a), Err(b)) if a == b => { if m.contains(&true) || !cfg.fixed.is_empty() { return Err(format!("quantization failed with {a:?}")); } c.hit("nothing_important"); },
            (a, b) => return Err(format!("{:?} vs {:?}", a.map(|a| a.0.len()), b.map(|b| b.0.len()))),
        }
        Ok(())
    });
    // palette has exactly the colours of important pixels: right positions
    x.cases("positions", x.n(900, 20000), |c| {
        let r = &mut c.rng.clone();
        let s = (r.range(1, 40), r.range(1, 40));
        let (w, h) = or_big(r, 0.02, s);
        let mut cfg = Cfg::plain(w, h);
        cfg.speed = r.range(1, 7) as i32;
        cfg.src = r.pick(&SRCS);
        let n = cfg.w * cfg.h;
        let cs = distinct_colors(r, n);
        let mut m = mask(r, cfg.w, cfg.h);
        let mut k = m.iter().filter(|&&b| b).count();
        while k > 256 { let i = r.below(n); if m[i] { m[i] = false; k -= 1; } }
        if k == 0 { m[0] = true; }
        let map: Vec<u8> = m.iter().map(|&b| if b { r.pick(&[1, 2, 100, 255]) } else { 0 }).collect();
        let p = Pix::new(r, cfg.w, cfg.h, cs.clone());
        c.desc(format!("{} {k} important", cfg.desc()));
        let a = cfg.attr()?;
        let mut img = make_image(&cfg, &a, &p)?;
        // a map replaced by another one
        if r.chance(0.3) { img.set_importance_map(vec![r.u8(); n]).map_err(|e| format!("{e:?}"))?; }
        img.set_importance_map(&map[..]).map_err(|e| format!("map refused {e:?}"))?;
        // refused maps leave the previous one
        if r.chance(0.5) {
            for bad in [0, 1, n - 1, n + 1, n * 2, n / 2] {
                if bad == n { continue; }
                match img.set_importance_map(vec![255u8; bad]) { Err(Error::BufferTooSmall) => {}, o => return Err(format!("map of {bad} for {n} pixels: {o:?}")) }
            }
            c.hit("refusals");
        }
        // via a histogram, a clone, or directly
        let want: BTreeSet<u32> = set(&cs.iter().zip(&map).filter(|(_, &m)| m > 0).map(|(&c, _)| c).collect::<Vec<_>>());
        let mut q = match r.below(3) {
            0 => { let mut h = Histogram::new(&a); h.add_image(&a, &mut img).map_err(|e| format!("{e:?}"))?; h.quantize(&a) },
            1 => { let mut i2 = img.clone(); drop(img); let q = a.quantize(&mut i2); img = i2; q },
            _ => a.quantize(&mut img),
        }.map_err(|e| format!("{e:?}"))?;
        let got = set(&q.palette_vec());
        if got != want { return Err(format!("palette has {} colours, {} are in important pixels; {} missing", got.len(), want.len(), want.difference(&got).count())); }
        // the map stays in effect after remapping
        q.set_dithering_level(r.pick(&[0., 1.])).map_err(|e| format!("{e:?}"))?;
        q.remapped(&mut img).map_err(|e| format!("{e:?}"))?;
        match a.quantize(&mut img) {
            Ok(mut q) => { c.hit("requantized"); let got = set(&q.palette_vec()); if got != want { return Err(format!("after remapping the palette has {} colours, {} are in important pixels", got.len(), want.len())); } },
            Err(Error::Unsupported) => c.hit("source_dropped"),
            Err(e) => return Err(format!("{e:?}")),
        }
        c.distinct(hash_bytes(hash_px(0, &cs), &map));
        Ok(())
    });
    // remapping with another palette first must not replace the caller's map
    x.cases("history", x.n(400, 8000), |c| {
        let r = &mut c.rng.clone();
        let s = (r.range(4, 60), r.range(4, 60));
        let (w, h) = or_big(r, 0.02, s);
        let mut cfg = Cfg::random_sized(r, w, h);
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        let n = cfg.w * cfg.h;
        let px = image(r, cfg.w, cfg.h, cfg.family);
        let p = Pix::new(r, cfg.w, cfg.h, px);
        let map: Vec<u8> = (0..n).map(|_| if r.chance(0.3) { 0 } else { r.u8() }).collect();
        if map.iter().all(|&m| m == 0) && cfg.fixed.is_empty() { return Ok(()); }
        c.desc(cfg.desc());
        let a = cfg.attr()?;
        let pal = |img: &mut Image| a.quantize(img).map(|mut q| q.palette_vec());
        let mut img = make_image(&cfg, &a, &p)?;
        img.set_importance_map(&map[..]).map_err(|e| format!("{e:?}"))?;
        let want = pal(&mut img).map_err(|e| format!("{e:?}"))?;
        let again = pal(&mut img).map_err(|e| format!("second quantization failed {e:?}"))?;
        if want != again { return Err("second palette of the same image differs".into()); }
        for k in 0..3 {
            let cs = distinct_colors(r, 3 + k);
            let speed = r.range(1, 10) as i32;
            let mut d = dictated(&cs, speed, 0.)?;
            d.set_dithering_level(r.pick(&[0., 0.7, 1.])).map_err(|e| format!("{e:?}"))?;
            let keep = img.clone();
            d.remapped(&mut img).map_err(|e| format!("{e:?}"))?;
            match pal(&mut img) {
                Ok(p) => { c.hit("requantized"); if p != want { return Err(format!("after {} remaps the palette is different", k + 1)); } },
                Err(Error::Unsupported) => { c.hit("source_dropped"); img = keep; },
                Err(e) => return Err(format!("{e:?}")),
            }
        }
        c.distinct(hash_px(0, &want));
        Ok(())
    });
    // more important means better
    // with the map given, the palette is a matter of colours and their importance, not of where they are
    x.cases("arrangement", x.n(400, 8000), |c| {
        let r = &mut c.rng.clone();
        let (w, h) = (r.range(8, 64), r.range(8, 64));
        let mut cfg = Cfg::plain(w, h);
        cfg.speed = r.range(1, 10) as i32;
        cfg.family = r.below(FAMILIES.len());
        cfg.max_colors = r.range(2, 120) as u32;
        let px = image(r, w, h, cfg.family);
        let v = r.pick(&[255u8, 255, 255, 254, 128, 1, 2, 17]);
        let map: Vec<u8> = match r.below(3) { 0 => (0..w * h).map(|_| r.u8()).collect(), _ => vec![v; w * h] };
        let mut at: Vec<usize> = (0..w * h).collect();
        for i in (1..at.len()).rev() { let j = r.below(i + 1); at.swap(i, j); }
        c.desc(format!("{} importance {}..", cfg.desc(), map[0]));
        let l = Lut::new(0.);
        let pf = l.all(&px);
        let mut errs = vec![];
        let mut pals = vec![];
        for shuffled in [false, true] {
            let a = cfg.attr()?;
            let get = |i: usize| if shuffled { at[i] } else { i };
            let mut img = a.new_image((0..w * h).map(|i| px[get(i)]).collect::<Vec<_>>(), w, h, 0.).map_err(|e| format!("{e:?}"))?;
            img.set_importance_map((0..w * h).map(|i| map[get(i)]).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"))?;
            let pal = a.quantize(&mut img).map_err(|e| format!("{e:?}"))?.palette_vec();
            let f = l.all(&pal);
            errs.push((0..w * h).map(|i| nearest(&pf[i], &f).1 * map[i] as f64).sum::<f64>());
            pals.push(pal);
        }
        if pals[0] == pals[1] { c.hit("same"); }
        let tiny = 4e-6 * map.iter().map(|&m| m as f64).sum::<f64>(); // about a level off here and there
        let d = (errs[0] + tiny).ln() - (errs[1] + tiny).ln();
        c.count("absolute log ratio x1000", (d.abs() * 1000.) as u64);
        if d.abs() > 1.5 { return Err(format!("another arrangement of the same pixels and importance changes the error {:.2} times", d.exp())); }
        c.distinct(hash_px(0, &pals[0]));
        Ok(())
    });
    let (n, same, sum) = (x.counter("arrangement.cases"), x.counter("arrangement.same"), x.counter("arrangement.absolute log ratio x1000"));
    if n >= 100 && (same * 100 < n * 70 || sum > n * 25) { x.fail("arrangement", format!("another arrangement of the same pixels and importance gave the same palette in just {same} of {n} cases, and changed the error by {:.4}", sum as f64 / n as f64 / 1000.)); }
    x.cases("steer", x.n(300, 6000), |c| {
        let r = &mut c.rng.clone();
        let mut cfg = Cfg::plain(r.range(24, 64), r.range(24, 64));
        cfg.family = r.pick(&[2, 5, 6, 7, 8, 17]);
        cfg.speed = r.range(1, 10) as i32;
        cfg.max_colors = r.range(4, 40) as u32;
        let n = cfg.w * cfg.h;
        let px = image(r, cfg.w, cfg.h, cfg.family);
        let (x0, y0) = (r.below(cfg.w / 2), r.below(cfg.h / 2));
        let (rw, rh) = (cfg.w / 3, cfg.h / 3);
        let inside = |i: usize| (x0..x0 + rw).contains(&(i % cfg.w)) && (y0..y0 + rh).contains(&(i / cfg.w));
        c.desc(format!("{} region {x0},{y0} {rw}x{rh}", cfg.desc()));
        let p = Pix::new(r, cfg.w, cfg.h, px);
        let l = Lut::new(0.);
        let region: Vec<F> = (0..n).filter(|&i| inside(i)).map(|i| l.f(p.px[i])).collect();
        let run = |f: &dyn Fn(usize) -> u8| -> Result<f64, String> {
            let a = cfg.attr()?;
            let mut img = make_image(&cfg, &a, &p)?;
            img.set_importance_map((0..n).map(f).collect::<Vec<u8>>()).map_err(|e| format!("{e:?}"))?;
            let mut q = a.quantize(&mut img).map_err(|e| format!("{e:?}"))?;
            Ok(std_mse(palette_error(&region, &l.all(&q.palette_vec()))))
        };
        let flat = run(&|_| 40)?;
        let high = run(&|i| if inside(i) { 255 } else { 6 })?;
        let low = run(&|i| if inside(i) { 6 } else { 255 })?;
        c.sample(format!("error in region: important {high:.2}, neutral {flat:.2}, unimportant {low:.2}"));
        if cfg.max_colors >= 16 && high > flat * 3. + 3. { return Err(format!("error of the region grows from {flat:.3} to {high:.3} when it is made important")); }
        c.hit("regions");
        if high > flat * 1.02 + 0.05 { c.hit("not_better"); }
        if low < high * 0.98 - 0.05 { c.hit("inverted"); }
        c.distinct(high.to_bits());
        Ok(())
    });
    let (n, nb, inv) = (x.counter("steer.regions"), x.counter("steer.not_better"), x.counter("steer.inverted"));
    if n >= 100 && nb * 15 > n { x.fail("steer", format!("{nb} of {n} regions got worse when made more important")); }
    if n >= 100 && inv * 15 > n { x.fail("steer", format!("{inv} of {n} regions are better when unimportant than when important")); }
}
