//! Nothing accepted by the API makes the library panic, overflow or run forever.
//! The runner (run.rs) turns panics into violations, its watchdog non-termination; the driver turns signals into violations.
use super::*;
use crate::rng::Rng;
use crate::script::{generate, name, Opt, Rust};
use std::mem::MaybeUninit;

const GAMMAS: [f64; 12] = [0., 1e-300, 1e-30, 1e-6, 0.001, 0.01, 0.1, 0.45455, 0.9, 0.999999, 0.9999999999999999, 1.0];

fn extreme(r: &mut Rng) -> RGBA {
    match r.below(6) { 0 => rgba(0, 0, 0, 0), 1 => rgba(255, 255, 255, 0), 2 => rgba(r.u8(), r.u8(), r.u8(), 1), 3 => rgba(255, 255, 255, 255), 4 => rgba(r.pick(&[0, 255]), r.pick(&[0, 255]), r.pick(&[0, 255]), r.pick(&[0, 1, 254, 255])), _ => any_color(r) }
}

fn pixels(r: &mut Rng, w: usize, h: usize) -> Vec<RGBA> {
    let n = w * h;
    match r.below(9) {
        0 => (0..n).map(|_| rgba(r.u8(), r.u8(), r.u8(), 0)).collect(),               // transparent with junk underneath
        1 => (0..n).map(|i| { let mut c = extreme(r); c.a = if i == n / 2 { 1 } else { 0 }; c }).collect(),
        2 => { let c = extreme(r); vec![c; n] },
        3 => (0..n).map(|_| extreme(r)).collect(),
        4 => (0..n).map(|i| rgba(i as u8, (i >> 8) as u8, (i >> 16) as u8, 255)).collect(),
        5 => (0..n).map(|i| rgba(255, 255, 255, i as u8)).collect(),
        6 => (0..n).map(|i| rgba((i % 3) as u8, 0, 0, 1)).collect(),                  // differences too small to see
        _ => { let f = r.below(FAMILIES.len()); image(r, w, h, f) },
    }
}

fn dims(r: &mut Rng, max: usize) -> (usize, usize) {
    match r.below(9) {
        0 => (1, 1), 1 => (1, r.range(1, max * 20)), 2 => (r.range(1, max * 20), 1), 3 => (2, r.range(1, max * 9)), 4 => (r.range(3, 5), r.range(3, 5)),
        5 => (r.range(1, 4), r.range(128, 400)), _ => (r.range(1, max), r.range(1, max)),
    }
}

fn e(x: Error) -> String { format!("{x:?}") }

/// settings at and beyond the edges; a refused one is simply not in force
fn settings(r: &mut Rng, d: &mut String) -> Attributes {
    let mut a = Attributes::new();
    let s = if r.chance(0.25) { r.pick(&[1, 10]) } else { r.range(1, 10) as i32 };
    let _ = a.set_speed(s);
    if r.chance(0.5) { let m = r.pick(&[2, 2, 3, 4, 5, 255, 256, 100]); let _ = a.set_max_colors(m); d.push_str(&format!(" colors {m}")); }
    if r.chance(0.5) { let (lo, hi) = r.pick(&[(0, 0), (0, 1), (0, 100), (100, 100), (0, 50), (1, 1), (99, 100), (20, 40), (60, 60)]); let _ = a.set_quality(lo, hi); d.push_str(&format!(" q {lo}-{hi}")); }
    if r.chance(0.3) { let p = r.range(0, 4) as u8; let _ = a.set_min_posterization(p); d.push_str(&format!(" post {p}")); }
    if r.chance(0.3) { a.set_last_index_transparent(true); d.push_str(" last"); }
    d.push_str(&format!(" speed {s}"));
    a
}

fn use_result(c: &mut Case, r: &mut Rng, res: &mut QuantizationResult, img: &mut Image) -> R {
    for _ in 0..r.range(1, 3) {
        if r.chance(0.7) { let _ = res.set_dithering_level(r.pick(&[0., 1., 0.5, 1e-30, 0.999])); }
        if r.chance(0.4) { let _ = res.set_output_gamma(r.pick(&GAMMAS)); }
        if r.chance(0.3) { let _ = res.palette_vec(); }
        let (w, h) = (img.width(), img.height());
        let ok = if r.chance(0.5) {
            match res.remapped(img) {
                Ok((pal, idx)) => { if pal.is_empty() || idx.len() != w * h { return Err(format!("{} palette colours, {} of {} pixels", pal.len(), idx.len(), w * h)); } c.distinct(hash_bytes(hash_px(0, &pal), &idx)); true },
                Err(_) => false,
            }
        } else {
            let mut buf = vec![MaybeUninit::<u8>::uninit(); w * h + r.below(3)];
            res.remap_into(img, &mut buf).is_ok()
        };
        c.hit(if ok { "remapped" } else { "remap refused" });
        for v in [res.remapping_error(), res.quantization_error()].into_iter().flatten() { if !v.is_finite() || v < 0. { return Err(format!("error reported as {v}")); } }
    }
    Ok(())
}

pub fn run(x: &Ctx) {
    x.cases("program", x.n(6000, 120000), |c| {
        let r = &mut c.rng.clone();
        let o = Opt { max_side: r.pick(&[8, 24, 40, 70]), min_speed: if r.chance(0.15) { 1 } else { 4 }, ..Opt::std() };
        let n = r.range(4, 60);
        let ops = generate(r, n, &o);
        let mut b = Rust::new();
        let mut d = 0;
        for (i, op) in ops.iter().enumerate() {
            match guarded(|| b.exec(op)) {
                Ok(out) => { if let Some(o) = out { c.hit("calls"); d = hash_bytes(d, o.as_bytes()); } },
                Err(m) => { std::mem::forget(b); return Err(format!("call {i} {}: {m}", name(op))); },
            }
        }
        c.distinct(d);
        guarded(move || drop(b))?;
        Ok(())
    });

    x.cases("image", x.n(9000, 150000), |c| {
        let r = &mut c.rng.clone();
        let mut d = String::new();
        let a = settings(r, &mut d);
        let (w, h) = dims(r, 48);
        let px = pixels(r, w, h);
        let g = if r.chance(0.4) { r.pick(&GAMMAS) } else { 0. };
        c.desc(format!("{w}x{h} gamma {g}{d}"));
        let bgpx = if r.chance(0.3) { Some(pixels(r, w, h)) } else { None };
        let mut img = match a.new_image_borrowed(&px, w, h, g) { Ok(i) => i, Err(_) => { c.hit("image refused"); return Ok(()); } };
        if r.chance(0.3) {
            let m: Vec<u8> = match r.below(4) { 0 => vec![0; w * h], 1 => vec![1; w * h], 2 => { let mut v = vec![0; w * h]; v[r.below(w * h)] = r.pick(&[1, 255]); v }, _ => (0..w * h).map(|_| r.pick(&[0, 1, 255])).collect() };
            if img.set_importance_map(&m[..]).is_ok() { c.hit("importance map"); }
        }
        if r.chance(0.35) {
            let n = r.pick(&[1, 2, 3, 254, 255, 256, 257, 300]);
            let same = r.chance(0.3);
            let k = extreme(r);
            let mut ok = 0;
            for _ in 0..n { let col = if same { k } else if r.chance(0.2) { px[r.below(px.len())] } else { extreme(r) }; if img.add_fixed_color(col).is_ok() { ok += 1; } }
            c.count("fixed colours", ok);
        }
        if let Some(b) = &bgpx {
            if let Ok(b) = a.new_image_borrowed(b, w, h, if r.chance(0.5) { r.pick(&GAMMAS) } else { 0. }) { if img.set_background(b).is_ok() { c.hit("background"); } }
        }
        match a.quantize(&mut img) {
            Ok(mut res) => { c.hit("quantized"); use_result(c, r, &mut res, &mut img)?; if r.chance(0.2) { if let Ok(mut q) = a.quantize(&mut img) { use_result(c, r, &mut q, &mut img)?; } } },
            Err(er) => c.hit(&format!("quantize {er:?}")),
        }
        Ok(())
    });

    x.cases("histogram", x.n(6000, 100000), |c| {
        let r = &mut c.rng.clone();
        let mut d = String::new();
        let a = settings(r, &mut d);
        let mut hist = Histogram::new(&a);
        let (w, h) = dims(r, 30);
        for _ in 0..r.range(1, 6) {
            let g = if r.chance(0.4) { r.pick(&GAMMAS) } else { 0. };
            match r.below(4) {
                0 | 1 => {
                    let n = r.pick(&[0, 1, 2, 3, 30, 257, 600, 3000]);
                    let scale = r.below(4);
                    let es: Vec<HistogramEntry> = (0..n).map(|_| HistogramEntry { color: extreme(r), count: match scale { 0 => u32::MAX, 1 => r.pick(&[0, 1, u32::MAX, u32::MAX - 1, 1 << 31]), 2 => 0, _ => r.u32() } }).collect();
                    let ok = hist.add_colors(&es, g).is_ok();
                    c.hit(if ok { "colours added" } else { "colours refused" });
                },
                2 => { for _ in 0..r.pick(&[1, 2, 256, 257]) { let _ = hist.add_fixed_color(extreme(r), g); } },
                _ => {
                    let px = pixels(r, w, h);
                    if let Ok(mut i) = a.new_image(px, w, h, g) { let ok = hist.add_image(&a, &mut i).is_ok(); c.hit(if ok { "image added" } else { "image refused" }); }
                },
            }
        }
        c.desc(format!("{w}x{h}{d}"));
        match hist.quantize(&a) {
            Ok(mut res) => {
                c.hit("quantized");
                let px = pixels(r, w, h);
                let g = if r.chance(0.4) { r.pick(&GAMMAS) } else { 0. };
                if let Ok(mut img) = a.new_image(px, w, h, g) { use_result(c, r, &mut res, &mut img)?; }
            },
            Err(er) => c.hit(&format!("quantize {er:?}")),
        }
        Ok(())
    });

    // awkward large shapes
    x.cases_t("big", x.n(7, 28), if cfg!(feature = "mt") { 2 } else { 7 }, |c| {
        let r = &mut c.rng.clone();
        let (w, h) = match c.idx % 7 { 0 => (1, 300_000), 1 => (300_000, 1), 2 => (3, 100_000), 3 => (2_200, 2_000), 4 => (131_072, 3), 5 => (1_000, 1_000), _ => (513, 129) };
        let kind = if c.idx < 7 { c.idx as usize % 3 } else { r.below(3) };
        let px: Vec<RGBA> = match kind { 0 => (0..w * h).map(|_| rgba(r.u8(), r.u8(), r.u8(), r.u8())).collect(), 1 => (0..w * h).map(|i| rgba((i * 31) as u8, (i / 7) as u8, (i / 1000) as u8, 255)).collect(), _ => (0..w * h).map(|_| rgba(r.u8(), 0, 0, 0)).collect() };
        let mut a = Attributes::new();
        let s = if w * h > 1_000_000 { r.pick(&[5, 8, 10]) } else { r.pick(&[3, 4, 7, 10]) };
        a.set_speed(s).map_err(e)?;
        if cfg!(feature = "large") { a.set_max_colors(256).map_err(e)?; }
        c.desc(format!("{w}x{h} kind {kind} speed {s}"));
        let mut img = a.new_image_borrowed(&px, w, h, 0.).map_err(e)?;
        let mut q = a.quantize(&mut img).map_err(|e| format!("quantize: {e:?}"))?;
        q.set_dithering_level(r.pick(&[0., 1.])).map_err(e)?;
        let (pal, idx) = q.remapped(&mut img).map_err(|e| format!("remap: {e:?}"))?;
        if idx.len() != w * h || idx.iter().any(|&i| i as usize >= pal.len()) { return Err("malformed output".into()); }
        c.distinct(hash_bytes(0, &idx));
        Ok(())
    });
}
