//! Dithering. The online checker follows the errors the output itself makes: at every pixel the shown colour has to be
//! the one nearest to the source plus what its neighbours diffused to it. The offline one compares block averages.
use super::*;
use crate::color::*;
use crate::rng::Rng;

/// the colour to look up in the palette: source plus diffused error, limited
pub fn shifted(e: &F, p: &F, slack: f64, base: f64, max_err: f64) -> F {
    let s: F = std::array::from_fn(|i| e[i] * base);
    let d = s.iter().map(|x| x * x).sum::<f64>();
    if d < 2. / 65536. * (1. + slack) { return *p; }
    let mut ratio = 1f64;
    for i in 1..4 {
        let v = p[i] + s[i];
        if v > 1.1 { ratio = ratio.min((1.1 - p[i]) / s[i]); } else if v < -0.1 { ratio = ratio.min((-0.1 - p[i]) / s[i]); }
    }
    if d > max_err * (1. + slack) { ratio *= 0.8; }
    [(p[0] + s[0]).clamp(0., 1.), p[1] + s[1] * ratio, p[2] + s[2] * ratio, p[3] + s[3] * ratio]
}

/// Error diffusion replayed along the actual output.
struct Replay<'a> { px: &'a [F], pal: &'a [F], idx: &'a [u8], w: usize, base: f64, max_err: f64, map: Option<&'a [u8]> }

impl Replay<'_> {
    /// Errors diffused to the next row, and pixels of this one whose colour isn't the nearest to source + diffused error.
    /// Unless following the output, the nearest colour is assumed.
    fn row(&self, y: usize, mut cur: Vec<F>, follow: bool) -> (Vec<F>, Vec<usize>) {
        let w = self.w;
        let sq = |s: &F| s.iter().map(|x| x * x).sum::<f64>();
        let spread = |at: &mut [F], k: usize, e: &F, f: f64| for i in 0..4 { at[k][i] += e[i] * f / 16. };
        let mut next = vec![[0.; 4]; w + 2];
        let mut wrong = vec![];
        let fwd = y % 2 == 0;
        for x in 0..w {
            let c = if fwd { x } else { w - 1 - x };
            let p = &self.px[y * w + c];
            let at = |slack, m: i32| {
                let base = self.map.map_or(self.base, |map| self.base * (map[y * w + c] as i32 + m).clamp(0, 255) as f64 / 255.);
                shifted(&cur[c + 1], p, slack, base, self.max_err)
            };
            let mut s = at(0., 0);
            let got = if follow {
                let got = &self.pal[self.idx[y * w + c] as usize];
                // decisions at a threshold may fall either way
                let ok = |s: &F| { let g = diff(s, got); let b = nearest(s, self.pal).1; g <= b * 1.001 + 4e-6 * b.sqrt() + 1e-11 };
                let mut good = ok(&s);
                if !good { for (k, m) in [(1e-4, 0), (-1e-4, 0), (0., 1), (0., -1)] { let t = at(k, m); if ok(&t) { s = t; good = true; break; } } }
                if !good { wrong.push(c); }
                got
            } else { &self.pal[nearest(&s, self.pal).0] };
            let mut e: F = std::array::from_fn(|i| s[i] - got[i]);
            if sq(&e) > self.max_err { for v in &mut e { *v *= 0.75; } }
            let ahead = if fwd { c + 2 } else { c };
            let behind = if fwd { c } else { c + 2 };
            spread(&mut cur, ahead, &e, 7.);
            spread(&mut next, behind, &e, 3.);
            spread(&mut next, c + 1, &e, 5.);
            spread(&mut next, ahead, &e, 1.);
        }
        (next, wrong)
    }

    /// Pixels that are wrong in the whole image, the first of them, and number of seams.
    /// Parts may start from error of a few rows above them that were dithered just for this.
    fn all(&self, parts: bool) -> (usize, (usize, usize), usize) {
        let h = self.px.len() / self.w;
        let zero = || vec![[0.; 4]; self.w + 2];
        let (mut total, mut first, mut seams, mut last_seam) = (0, (0, 0), 0, 0);
        let mut cur = zero();
        let mut behind: Vec<usize> = vec![]; // wrong in previous rows
        let mut y = 0;
        while y < h {
            let (mut next, mut wrong) = self.row(y, cur, true);
            if parts && !wrong.is_empty() {
                let mut best = (wrong.len(), 0);
                // the difference may be visible only a few rows later
                for back in 0..8 { for warm_up in [2, 1, 3, 4] {
                    if y < back + warm_up + 2 || y - back < last_seam + 60 || best.0 == 0 { continue; }
                    let mut st = zero();
                    for k in y - back - warm_up..y - back { st = self.row(k, st, false).0; }
                    let mut bad = 0;
                    let mut last = vec![];
                    for k in y - back..=y { let (n, w) = self.row(k, st, true); st = n; bad += w.len(); last = w; }
                    let before: usize = behind[y - back..].iter().sum();
                    if bad < best.0 + before { best = (bad, y - back); next = st; wrong = last; }
                } }
                if best.1 > 0 { seams += 1; last_seam = best.1; }
            }
            if let Some(&x) = wrong.first() { if total == 0 { first = (x, y); } }
            total += wrong.len();
            behind.push(wrong.len());
            cur = next;
            y += 1;
        }
        (total, first, seams)
    }
}

/// the extreme of the five pixels around each
fn five(v: &[u8], w: usize, op: fn(u8, u8) -> u8) -> Vec<u8> {
    let h = v.len() / w;
    (0..v.len()).map(|i| {
        let (x, y) = (i % w, i / w);
        [y * w + x.saturating_sub(1), y * w + (x + 1).min(w - 1), y.saturating_sub(1) * w + x, (y + 1).min(h - 1) * w + x].iter().fold(v[i], |a, &k| op(a, v[k]))
    }).collect()
}

/// Where dithering is wanted: flat areas as opposed to noise and edges. None for tiny images.
fn flatness(px: &[F], w: usize) -> Option<Vec<u8>> {
    let h = px.len() / w;
    if w < 4 || h < 4 { return None; }
    let mut noise = vec![];
    let mut edges = vec![];
    for y in 0..h { for x in 0..w {
        let at = |x: usize, y: usize| px[y * w + x].map(|v| v as f32);
        let c = at(x, y);
        let bend = |a: [f32; 4], b: [f32; 4]| (0..4).map(|i| (a[i] + b[i] - c[i] * 2.).abs()).fold(0f32, f32::max);
        let hor = bend(at(x.saturating_sub(1), y), at((x + 1).min(w - 1), y));
        let ver = bend(at(x, y.saturating_sub(1)), at(x, (y + 1).min(h - 1)));
        let edge = hor.max(ver);
        let z = 1. - (edge - (hor - ver).abs() * 0.5).max(hor.min(ver));
        noise.push((z.powi(4) * 176. + 80.) as u8);
        edges.push(((1. - edge) * 256.) as u8);
    } }
    let (max, min): (fn(u8, u8) -> u8, fn(u8, u8) -> u8) = (|a, b| a.max(b), |a, b| a.min(b));
    let mut n = five(&five(&noise, w, max), w, max);
    if w >= 7 && h >= 7 {
        // box of six, in both directions
        let sum = |v: &dyn Fn(isize) -> u8| ((-2..=3).map(|d| v(d) as u32).sum::<u32>() / 6) as u8;
        let hor: Vec<u8> = (0..n.len()).map(|i| sum(&|d| n[i / w * w + ((i % w) as isize + d).clamp(0, w as isize - 1) as usize])).collect();
        n = (0..n.len()).map(|i| sum(&|d| hor[((i / w) as isize + d).clamp(0, h as isize - 1) as usize * w + i % w])).collect();
    }
    for op in [max, min, min, min] { n = five(&n, w, op); }
    let edges = five(&five(&edges, w, min), w, max);
    Some(edges.iter().zip(&n).map(|(&a, &b)| a.min(b)).collect())
}

/// Less dithering where the palette colour changes from pixel to pixel anyway.
fn dither_map(px: &[F], w: usize, undithered: &[u8]) -> Option<Vec<u8>> {
    let mut map = flatness(px, w)?;
    let h = px.len() / w;
    for y in 0..h {
        let row = &undithered[y * w..][..w];
        let mut start = 0;
        let mut colour = row[0];
        for x in 1..w {
            if row[x] == colour && x + 1 < w { continue; }
            let mut alike = 10 * (x - start);
            for i in start..x {
                if y > 0 && undithered[(y - 1) * w + i] == colour { alike += 15; }
                if y + 1 < h && undithered[(y + 1) * w + i] == colour { alike += 15; }
            }
            for i in start..=x { let m = &mut map[y * w + i]; *m = ((*m as f32 + 128.) * (255. / 383.) * (1. - 20. / (20 + alike) as f32)) as u8; }
            start = x + 1;
            colour = row[x];
        }
    }
    Some(map)
}

pub fn level(l: f32) -> f64 { let d = 1. - l as f64; (1. - d * d) * 15. / 16. }

/// something without edges
fn smooth(r: &mut Rng, w: usize, h: usize) -> Vec<RGBA> {
    match r.below(6) {
        0 => image(r, w, h, FAMILIES.iter().position(|f| *f == "photo").unwrap()),
        1 => image(r, w, h, FAMILIES.iter().position(|f| *f == "grad2").unwrap()),
        2 => image(r, w, h, FAMILIES.iter().position(|f| *f == "alphagrad").unwrap()),
        3 => { let v = opaque(r); vec![v; w * h] },
        _ => image(r, w, h, FAMILIES.iter().position(|f| *f == "hgrad").unwrap()),
    }
}

fn grid(r: &mut Rng) -> Vec<RGBA> {
    let (a, b, d) = (r.range(2, 7), r.range(2, 7), r.range(2, 6));
    let mut v = vec![];
    for i in 0..a { for j in 0..b { for k in 0..d { v.push(rgba((i * 255 / (a - 1)) as u8, (j * 255 / (b - 1)) as u8, (k * 255 / (d - 1)) as u8, 255)); } } }
    v.truncate(256);
    v
}

/// how many pixels may be off; where a part starts can be misjudged
fn limit(c: &mut Case, n: usize, parts: bool, wrong: usize) -> usize {
    let l = 8 + n / 1000;
    if !parts { return l; }
    if wrong > l { c.hit("unclear seams"); }
    50 + n / 30
}

fn replays(x: &Ctx) {
    x.cases("replay", x.n(1800, 40000), |c| {
        let r = &mut c.rng.clone();
        let tall = r.chance(0.2);
        let (w, h) = if r.chance(0.01) { big_size(r) } else if tall { (r.range(3, 90), r.range(129, 700)) } else { (r.range(1, 90), r.range(1, 90)) };
        let mut cfg = Cfg::plain(w, h);
        cfg.speed = r.range(7, 10) as i32;
        let l = r.pick(&[1f32, 1., 1., 0.9, 0.7, 0.5, 0.3, 0.1]);
        let px = if r.chance(0.7) { smooth(r, w, h) } else { cfg.family = r.below(FAMILIES.len()); image(r, w, h, cfg.family) };
        let p = Pix::new(r, w, h, px);
        let kind = r.below(3);
        c.desc(format!("kind {kind} level {l} {}", cfg.desc()));
        let e = |e: Error| format!("failed {e:?}");
        let (mut q, a) = match kind {
            0 => (dictated(&grid(r), cfg.speed, 0.)?, cfg.attr()?),
            1 => (dictated(&super::c03::test_palette(r).0, cfg.speed, 0.)?, cfg.attr()?),
            _ => {
                cfg.max_colors = r.range(2, 256) as u32;
                let a = cfg.attr()?;
                let mut img = make_image(&cfg, &a, &p)?;
                (a.quantize(&mut img).map_err(e)?, a)
            },
        };
        q.set_dithering_level(l).map_err(e)?;
        let mut img = make_image(&cfg, &a, &p)?;
        let qe = q.quantization_error().map_or(quality_to_mse(80), |m| m * 6. * 0.45 / 65536.);
        let (pal, idx) = q.remapped(&mut img).map_err(e)?;
        check_indices(&pal, &idx, &Cfg { max_colors: 256, ..cfg.clone() })?;
        let lut = Lut::new(SRGB);
        let max_err = (qe * 2.4).max(quality_to_mse(35));
        // threads start dithering in the middle of tall images
        let parts = cfg!(feature = "mt") && h > 128;
        let (wrong, first, seams) = Replay { px: &lut.all(&p.px), pal: &lut.all(&pal), idx: &idx, w, base: level(l), max_err, map: None }.all(parts);
        c.count("pixels", (w * h) as u64);
        c.count("wrong", wrong as u64);
        c.count("seams", seams as u64);
        if wrong > limit(c, w * h, parts, wrong) {
            return Err(format!("{wrong} of {} pixels don't have the palette colour nearest to the source colour plus diffused error, first at {},{}", w * h, first.0, first.1));
        }
        if parts { c.count("images in parts", 1); c.count("pixels in parts", (w * h) as u64); c.count("wrong in parts", wrong as u64); }
        c.distinct(hash_bytes(hash_px(0, &pal), &idx));
        Ok(())
    });
    // with the map of flat areas
    x.cases("map", x.n(900, 20000), |c| {
        let r = &mut c.rng.clone();
        let tall = r.chance(0.2);
        let (w, h) = if tall { (r.range(3, 90), r.range(129, 500)) } else { (r.range(1, 90), r.range(1, 90)) };
        let mut cfg = Cfg::plain(w, h);
        cfg.speed = r.range(1, 6) as i32;
        let l = r.pick(&[1f32, 1., 1., 0.9, 0.7, 0.5, 0.3, 0.1]);
        // something smooth, with something else in places
        let mut px = if r.chance(0.8) { smooth(r, w, h) } else { cfg.family = r.below(FAMILIES.len()); image(r, w, h, cfg.family) };
        for _ in 0..r.below(4) {
            let (x0, y0) = (r.below(w), r.below(h));
            let (bw, bh) = (r.range(1, w), r.range(1, h));
            let f = r.below(FAMILIES.len());
            let o = image(r, bw, bh, f);
            for y in y0..(y0 + bh).min(h) { for x in x0..(x0 + bw).min(w) { px[y * w + x] = o[(y - y0) * bw + x - x0]; } }
        }
        let p = Pix::new(r, w, h, px);
        let kind = r.below(3);
        c.desc(format!("kind {kind} level {l} {}", cfg.desc()));
        let e = |e: Error| format!("failed {e:?}");
        let (mut q, a) = match kind {
            0 => (dictated(&grid(r), cfg.speed, 0.)?, cfg.attr()?),
            1 => (dictated(&super::c03::test_palette(r).0, cfg.speed, 0.)?, cfg.attr()?),
            _ => {
                cfg.max_colors = r.range(2, 256) as u32;
                let a = cfg.attr()?;
                let mut img = make_image(&cfg, &a, &p)?;
                (a.quantize(&mut img).map_err(e)?, a)
            },
        };
        let _ = q.palette_vec(); // the colours are whole numbers from now on
        let (_, undithered) = { let mut q = q.clone(); q.set_dithering_level(0.).map_err(e)?; q.remapped(&mut make_image(&cfg, &a, &p)?).map_err(e)? };
        q.set_dithering_level(l).map_err(e)?;
        let mut img = make_image(&cfg, &a, &p)?;
        let lut = Lut::new(SRGB);
        let px = lut.all(&p.px);
        let map = dither_map(&px, w, &undithered);
        let parts = cfg!(feature = "mt") && h > 128 && cfg.speed > 1;
        for again in [false, true] {
            let (pal, idx) = q.remapped(&mut img).map_err(e)?;
            check_indices(&pal, &idx, &Cfg { max_colors: 256, ..cfg.clone() })?;
            // the second time the map is there already, unless there can't be one
            let qe = if again && map.is_some() { q.quantization_error() } else { q.remapping_error() };
            let qe = qe.map_or(quality_to_mse(80), |m| m * 6. * 0.45 / 65536.);
            let max_err = (qe * 2.4).max(quality_to_mse(35));
            let (wrong, first, seams) = Replay { px: &px, pal: &lut.all(&pal), idx: &idx, w, base: level(l), max_err, map: map.as_deref() }.all(parts);
            c.count("pixels", (w * h) as u64);
            c.count("wrong", wrong as u64);
            c.count("seams", seams as u64);
            if parts { c.count("images in parts", 1); c.count("pixels in parts", (w * h) as u64); c.count("wrong in parts", wrong as u64); }
            if wrong > limit(c, w * h, parts, wrong).max(30 + w * h / 100) {
                return Err(format!("{wrong} of {} pixels don't have the palette colour nearest to the source colour plus error diffused according to the dither map, first at {},{}{}", w * h, first.0, first.1, if again { ", remapping again" } else { "" }));
            }
            c.distinct(hash_bytes(hash_px(0, &pal), &idx));
        }
        Ok(())
    });
    let (n, bad) = (x.counter("map.pixels"), x.counter("map.wrong"));
    if n > 100_000 && bad * 10_000 > n { x.fail("map", format!("{bad} of {n} pixels don't have the palette colour nearest to the source colour plus error diffused according to the dither map")); }
    for k in ["replay", "map"] {
        let (n, bad) = (x.counter(&format!("{k}.pixels in parts")), x.counter(&format!("{k}.wrong in parts")));
        if n > 100_000 && bad * 10_000 > n { x.fail(k, format!("{bad} of {n} pixels of images dithered in parts don't have the palette colour nearest to the source colour plus diffused error")); }
        let (n, bad) = (x.counter(&format!("{k}.images in parts")), x.counter(&format!("{k}.unclear seams")));
        if bad > 2 + n / 40 { x.fail(k, format!("{bad} of {n} images dithered in parts have seams where diffused error is lost")); }
    }
}

/// squared difference of the average colour, for every block of b x b
fn blocks(px: &[F], pal: &[F], idx: &[u8], w: usize, h: usize, b: usize) -> Vec<Vec<f64>> {
    (0..h / b).map(|by| (0..w / b).map(|bx| {
        let mut s = [0.; 4];
        for y in by * b..by * b + b { for x in bx * b..bx * b + b { let i = y * w + x; for k in 0..4 { s[k] += px[i][k] - pal[idx[i] as usize][k]; } } }
        s.iter().map(|v| v * v).sum::<f64>() / ((b * b * b * b) as f64)
    }).collect()).collect()
}

fn averages(x: &Ctx) {
    x.cases("blocks", x.n(900, 15000), |c| {
        let r = &mut c.rng.clone();
        let b = 8;
        let tall = r.chance(0.3);
        let (w, h) = if r.chance(0.01) { big_size(r) } else if tall { (r.range(4, 10) * b, r.range(17, 60) * b) } else { (r.range(5, 20) * b, r.range(5, 16) * b) };
        let mut cfg = Cfg::plain(w, h);
        cfg.speed = r.range(1, 10) as i32;
        // a field of colours between two, and a palette of steps between them
        let (from, to) = loop { let (a, b) = if r.chance(0.7) { (opaque(r), opaque(r)) } else { (any_color(r), any_color(r)) }; let l = Lut::new(SRGB); if diff(&l.f(a), &l.f(b)) > 0.2 { break (a, b); } };
        let mix = |t: f64| { let m = |a: u8, b: u8| (a as f64 + (b as f64 - a as f64) * t.clamp(0., 1.)).round() as u8; rgba(m(from.r, to.r), m(from.g, to.g), m(from.b, to.b), m(from.a, to.a)) };
        let (t0, span) = if r.chance(0.6) { let s = 0.03 + 0.2 * r.f(); (r.f() * (1. - s), s) } else { (0., 1.) };
        let (fx, fy, ph, k) = (r.f() * 2. - 1., r.f() * 2. - 1., r.f() * 6., r.f());
        let kind = r.below(3);
        let px = (0..w * h).map(|i| {
            let (x, y) = ((i % w) as f64 / w as f64, (i / w) as f64 / h as f64);
            mix(t0 + span * match kind { 0 => x, 1 => y, _ => 0.5 + 0.5 * ((x * fx + y * fy) * 6. + ph).sin() * (0.4 + 0.6 * k) }) 
        }).collect();
        let p = Pix::new(r, w, h, px);
        let dist = { let l = Lut::new(SRGB); diff(&l.f(from), &l.f(to)).sqrt() };
        let n = (dist / (0.03 + 0.032 * r.f())).ceil() as usize + 1;
        let n_steps = n;
        c.desc(format!("{kind} {n} steps {from:?}..{to:?} {}", cfg.desc()));
        let e = |e: Error| format!("failed {e:?}");
        let a = cfg.attr()?;
        let pal0: Vec<_> = (0..n).map(|i| mix(i as f64 / (n - 1) as f64)).collect();
        let lut = Lut::new(SRGB);
        let pf = lut.all(&p.px);
        let mut res = vec![];
        for l in [0f32, 0.35, 0.7, 1.] {
            let mut q = dictated(&pal0, cfg.speed, 0.)?;
            q.set_dithering_level(l).map_err(e)?;
            let mut img = make_image(&cfg, &a, &p)?;
            let (pal, idx) = q.remapped(&mut img).map_err(e)?;
            res.push(blocks(&pf, &lut.all(&pal), &idx, w, h, b));
        }
        let rms = |v: &[f64]| (v.iter().sum::<f64>() / v.len() as f64).sqrt();
        let tot: Vec<f64> = res.iter().map(|r| rms(&r.concat())).collect();
        let clear = from.a == 255 && to.a == 255;
        let scale = if clear { 1. } else { 1.5 };
        c.sample(format!("{} average colour of 8x8 blocks is off by {tot:.5?} at levels 0, 0.35, 0.7, 1", c.desc));
        // steeper than the palette's steps are edges, and narrow strips lose most error at their sides
        let steep = { let n = |i: usize, j: usize| diff(&pf[i], &pf[j]).sqrt(); let across = (1..w).map(|x| n(x, x - 1)).fold(0., f64::max); let down = (1..h).map(|y| n(y * w, y * w - w)).fold(0., f64::max); across.max(down) * (n_steps as f64) / dist };
        if steep > 0.5 { c.hit("too steep"); return Ok(()); }
        if tot[3] > 0.0075 * scale { return Err(format!("average colour of blocks drifted by {:.5} (undithered {:.5})", tot[3], tot[0])); }
        for y in 0..h / b {
            let v = rms(&res[3][y]);
            if v > 0.015 * scale { return Err(format!("rows {}..{} drifted by {v:.5}, the image by {:.5}", y * b, y * b + b, tot[3])); }
        }
        for x in 0..w / b {
            let v = rms(&(0..h / b).map(|y| res[3][y][x]).collect::<Vec<_>>());
            if v > 0.015 * scale { return Err(format!("columns {}..{} drifted by {v:.5}, the image by {:.5}", x * b, x * b + b, tot[3])); }
        }
        if tot[0] > 0.008 && w >= 4 * b {
            c.hit("visibly banded without dithering");
            c.distinct(p.px.iter().fold(n as u64, |h, p| h.wrapping_mul(0x9E37_79B9).wrapping_add(key(*p) as u64)) ^ cfg.speed as u64);
            if tot[1] > tot[0] * 1.05 || tot[2] > tot[0] * 0.75 || tot[3] > tot[0] * 0.6 { c.hit("hardly better"); }
            for (k, limit) in [(1, 1.2), (2, 1.1), (3, 0.9)] {
                if tot[k] > tot[0] * limit { return Err(format!("average colour of blocks is off by {tot:.5?} at levels 0, 0.35, 0.7, 1")); }
            }
            if tot[3] > tot[2] * 1.3 + 0.001 || tot[2] > tot[1] * 1.3 + 0.001 { return Err(format!("stronger dithering is further off: {tot:.5?} at levels 0, 0.35, 0.7, 1")); }
        }
        Ok(())
    });
}

fn averages_total(x: &Ctx) {
    let (n, bad) = (x.counter("blocks.visibly banded without dithering"), x.counter("blocks.hardly better"));
    if bad > 2 + n / 200 { x.fail("blocks", format!("dithering hardly improves average colour of blocks in {bad} of {n} images")); }
}

/// colours that are in the palette, with something that needs dithering below them
fn exact(x: &Ctx) {
    x.cases("exact", x.n(1200, 30000), |c| {
        let r = &mut c.rng.clone();
        let (w, h) = if r.chance(0.01) { big_size(r) } else if r.chance(0.25) { (r.range(3, 60), r.range(129, 600)) } else { (r.range(1, 60), r.range(1, 60)) };
        let mut cfg = Cfg::plain(w, h);
        cfg.speed = r.range(1, 10) as i32;
        cfg.src = r.pick(&SRCS);
        let pal0 = super::c03::test_palette(r).0;
        let top = if r.chance(0.3) { h } else { r.range(0, h) };
        let noisy = r.chance(0.5);
        let run = r.range(1, 9);
        let mut px = { let f = r.below(FAMILIES.len()); image(r, w, h, f) };
        let mut cur = pal0[0];
        for (i, p) in px[..top * w].iter_mut().enumerate() { if noisy || i % run == 0 { cur = r.pick(&pal0); } *p = cur; }
        let p = Pix::new(r, w, h, px);
        let l = r.pick(&[1f32, 1., 0.5, 0.1]);
        c.desc(format!("{top} rows exact, {} colours, level {l}, {}", pal0.len(), cfg.desc()));
        let e = |e: Error| format!("failed {e:?}");
        let mut q = dictated(&pal0, cfg.speed, 0.)?;
        q.set_dithering_level(l).map_err(e)?;
        let a = cfg.attr()?;
        let mut img = make_image(&cfg, &a, &p)?;
        let (pal, idx) = q.remapped(&mut img).map_err(e)?;
        for i in 0..top * w {
            if key(pal[idx[i] as usize]) != key(p.px[i]) { return Err(format!("pixel {},{} {:?} is in the palette, but became {:?}", i % w, i / w, p.px[i], pal[idx[i] as usize])); }
        }
        c.count("exact pixels", (top * w) as u64);
        if top > 0 && pal.len() > 1 { c.distinct(hash_bytes(hash_px(0, &pal), &idx)); }
        Ok(())
    });
}

pub fn run(x: &Ctx) {
    averages(x);
    averages_total(x);
    exact(x);
    replays(x);
}
