//! Histograms: everything counts, in proportion, and the palette is frozen.
use super::*;
use crate::color::*;
use crate::rng::Rng;
use std::collections::BTreeSet;

fn set(v: &[RGBA]) -> BTreeSet<u32> { v.iter().map(|&c| crate::gen::key(c)).collect() }
fn entry(color: RGBA, count: u32) -> HistogramEntry { HistogramEntry { color, count } }
/// invisible RGB of transparent entries does not count
fn same(a: &[RGBA], b: &[RGBA]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(&a, &b)| crate::gen::key(a) == crate::gen::key(b)) }
fn e(x: Error) -> String { format!("{x:?}") }

/// adds the counted colours by a random mix of calls; the image calls use an importance map to express the counts
fn add(r: &mut Rng, h: &mut Histogram, a: &Attributes, cs: &[(RGBA, u32)], how: usize) -> R {
    let mut list: Vec<(RGBA, u32)> = Vec::new();
    for &(c, n) in cs {
        match how {
            0 => list.push((c, n)),
            _ => { let mut n = n; while n > 1 && r.chance(0.5) { let k = r.range(1, n as usize - 1) as u32; list.push((c, k)); n -= k; } list.push((c, n)); },
        }
    }
    if how > 0 { r.shuffle(&mut list); }
    let mut rest = &list[..];
    while !rest.is_empty() {
        let k = if how == 0 { rest.len() } else { r.range(1, rest.len()) };
        let (now, later) = rest.split_at(k);
        rest = later;
        let with_image = how == 2 && r.chance(0.6);
        if with_image {
            // as pixels: each pixel counts for its importance
            let mut px = vec![];
            let mut map = vec![];
            for &(c, n) in now { let mut n = n; while n > 0 { let m = n.min(255).min(if r.chance(0.5) { 255 } else { r.range(1, 255) as u32 }); px.push(c); map.push(m as u8); n -= m; } }
            let n = px.len();
            let w = (1..=n.min(40)).rev().find(|w| n % w == 0).unwrap();
            let mut img = a.new_image(px, w, n / w, 0.).map_err(e)?;
            img.set_importance_map(map).map_err(e)?;
            h.add_image(a, &mut img).map_err(e)?;
        } else {
            let mut v: Vec<_> = now.iter().map(|&(c, n)| entry(c, n)).collect();
            if r.chance(0.5) { v.push(entry(any_color(r), 0)); r.shuffle(&mut v); }
            h.add_colors(&v, 0.).map_err(e)?;
        }
    }
    Ok(())
}

/// two groups of colours with very different counts within each group: with two palette colours, the palette
/// has to be the weighted mean of each group
fn two_groups(r: &mut Rng) -> (Vec<(RGBA, u32)>, Vec<(RGBA, u32)>) {
    let mut g = |base: [u8; 3]| -> Vec<(RGBA, u32)> {
        let axis = r.below(3);
        let k = r.range(24, 40);
        let heavy = r.chance(0.5);
        (0..k).map(|i| {
            let mut c = base;
            c[axis] += (i * 48 / k) as u8;
            c[(axis + 1) % 3] += (i % 3) as u8;
            let up = (i < k / 2) == heavy;
            (rgba(c[0], c[1], c[2], 255), if up { r.range(200, 240) as u32 } else { r.range(1, 20) as u32 })
        }).collect()
    };
    (g([20, 20, 20]), g([200, 200, 200]))
}

fn mean(l: &Lut, v: &[(RGBA, u32)]) -> F {
    let mut s = [0.; 4];
    let mut t = 0.;
    for &(c, n) in v { let f = l.f(c); for i in 0..4 { s[i] += f[i] * n as f64; } t += n as f64; }
    s.map(|x| x / t)
}

/// how far (in 8-bit levels of the colour channel) the palette is from the means of the groups
fn off(pal: &[RGBA], groups: &[&[(RGBA, u32)]]) -> Result<f64, String> {
    let l = Lut::new(0.);
    if pal.len() != groups.len() { return Err(format!("palette {pal:?}")); }
    let mut worst = 0f64;
    for g in groups {
        let m = mean(&l, g);
        let best = pal.iter().map(|&p| { let f = l.f(p); let w = [0.625, 0.5, 1., 0.45]; (0..4).map(|i| ((f[i] - m[i]) / w[i]).abs()).fold(0., f64::max) }).fold(f64::MAX, f64::min);
        worst = worst.max(best * 255.);
    }
    Ok(worst)
}

pub fn run(x: &Ctx) {
    x.cases("frozen", x.n(500, 10000), |c| {
        let r = &mut c.rng.clone();
        let (w, h) = small_size(r);
        let mut cfg = Cfg::random_sized(r, w, h);
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        c.desc(cfg.desc());
        let a = cfg.attr()?;
        let mut hist = Histogram::new(&a);
        for &f in &cfg.fixed { hist.add_fixed_color(f, 0.).map_err(e)?; }
        let k = r.range(1, 3);
        let mut srcs = vec![];
        for _ in 0..k + 2 {
            let (w, h) = small_size(r);
            let f = r.below(FAMILIES.len());
            let px = image(r, w, h, f);
            srcs.push(Pix::new(r, w, h, px));
        }
        for p in &srcs[..k] {
            let mut img = p.image(&a, r.pick(&SRCS), 0.).map_err(e)?;
            hist.add_image(&a, &mut img).map_err(e)?;
        }
        if r.chance(0.3) { let v: Vec<_> = (0..r.range(1, 20)).map(|_| entry(any_color(r), r.below(1000) as u32)).collect(); hist.add_colors(&v, 0.).map_err(e)?; }
        let mut q = hist.quantize(&a).map_err(e)?;
        let first = if r.chance(0.5) { Some(q.palette_vec()) } else { None };
        let mut first = first;
        for _ in 0..5 {
            let p = &srcs[r.below(srcs.len())];
            q.set_dithering_level(r.pick(&[0., 0.4, 1.])).map_err(e)?;
            let mut img = p.image(&a, r.pick(&SRCS), 0.).map_err(e)?;
            if r.chance(0.3) { img.set_importance_map((0..p.w * p.h).map(|_| r.u8()).collect::<Vec<_>>()).map_err(e)?; }
            let (pal, idx) = q.remapped(&mut img).map_err(e)?;
            if let Some(f) = &first { if !same(&pal, f) { let i = pal.iter().zip(f).position(|(a, b)| a != b).unwrap_or(0); return Err(format!("palette of the histogram changed by remapping: entry {i} {:?} became {:?}", f.get(i), pal.get(i))); } }
            first = Some(pal);
            c.count("remaps", 1);
            let _ = idx;
        }
        let now = q.palette_vec();
        if !same(first.as_ref().unwrap(), &now) { return Err("palette differs after remapping".into()); }
        // exact: quantizing again gives the same palette
        let mut q2 = hist.quantize(&a).map_err(e)?;
        let p2 = q2.palette_vec();
        if cfg.quality.is_none() && cfg.post == 0 && now.len() < cfg.max_colors as usize && set(&p2) != set(&now) { return Err("quantizing the histogram again gives other colours".into()); }
        c.distinct(hash_px(0, &now));
        Ok(())
    });
    // no colour is lost or invented, whatever the calls
    x.cases("lossless", x.n(800, 15000), |c| {
        let r = &mut c.rng.clone();
        let mut a = Attributes::new();
        a.set_speed(r.range(1, 7) as i32).map_err(e)?;
        let n = r.range(1, 256);
        let cs: Vec<(RGBA, u32)> = distinct_colors(r, n).into_iter().map(|c| (c, r.range(1, 600) as u32)).collect();
        let nf = r.below(n.min(20));
        c.desc(format!("{n} colours, {nf} of them fixed"));
        let mut hist = Histogram::new(&a);
        let how = r.below(3);
        for (f, _) in &cs[..nf / 2] { hist.add_fixed_color(*f, 0.).map_err(e)?; }
        add(r, &mut hist, &a, &cs[nf..], how)?;
        for (f, _) in &cs[nf / 2..nf] { hist.add_fixed_color(*f, 0.).map_err(e)?; }
        let mut q = hist.quantize(&a).map_err(e)?;
        let got = set(&q.palette_vec());
        let want = set(&cs.iter().map(|c| c.0).collect::<Vec<_>>());
        if got != want { return Err(format!("{} colours added, palette has {} ({} missing)", want.len(), got.len(), want.difference(&got).count())); }
        if q.palette_vec().len() != want.len() { return Err(format!("duplicates: {} entries for {} colours", q.palette_vec().len(), want.len())); }
        c.distinct(hash_px(0, &q.palette_vec()));
        // only zero counts
        let mut z = Histogram::new(&a);
        z.add_colors(&cs.iter().map(|c| entry(c.0, 0)).collect::<Vec<_>>(), 0.).map_err(e)?;
        match z.quantize(&a) { Err(Error::Unsupported) => {}, o => return Err(format!("colours with count 0 only: {:?}", o.map(|mut q| q.palette_vec()))) }
        Ok(())
    });
    x.cases("weights", x.n(600, 12000), |c| {
        let r = &mut c.rng.clone();
        let (g1, g2) = two_groups(r);
        let mut a = Attributes::new();
        a.set_speed(r.range(1, 6) as i32).map_err(e)?;
        a.set_max_colors(2).map_err(e)?;
        let how = r.below(3);
        // the same in any unit, also when counts of single colours hardly fit
        let unit = if how < 2 { r.pick(&[1u32, 1, 17, 1 << 9, 1 << 16, 1 << 20, 1 << 23, 17_000_000]) } else { 1 };
        let all: Vec<(RGBA, u32)> = g1.iter().chain(&g2).map(|x| (x.0, x.1 * unit)).collect();
        c.desc(format!("groups of {} and {} colours, added in way {how}, counts times {unit}, speed {}", g1.len(), g2.len(), a.speed()));
        let mut hist = Histogram::new(&a);
        add(r, &mut hist, &a, &all, how)?;
        let pal = hist.quantize(&a).map_err(e)?.palette_vec();
        let d = off(&pal, &[&g1, &g2])?;
        if d > 5.5 { return Err(format!("palette {pal:?} is {d:.1} levels off the weighted means of the two groups of colours added")); }
        // what it would be if counts were ignored: the check can see the difference
        let flat = |g: &[(RGBA, u32)]| g.iter().map(|x| (x.0, 1)).collect::<Vec<_>>();
        let fd = off(&pal, &[&flat(&g1), &flat(&g2)])?;
        if fd > 9. { c.hit("distinguishes"); }
        c.hit(&format!("off_{}", d as u32));
        c.hit(&format!("way_{how}"));
        c.distinct(hash_px(0, &pal) ^ hash_px(1, &all.iter().map(|c| c.0).collect::<Vec<_>>()));
        Ok(())
    });
    // posterization raised by a later call merges colours and keeps their counts
    x.cases("rekey", x.n(400, 8000), |c| {
        let r = &mut c.rng.clone();
        let (g1, g2) = two_groups(r);
        let mut a = Attributes::new();
        a.set_speed(r.range(1, 6) as i32).map_err(e)?;
        a.set_max_colors(2).map_err(e)?;
        let post = r.range(1, 3) as u8;
        let mut b = a.clone();
        b.set_min_posterization(post).map_err(e)?;
        c.desc(format!("groups of {} and {} colours, posterization {post} in between, speed {}", g1.len(), g2.len(), a.speed()));
        let all: Vec<(RGBA, u32)> = g1.iter().chain(&g2).copied().collect();
        let k = r.range(0, all.len());
        let mut shuffled = all.clone();
        r.shuffle(&mut shuffled);
        let mut hist = Histogram::new(&a);
        if k > 0 { add(r, &mut hist, &a, &shuffled[..k], 1)?; }
        // one unimportant pixel, added with the other setting
        let mut img = b.new_image(vec![g1[0].0], 1, 1, 0.).map_err(e)?;
        img.set_importance_map(vec![1]).map_err(e)?;
        hist.add_image(&b, &mut img).map_err(e)?;
        if k < all.len() { add(r, &mut hist, &a, &shuffled[k..], 1)?; }
        let pal = hist.quantize(&a).map_err(e)?.palette_vec();
        let d = off(&pal, &[&g1, &g2])?;
        let lim = 5.5 + (1 << post) as f64;
        if d > lim { return Err(format!("palette {pal:?} is {d:.1} levels off the weighted means of the two groups of colours added")); }
        c.hit(&format!("off_{}", d as u32));
        c.distinct(hash_px(0, &pal) ^ k as u64);
        Ok(())
    });
    // colours merged by posterization weigh as much as all of them together
    x.cases("merged", x.n(400, 8000), |c| {
        let r = &mut c.rng.clone();
        let post = r.range(1, 2) as u8;
        let step = 4;
        let mut groups: Vec<Vec<(RGBA, u32)>> = vec![];
        let mut list = vec![];
        for base in [16u8, 144] {
            let heavy = r.chance(0.5);
            let axis = r.below(3);
            let mut g = vec![];
            for i in 0..24u8 {
                let mut p = [base; 3];
                p[axis] += i / 2 * step;
                p[(axis + 1) % 3] += i % 2 * step;
                if (i < 12) == heavy {
                    // many variants, few of each
                    let mut t = 0;
                    let n = r.range(4, 8) as u8;
                    for v in 0..8u8 { let q = [p[0] + (v & 1), p[1] + (v >> 1 & 1), p[2] + (v >> 2)]; if v < n { let k = r.range(180, 240) as u32 / n as u32; t += k; list.push((rgba(q[0], q[1], q[2], 255), k)); } }
                    g.push((rgba(p[0], p[1], p[2], 255), t));
                } else { let k = r.range(20, 30) as u32; list.push((rgba(p[0], p[1], p[2], 255), k)); g.push((rgba(p[0], p[1], p[2], 255), k)); }
            }
            groups.push(g);
        }
        let mut a = Attributes::new();
        a.set_speed(r.range(1, 6) as i32).map_err(e)?;
        a.set_max_colors(2).map_err(e)?;
        let mut b = a.clone();
        b.set_min_posterization(post).map_err(e)?;
        r.shuffle(&mut list);
        let k = if r.chance(0.7) { list.len() } else { r.range(0, list.len()) };
        c.desc(format!("{} colours, {k} before posterization {post}, speed {}", list.len(), a.speed()));
        let mut hist = Histogram::new(&a);
        if k > 0 { add(r, &mut hist, &a, &list[..k], 0)?; }
        let mut img = b.new_image(vec![list[0].0], 1, 1, 0.).map_err(e)?;
        img.set_importance_map(vec![1]).map_err(e)?;
        hist.add_image(&b, &mut img).map_err(e)?;
        if k < list.len() { add(r, &mut hist, &a, &list[k..], 0)?; }
        let pal = hist.quantize(&a).map_err(e)?.palette_vec();
        let d = off(&pal, &[&groups[0], &groups[1]])?;
        c.hit(&format!("off_{}", d as u32));
        if d > 6.5 { return Err(format!("palette {pal:?} is {d:.1} levels off the weighted means of the two groups of colours added")); }
        c.distinct(hash_px(0, &pal) ^ k as u64);
        Ok(())
    });
    // long lists, over and over: as if each colour was given once with the sum of its counts
    x.cases("long", x.n(24, 300), |c| {
        let r = &mut c.rng.clone();
        let mut a = Attributes::new();
        a.set_speed(r.range(1, 7) as i32).map_err(e)?;
        let few = r.chance(0.4);
        let (g1, g2) = two_groups(r);
        let cs: Vec<(RGBA, u32)> = if few { a.set_max_colors(2).map_err(e)?; g1.iter().chain(&g2).copied().collect() } else { let n = r.range(2, 256); distinct_colors(r, n).into_iter().map(|c| (c, r.range(1, 60) as u32)).collect() };
        // each colour as many times as it counts, until the list is long enough
        let n = r.pick(&[5_000usize, 40_000, 66_000, 140_000, 300_000]);
        let mut list: Vec<HistogramEntry> = vec![];
        let total: usize = cs.iter().map(|c| c.1 as usize).sum();
        let rep = n.div_ceil(total);
        for &(k, m) in &cs { for _ in 0..m as usize * rep { list.push(entry(k, 1)); } }
        if r.chance(0.5) { r.shuffle(&mut list); }
        let times = r.range(1, 5);
        c.desc(format!("{} entries {times} times, {} colours, speed {}", list.len(), cs.len(), a.speed()));
        let mut hist = Histogram::new(&a);
        for _ in 0..times {
            if r.chance(0.3) {
                let w = r.range(1, 300);
                let px: Vec<RGBA> = list.iter().map(|e| e.color).chain(std::iter::repeat(list[0].color).take((w - list.len() % w) % w)).collect();
                let h = px.len() / w;
                let mut img = a.new_image(px, w, h, 0.).map_err(e)?;
                img.set_importance_map(vec![1u8; w * h]).map_err(e)?;
                hist.add_image(&a, &mut img).map_err(e)?;
                c.hit("image");
            } else { hist.add_colors(&list, 0.).map_err(e)?; }
        }
        let pal = hist.quantize(&a).map_err(e)?.palette_vec();
        if few {
            let d = off(&pal, &[&g1, &g2])?;
            if d > 5.5 { return Err(format!("palette {pal:?} is {d:.1} levels off the weighted means of the two groups of colours added")); }
            c.hit(&format!("off_{}", d as u32));
        } else {
            let (got, want) = (set(&pal), set(&cs.iter().map(|c| c.0).collect::<Vec<_>>()));
            if got != want || pal.len() != want.len() { return Err(format!("{} colours added, palette has {} ({} missing)", want.len(), pal.len(), want.difference(&got).count())); }
        }
        c.count("entries", (list.len() * times) as u64);
        c.distinct(hash_px(0, &pal) ^ list.len() as u64);
        Ok(())
    });
    // huge counts saturate
    x.cases("saturation", x.n(100, 1000), |c| {
        let r = &mut c.rng.clone();
        let (g1, g2) = two_groups(r);
        let mut a = Attributes::new();
        a.set_speed(r.range(1, 6) as i32).map_err(e)?;
        a.set_max_colors(2).map_err(e)?;
        let heavy = |c: &(RGBA, u32)| c.1 > 100;
        let mut list: Vec<HistogramEntry> = vec![];
        let times = r.range(1, 3);
        for x in g1.iter().chain(&g2) { if heavy(x) { for _ in 0..times * 2 { list.push(entry(x.0, if times == 1 { 1 << 31 } else { u32::MAX })); } } else { list.push(entry(x.0, 1 << 20)); } }
        r.shuffle(&mut list);
        c.desc(format!("{} entries, speed {}", list.len(), a.speed()));
        let mut hist = Histogram::new(&a);
        for ch in list.chunks(r.range(1, list.len())) { hist.add_colors(ch, 0.).map_err(e)?; }
        let w = |g: &[(RGBA, u32)]| g.iter().map(|x| (x.0, if heavy(x) { 4096 } else { 1 })).collect::<Vec<_>>();
        let pal = hist.quantize(&a).map_err(e)?.palette_vec();
        let d = off(&pal, &[&w(&g1), &w(&g2)])?;
        if d > 9. { return Err(format!("palette {pal:?} is {d:.1} levels off the means of the colours with huge counts")); }
        c.hit(&format!("off_{}", d as u32));
        c.distinct(hash_px(0, &pal));
        Ok(())
    });
}
