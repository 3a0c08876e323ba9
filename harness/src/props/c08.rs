//! Determinism: same calls, same output, whatever else happens.
use super::*;
use crate::script;
use crate::rng::Rng;

fn ops(seed: u64) -> Vec<script::Op> {
    let mut r = Rng::new(seed);
    let n = r.range(20, 60);
    let mut o = script::Opt::std();
    if r.chance(0.3) { o.max_side = 90; }
    if r.chance(0.15) { o.min_speed = 1; }
    script::generate(&mut r, n, &o)
}

fn first_diff(a: &[String], b: &[String]) -> String {
    match a.iter().zip(b).position(|(a, b)| a != b) { Some(i) => format!("step {i}: `{}` vs `{}`", a[i], b[i]), None => format!("{} vs {} outcomes", a.len(), b.len()) }
}

/// in another process: runs the same scripts and reports their digests
pub fn child(args: &[String]) -> bool {
    let junk: Vec<Vec<u8>> = (0..args.len() * 37 % 91).map(|i| vec![i as u8; i * 1013]).collect();
    for a in &args[2..] {
        let Ok(s) = a.parse::<u64>() else { continue };
        println!("{s} {:016x}", script::digest(&script::run_rust(&ops(s))));
    }
    drop(junk);
    true
}

pub fn run(x: &Ctx) {
    let exe = std::env::current_exe().unwrap();
    x.cases("scripts", x.n(900, 20000), |c| {
        let seed = c.rng.u64() >> 2;
        c.desc(format!("script {seed}"));
        let p = ops(seed);
        let a = script::run_rust(&p);
        // again, interleaved with an unrelated program working on its own objects
        let other = ops(c.rng.u64());
        let mut b = script::Rust::new();
        let mut o = script::Rust::new();
        let mut out = Vec::new();
        let mut k = other.iter();
        for op in &p {
            for _ in 0..c.rng.below(3) { if let Some(q) = k.next() { o.exec(q); } }
            if let Some(s) = b.exec(op) { out.push(format!("{}: {s}", script::name(op))); }
        }
        let log = b.log.clone();
        b.attrs.clear();
        { let l = log.lock().unwrap(); out.push(format!("log {} lines {:016x}", l.len(), hash_bytes(0, l.join("\n").as_bytes()))); }
        if a != out { return Err(format!("differs when another program runs in between: {}", first_diff(&a, &out))); }
        // on a fresh thread
        if c.idx % 3 == 0 {
            let t = std::thread::scope(|s| s.spawn(|| script::run_rust(&p)).join()).map_err(|_| "panic on another thread".to_string())?;
            if a != t { return Err(format!("differs on another thread: {}", first_diff(&a, &t))); }
        }
        c.count("operations", a.len() as u64);
        c.count("remaps", a.iter().filter(|s| s.starts_with("Remap")).count() as u64);
        c.distinct(script::digest(&a));
        c.sample(a.iter().find(|s| s.starts_with("Remap")).cloned().unwrap_or_default());
        Ok(())
    });
    x.cases("process", x.n(16, 300), |c| {
        let seeds: Vec<u64> = (0..40).map(|_| c.rng.u64() >> 2).collect();
        c.desc(format!("scripts {:?}..", &seeds[..2]));
        let mine: Vec<String> = seeds.iter().map(|s| format!("{s} {:016x}", script::digest(&script::run_rust(&ops(*s))))).collect();
        let mut order = seeds.clone();
        c.rng.shuffle(&mut order); // other history in the other process
        let o = std::process::Command::new(&exe).arg("c08-child").args(order.iter().map(|s| s.to_string())).output().map_err(|e| format!("HARNESS {e}"))?;
        let text = String::from_utf8_lossy(&o.stdout);
        let theirs: std::collections::HashSet<&str> = text.lines().collect();
        if theirs.len() != seeds.len() { return Err(format!("child process failed: {} {}", o.status, String::from_utf8_lossy(&o.stderr))); }
        for m in &mine { if !theirs.contains(m.as_str()) { return Err(format!("script {m} gives another result in another process")); } }
        c.count("scripts", seeds.len() as u64);
        for m in &mine { c.distinct(hash_bytes(1, m.as_bytes())); }
        Ok(())
    });
    // plain images, larger, all speeds: twice from scratch
    x.cases("images", x.n(300, 6000), |c| {
        let mut cfg = Cfg::random(&mut c.rng);
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        let px = image(&mut c.rng, cfg.w, cfg.h, cfg.family);
        let p = Pix::new(&mut c.rng, cfg.w, cfg.h, px);
        c.desc(cfg.desc());
        let one = || quant_remap(&cfg, &p).map(|o| o.digest()).map_err(|e| format!("{e:?}"));
        let a = one();
        let _hold = vec![1u8; c.rng.below(1 << 20)];
        let b = one();
        if a != b { return Err(format!("second run differs: {a:?} {b:?}")); }
        c.distinct(a.unwrap_or(0));
        Ok(())
    });
    // many runs that differ only a little: nothing remembered from one may leak into the next
    x.cases("nearby", x.n(250, 6000), |c| {
        let r = &mut c.rng.clone();
        let (w, h) = (r.range(4, 40), r.range(4, 40));
        let mut base = Cfg::random_sized(r, w, h);
        if let Some(q) = &mut base.quality { q.0 = 0; }
        base.speed = base.speed.max(3);
        base.src = Src::Borrowed;
        let family = base.family;
        let mut px = image(r, w, h, family);
        let g = r.pick(&[0.45455, 0.6, 0.3, 0.9]);
        // (settings, pixels to change)
        let mut jobs: Vec<(Cfg, Vec<(usize, RGBA)>)> = vec![(base.clone(), vec![])];
        for _ in 0..7 {
            let mut k = base.clone();
            let mut ch = vec![];
            if r.chance(0.6) { k.gamma = g + r.pick(&[0., 1e-4, 4e-4, 8e-4, 3e-3, -4e-4, 1e-6, 1e-9, 1e-16]); }
            match r.below(9) {
                0 => k.max_colors = (k.max_colors + 1).min(256),
                1 => k.speed = (k.speed % 10 + 1).max(3),
                2 => k.post = (k.post + 1) % 5,
                3 => k.dither = Some(r.pick(&[0., 1., 0.99, 0.5, 0.5001])),
                4 => k.quality = Some((0, r.range(1, 100) as u8)),
                5 => k.last_transparent ^= true,
                6 => { let f = any_color(r); k.fixed.push(f) },
                7 => for _ in 0..r.range(1, 3) { ch.push((r.below(w * h), any_color(r))); },
                _ => {},
            }
            jobs.push((k, ch));
        }
        c.desc(format!("{} gamma about {g}", base.desc()));
        // in the very same buffer every time
        let orig = px.clone();
        let mut go = |j: &(Cfg, Vec<(usize, RGBA)>)| -> String {
            px.copy_from_slice(&orig);
            for &(i, v) in &j.1 { px[i] = v; }
            let one = || -> Result<u64, String> {
                let a = j.0.attr()?;
                let mut img = a.new_image_borrowed(&px, w, h, j.0.gamma).map_err(|e| format!("{e:?}"))?;
                for &f in &j.0.fixed { img.add_fixed_color(f).map_err(|e| format!("{e:?}"))?; }
                let mut q = a.quantize(&mut img).map_err(|e| format!("{e:?}"))?;
                if let Some(d) = j.0.dither { q.set_dithering_level(d).map_err(|e| format!("{e:?}"))?; }
                Ok(remap_out(&mut q, &mut img).map_err(|e| format!("{e:?}"))?.digest())
            };
            format!("{:?}", one())
        };
        let alone: Vec<String> = jobs.iter().map(|j| std::thread::scope(|s| s.spawn(|| guarded(|| go(j))).join().unwrap_or_else(|_| Err("thread died".into())))).collect::<Result<_, _>>()?;
        let mut order: Vec<usize> = (0..jobs.len()).collect();
        for _ in 0..3 {
            r.shuffle(&mut order);
            for (k, &i) in order.iter().enumerate() {
                let got = go(&jobs[i]);
                if got != alone[i] { return Err(format!("[{}] alone gives {}, after [{}] gives {got}", jobs[i].0.desc(), alone[i], if k > 0 { jobs[order[k - 1]].0.desc() } else { "the previous round".into() })); }
                c.hit("runs");
            }
        }
        for a in &alone { c.distinct(hash_bytes(0, a.as_bytes())); }
        Ok(())
    });
    // a result is not used up by remapping
    x.cases("reuse", x.n(300, 6000), |c| {
        let r = &mut c.rng.clone();
        let (w, h) = (r.range(1, 50), r.range(1, 50));
        let mut cfg = Cfg::random_sized(r, w, h);
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        let px = image(r, w, h, cfg.family);
        let p = Pix::new(r, w, h, px);
        let e = |e: Error| format!("{e:?}");
        let a = cfg.attr()?;
        let mut img = make_image(&cfg, &a, &p)?;
        let q = match a.quantize(&mut img) { Ok(q) => q, Err(e) => { expected_failure(&cfg, Ok(e))?; return Ok(()); } };
        let jobs: Vec<(Pix, Option<Pix>, f32)> = (0..4).map(|k| {
            let (w, h) = if r.chance(0.5) { (w, h) } else { (r.range(1, 50), r.range(1, 50)) };
            let f = r.below(FAMILIES.len());
            let px = if k == 3 && r.chance(0.5) && p.px.len() == w * h { p.px.clone() } else { image(r, w, h, f) };
            let bg = if r.chance(0.2) { let b = image(r, w, h, f); Some(Pix::new(r, w, h, b)) } else { None };
            (Pix::new(r, w, h, px), bg, r.pick(&[0f32, 0., 0.3, 1.]))
        }).collect();
        c.desc(format!("{} remapping {:?}", cfg.desc(), jobs.iter().map(|j| (j.0.w, j.0.h, j.1.is_some(), j.2)).collect::<Vec<_>>()));
        let go = |q: &mut QuantizationResult, j: &(Pix, Option<Pix>, f32)| -> Result<u64, String> {
            q.set_dithering_level(j.2).map_err(e)?;
            let mut img = j.0.image(&a, Src::Borrowed, cfg.gamma).map_err(e)?;
            if let Some(b) = &j.1 { img.set_background(b.image(&a, Src::Borrowed, cfg.gamma).map_err(e)?).map_err(e)?; }
            Ok(remap_out(q, &mut img).map_err(|e| format!("{e:?}"))?.digest())
        };
        let alone: Vec<u64> = jobs.iter().map(|j| go(&mut q.clone(), j)).collect::<Result<_, _>>()?;
        let mut q = q;
        for k in 0..8 {
            let i = if k < 4 { k } else { r.below(4) };
            if go(&mut q, &jobs[i])? != alone[i] { return Err(format!("remapping image {i} gives something else after {k} other remappings with the same result")); }
            c.hit("remaps");
        }
        for a in &alone { c.distinct(*a); }
        Ok(())
    });
}
