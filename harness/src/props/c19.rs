//! Threads: races inside the library and between callers (ThreadSanitizer is the oracle), and results that do not
//! depend on the schedule, the number of threads, or threads being compiled in.
use super::*;
use crate::rng::Rng;
#[cfg(feature = "mt")]
use crate::script;
use std::mem::MaybeUninit;
use std::sync::atomic::{AtomicU64, Ordering::*};
#[cfg(feature = "mt")]
use std::sync::Barrier;
use std::sync::{Arc, Mutex};

/// what one job computed: `exact` must be the same everywhere, `approx` may differ by rounding
pub struct Done { exact: u64, approx: Vec<f64>, what: String, pals: Vec<Vec<RGBA>> }

fn digest(pal: &[RGBA], idx: &[u8]) -> u64 { hash_bytes(hash_px(3, pal), idx) }
fn shown(pal: &[RGBA], idx: &[u8]) -> u64 {
    let mut h = 9;
    for &i in idx { let c = pal[i as usize]; h = hash_px(h, &[if c.a == 0 { rgba(0, 0, 0, 0) } else { c }]); }
    h
}

/// pokes the scheduler inside callbacks
fn nudge(s: &AtomicU64) {
    match crate::rng::mix(s.fetch_add(1, Relaxed)) % 16 {
        0 => std::thread::sleep(std::time::Duration::from_micros(200)),
        1..=4 => std::thread::yield_now(),
        5 | 6 => for _ in 0..500 { std::hint::spin_loop(); },
        _ => {},
    }
}

static THREADS: Mutex<Vec<std::thread::ThreadId>> = Mutex::new(Vec::new());

pub const KINDS: u64 = 7;
/// deterministic work, the same in every build
pub fn job(seed: u64, small: bool) -> Result<Done, String> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let kind = seed % KINDS;
    let (w, h) = if cfg!(miri) { (r.range(1, 7), r.range(1, 7)) } else if small { (r.range(1, 90), r.range(1, 90)) } else {
        match r.below(6) { 0 => (r.range(1, 30), r.range(129, 600)), 1 => (r.range(200, 500), r.range(100, 128)), 2 => (r.range(1, 500), r.range(1, 12)), _ => (r.range(20, 220), r.range(20, 220)) }
    };
    let h = if kind == 1 { h.min(128) } else { h };
    // many colours mean many batches for the threads
    let fam = if kind >= 3 && r.chance(0.7) { r.pick(&[2, 3, 6, 7, 10, 17]) } else { r.below(FAMILIES.len()) };
    let speed = if cfg!(miri) { r.range(7, 10) } else { r.range(2, 10) } as i32;
    let px = image(r, w, h, fam);
    let noisy = Arc::new(AtomicU64::new(seed));
    let n2 = noisy.clone();
    let mut a = Attributes::new();
    a.set_speed(speed).unwrap();
    a.set_quality(0, r.pick(&[100, 100, 70])).unwrap();
    a.set_progress_callback(move |_| { nudge(&n2); ControlFlow::Continue });
    let what = format!("kind {kind} {w}x{h} {} speed {speed}", FAMILIES[fam]);
    let fail = |e: Error| format!("[{what}] failed with {e:?}");
    let make = |a: &Attributes, px: Vec<RGBA>, src: usize| -> Image<'static> {
        let noisy = noisy.clone();
        match src {
            0 => a.new_image(px, w, h, 0.).unwrap(),
            _ => unsafe { Image::new_fn(a, move |row: &mut [MaybeUninit<RGBA>], y: usize| { nudge(&noisy); for (d, s) in row.iter_mut().zip(&px[y * w..][..w]) { d.write(*s); } }, w, h, 0.).unwrap() },
        }
    };
    Ok(match kind {
        // palette given: nothing but the remapping itself
        0 | 1 | 5 => {
            let k = r.range(1, 256);
            let cols = distinct_colors(r, k);
            let mut q = dictated(&cols, speed, 0.)?;
            q.set_dithering_level(if kind == 1 { r.pick(&[1., 0.5]) } else { 0. }).unwrap();
            let mut img = make(&a, px, r.below(2));
            if r.chance(0.3) { img.set_importance_map((0..w * h).map(|_| r.u8()).collect::<Vec<_>>()).unwrap(); }
            let bg = r.chance(0.3);
            if bg { let bp = image(r, w, h, fam); img.set_background(make(&a, bp, r.below(2))).unwrap(); }
            let n2 = noisy.clone();
            q.set_progress_callback(move |_| { nudge(&n2); ControlFlow::Continue });
            let (pal, idx) = q.remapped(&mut img).map_err(fail)?;
            Done { exact: digest(&pal, &idx), approx: vec![q.remapping_error().unwrap_or(-1.)], what, pals: vec![] }
        },
        // a palette that is refined from all the pixels while remapping; dithering shows it
        6 => {
            let (w, h) = if cfg!(miri) { (4, 4) } else { (r.range(100, 250), r.range(100, 250)) };
            let (dx, dy, s) = (r.range(0, 3), r.range(1, 4), r.below(40));
            let px: Vec<RGBA> = (0..w * h).map(|i| { let (x, y) = (i % w, i / w); rgba((y * dy * 255 / (h * 4) + s) as u8, (x * dx * 255 / (w * 4)) as u8, ((x + y) * 255 / (w + h)) as u8, 255) }).collect();
            a.set_speed(r.range(3, 6) as i32).unwrap();
            a.set_quality(0, 100).unwrap();
            a.set_max_colors(r.range(4, 40) as u32).unwrap();
            let mut img = a.new_image(px, w, h, 0.).unwrap();
            let mut q = a.quantize(&mut img).map_err(fail)?;
            let before = q.clone().palette_vec();
            q.set_dithering_level(r.pick(&[0.5, 1.])).unwrap();
            let (pal, idx) = q.remapped(&mut img).map_err(fail)?;
            if idx.iter().any(|&i| i as usize >= pal.len()) { return Err("index outside the palette".into()); }
            Done { exact: 0, approx: vec![], what, pals: vec![before, pal] }
        },
        // few colours: everything is reproduced
        2 => {
            let k = r.range(1, 200);
            let cols = distinct_colors(r, k);
            let px: Vec<RGBA> = (0..w * h).map(|i| cols[if i < k { i } else { r.below(k) }]).collect();
            a.set_speed(speed.min(7)).unwrap();
            a.set_quality(0, 100).unwrap();
            let mut img = make(&a, px, r.below(2));
            let mut q = a.quantize(&mut img).map_err(fail)?;
            q.set_dithering_level(0.).unwrap();
            let (pal, idx) = q.remapped(&mut img).map_err(fail)?;
            let mut s = pal.clone();
            s.sort_by_key(|c| key(*c));
            Done { exact: digest(&s, &[]) ^ shown(&pal, &idx), approx: vec![], what, pals: vec![] }
        },
        // the histogram way
        3 => {
            a.set_max_colors(r.range(2, 256) as u32).unwrap();
            let mut hist = Histogram::new(&a);
            for _ in 0..r.range(1, 3) { let p = image(r, w, h, fam); hist.add_image(&a, &mut make(&a, p, 0)).map_err(fail)?; }
            let q = hist.quantize(&a).map_err(fail)?;
            Done { exact: 0, approx: vec![q.quantization_error().unwrap_or(-1.)], what, pals: vec![] }
        },
        _ => {
            a.set_max_colors(r.range(2, 256) as u32).unwrap();
            let mut img = make(&a, px, r.below(2));
            let mut q = a.quantize(&mut img).map_err(fail)?;
            let qe = q.quantization_error().unwrap_or(-1.);
            q.set_dithering_level(0.).unwrap();
            let (pal, idx) = q.remapped(&mut img).map_err(fail)?;
            if idx.iter().any(|&i| i as usize >= pal.len()) { return Err("index outside the palette".into()); }
            Done { exact: 0, approx: vec![qe, q.remapping_error().unwrap_or(-1.)], what, pals: vec![] }
        },
    })
}

/// in the single-threaded build: the reference
pub fn child(args: &[String]) -> bool {
    for a in &args[3..] {
        let Ok(s) = a.parse::<u64>() else { continue };
        match job(s, args[2] == "small") {
            Ok(d) => {
                let mut f: Vec<String> = d.approx.iter().map(|f| f.to_bits().to_string()).collect();
                for p in &d.pals { f.push(format!("p{}", p.iter().map(|c| format!("{:08x}", u32::from_be_bytes([c.r, c.g, c.b, c.a]))).collect::<String>())); }
                println!("{s} {:016x} {}", d.exact, f.join(" "))
            },
            Err(e) => println!("{s} failed {e}"),
        }
    }
    true
}

/// palettes agree except for what rounding may change
fn pal_near(a: &[RGBA], b: &[RGBA], tol: i32, odd: usize) -> bool {
    a.len() == b.len() && a.iter().zip(b).filter(|(a, b)| [(a.r, b.r), (a.g, b.g), (a.b, b.b), (a.a, b.a)].iter().any(|&(x, y)| (x as i32 - y as i32).abs() > tol)).count() <= odd
}

fn reference(seeds: &[u64], small: bool) -> Result<Vec<(u64, Vec<f64>, Vec<Vec<RGBA>>)>, String> {
    let Some(exe) = std::env::var_os("LIQ_ST") else { return Ok(vec![]) };
    let o = std::process::Command::new(exe).arg("c19-ref").arg(if small { "small" } else { "full" }).args(seeds.iter().map(|s| s.to_string())).output().map_err(|e| format!("HARNESS {e}"))?;
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    let v: Vec<_> = t.lines().filter_map(|l| { let f: Vec<&str> = l.split(' ').collect(); Some((u64::from_str_radix(f.get(1)?, 16).ok()?, f[2..].iter().filter_map(|s| s.parse::<u64>().ok()).map(f64::from_bits).collect(),
        f[2..].iter().filter_map(|s| s.strip_prefix('p')).map(|s| (0..s.len() / 8).filter_map(|i| u32::from_str_radix(&s[i * 8..i * 8 + 8], 16).ok()).map(|v| { let [r, g, b, a] = v.to_be_bytes(); rgba(r, g, b, a) }).collect()).collect())) }).collect();
    if v.len() != seeds.len() { return Err(format!("single-threaded build failed: {t} {}", String::from_utf8_lossy(&o.stderr))); }
    Ok(v)
}

/// the palette search makes decisions based on rounding, so errors may differ a little; -1 stands for "not reported"
fn near(a: f64, b: f64, tight: bool) -> bool {
    if (a < 0.) != (b < 0.) { return false; }
    let (rel, abs) = if tight { (1e-5, 1e-7) } else { (0.15, 0.05) };
    (a - b).abs() <= abs + rel * a.abs().min(b.abs())
}

#[cfg(feature = "mt")]
pub fn run(x: &Ctx) {
    let pools: Vec<rayon::ThreadPool> = [1, 2, 3, 8, 13].iter().map(|&n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect();
    let slow = std::env::var_os("LIQ_SLOW").is_some() || cfg!(miri);
    let n = if cfg!(miri) { x.n(8, 100) } else if slow { x.n(250, 4000) } else { x.n(500, 12000) };
    let t = if cfg!(miri) { 1 } else { 2 };
    x.cases_t("pools", n, t, |c| {
        let seed = (c.rng.u64() >> 3) / KINDS * KINDS + c.idx % KINDS;
        let small = slow;
        let rf = reference(&[seed], small)?;
        let mut first: Option<Done> = None;
        let mut kinds = std::collections::HashSet::new();
        let reps = if cfg!(miri) { 1 } else { 4 };
        for k in 0..reps {
            let p = (c.idx as usize + k) % pools.len();
            let d = if k == 3 { job(seed, small)? } else { pools[p].install(|| job(seed, small))? };
            if k == 0 { c.desc(d.what.clone()); }
            let tight = seed % KINDS < 2 || seed % KINDS == 5;
            let (alike, unlike) = (std::cell::Cell::new(0), std::cell::Cell::new(0));
            let cmp = |e: u64, a: &[f64], pals: &[Vec<RGBA>], with: &str| -> R {
                if let ([b0, b1], [a0, a1]) = (&d.pals[..], pals) {
                    if !pal_near(a0, b0, 1, 0) { unlike.set(unlike.get() + 1); } else {
                        alike.set(alike.get() + 1);
                        if !pal_near(a1, b1, 2, (a1.len() / 20).max(1)) { return Err(format!("same palette, but remapping with {} threads refines it to {b1:?}, {with} to {a1:?}", if k == 3 { 0 } else { pools[p].current_num_threads() })); }
                    }
                }
                if e != d.exact { return Err(format!("with a pool of {} threads the output differs from {with}", if k == 3 { 0 } else { pools[p].current_num_threads() })); }
                if a.len() != d.approx.len() { return Err("another number of results".into()); }
                for (a, b) in a.iter().zip(&d.approx) { if !near(*a, *b, tight) { return Err(format!("error {b} with {} threads but {a} in {with}", pools[p].current_num_threads())); } }
                Ok(())
            };
            if let Some((e, a, pl)) = rf.first() { cmp(*e, a, pl, "the single-threaded build")?; c.hit("compared with the single-threaded build"); }
            if let Some(f) = &first { cmp(f.exact, &f.approx, &f.pals, "another number of threads")?; }
            c.count("refined palettes compared", alike.get());
            c.count("palettes differed before remapping", unlike.get());
            for a in &d.approx { if kinds.insert(a.to_bits()) { c.distinct(a.to_bits() ^ seed); } }
            c.distinct(d.exact ^ seed);
            if let (Some((_, a, _)), true) = (rf.first(), seed % KINDS == 4 || seed % KINDS == 3) {
                let ratio = d.approx[0].max(0.01) / a[0].max(0.01);
                if (ratio - 1.).abs() > 1e-3 { c.hit(&format!("dev.{:.3}", ratio)); }
                c.count("ratio sum", (ratio * 1000.) as u64); c.hit("ratio n");
            }
            if first.is_none() { first = Some(d); }
        }
        if kinds.len() > first.map_or(0, |f| f.approx.len()) { c.hit("schedules visibly differed in rounding"); }
        c.hit(&format!("kind{}", seed % KINDS));
        Ok(())
    });
    // on average threads neither help nor harm
    let (s, n) = (x.counter("pools.ratio sum"), x.counter("pools.ratio n"));
    if n >= 40 && (s / n < 985 || s / n > 1015) { x.fail("pools", format!("the average quantization error is {:.3} times the error in the single-threaded build", s as f64 / n as f64 / 1000.)); }

    // rows produced on demand by the worker threads themselves (images too big to keep converted)
    if !cfg!(miri) {
        x.cases_t("streaming", if slow { x.n(2, 20) } else { x.n(4, 60) }, 1, |c| {
            let r = &mut c.rng.clone();
            let (w, h) = r.pick(&[(2100, 2010), (4000, 1060), (1000, 4300)]);
            c.desc(format!("{w}x{h}"));
            let seed = r.u64();
            let cols = distinct_colors(r, 60);
            let color = move |x: usize, y: usize| { let m = crate::rng::mix(seed ^ ((x / 7) as u64) << 20 ^ (y / 5) as u64); rgba(m as u8, (m >> 8) as u8, (x * 255 / w) as u8, 255) };
            let seen = Arc::new(Mutex::new(std::collections::HashSet::new()));
            let noisy = Arc::new(AtomicU64::new(seed));
            let mut a = Attributes::new();
            a.set_speed(r.range(8, 10) as i32).unwrap();
            let go = |pool: &rayon::ThreadPool| -> Result<u64, String> {
                let mut q = dictated(&cols, 10, 0.)?;
                q.set_dithering_level(0.).unwrap();
                let (seen, noisy) = (seen.clone(), noisy.clone());
                let mut img = unsafe { Image::new_fn(&a, move |row: &mut [MaybeUninit<RGBA>], y: usize| {
                    if y % 8 == 0 { nudge(&noisy); seen.lock().unwrap().insert(std::thread::current().id()); }
                    for (x, d) in row.iter_mut().enumerate() { d.write(color(x, y)); }
                }, w, h, 0.).unwrap() };
                pool.install(|| q.remapped(&mut img)).map(|(p, i)| digest(&p, &i)).map_err(|e| format!("{e:?}"))
            };
            let one = go(&pools[0])?;
            for p in &pools[2..4] { if go(p)? != one { return Err("rows streamed to several threads give another image than one thread".into()); } }
            c.count("threads that asked for rows", seen.lock().unwrap().len() as u64);
            c.distinct(one);
            Ok(())
        });
    }

    // callers on several threads at once, sharing what may be shared
    let n = if cfg!(miri) { x.n(4, 60) } else if slow { x.n(60, 800) } else { x.n(150, 3000) };
    x.cases_t("callers", n, 1, |c| {
        let r = &mut c.rng.clone();
        let (w, h) = if cfg!(miri) { (4, 3) } else { (r.range(1, 120), r.range(1, 160)) };
        let fam = r.below(FAMILIES.len());
        let px = image(r, w, h, fam);
        let k = r.range(1, 100);
        let cols = distinct_colors(r, k);
        let speed = if cfg!(miri) { 10 } else { r.range(2, 10) } as i32;
        let n = if cfg!(miri) { 2 } else { r.range(2, 6) };
        c.desc(format!("{n} threads {w}x{h} {} speed {speed}", FAMILIES[fam]));
        let mut a = Attributes::new();
        a.set_speed(speed).unwrap();
        let calls = Arc::new(AtomicU64::new(r.u64()));
        let c2 = calls.clone();
        let logged = Arc::new(AtomicU64::new(0));
        let l2 = logged.clone();
        if r.chance(0.5) { a.set_progress_callback(move |_| { nudge(&c2); ControlFlow::Continue }); }
        if r.chance(0.5) { a.set_log_callback(move |_, m| { l2.fetch_add(m.len() as u64, Relaxed); }); }
        let mut proto = dictated(&cols, speed, 0.)?;
        proto.set_dithering_level(r.pick(&[0., 1.])).unwrap();
        let img0 = a.new_image_borrowed(&px[..], w, h, 0.).unwrap();
        let bar = Barrier::new(n);
        let prog: Vec<script::Op> = script::generate(r, if cfg!(miri) { 4 } else { 14 }, &script::Opt { max_side: if cfg!(miri) { 4 } else { 40 }, hostile: true, clones: true, min_speed: if cfg!(miri) { 10 } else { 5 }, sources: true });
        let outs: Vec<Result<u64, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n).map(|t| {
                let (a, px, bar, prog) = (&a, &px, &bar, &prog);
                let mut q = proto.clone();
                let mut cl = img0.clone();
                s.spawn(move || guarded(|| -> Result<u64, String> {
                    bar.wait();
                    // settings and pixels are shared
                    let mut own = a.new_image_borrowed(&px[..], w, h, 0.).unwrap();
                    let mut q2 = a.quantize(&mut own).map_err(|e| format!("thread {t}: {e:?}"))?;
                    let (p2, i2) = q2.remapped(&mut own).map_err(|e| format!("thread {t}: {e:?}"))?;
                    if i2.len() != w * h || i2.iter().any(|&i| i as usize >= p2.len()) { return Err(format!("thread {t}: invalid indices")); }
                    // copies of one image and one result
                    let (p, i) = q.remapped(&mut cl).map_err(|e| format!("thread {t}: {e:?}"))?;
                    // the copies of one result on the same pixels
                    let a2 = a.clone();
                    drop(a2);
                    script::run_rust(prog);
                    Ok(digest(&p, &i))
                }).unwrap_or_else(Err))
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
        });
        let mut first = None;
        for o in outs { let o = o?; if *first.get_or_insert(o) != o { return Err("two threads remapped the same pixels to the same palette differently".into()); } }
        c.count("threads", n as u64);
        c.distinct(first.unwrap());
        c.hit("ran");
        Ok(())
    });
}
#[cfg(not(feature = "mt"))]
pub fn run(_: &Ctx) { eprintln!("needs the mt build"); std::process::exit(3); }
