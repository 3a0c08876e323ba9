//! Memory safety through the Rust API: programs and size sweeps run under ASan, MSan and Miri; the
//! sanitizers are the oracle, plus a per-thread allocation balance that notices leaks.
use super::*;
use crate::rng::Rng;
use crate::script;
use std::mem::MaybeUninit;
use std::sync::atomic::{AtomicU32, Ordering::*};

const SMALL: bool = cfg!(miri);

/// drop everything in a random order
fn scrap(b: &mut script::Rust, r: &mut Rng) {
    use script::*;
    let mut todo: Vec<Op> = vec![];
    for i in 0..NA { todo.push(Op::DropAttr(i)); }
    for i in 0..NI { todo.push(Op::DropImage(i)); }
    for i in 0..NH { todo.push(Op::DropHist(i)); }
    for i in 0..NR { todo.push(Op::DropRes(i)); }
    while !todo.is_empty() { let k = r.below(todo.len()); b.exec(&todo.swap_remove(k)); }
}

#[cfg(not(miri))]
fn balance() -> (i64, i64) { crate::alloc::balance() }
#[cfg(miri)]
fn balance() -> (i64, i64) { (0, 0) }

fn leak(before: (i64, i64), what: &str) -> R {
    if cfg!(feature = "mt") { return Ok(()); } // other threads allocate too
    let after = balance();
    if after != before { return Err(format!("{} blocks, {} bytes still allocated after {what}", after.0 - before.0, after.1 - before.1)); }
    Ok(())
}

pub fn program(c: &mut Case, o: &script::Opt, n: usize) -> R {
    let r = &mut c.rng.clone();
    let ops = script::generate(r, n, o);
    c.desc(format!("{} operations", ops.len()));
    let mut done = 0u64;
    let mut dig = 0u64;
    let mut kinds = std::collections::BTreeMap::new();
    {
        let mut b = script::Rust::new();
        for op in &ops {
            if let Some(s) = b.exec(op) {
                done += 1;
                dig = hash_bytes(dig, s.as_bytes());
                let name = format!("{op:?}");
                let name: String = name.chars().take_while(|c| c.is_alphanumeric()).collect();
                *kinds.entry(name).or_insert(0u64) += 1;
            }
        }
        scrap(&mut b, r);
    }
    for (k, n) in kinds { c.count(&format!("op.{k}"), n); }
    c.count("operations", done);
    c.distinct(dig);
    // counters kept by the case are ours: measure a second, identical run
    if c.idx % 3 == 0 && !SMALL {
        let b0 = balance();
        let mut b = script::Rust::new();
        for op in &ops { b.exec(op); }
        scrap(&mut b, r);
        drop(b);
        leak(b0, "all objects were dropped")?;
        c.hit("balanced");
    }
    Ok(())
}

fn exact(w: usize, h: usize, p: &[RGBA], src: Src, a: &Attributes, g: f64) -> Image<'static> {
    let stride = w + 2;
    let padded = || { let mut v = Vec::with_capacity(stride * (h - 1) + w); for (i, row) in p.chunks_exact(w).enumerate() { v.extend_from_slice(row); if i + 1 < h { v.extend([rgba(1, 2, 3, 4); 2]); } } v };
    let q = p.to_vec();
    match src {
        Src::OwnedStride => a.new_image_stride(padded(), w, h, stride, g),
        Src::Callback => unsafe { Image::new_fn(a, move |row: &mut [MaybeUninit<RGBA>], y: usize| { assert_eq!(row.len(), w); for (d, s) in row.iter_mut().zip(&q[y * w..][..w]) { d.write(*s); } }, w, h, g) },
        _ => a.new_image(q, w, h, g),
    }.expect("valid image refused")
}

/// one object graph with exactly-sized buffers; borrowed sources live in their own scope
fn graph(c: &mut Case, w: usize, h: usize, speed: i32) -> R {
    let r = &mut c.rng.clone();
    let fam = r.below(FAMILIES.len());
    let p = image(r, w, h, fam);
    let bgp = image(r, w, h, fam / 2);
    let stride = w + r.below(3);
    let mut padded = Vec::new();
    for (i, row) in p.chunks_exact(w).enumerate() { padded.extend_from_slice(row); if i + 1 < h { padded.extend(std::iter::repeat(rgba(9, 9, 9, 9)).take(stride - w)); } }
    let padded = padded.into_boxed_slice();
    let src = r.pick(&SRCS);
    let (imp, bg, fixed, clone) = (r.chance(0.4), r.chance(0.4), r.chance(0.3), r.chance(0.5));
    let dith = r.pick(&[0., 0.5, 1.]);
    c.desc(format!("{w}x{h} {} {src:?} speed {speed} dither {dith} map {imp} background {bg} fixed {fixed} clone {clone}", FAMILIES[fam]));
    let mut a = Attributes::new();
    a.set_speed(speed).unwrap();
    a.set_max_colors(r.pick(&[2, 3, 16, 256])).unwrap();
    if r.chance(0.3) { a.set_last_index_transparent(true); }
    let mut img = match src {
        Src::Borrowed => a.new_image_borrowed(&p, w, h, 0.).unwrap(),
        Src::BorrowedStride => Image::new_stride_borrowed(&a, &padded, w, h, stride, 0.).unwrap(),
        s => exact(w, h, &p, s, &a, 0.),
    };
    if imp { let m: Box<[u8]> = (0..w * h).map(|_| r.u8()).collect(); img.set_importance_map(m).unwrap(); }
    if fixed { for _ in 0..r.range(1, 4) { img.add_fixed_color(any_color(r)).unwrap(); } }
    if bg { img.set_background(exact(w, h, &bgp, r.pick(&[Src::Owned, Src::OwnedStride, Src::Callback]), &a, 0.)).unwrap(); }
    let mut spare = if clone { Some(img.clone()) } else { None };
    let mut q = match a.quantize(&mut img) { Ok(q) => q, Err(e) => return Err(format!("valid operation failed with {e:?}")) };
    let mut h2 = Histogram::new(&a);
    if let Some(s) = spare.as_mut() { if s.width() > 0 { h2.add_image(&a, s).map_err(|e| format!("add_image {e:?}"))?; } }
    if clone && r.chance(0.5) { spare = Some(img.clone()); drop(std::mem::replace(&mut img, spare.take().unwrap())); }
    q.set_dithering_level(dith).unwrap();
    let mut dig = 0;
    for k in 0..2 {
        // exact allocation: one byte past the end is poisoned
        let mut out: Box<[MaybeUninit<u8>]> = (0..w * h).map(|_| MaybeUninit::uninit()).collect();
        q.remap_into(&mut img, &mut out).map_err(|e| format!("remap {k} {e:?}"))?;
        let pal = q.palette().to_vec();
        for b in out.iter() { let i = unsafe { b.assume_init() }; if i as usize >= pal.len() { return Err("index outside the palette".into()); } dig = hash_bytes(dig, &[i]); }
        for p in &pal { dig = hash_px(dig, &[*p]); }
        if k == 0 && clone { q = q.clone(); }
    }
    if let Some(s) = spare.as_mut() { let _ = q.remapped(s); }
    c.distinct(dig);
    c.hit(&format!("source.{src:?}"));
    if bg { c.hit("background"); }
    if imp { c.hit("importance"); }
    if w >= 4 && h >= 4 && speed <= 7 { c.hit("contrast maps"); }
    Ok(())
}

pub fn run(x: &Ctx) {
    let o = |r: &mut Rng| if SMALL { script::Opt { max_side: 6, hostile: true, clones: true, min_speed: 8, sources: true } } else {
        script::Opt { max_side: r.pick(&[8, 40, 40, 90]), hostile: true, clones: true, min_speed: r.pick(&[1, 4, 4, 8]), sources: true }
    };
    let n = if SMALL { x.n(24, 400) } else { x.n(1200, 40000) };
    x.cases("programs", n, |c| {
        let o = o(&mut c.rng);
        let n = if SMALL { c.rng.range(8, 16) } else { c.rng.range(20, 60) };
        program(c, &o, n)
    });
    // every small size, with buffers allocated exactly
    let n = if SMALL { x.n(32, 400) } else { x.n(1500, 40000) };
    x.cases("sizes", n, |c| {
        let i = c.idx as usize;
        let m = if SMALL { 5 } else { 11 };
        let (w, h) = if !SMALL && i % 37 == 5 { (c.rng.range(1, 5), c.rng.range(129, 300)) } else { (1 + i % m, 1 + i / m % m) };
        let (w, h) = if SMALL { (c.rng.range(1, 6), c.rng.range(1, 6)) } else { (w, h) };
        let speed = if SMALL { c.rng.pick(&[5, 8, 10]) } else { 1 + (c.rng.below(10)) as i32 };
        graph(c, w, h, speed)
    });
    // buffers that are exactly large enough, and ones that are not
    let n = if SMALL { x.n(20, 300) } else { x.n(1500, 40000) };
    x.cases("undersized", n, |c| {
        let r = &mut c.rng.clone();
        let m = if SMALL { 5 } else { 14 };
        let (w, h) = (r.range(1, m), r.range(1, m));
        let stride = w + r.pick(&[0, 0, 1, 3, w]);
        let need = stride * (h - 1) + w;
        let a = { let mut a = Attributes::new(); a.set_speed(if SMALL { 10 } else { r.range(4, 10) as i32 }).unwrap(); a };
        for len in [need, need - 1, need.saturating_sub(w - 1), need - w, need + 1, r.below(need + 1), stride * (h - 1), stride * h] {
            let px: Box<[RGBA]> = (0..len).map(|_| any_color(r)).collect();
            let how = r.below(3);
            c.desc(format!("{w}x{h} stride {stride}, {len} pixels, way {how}"));
            let made = match how {
                0 => Image::new_stride_borrowed(&a, &px, w, h, stride, 0.),
                1 => a.new_image_stride(px.clone(), w, h, stride, 0.),
                _ => Image::new_stride(&a, px.clone(), w, h, stride, 0.),
            };
            let mut img = match made {
                Ok(i) => { if len < need { return Err(format!("{len} pixels accepted for {w}x{h} with stride {stride}, which needs {need}")); } i },
                Err(Error::BufferTooSmall) if len < need => { c.hit("refused"); continue },
                Err(e) => return Err(format!("{len} pixels for {w}x{h} with stride {stride} (needs {need}): {e:?}")),
            };
            c.hit("accepted");
            for n in [0, w * h - 1, w * h, w * h + 1] {
                match img.set_importance_map(vec![200u8; n].into_boxed_slice()) { Ok(()) if n == w * h => {}, Err(Error::BufferTooSmall) if n != w * h => {}, o => return Err(format!("importance map of {n} for {w}x{h}: {o:?}")) }
            }
            let mut q = a.quantize(&mut img).map_err(|e| format!("{e:?}"))?;
            q.set_dithering_level(r.pick(&[0., 1.])).unwrap();
            for n in [w * h - 1, 0, w * h] {
                let mut out: Box<[MaybeUninit<u8>]> = (0..n).map(|_| MaybeUninit::uninit()).collect();
                if r.chance(0.5) { match q.optionally_prepare_for_dithering_with_background_set(&mut img, &mut out) { Ok(()) if n == w * h => {}, Err(Error::BufferTooSmall) if n < w * h => {}, o => return Err(format!("preparation with a buffer of {n} for {w}x{h}: {o:?}")) } }
                match q.remap_into(&mut img, &mut out) { Ok(()) if n == w * h => {}, Err(Error::BufferTooSmall) if n < w * h => {}, o => return Err(format!("remap to a buffer of {n} for {w}x{h}: {o:?}")) }
                if n == w * h { let k = q.palette_len(); if out.iter().any(|b| unsafe { b.assume_init() } as usize >= k) { return Err("index outside the palette".into()); } c.distinct(hash_px(len as u64, q.palette())); }
            }
        }
        // sizes whose product overflows
        let big = [1usize << 16, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, 1 << 33, usize::MAX, usize::MAX / 2, 0];
        let px = vec![any_color(r); r.range(0, 40)];
        for _ in 0..6 {
            let (w, h, s) = (if r.chance(0.5) { r.pick(&big) } else { r.range(0, 7) }, r.pick(&big), if r.chance(0.6) { r.pick(&big) } else { r.range(0, 7) });
            let (w, h, s) = if r.chance(0.5) { (h, w, s) } else { (w, h, s) };
            c.desc(format!("{w}x{h} stride {s}, {} pixels", px.len()));
            let fits = w > 0 && h > 0 && s >= w && (s as u128) * (h as u128 - 1) + w as u128 <= px.len() as u128;
            let o = Image::new_stride_borrowed(&a, &px, w, h, s, 0.).map(|_| ());
            if o.is_ok() && !fits { return Err(format!("{w}x{h} with stride {s} accepted for {} pixels", px.len())); }
            if let Err(e) = o { if e != Error::ValueOutOfRange && e != Error::BufferTooSmall { return Err(format!("{e:?}")); } }
            let o = a.new_image_borrowed(&px, w, h, 0.).map(|_| ());
            if o.is_ok() && (w as u128 * h as u128 > px.len() as u128 || w == 0 || h == 0) { return Err(format!("{w}x{h} accepted for {} pixels", px.len())); }
            c.hit("absurd sizes");
        }
        Ok(())
    });
    // large images: chunked dithering, streaming rows, skipped maps
    if !SMALL {
        x.cases("big", x.n(10, 60), |c| {
            let r = &mut c.rng.clone();
            let (w, h, speed) = r.pick(&[(2100, 2050, 10), (2100, 2050, 8), (700, 900, 5), (3, 40000, 9), (40000, 3, 9), (1200, 300, 7)]);
            graph(c, w, h, speed)
        });
    }
    // callbacks that panic unwind through the library; everything stays usable and nothing is freed twice
    let n = if SMALL { x.n(8, 120) } else { x.n(300, 8000) };
    x.cases("unwinding", n, |c| {
        let r = &mut c.rng.clone();
        let (w, h) = if SMALL { (r.range(1, 5), r.range(1, 5)) } else { (r.range(1, 40), r.range(1, 60)) };
        let fam = r.below(FAMILIES.len());
        let p = image(r, w, h, fam);
        let speed = if SMALL { r.range(7, 10) } else { r.range(2, 10) } as i32;
        let at = r.below(if SMALL { 8 } else { 30 }) as u32;
        let rows = r.chance(0.5);
        c.desc(format!("{w}x{h} {} speed {speed} panic in {} call {at}", FAMILIES[fam], if rows { "row" } else { "progress" }));
        let k = std::sync::Arc::new(AtomicU32::new(0));
        let mut a = Attributes::new();
        a.set_speed(speed).unwrap();
        let (k1, k2) = (k.clone(), k.clone());
        let mut img = if rows {
            let q = p.clone();
            unsafe { Image::new_fn(&a, move |row: &mut [MaybeUninit<RGBA>], y: usize| {
                if k1.fetch_add(1, SeqCst) == at { std::panic::resume_unwind(Box::new(())); }
                for (d, s) in row.iter_mut().zip(&q[y * w..][..w]) { d.write(*s); }
            }, w, h, 0.).unwrap() }
        } else {
            a.set_progress_callback(move |_| { if k1.fetch_add(1, SeqCst) == at { std::panic::resume_unwind(Box::new(())); } ControlFlow::Continue });
            a.new_image(p.clone(), w, h, 0.).unwrap()
        };
        let caught = std::cell::Cell::new(0u64);
        let quiet = |f: &mut dyn FnMut()| { if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() { caught.set(caught.get() + 1); } };
        let mut q = None;
        quiet(&mut || q = a.quantize(&mut img).ok());
        let mut cl = None;
        quiet(&mut || cl = Some(img.clone()));
        if q.is_none() { quiet(&mut || q = a.quantize(&mut img).ok()); }
        if let Some(q) = q.as_mut() {
            if !rows { let k3 = k2.clone(); q.set_progress_callback(move |_| { if k3.fetch_add(1, SeqCst) == at { std::panic::resume_unwind(Box::new(())); } ControlFlow::Continue }); }
            for _ in 0..3 {
                let mut out = Vec::new();
                quiet(&mut || { out = Vec::new(); let _ = q.remap_into_vec(&mut img, &mut out); });
                for &i in &out { if i as usize >= q.palette_len() { return Err("index outside the palette after a panic".into()); } }
                if let Some(cl) = cl.as_mut() { quiet(&mut || { let _ = q.remapped(cl); }); }
            }
            let _ = q.palette_vec();
        }
        c.count("panics caught", caught.get());
        if caught.get() > 0 { c.distinct(c.rng.clone().u64()); }
        Ok(())
    });
    if !SMALL && !cfg!(feature = "mt") {
        for op in ["Quantize", "HistQuantize", "Remap", "CloneImage", "CloneRes", "Background", "Importance", "DropImage", "NewImage"] {
            if x.only.is_none() && x.scale >= 0.1 && x.counter(&format!("programs.op.{op}")) == 0 { x.rep.lock().unwrap().errors.push(format!("workload never executed {op}")); }
        }
    }
}
