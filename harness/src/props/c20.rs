//! Ownership through the C API: programs and directed histories with a recording free function, an allocation
//! balance, and AddressSanitizer/LeakSanitizer/Miri underneath.
use super::*;
use crate::capi::{self, *};
use crate::rng::Rng;
use crate::script;
use std::ffi::c_void;
use std::ptr::null_mut;

const SMALL: bool = cfg!(miri);
#[cfg(not(miri))]
fn balance() -> (i64, i64) { crate::alloc::balance() }
#[cfg(miri)]
fn balance() -> (i64, i64) { (0, 0) }

fn is_live(b: &Buf) -> bool { LIVE.lock().unwrap().iter().any(|x| x.0 == b.p as usize && x.3 == b.id) }

/// one random program; every object destroyed in a random order
fn program(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let n = if SMALL { r.range(8, 14) } else { r.range(15, 50) };
    let o = if SMALL { script::Opt { max_side: 5, hostile: true, clones: false, min_speed: 9, sources: true } } else { script::Opt { max_side: r.pick(&[6, 30]), hostile: true, clones: false, min_speed: r.pick(&[4, 8]), sources: true } };
    let ops = script::generate(r, n, &o);
    c.desc(format!("{} operations", ops.len()));
    let tag = 1 + (c.idx << 1);
    let key = r.u64();
    let mut dig = 0;
    let mut ran = 0;
    for pass in 0..if SMALL { 1 } else { 2 } {
        set_tag(tag);
        let mut k = key;
        let b0 = balance();
        {
            let mut b = C::new();
            for op in &ops {
                if let Some(s) = b.exec(op) { ran += 1; dig = hash_bytes(dig, s.as_bytes()); }
            }
            b.destroy_all(|n| { k = k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (k >> 33) as usize % n });
            if !b.unmodified() { return Err("pixels whose ownership was not passed were modified".into()); }
        }
        let b1 = balance();
        if pass == 1 && b1 != b0 { return Err(format!("{} blocks, {} bytes of the library still allocated after everything was destroyed", b1.0 - b0.0, b1.1 - b0.1)); }
        faults(tag)?;
    }
    c.count("operations", ran);
    c.count("quantized", ops.iter().filter(|o| matches!(o, script::Op::Quantize(..))).count() as u64);
    c.distinct(dig);
    Ok(())
}

struct Buf { p: *mut u8, owned: bool, what: &'static str, id: u64, main: bool }

/// directed histories of one image with a model of who owns each buffer
fn history(c: &mut Case) -> R {
    let r = &mut c.rng.clone();
    let tag = 2 + (c.idx << 1);
    let (w, h) = if SMALL { (r.range(1, 4), r.range(1, 4)) } else { (r.range(1, 20), r.range(1, 20)) };
    let speed = if SMALL { 10 } else { r.range(4, 10) } as i32;
    let custom = r.chance(0.7); // else plain free(), watched by the sanitizer only
    let mut story = vec![format!("{w}x{h} speed {speed} {}", if custom { "recorded free" } else { "free" })];
    unsafe {
        let alloc = |d: &[u8]| -> *mut u8 { if custom { c_alloc(d, tag) } else { let p = malloc(d.len().max(1)) as *mut u8; std::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len()); p } };
        let release = |p: *mut u8| if custom { c_free(p as _) } else { free(p as _) };
        let mut attr = if custom { attr_create_with_allocator(malloc as *mut c_void, recording_free as *mut c_void) } else { attr_create() };
        if attr.is_null() { return Err("no attributes".into()); }
        set_speed(attr, speed);
        if r.chance(0.4) { let a = attr_copy(attr); attr_destroy(attr); attr = a; story.push("copied settings".into()); }
        let mut gone = false; // settings destroyed
        // (image, its buffers); index 0 is the main one
        let mut imgs: Vec<(*mut capi::Image, Vec<Buf>, (usize, usize))> = vec![];
        let mut orphans: Vec<Buf> = vec![]; // not owned by the library, the caller frees them at the end
        let mut res: *mut Res = null_mut();
        let fam = r.below(FAMILIES.len());
        let mk = |r: &mut Rng, attr: *mut Attr, w: usize, h: usize, story: &mut Vec<String>| -> (*mut capi::Image, Vec<Buf>, (usize, usize)) {
            let px = image(r, w, h, fam);
            let bytes: Vec<u8> = px.iter().flat_map(|c| [c.r, c.g, c.b, c.a]).collect();
            let p = alloc(&bytes);
            let id = last_serial();
            if r.chance(0.5) {
                story.push(format!("bitmap {w}x{h}"));
                (image_create_rgba(attr, p as _, w as _, h as _, 0.), vec![Buf { p, owned: false, what: "pixels", id, main: true }], (w, h))
            } else {
                let order = r.chance(0.5); // rows may come in any order, e.g. bottom-up
                let rows: Vec<usize> = (0..h).map(|y| p as usize + 4 * w * if order { y } else { h - 1 - y }).collect();
                let rb: Vec<u8> = rows.iter().flat_map(|a| a.to_ne_bytes()).collect();
                // typed allocation, so that provenance is kept
                let rp = if custom { let v: Vec<*mut u8> = (0..h).map(|y| p.add(4 * w * if order { y } else { h - 1 - y })).collect(); c_alloc(&v, tag) as *mut u8 } else {
                    let q = malloc(rb.len().max(1)) as *mut *mut u8;
                    for y in 0..h { *q.add(y) = p.add(4 * w * if order { y } else { h - 1 - y }); }
                    q as *mut u8
                };
                story.push(format!("rows {w}x{h}{}", if order { "" } else { " bottom-up" }));
                (image_create_rgba_rows(attr, rp as _, w as _, h as _, 0.), vec![Buf { p, owned: false, what: "pixels", id, main: true }, Buf { p: rp, owned: false, what: "rows", id: last_serial(), main: true }], (w, h))
            }
        };
        let i0 = mk(r, attr, w, h, &mut story);
        imgs.push(i0);
        let steps = r.range(2, 9);
        for _ in 0..steps {
            let which = r.below(imgs.len());
            match r.below(12) {
                0 | 1 | 2 => { // pass ownership (also twice, also after use)
                    let flags = r.pick(&[4, 8, 12, 12, 0, 16, 28, 20]);
                    let e = image_set_memory_ownership(imgs[which].0, flags);
                    story.push(format!("ownership {flags} of {which} -> {e}"));
                    if [0, 16, 28, 20].contains(&flags) { if e != 100 { return Err(format!("ownership flags {flags} gave {e}: {story:?}")); } continue; }
                    if e != 0 { c.hit("ownership refused"); continue; } // e.g. pixels no longer needed: ownership stays with the caller
                    for b in &mut imgs[which].1 { if b.main && (flags & 8 != 0 && b.what == "pixels" || flags & 4 != 0 && b.what == "rows") { b.owned = true; } }
                },
                3 if !gone => { // a background, right or wrong size
                    let (bw, bh) = if r.chance(0.6) { imgs[which].2 } else { (imgs[which].2.0 + r.below(2), imgs[which].2.1 + r.below(2)) };
                    let mut b = mk(r, attr, bw, bh, &mut story);
                    if r.chance(0.6) { let f = if b.1.len() == 1 { 8 } else { 12 }; if image_set_memory_ownership(b.0, f) != 0 { return Err(format!("fresh image refused ownership: {story:?}")); } for x in &mut b.1 { x.owned = true; } }
                    if !cfg!(miri) && r.chance(0.15) {
                        // not an image to set it for: the background is gone all the same
                        let t = if r.chance(0.5) || res.is_null() { null_mut() } else { res as _ };
                        let e = image_set_background(t, b.0);
                        story.push(format!("background of no image -> {e}"));
                        if e != 105 { return Err(format!("background gave {e}: {story:?}")); }
                        if custom { for x in &b.1 { if x.owned && is_live(x) { return Err(format!("background refused for lack of an image not released ({}): {story:?}", x.what)); } } }
                        for mut x in b.1 { x.main = false; if !x.owned { orphans.push(x); } }
                        c.hit("no image for background");
                        continue;
                    }
                    let e = image_set_background(imgs[which].0, b.0);
                    story.push(format!("background of {which} -> {e}"));
                    let fits = imgs[which].2 == (bw, bh);
                    if (e == 0) != fits || (!fits && e != 104) { return Err(format!("background gave {e}: {story:?}")); }
                    if custom && !fits { for x in &b.1 { if x.owned && is_live(x) { return Err(format!("refused background not released ({}): {story:?}", x.what)); } } }
                    // its owned buffers now belong to the image; the others stay ours
                    for mut x in b.1 { x.main = false; if x.owned { if fits { imgs[which].1.push(x); } } else { orphans.push(x); } }
                },
                4 | 5 => {
                    let (iw, ih) = imgs[which].2;
                    let n = iw * ih;
                    let len = if r.chance(0.7) { n + r.below(2) * 3 } else { n - 1 };
                    let m: Vec<u8> = (0..len.max(1)).map(|_| r.u8()).collect();
                    let p = alloc(&m);
                    let id = last_serial();
                    let own = r.pick(&[8, 8, 16, 16, 4, 0, 24]);
                    let e = image_set_importance_map(imgs[which].0, p, len, own);
                    story.push(format!("map of {len} bytes ownership {own} -> {e}"));
                    let want = if len == 0 { 105 } else if len < n { 104 } else if own == 8 || own == 16 { 0 } else { 106 };
                    if e != want { return Err(format!("importance map gave {e}, not {want}: {story:?}")); }
                    if e == 0 && own == 8 {
                        imgs[which].1.push(Buf { p, owned: true, what: "importance map", id, main: false });
                    } else {
                        if custom && !is_live(&Buf { p, owned: false, what: "", id, main: false }) { return Err(format!("a map whose ownership was not taken was freed: {story:?}")); }
                        std::ptr::write_bytes(p, 0x55, len.max(1));
                        release(p);
                    }
                },
                6 | 7 if !gone => {
                    let mut o = null_mut();
                    let e = image_quantize(imgs[which].0, attr, &mut o);
                    story.push(format!("quantize {which} -> {e}"));
                    if e == 0 { if !res.is_null() { result_destroy(res); } res = o; }
                },
                8 | 9 if !res.is_null() => {
                    let (iw, ih) = imgs[which].2;
                    let mut out = vec![0u8; iw * ih];
                    let short = r.chance(0.2) as usize;
                    let e = write_remapped_image(res, imgs[which].0, out.as_mut_ptr(), iw * ih - short);
                    story.push(format!("remap {which} -> {e}"));
                },
                10 if !gone && imgs.len() < 3 => { let i = mk(r, attr, w, h, &mut story); imgs.push(i); },
                11 if !gone && r.chance(0.3) => { attr_destroy(attr); gone = true; story.push("settings destroyed".into()); },
                _ => {},
            }
            // nothing passed to nobody has been freed
            if custom {
                for i in &imgs { for b in &i.1 { if !b.owned && !is_live(b) { return Err(format!("{} that the library does not own were freed: {story:?}", b.what)); } } }
                for b in &orphans { if !is_live(b) { return Err(format!("{} that the library does not own were freed: {story:?}", b.what)); } }
            }
        }
        c.desc(story.join(", "));
        // destroy in a random order
        let mut order: Vec<usize> = (0..imgs.len() + 2).collect();
        while !order.is_empty() {
            let k = r.below(order.len());
            match order.swap_remove(k) {
                0 => if !gone { attr_destroy(attr); gone = true; },
                1 => if !res.is_null() { result_destroy(res); },
                n => {
                    let i = &imgs[n - 2];
                    image_destroy(i.0);
                    for b in &i.1 {
                        if custom && b.owned && is_live(b) { return Err(format!("{} still allocated after their image was destroyed: {story:?}", b.what)); }
                        if custom && !b.owned && !is_live(b) { return Err(format!("{} that the library does not own were freed by the destruction: {story:?}", b.what)); }
                        if !b.owned { release(b.p); }
                        if b.owned { c.hit(&format!("released {}", b.what)); }
                    }
                },
            }
        }
        for b in orphans { release(b.p); }
    }
    c.distinct(hash_bytes(0, story.join(",").as_bytes()));
    faults(tag)
}

pub fn run(x: &Ctx) {
    LIVE.lock().unwrap().reserve(1 << 16);
    FREES.lock().unwrap().reserve(1 << 10);
    x.cases("programs", if SMALL { x.n(24, 300) } else { x.n(4000, 80000) }, program);
    x.cases("histories", if SMALL { x.n(64, 800) } else { x.n(30000, 400000) }, history);
    // the sanitizer only sees what it sees: histories must have transferred ownership
    for k in ["pixels", "rows", "importance map"] {
        if x.only.is_none() && !SMALL && x.counter(&format!("histories.released {k}")) == 0 { x.rep.lock().unwrap().errors.push(format!("workload never passed ownership of {k}")); }
    }
}
