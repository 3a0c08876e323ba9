//! The result does not depend on how the pixels are supplied.
use super::*;
use crate::rng::Rng;
use std::mem::MaybeUninit;
use std::sync::Mutex;

struct Extra { importance: Option<Vec<u8>>, background: Option<(Pix, Src)> }

fn outcome(cfg: &Cfg, p: &Pix, e: &Extra) -> Result<Vec<u64>, String> {
    let a = cfg.attr()?;
    let mut img = make_image(cfg, &a, p)?;
    if let Some(m) = &e.importance { img.set_importance_map(&m[..]).map_err(|e| format!("importance map refused {e:?}"))?; }
    if let Some((b, s)) = &e.background { img.set_background(b.image(&a, *s, cfg.gamma).map_err(|e| format!("{e:?}"))?).map_err(|e| format!("background refused {e:?}"))?; }
    let mut r = match a.quantize(&mut img) { Ok(r) => r, Err(e) => { expected_failure(cfg, Ok(e))?; return Ok(vec![hash_bytes(9, format!("{e:?}").as_bytes())]); } };
    if let Some(d) = cfg.dither { r.set_dithering_level(d).map_err(|e| format!("{e:?}"))?; }
    let mut out = vec![hash_px(0, &r.palette_vec())];
    for _ in 0..2 {
        let o = remap_out(&mut r, &mut img).map_err(|e| format!("remap failed {e:?}"))?;
        check_indices(&o.pal, &o.idx, cfg)?;
        out.push(o.digest());
    }
    Ok(out)
}

/// the same through the C functions: bitmap, rows in any order, and callback, handed over or not
#[cfg(feature = "capi")]
fn c_sources(x: &Ctx) {
    use crate::{capi, script::{Op, Rust}};
    x.cases("c sources", x.n(1500, 20000), |c| {
        let r = &mut c.rng.clone();
        let huge = r.chance(0.002);
        let (w, h) = if huge { (r.range(1800, 2300), r.range(2350, 2500)) } else { { let s = (r.range(1, 70), r.range(1, 70)); or_big(r, 0.01, s) } };
        let (family, seed) = (r.below(FAMILIES.len()), r.u64() % 99);
        let speed = if huge { r.range(8, 10) } else { r.range(1, 10) } as i32;
        let gamma = r.pick(&[0., 0., 0.45455, 0.7]);
        let (colors, dither, last, post) = (r.range(2, 256) as u32, r.pick(&[0., 0.5, 1.]), r.chance(0.3), r.pick(&[0, 0, 1, 3]));
        let map = if r.chance(0.3) { Some(r.u64()) } else { None };
        let ways = [r.below(3), r.below(3)];
        c.desc(format!("{w}x{h} {} speed {speed} gamma {gamma} dither {dither} map {map:?}", FAMILIES[family]));
        let ops = |src: Src| {
            let mut v = vec![Op::NewAttr(0), Op::Speed(0, speed), Op::MaxColors(0, colors), Op::Last(0, last), Op::Post(0, post),
                Op::NewImage { slot: 0, attr: 0, w, h, family, seed, src, gamma }, Op::GetImage(0)];
            if let Some(m) = map { v.push(Op::Importance(0, m, 0)); }
            v.extend([Op::Quantize(0, 0, 0), Op::GetRes(0), Op::Palette(0), Op::Dither(0, dither), Op::Remap(0, 0, ways[0]), Op::Remap(0, 0, ways[1])]);
            v
        };
        let mut rs = Rust::new();
        let want: Vec<_> = ops(Src::Owned).iter().map(|o| rs.exec(o)).collect();
        capi::set_tag(1 + c.idx);
        for src in SRCS {
            let mut cs = capi::C::new();
            let list = ops(src);
            for (o, want) in list.iter().zip(&want) {
                let got = cs.exec(o);
                if got != *want { return Err(format!("C image ({src:?}): {} gives {got:?}, owned pixels in Rust {want:?}", crate::script::name(o))); }
            }
            cs.destroy_all(|_| 0);
            if !cs.unmodified() { return Err(format!("pixels of the caller were modified ({src:?})")); }
            c.hit("runs");
        }
        c.distinct(hash_bytes(0, format!("{want:?}").as_bytes()));
        capi::faults(1 + c.idx)
    });
}

pub fn run(x: &Ctx) {
    #[cfg(feature = "capi")]
    return c_sources(x);
    #[cfg(not(feature = "capi"))]
    rust_sources(x);
}

#[cfg_attr(feature = "capi", allow(dead_code))]
fn rust_sources(x: &Ctx) {
    x.cases("sources", x.n(700, 15000), |c| {
        let r = &mut c.rng.clone();
        let mut cfg = Cfg::random(r);
        let px = image(r, cfg.w, cfg.h, cfg.family);
        let n = px.len();
        let e = Extra {
            importance: if r.chance(0.3) { Some((0..n).map(|_| r.u8()).collect()) } else { None },
            background: if r.chance(0.25) { let b = image(r, cfg.w, cfg.h, r.clone().below(18)); Some((Pix::new(r, cfg.w, cfg.h, b), r.pick(&SRCS))) } else { None },
        };
        // all importance 0 leaves nothing to quantize
        let e = if e.importance.as_ref().map_or(false, |m| m.iter().all(|&v| v == 0)) { Extra { importance: None, ..e } } else { e };
        let p = Pix::new(r, cfg.w, cfg.h, px.clone());
        c.desc(format!("{} importance {} background {:?}", cfg.desc(), e.importance.is_some(), e.background.as_ref().map(|b| b.1)));
        let mut first: Option<Vec<u64>> = None;
        for src in SRCS {
            cfg.src = src;
            // other stride and other padding for every source
            let q = Pix::new(&mut c.rng, cfg.w, cfg.h, px.clone());
            let before = hash_px(0, &q.padded);
            let o = outcome(&cfg, &q, &e)?;
            if q.px != px || hash_px(0, &q.padded) != before { return Err(format!("source pixels were modified ({src:?})")); }
            match &first {
                None => first = Some(o),
                Some(f) if *f != o => return Err(format!("{src:?} (stride {}) gives a different result than {:?}: {f:x?} {o:x?}", q.stride, SRCS[0])),
                _ => {},
            }
            c.hit("runs");
        }
        drop(p);
        let f = first.unwrap();
        c.distinct(f[f.len() - 1]);
        Ok(())
    });
    x.cases("rows", x.n(500, 10000), |c| {
        let r = &mut c.rng.clone();
        let cfg = Cfg::random(r);
        let px = image(r, cfg.w, cfg.h, cfg.family);
        c.desc(cfg.desc());
        let events: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
        let (w, h) = (cfg.w, cfg.h);
        let a = cfg.attr()?;
        let make = |px: &[RGBA]| -> Result<Image<'_>, String> {
            let (ev, px) = (&events as *const Mutex<Vec<(usize, usize)>> as usize, px.to_vec());
            unsafe {
                Image::new_fn(&a, move |row: &mut [MaybeUninit<RGBA>], y: usize| {
                    (*(ev as *const Mutex<Vec<(usize, usize)>>)).lock().unwrap().push((y, row.len()));
                    for (i, d) in row.iter_mut().enumerate() { d.write(px.get(y * w + i).copied().unwrap_or(rgba(255, 0, 255, 255))); }
                }, w, h, cfg.gamma).map_err(|e| format!("{e:?}"))
            }
        };
        let mut img = make(&px)?;
        for &f in &cfg.fixed { img.add_fixed_color(f).map_err(|e| format!("{e:?}"))?; }
        if !events.lock().unwrap().is_empty() { c.hit("eager_rows"); }
        let check = |what: &str| -> R {
            let ev = events.lock().unwrap();
            let mut seen = vec![false; h];
            for &(y, n) in ev.iter() {
                if y >= h { return Err(format!("{what}: row callback asked for row {y} of {h}")); }
                if n != w { return Err(format!("{what}: row callback got a row of {n} pixels, the image is {w} wide")); }
                seen[y] = true;
            }
            if let Some(y) = seen.iter().position(|s| !s) { return Err(format!("{what}: row {y} of {h} was never asked for")); }
            Ok(())
        };
        let mut q = match a.quantize(&mut img) { Ok(q) => q, Err(e) => { check("quantize")?; return expected_failure(&cfg, Ok(e)); } };
        check("quantize")?;
        if let Some(d) = cfg.dither { q.set_dithering_level(d).map_err(|e| format!("{e:?}"))?; }
        let o = remap_out(&mut q, &mut img).map_err(|e| format!("{e:?}"))?;
        check("remap")?;
        c.count("row_events", events.lock().unwrap().len() as u64);
        // remapped only, as background of another image
        events.lock().unwrap().clear();
        let bg = make(&px)?;
        let fg = image(&mut c.rng, w, h, 2);
        let mut img2 = a.new_image_borrowed(&fg, w, h, cfg.gamma).map_err(|e| format!("{e:?}"))?;
        img2.set_background(bg).map_err(|e| format!("{e:?}"))?;
        let mut q = dictated(&[rgba(0, 0, 0, 0), rgba(255, 255, 255, 255), rgba(0, 0, 0, 255)], cfg.speed, 0.)?;
        q.set_dithering_level(cfg.dither.unwrap_or(1.)).map_err(|e| format!("{e:?}"))?;
        let o2 = remap_out(&mut q, &mut img2).map_err(|e| format!("{e:?}"))?;
        check("background")?;
        c.count("row_events", events.lock().unwrap().len() as u64);
        c.distinct(o.digest() ^ o2.digest());
        Ok(())
    });
    // at and above the size limit where converted pixels stop being cached
    x.cases_t("streamed", x.n(4, 24), 4, |c| {
        let r = &mut c.rng.clone();
        let (w, h) = match c.idx % 3 { 0 => (2048, 2049), 1 => (4096, 1025), _ => (r.range(2100, 2300), r.range(2000, 2100)) };
        let mut cfg = Cfg::plain(w, h);
        cfg.speed = r.range(8, 10) as i32;
        cfg.family = r.pick(&[5, 6, 7, 8, 10]);
        let px = image(r, w, h, cfg.family);
        let p = Pix::new(r, w, h, px);
        let k = r.range(4, 24);
        let mut colors = distinct_colors(r, k);
        let dither = r.pick(&[0., 0.5, 1.]);
        // a background of its own gamma, as similar as the palette's colours
        let bg = if c.idx % 3 == 1 { None } else { colors[0].a = 0; Some(p.px.iter().map(|c| rgba(c.r & 0xe0, c.g & 0xe0 | 8, c.b & 0xf0, c.a)).collect::<Vec<_>>()) };
        let (bgamma, bsrc) = (r.pick(&[0.3, 0.6, 1.]), r.pick(&[Src::Callback, Src::BorrowedStride, Src::Borrowed]));
        let bg = bg.map(|px| Pix::new(r, w, h, px));
        let gamma = if c.idx % 3 == 2 { 0. } else { r.pick(&[0.3, 0.45, 0.9, 1.]) };
        let th = r.range(60, 200); // height of the part that is remapped on its own, cached
        c.desc(format!("{} {k} colours dither {dither} gamma {gamma} top {th} rows", cfg.desc()));
        let a = cfg.attr()?;
        let mut q = dictated(&colors, cfg.speed, 0.)?;
        q.set_dithering_level(dither).map_err(|e| format!("{e:?}"))?;
        let mut whole: Option<Vec<u8>> = None;
        for src in [Src::Callback, Src::BorrowedStride, Src::Borrowed] {
            let mut img = p.image(&a, src, gamma).map_err(|e| format!("{e:?}"))?;
            if let Some(b) = &bg { img.set_background(b.image(&a, bsrc, bgamma).map_err(|e| format!("{e:?}"))?).map_err(|e| format!("{e:?}"))?; c.hit("with_background"); }
            let (pal, idx) = q.remapped(&mut img).map_err(|e| format!("{e:?}"))?;
            check_indices(&pal, &idx, &cfg)?;
            match &whole { None => whole = Some(idx), Some(o) if *o != idx => return Err(format!("streamed {src:?} gives other indices")), _ => {} }
        }
        let whole = whole.unwrap();
        // without caching of converted pixels the result must be the same as with it
        if !cfg!(feature = "mt") || dither == 0. {
            let mut top = a.new_image_borrowed(&p.px[..w * th], w, th, gamma).map_err(|e| format!("{e:?}"))?;
            if let Some(b) = &bg { top.set_background(a.new_image_borrowed(&b.px[..w * th], w, th, bgamma).map_err(|e| format!("{e:?}"))?).map_err(|e| format!("{e:?}"))?; }
            let (pal, idx) = q.remapped(&mut top).map_err(|e| format!("{e:?}"))?;
            c.count("shows_background", idx.iter().filter(|&&i| pal[i as usize].a == 0).count() as u64);
            if idx[..] != whole[..w * th] {
                let i = idx.iter().zip(&whole).position(|(a, b)| a != b).unwrap();
                return Err(format!("pixel {},{} has index {} when streamed, {} when cached", i % w, i / w, whole[i], idx[i]));
            }
        }
        c.count("pixels_compared", (w * th) as u64);
        c.distinct(hash_bytes(0, &whole));
        Ok(())
    });
    let _ = Rng::new(0);
}
