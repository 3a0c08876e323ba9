//! Remapping on top of a background.
use super::*;
use crate::color::*;

/// fg derived from bg: some parts the same, some close, some different
fn pair(r: &mut crate::rng::Rng, w: usize, h: usize) -> (Vec<RGBA>, Vec<RGBA>) {
    let (f1, f2) = (r.below(FAMILIES.len()), r.below(FAMILIES.len()));
    let bg = image(r, w, h, f1);
    let other = image(r, w, h, f2);
    let style = r.below(4);
    let split = r.below(w * h + 1);
    let fg = bg.iter().zip(&other).enumerate().map(|(i, (&b, &o))| match style {
        0 => o,
        1 => if i < split { b } else { o },
        2 => if r.chance(0.5) { b } else { o },
        _ => { let far = r.chance(0.1); let mut j = |x: u8| x.saturating_add(r.below(5) as u8).saturating_sub(r.below(5) as u8); if far { o } else { rgba(j(b.r), j(b.g), j(b.b), b.a) } },
    }).collect();
    (fg, bg)
}

pub fn run(x: &Ctx) {
    x.cases("choice", x.n(1500, 30000), |c| {
        let r = &mut c.rng.clone();
        let (w, h) = small_size(r);
        let mut cfg = Cfg::random_sized(r, w, h);
        cfg.dither = Some(0.);
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        let (fg, bg) = pair(r, w, h);
        let (p, b) = (Pix::new(r, w, h, fg), Pix::new(r, w, h, bg));
        let bsrc = r.pick(&SRCS);
        let frozen = r.chance(0.6);
        let mut colors = Vec::new();
        if frozen { cfg.gamma = 0.; let k = r.range(1, 40); colors = distinct_colors(r, k); if !colors.iter().any(|c| c.a == 0) { colors[0] = rgba(r.u8(), 9, 9, 0); } } else { cfg.fixed.truncate(8); cfg.max_colors = cfg.max_colors.max(12); cfg.fixed.push(rgba(0, 0, 0, 0)); }
        let bgamma = if r.chance(0.2) { 0.6 } else { cfg.gamma };
        c.desc(format!("{} background {bsrc:?} frozen {frozen}", cfg.desc()));
        let a = cfg.attr()?;
        let mut img = make_image(&cfg, &a, &p)?;
        let set_late = r.chance(0.5);
        let mk = || b.image(&a, bsrc, bgamma).map_err(|e| format!("{e:?}"));
        if !set_late { img.set_background(mk()?).map_err(|e| format!("background refused {e:?}"))?; }
        let mut q = if frozen { dictated(&colors, cfg.speed, 0.)? } else { a.quantize(&mut img).map_err(|e| format!("{e:?}"))? };
        if set_late { img.set_background(mk()?).map_err(|e| format!("background refused {e:?}"))?; }
        q.set_dithering_level(0.).map_err(|e| format!("{e:?}"))?;
        let o = remap_out(&mut q, &mut img).map_err(|e| format!("remap failed {e:?}"))?;
        check_indices(&o.pal, &o.idx, &cfg).or_else(|e| if frozen { if o.idx.iter().all(|&i| (i as usize) < o.pal.len()) { Ok(()) } else { Err(e) } } else { Err(e) })?;
        let l = Lut::new(cfg.gamma);
        let bl = Lut::new(bgamma);
        let pf = l.all(&o.pal);
        let has_transparent = o.pal.iter().any(|c| c.a == 0);
        if !has_transparent { if cfg.post == 0 { return Err(format!("fixed transparent colour is missing from {:?}", o.pal)); } return Ok(()); }
        let mut err = 0.;
        for i in 0..w * h {
            let f = l.f(p.px[i]);
            let bd = diff(&bl.f(b.px[i]), &f);
            let (ni, nd) = nearest(&f, &pf);
            let got = o.idx[i] as usize;
            let is_t = o.pal[got].a == 0;
            let gd = diff(&f, &pf[got]);
            let tol = nd * 0.001 + 4e-7 * nd.sqrt() + 1e-11;
            let at = || format!("pixel {},{} {:?} on background {:?}", i % w, i / w, p.px[i], b.px[i]);
            if bd < nd - tol {
                if !is_t { return Err(format!("{}: background matches (at {bd:.3e}) better than any palette colour ({nd:.3e}), but {:?} was used", at(), o.pal[got])); }
                c.hit("background_shown");
                err += bd;
            } else if bd > nd + tol {
                if gd > nd + tol { return Err(format!("{}: nearest is {:?} at {nd:.3e}, background at {bd:.3e}, but {:?} was used", at(), o.pal[ni], o.pal[got])); }
                c.hit("colour_shown");
                err += gd;
            } else {
                if !is_t && gd > nd + tol { return Err(format!("{}: tie, but {:?} was used", at(), o.pal[got])); }
                if bd == 0. && !is_t { return Err(format!("{}: identical to the background, but {:?} was used", at(), o.pal[got])); }
                c.hit("ties");
                err += bd.min(nd);
            }
        }
        // what is shown is never worse than reported, nor than without the background
        let err = std_mse(err / (w * h) as f64);
        let rep = o.rerr.ok_or("no remapping error")?;
        if (rep - err).abs() > err * 0.01 + 0.001 { return Err(format!("reported error {rep}, composed image has {err}")); }
        c.distinct(hash_bytes(hash_px(0, &o.pal), &o.idx));
        Ok(())
    });
    x.cases("same", x.n(500, 10000), |c| {
        let r = &mut c.rng.clone();
        let (w, h) = if r.chance(0.2) { (r.range(4, 40), r.range(129, 200)) } else { small_size(r) };
        let mut cfg = Cfg::random_sized(r, w, h);
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        cfg.post = 0;
        cfg.fixed = vec![rgba(0, 0, 0, 0)];
        let px = image(r, w, h, cfg.family);
        let (p, b) = (Pix::new(r, w, h, px.clone()), Pix::new(r, w, h, px));
        let bsrc = r.pick(&SRCS);
        c.desc(format!("{} background {bsrc:?}", cfg.desc()));
        let a = cfg.attr()?;
        let mut img = make_image(&cfg, &a, &p)?;
        img.set_background(b.image(&a, bsrc, cfg.gamma).map_err(|e| format!("{e:?}"))?).map_err(|e| format!("{e:?}"))?;
        let mut q = a.quantize(&mut img).map_err(|e| format!("{e:?}"))?;
        if let Some(d) = cfg.dither { q.set_dithering_level(d).map_err(|e| format!("{e:?}"))?; }
        for n in 0..2 {
            let o = remap_out(&mut q, &mut img).map_err(|e| format!("remap failed {e:?}"))?;
            if let Some(i) = o.idx.iter().position(|&i| o.pal[i as usize].a != 0) { return Err(format!("remap {n}: image is identical to its background, but pixel {},{} {:?} became {:?}", i % w, i / w, p.px[i], o.pal[o.idx[i] as usize])); }
            c.count("pixels", o.idx.len() as u64);
        }
        c.distinct(hash_px(0, &p.px) ^ cfg.speed as u64);
        Ok(())
    });
    x.cases("inert", x.n(600, 12000), |c| {
        let r = &mut c.rng.clone();
        let (w, h) = small_size(r);
        let mut cfg = Cfg::random_sized(r, w, h);
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        cfg.fixed.clear();
        let (mut fg, bg) = pair(r, w, h);
        let min = r.pick(&[255, 255, 1, 2, 60, 128, 250]); // no fully transparent pixels
        for p in fg.iter_mut() { p.a = p.a.max(min); }
        if min < 255 { for p in fg.iter_mut() { if r.chance(0.5) { p.a = r.range(min as usize, 255) as u8; } } }
        let frozen = if r.chance(0.4) { let k = r.range(1, 20); Some(distinct_colors(r, k).into_iter().map(|mut c| { c.a = c.a.max(min); c }).collect::<Vec<_>>()) } else { None };
        let (p, b) = (Pix::new(r, w, h, fg), Pix::new(r, w, h, bg));
        c.desc(cfg.desc());
        let refusal = r.below(4);
        let run = |with: bool| -> Result<Out, String> {
            let a = cfg.attr()?;
            let mut img = make_image(&cfg, &a, &p)?;
            if with { match refusal {
                0 | 1 => img.set_background(b.image(&a, Src::Borrowed, 0.).map_err(|e| format!("{e:?}"))?).map_err(|e| format!("{e:?}"))?,
                2 => { // wrong size
                    for (ww, hh) in [(w + 1, h), (w, h + 1), (h + w + 1, 1), (1, w * h + 1)] {
                        let z = a.new_image(vec![rgba(1, 2, 3, 0); ww * hh], ww, hh, 0.).map_err(|e| format!("{e:?}"))?;
                        match img.set_background(z) { Err(Error::BufferTooSmall) => {}, o => return Err(format!("background {ww}x{hh} for {w}x{h}: {o:?}")) }
                    }
                    if w != h { let z = a.new_image(vec![rgba(1, 2, 3, 0); w * h], h, w, 0.).map_err(|e| format!("{e:?}"))?; match img.set_background(z) { Err(Error::BufferTooSmall) => {}, o => return Err(format!("background {h}x{w} for {w}x{h}: {o:?}")) } }
                },
                _ => { // nested
                    let mut z = b.image(&a, Src::Owned, 0.).map_err(|e| format!("{e:?}"))?;
                    z.set_background(b.image(&a, Src::Borrowed, 0.).map_err(|e| format!("{e:?}"))?).map_err(|e| format!("{e:?}"))?;
                    match img.set_background(z) { Err(Error::Unsupported) => {}, o => return Err(format!("background with a background: {o:?}")) }
                },
            } }
            let mut q = match &frozen { Some(f) => dictated(f, cfg.speed, cfg.gamma.min(0.99))?, None => a.quantize(&mut img).map_err(|e| format!("{e:?}"))? };
            if let Some(d) = cfg.dither { q.set_dithering_level(d).map_err(|e| format!("{e:?}"))?; }
            remap_out(&mut q, &mut img).map_err(|e| format!("remap failed {e:?}"))
        };
        let (a, b) = (run(false)?, run(true)?);
        if a.pal.iter().any(|p| p.a == 0) && min < 255 && cfg.post > 0 { return Ok(()); }
        if min < 255 { c.hit("semitransparent"); }
        if a.pal.iter().any(|p| p.a == 0) { return Err(format!("image without transparent pixels has a transparent palette colour {:?}", a.pal)); }
        if !cfg!(feature = "mt") && a.digest() != b.digest() { return Err(format!("background (kind {refusal}) without a transparent palette colour changes the result")); }
        c.hit(["set", "set", "wrong_size", "nested"][refusal]);
        c.distinct(a.digest());
        Ok(())
    });
    // after a refused background the previous one stays
    x.cases("kept", x.n(200, 4000), |c| {
        let r = &mut c.rng.clone();
        let (w, h) = small_size(r);
        let (fg, bg) = pair(r, w, h);
        let cs: Vec<RGBA> = vec![rgba(0, 0, 0, 0), opaque(r), opaque(r), opaque(r)];
        let dither = r.pick(&[0., 1.]);
        let speed = r.range(1, 10) as i32;
        c.desc(format!("{w}x{h} dither {dither} speed {speed}"));
        let run = |bad: bool| -> Result<u64, String> {
            let a = Attributes::new();
            let mut img = a.new_image_borrowed(&fg, w, h, 0.).map_err(|e| format!("{e:?}"))?;
            img.set_background(a.new_image_borrowed(&bg, w, h, 0.).map_err(|e| format!("{e:?}"))?).map_err(|e| format!("{e:?}"))?;
            if bad {
                let z = a.new_image(vec![rgba(1, 2, 3, 0); w * h + w], w, h + 1, 0.).map_err(|e| format!("{e:?}"))?;
                if img.set_background(z).is_ok() { return Err("wrong size accepted".into()); }
                let mut z = a.new_image(fg.clone(), w, h, 0.).map_err(|e| format!("{e:?}"))?;
                z.set_background(a.new_image_borrowed(&bg, w, h, 0.).map_err(|e| format!("{e:?}"))?).map_err(|e| format!("{e:?}"))?;
                if img.set_background(z).is_ok() { return Err("nested accepted".into()); }
            }
            let mut q = dictated(&cs, speed, 0.)?;
            q.set_dithering_level(dither).map_err(|e| format!("{e:?}"))?;
            remap_out(&mut q, &mut img).map(|o| hash_bytes(hash_px(0, &o.pal), &o.idx)).map_err(|e| format!("{e:?}"))
        };
        let (a, b) = (run(false)?, run(true)?);
        if a != b { return Err("a refused background changes the result".into()); }
        c.distinct(a);
        Ok(())
    });
    // a background set later replaces the earlier one
    x.cases("replaced", x.n(200, 4000), |c| {
        let r = &mut c.rng.clone();
        let (w, h) = small_size(r);
        let (fg, bg) = pair(r, w, h);
        let (bg0, src, src0) = (if r.chance(0.5) { fg.clone() } else { pair(r, w, h).1 }, r.pick(&SRCS), r.pick(&SRCS));
        let cs: Vec<RGBA> = vec![rgba(0, 0, 0, 0), opaque(r), opaque(r), opaque(r)];
        let (dither, speed, used) = (r.pick(&[0., 1.]), r.range(1, 10) as i32, r.chance(0.5));
        let (p, b, b0) = (Pix::new(r, w, h, fg), Pix::new(r, w, h, bg), Pix::new(r, w, h, bg0));
        c.desc(format!("{w}x{h} dither {dither} speed {speed} used {used}"));
        let e = |e: Error| format!("{e:?}");
        let mut a = Attributes::new();
        a.set_speed(speed).map_err(e)?;
        let mut outs = vec![];
        for twice in [false, true] {
            let mut img = p.image(&a, Src::Borrowed, 0.).map_err(e)?;
            if twice {
                img.set_background(b0.image(&a, src0, 0.).map_err(e)?).map_err(e)?;
                // undithered remapping leaves nothing behind
                if used { let mut q = dictated(&cs, speed, 0.)?; q.set_dithering_level(0.).map_err(e)?; remap_out(&mut q, &mut img).map_err(|e| format!("{e:?}"))?; }
            }
            img.set_background(b.image(&a, src, 0.).map_err(e)?).map_err(e)?;
            let mut q = dictated(&cs, speed, 0.)?;
            q.set_dithering_level(dither).map_err(e)?;
            outs.push(remap_out(&mut q, &mut img).map(|o| hash_bytes(hash_px(0, &o.pal), &o.idx)).map_err(|e| format!("{e:?}"))?);
        }
        if outs[0] != outs[1] { return Err("a background that was replaced still matters".into()); }
        c.distinct(outs[0]);
        Ok(())
    });
    // preparation while the background is not available yet
    x.cases("prepared", x.n(300, 6000), |c| {
        let r = &mut c.rng.clone();
        let (w, h) = (r.range(4, 60), r.range(4, 60));
        let mut cfg = Cfg::random_sized(r, w, h);
        cfg.speed = r.range(1, 10) as i32;
        if let Some(q) = &mut cfg.quality { q.0 = 0; }
        cfg.fixed.truncate(4);
        cfg.max_colors = cfg.max_colors.max(8);
        cfg.fixed.push(rgba(0, 0, 0, 0));
        let same = r.chance(0.3);
        let (mut fg, bg) = pair(r, w, h);
        if same { fg = bg.clone(); }
        let p = Pix::new(r, w, h, fg);
        let d = r.pick(&[0.5f32, 1.]);
        c.desc(format!("{} dither {d} same {same}", cfg.desc()));
        let a = cfg.attr()?;
        let mut outs = vec![];
        for prep in [false, true] {
            let mut img = make_image(&cfg, &a, &p)?;
            let mut q = a.quantize(&mut img).map_err(|e| format!("{e:?}"))?;
            q.set_dithering_level(d).map_err(|e| format!("{e:?}"))?;
            if prep {
                let extra = r.below(3) * r.range(1, w);
                let mut buf = vec![std::mem::MaybeUninit::new(0xA5u8); w * h + extra];
                let before = q.clone().palette_vec();
                for n in [0, w * h - 1, w * (h - 1)] { match q.optionally_prepare_for_dithering_with_background_set(&mut img, &mut buf[..n]) { Err(Error::BufferTooSmall) => {}, o => return Err(format!("preparation with a buffer of {n} for {w}x{h}: {o:?}")) } }
                if q.clone().palette_vec() != before { return Err("refused preparation changed the palette".into()); }
                q.optionally_prepare_for_dithering_with_background_set(&mut img, &mut buf).map_err(|e| format!("preparation failed {e:?}"))?;
                if buf[w * h..].iter().any(|b| unsafe { b.assume_init() } != 0xA5) { return Err("preparation wrote past the pixels".into()); }
            }
            img.set_background(a.new_image_borrowed(&bg, w, h, cfg.gamma).map_err(|e| format!("{e:?}"))?).map_err(|e| format!("{e:?}"))?;
            let o = remap_out(&mut q, &mut img).map_err(|e| format!("remap failed {e:?}"))?;
            check_indices(&o.pal, &o.idx, &cfg)?;
            if same && o.pal.iter().any(|c| c.a == 0) { if let Some(i) = o.idx.iter().position(|&i| o.pal[i as usize].a != 0) { return Err(format!("image identical to its background, but pixel {i} shows {:?} (prepared {prep})", o.pal[o.idx[i] as usize])); } }
            outs.push(o);
        }
        if !cfg!(feature = "mt") && outs[0].pal != outs[1].pal { return Err("preparation changes the palette".into()); }
        let l = Lut::new(cfg.gamma);
        let pf = l.all(&outs[1].pal);
        let e: Vec<f64> = outs.iter().map(|o| std_mse((0..w * h).map(|i| { let s = l.f(p.px[i]); if o.pal[o.idx[i] as usize].a == 0 { diff(&s, &l.f(bg[i])) } else { diff(&s, &pf[o.idx[i] as usize]) } }).sum::<f64>() / (w * h) as f64)).collect();
        if e[1] + 1. > 1.3 * (e[0] + 1.) { c.hit("worse"); }
        if e[1] + 1. > 5. * (e[0] + 1.) { return Err(format!("with preparation the composed image has error {:.3}, without {:.3}", e[1], e[0])); }
        c.hit("prepared");
        c.distinct(hash_bytes(hash_px(0, &outs[1].pal), &outs[1].idx));
        Ok(())
    });
    let (n, bad) = (x.counter("prepared.cases"), x.counter("prepared.worse"));
    if bad > 2 + n / 100 { x.fail("prepared", format!("in {bad} of {n} cases preparation for dithering makes the picture composed with the background worse")); }
    dithered(x);
}

/// Error diffusion replayed along the composed picture. Returns pixels against the rules, and a description of the first.
fn replay(px: &[F], bg: &[F], pal: &[F], see_through: &[bool], idx: &[u8], w: usize, base: f64, max_err: f64, c: &mut Case) -> (u64, String) {
    const Z: F = [0.; 4];
    let mut cur = vec![Z; w + 2];
    let (mut wrong, mut first) = (0, String::new());
    let sq = |s: &F| s.iter().map(|x| x * x).sum::<f64>();
    let spread = |at: &mut [F], k: usize, e: &F, f: f64| for i in 0..4 { at[k][i] += e[i] * f / 16. };
    let (mut bgs, mut cols, mut plain) = (0, 0, 0);
    for y in 0..px.len() / w {
        let mut next = vec![Z; w + 2];
        let fwd = y % 2 == 0;
        for x in 0..w {
            let col = if fwd { x } else { w - 1 - x };
            let at = y * w + col;
            let (p, b, got) = (&px[at], &bg[at], idx[at] as usize);
            // what is displayed at this pixel, if the rules allow it; decisions at a threshold may fall either way
            let judge = |s: &F| -> Option<(F, u8)> {
                let (_, nd) = nearest(s, pal);
                let bd = diff(s, b);
                let tol = nd * 0.001 + 4e-6 * nd.sqrt() + 1e-11;
                if see_through[got] && bd <= nd + tol { return Some((*b, 0)); }
                if bd <= nd - tol { return None; }
                if diff(s, &pal[got]) <= nd + tol { return Some((pal[got], 1)); }
                let natural = diff(p, b);
                if diff(p, &pal[got]) <= natural * 1.001 + 1e-9 { return Some((pal[got], 2)); }
                None
            };
            let mut s = super::c22::shifted(&cur[col + 1], p, 0., base, max_err);
            let mut j = judge(&s);
            if j.is_none() { for k in [1e-4, -1e-4] { let t = super::c22::shifted(&cur[col + 1], p, k, base, max_err); let v = judge(&t); if v.is_some() { s = t; j = v; break; } } }
            let unclear = { let (_, nd) = nearest(&s, pal); let bd = diff(&s, b); let tol = nd * 0.001 + 4e-6 * nd.sqrt() + 1e-11; (bd - nd).abs() <= tol && see_through[got] && (diff(&s, &pal[got]) <= nd + tol || diff(p, &pal[got]) <= diff(p, b)) && diff(b, &pal[got]) > 1e-9 };
            if unclear { c.hit("can't tell background from transparent colour"); return (wrong, first); }
            let (out, kind) = match j {
                Some(v) => v,
                None => {
                    if wrong == 0 { let (ni, nd) = nearest(&s, pal); first = format!("first at {col},{y}: with diffused error it is {nd:.3e} from the nearest colour {ni}, {:.3e} from the background, but became {got}{} {:.3e} away", diff(&s, b), if see_through[got] { " (transparent)" } else { "" }, diff(&s, &pal[got])); }
                    wrong += 1;
                    (if see_through[got] { *b } else { pal[got] }, 3)
                },
            };
            match kind { 0 => bgs += 1, 1 => cols += 1, 2 => plain += 1, _ => {} }
            let mut e: F = std::array::from_fn(|i| s[i] - out[i]);
            if sq(&e) > max_err { for v in &mut e { *v *= 0.75; } }
            let ahead = if fwd { col + 2 } else { col };
            let behind = if fwd { col } else { col + 2 };
            spread(&mut cur, ahead, &e, 7.);
            spread(&mut next, behind, &e, 3.);
            spread(&mut next, col + 1, &e, 5.);
            spread(&mut next, ahead, &e, 1.);
        }
        cur = next;
    }
    c.count("background shown", bgs);
    c.count("colour shown", cols);
    c.count("undithered colour shown", plain);
    (wrong, first)
}

fn dithered(x: &Ctx) {
    x.cases("dithered", x.n(800, 16000), |c| {
        let r = &mut c.rng.clone();
        let (w, h) = if r.chance(0.1) { (r.range(3, 60), r.range(129, 300)) } else { (r.range(1, 70), r.range(1, 70)) };
        let mut cfg = Cfg::plain(w, h);
        cfg.speed = r.range(7, 10) as i32;
        cfg.src = r.pick(&SRCS);
        let l = r.pick(&[1f32, 1., 1., 0.9, 0.7, 0.5, 0.3, 0.1]);
        let (fg, bg) = pair(r, w, h);
        let (p, b) = (Pix::new(r, w, h, fg), Pix::new(r, w, h, bg));
        let bsrc = r.pick(&SRCS);
        let bgamma = if r.chance(0.2) { 0.6 } else { 0. };
        c.desc(format!("level {l} background {bsrc:?} gamma {bgamma} {}", cfg.desc()));
        let e = |e: Error| format!("failed {e:?}");
        let a = cfg.attr()?;
        let mut img = make_image(&cfg, &a, &p)?;
        let mut q = if r.chance(0.6) {
            let mut v = super::c03::test_palette(r).0;
            if !v.iter().any(|c| c.a == 0) { v[0] = rgba(0, 0, 0, 0); }
            dictated(&v, cfg.speed, 0.)?
        } else {
            img.add_fixed_color(rgba(0, 0, 0, 0)).map_err(e)?;
            let mut a = cfg.attr()?;
            a.set_max_colors(r.range(2, 256) as u32).map_err(e)?;
            a.quantize(&mut img).map_err(e)?
        };
        img.set_background(b.image(&a, bsrc, bgamma).map_err(e)?).map_err(e)?;
        q.set_dithering_level(l).map_err(e)?;
        let qe = q.quantization_error().map_or(quality_to_mse(80), |m| m * 6. * 0.45 / 65536.);
        let (pal, idx) = q.remapped(&mut img).map_err(e)?;
        check_indices(&pal, &idx, &Cfg { max_colors: 256, ..cfg.clone() })?;
        if !pal.iter().any(|c| c.a == 0) { return Err(format!("no transparent colour in {pal:?}")); }
        let (lut, bl) = (Lut::new(SRGB), Lut::new(bgamma));
        let max_err = (qe * 2.4).max(quality_to_mse(35));
        let t: Vec<bool> = pal.iter().map(|c| c.a == 0).collect();
        let (wrong, first) = replay(&lut.all(&p.px), &bl.all(&b.px), &lut.all(&pal), &t, &idx, w, super::c22::level(l), max_err, c);
        c.count("pixels", (w * h) as u64);
        c.count("wrong", wrong);
        let parts = cfg!(feature = "mt") && h > 128;
        let limit = if parts { (w * h) as u64 / 8 + w as u64 } else { 8 + (w * h) as u64 / 1000 };
        if wrong > limit { return Err(format!("{wrong} of {} dithered pixels show neither the better of background and nearest colour nor anything nearer to the source than the background, {first}", w * h)); }
        c.distinct(hash_bytes(hash_px(0, &pal), &idx));
        Ok(())
    });
}
