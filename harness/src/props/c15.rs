//! Settings: ranges, read-back, and no effect of refused values.
use super::*;
use crate::rng::Rng;

#[derive(Clone, PartialEq, Debug)]
struct Want { speed: u32, max: u32, q: (u8, u8), post: u8, last: bool }

fn read(a: &Attributes) -> Want { Want { speed: a.speed(), max: a.max_colors(), q: a.quality(), post: a.min_posterization(), last: false } }
fn same(a: &Attributes, w: &Want, what: impl Fn() -> String) -> R {
    let mut g = read(a);
    g.last = w.last;
    if g != *w { return Err(format!("after {} the settings read {g:?} instead of {w:?}", what())); }
    Ok(())
}
fn check(what: impl Fn() -> String, ok: bool, got: Result<(), Error>) -> R {
    match (ok, got) {
        (true, Ok(())) | (false, Err(Error::ValueOutOfRange)) => Ok(()),
        (true, g) => Err(format!("{} refused: {g:?}", what())),
        (false, g) => Err(format!("{} (out of range) gives {g:?}", what())),
    }
}
fn init(r: &mut Rng, a: &mut Attributes) -> Result<Want, String> {
    let t = r.range(0, 100) as u8;
    let w = Want { speed: r.range(1, 10) as u32, max: r.range(2, 256) as u32, q: (r.range(0, t as usize) as u8, t), post: r.range(0, 4) as u8, last: false };
    let e = |e| format!("{w:?} refused {e:?}");
    a.set_speed(w.speed as i32).map_err(e)?; a.set_max_colors(w.max).map_err(e)?; a.set_quality(w.q.0, w.q.1).map_err(e)?; a.set_min_posterization(w.post).map_err(e)?;
    Ok(w)
}

pub fn f64s(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => f64::NAN, 1 => f64::INFINITY, 2 => f64::NEG_INFINITY, 3 => -f64::MIN_POSITIVE, 4 => f64::MIN_POSITIVE, 5 => f64::from_bits(1f64.to_bits() - 1 - r.below(3) as u64), 6 => f64::from_bits(1f64.to_bits() + 1 + r.below(3) as u64),
        7 => r.pick(&[0., -0., 1., -1., 0.45455, 0.5, 2., 1e300, -1e300, 1e-300, 5e-324]),
        8 => f64::from_bits(r.u64()),
        9 => -r.f(), 10 => 1. + r.f(), _ => r.f(),
    }
}
fn f32s(r: &mut Rng) -> f32 {
    match r.below(9) {
        0 => f32::NAN, 1 => f32::INFINITY, 2 => f32::NEG_INFINITY, 3 => f32::from_bits(1f32.to_bits() + r.below(3) as u32), 4 => f32::from_bits(r.u64() as u32), 5 => -f32::MIN_POSITIVE,
        6 => r.pick(&[0., -0., 1., -1., 0.5, 2., 1e30, -1e30, 1e-30, 1e-45, -1e-45]), 7 => -(r.f() as f32), _ => r.f() as f32,
    }
}
fn ints(r: &mut Rng) -> i32 {
    match r.below(6) { 0 => r.pick(&[i32::MIN, i32::MAX, -1, 0, 256, 257, 258, 65536, 65538, 1 << 24, i32::MIN + 4, i32::MIN + 100]), 1 => r.u64() as i32, 2 => r.range(0, 400) as i32 - 200, 3 => (r.range(0, 12) as i32) + 256 * (r.range(0, 10) as i32), 4 => (r.range(0, 12) as i32) - 65536, _ => r.range(0, 300) as i32 }
}

fn test_image(a: &Attributes) -> Image<'static> {
    let px: Vec<RGBA> = (0..24 * 20).map(|i| rgba((i * 7) as u8, (i / 24 * 12) as u8, (i * 3 / 2) as u8, if i % 7 == 0 { 0 } else { 255 })).collect();
    a.new_image(px, 24, 20, 0.).unwrap()
}

pub fn run(x: &Ctx) {
    // every value of the small domains
    x.cases("exhaustive", 12, |c| {
        let r = &mut c.rng.clone();
        let mut a = Attributes::new();
        let d = Want { speed: 4, max: if cfg!(feature = "large") { 2048 } else { 256 }, q: (0, 100), post: 0, last: false };
        same(&a, &d, || "creation".into())?;
        let mut w = init(r, &mut a)?;
        same(&a, &w, || "setting".into())?;
        match c.idx % 4 {
            0 => for m in 0..=255u8 { for t in 0..=255u8 {
                let ok = t <= 100 && m <= t;
                check(|| format!("set_quality({m}, {t})"), ok, a.set_quality(m, t))?;
                if ok { w.q = (m, t); }
                same(&a, &w, || format!("set_quality({m}, {t})"))?;
            } },
            1 => for n in (0..70000).chain((0..33).map(|b| ((1u64 << b) + 2) as u32)).chain((0..100).map(|k| u32::MAX - k)) {
                let ok = (2..=256).contains(&n);
                check(|| format!("set_max_colors({n})"), ok, a.set_max_colors(n))?;
                if ok { w.max = n; }
                same(&a, &w, || format!("set_max_colors({n})"))?;
            },
            2 => for n in (-70000..70000).chain((0..32).map(|b| (1i64 << b) as i32 + 3)).chain([i32::MIN, i32::MAX, i32::MIN + 5]) {
                let ok = (1..=10).contains(&n);
                check(|| format!("set_speed({n})"), ok, a.set_speed(n))?;
                if ok { w.speed = n as u32; }
                same(&a, &w, || format!("set_speed({n})"))?;
            },
            _ => for n in 0..=255u8 {
                let ok = n <= 4;
                check(|| format!("set_min_posterization({n})"), ok, a.set_min_posterization(n))?;
                if ok { w.post = n; }
                same(&a, &w, || format!("set_min_posterization({n})"))?;
            },
        }
        c.distinct(c.idx);
        Ok(())
    });
    // any history of accepted and refused calls is the same as setting the final values on new settings
    x.cases("history", x.n(400, 8000), |c| {
        let r = &mut c.rng.clone();
        let mut a = Attributes::new();
        let mut w = init(r, &mut a)?;
        let mut refused = 0;
        for _ in 0..r.range(1, 40) {
            match r.below(5) {
                0 => { let n = ints(r); let ok = (1..=10).contains(&n); check(|| format!("set_speed({n})"), ok, a.set_speed(n))?; if ok { w.speed = n as u32; } else { refused += 1; } },
                1 => { let n = ints(r) as u32; let ok = (2..=256).contains(&n); check(|| format!("set_max_colors({n})"), ok, a.set_max_colors(n))?; if ok { w.max = n; } else { refused += 1; } },
                2 => { let (m, t) = (r.below(110) as u8, r.below(110) as u8); let ok = t <= 100 && m <= t; check(|| format!("set_quality({m}, {t})"), ok, a.set_quality(m, t))?; if ok { w.q = (m, t); } else { refused += 1; } },
                3 => { let n = ints(r) as u8; let ok = n <= 4; check(|| format!("set_min_posterization({n})"), ok, a.set_min_posterization(n))?; if ok { w.post = n; } else { refused += 1; } },
                _ => { w.last = r.chance(0.5); a.set_last_index_transparent(w.last); },
            }
            same(&a, &w, || "a sequence of calls".into())?;
        }
        if w.q.0 > 0 { w.q.0 = 0; a.set_quality(0, w.q.1).map_err(|e| format!("{e:?}"))?; }
        c.desc(format!("{w:?}"));
        let mut f = Attributes::new();
        f.set_last_index_transparent(w.last);
        f.set_quality(w.q.0, w.q.1).unwrap(); f.set_max_colors(w.max).unwrap(); f.set_min_posterization(w.post).unwrap(); f.set_speed(w.speed as i32).unwrap();
        let out = |a: &Attributes| -> Result<u64, String> {
            let mut i = test_image(a);
            let mut q = a.quantize(&mut i).map_err(|e| format!("{e:?}"))?;
            let mut h = hash_px(0, &q.palette_vec());
            let o = remap_out(&mut q, &mut i).map_err(|e| format!("{e:?}"))?;
            h ^= o.digest();
            Ok(h)
        };
        if out(&a)? != out(&f)? { return Err(format!("settings {w:?} reached by a sequence of calls ({refused} refused) behave differently from setting them on new settings")); }
        c.count("refused", refused);
        c.distinct(hash_bytes(0, format!("{w:?}").as_bytes()));
        Ok(())
    });
    x.cases("result", x.n(600, 20000), |c| {
        let r = &mut c.rng.clone();
        let a = Attributes::new();
        let mut i = test_image(&a);
        let mut h = Histogram::new(&a);
        for k in 0..9 { h.add_fixed_color(rgba(k * 28, 255 - k * 28, k * k * 3, if k == 0 { 0 } else { 255 }), 0.).map_err(|e| format!("{e:?}"))?; }
        let mut q = h.quantize(&a).map_err(|e| format!("{e:?}"))?;
        let mut g = q.output_gamma();
        let mut d = 1f32;
        let default = (g, d);
        for _ in 0..r.range(1, 12) {
            if r.chance(0.5) {
                let v = f32s(r);
                let ok = v >= 0. && v <= 1.;
                check(|| format!("set_dithering_level({v:?})"), ok, q.set_dithering_level(v))?;
                if ok { d = v; } else { c.hit("refused"); }
            } else {
                let v = f64s(r);
                let ok = v > 0. && v < 1.;
                check(|| format!("set_output_gamma({v:?})"), ok, q.set_output_gamma(v))?;
                if ok { g = v; } else { c.hit("refused"); }
            }
            if q.output_gamma().to_bits() != g.to_bits() { return Err(format!("output gamma reads {:?} instead of {g:?}", q.output_gamma())); }
        }
        // as if only the last accepted values had been set
        let mut f = h.quantize(&a).map_err(|e| format!("{e:?}"))?;
        f.set_dithering_level(d).map_err(|e| format!("{e:?}"))?;
        if g != default.0 { f.set_output_gamma(g).map_err(|e| format!("{e:?}"))?; }
        let x = remap_out(&mut q, &mut i).map_err(|e| format!("{e:?}"))?;
        let y = remap_out(&mut f, &mut test_image(&a)).map_err(|e| format!("{e:?}"))?;
        if x.digest() != y.digest() { return Err(format!("dithering {d} and gamma {g} set after other (refused or replaced) values behave differently")); }
        c.distinct(x.digest() ^ (d.to_bits() as u64) << 32);
        Ok(())
    });
    x.cases("image", x.n(1500, 30000), |c| {
        let r = &mut c.rng.clone();
        let a = Attributes::new();
        let g = f64s(r);
        let gok = g >= 0. && g <= 1.;
        let px = vec![rgba(1, 2, 3, 255); 12];
        check(|| format!("image gamma {g:?}"), gok, a.new_image(px.clone(), 4, 3, g).map(|_| ()))?;
        check(|| format!("image gamma {g:?} (borrowed)"), gok, a.new_image_borrowed(&px, 4, 3, g).map(|_| ()))?;
        check(|| format!("image gamma {g:?} (stride)"), gok, Image::new_stride_borrowed(&a, &px, 3, 3, 4, g).map(|_| ()))?;
        check(|| format!("image gamma {g:?} (callback)"), gok, unsafe { Image::new_fn(&a, |_, _| {}, 4, 3, g) }.map(|_| ()))?;
        let hok = g >= 0. && g < 1.;
        let mut h = Histogram::new(&a);
        check(|| format!("add_colors gamma {g:?}"), hok, h.add_colors(&[HistogramEntry { color: px[0], count: 1 }], g))?;
        check(|| format!("add_fixed_color gamma {g:?}"), hok, h.add_fixed_color(px[0], g))?;
        c.hit(if gok { "gamma_ok" } else { "gamma_refused" });
        // dimensions
        for (w, hh) in [(0, 1), (1, 0), (0, 0), (0, 7), (usize::MAX, 0)] {
            if a.new_image(px.clone(), w, hh, 0.).is_ok() || a.new_image_borrowed(&px, w, hh, 0.).is_ok() || unsafe { Image::new_fn(&a, |_, _| {}, w, hh, 0.) }.is_ok() { return Err(format!("{w}x{hh} image accepted")); }
        }
        let (w, hh) = (r.range(1, 5), r.range(1, 5));
        let n = r.range(0, 30);
        let stride = r.range(0, 8);
        let v = vec![px[0]; n];
        let got = Image::new_stride_borrowed(&a, &v, w, hh, stride, 0.).map(|i| (i.width(), i.height()));
        let fits = stride >= w && n >= stride * (hh - 1) + w;
        match (fits, &got) { (true, Ok(s)) if *s == (w, hh) => {}, (false, Err(_)) => {}, _ => return Err(format!("{w}x{hh} stride {stride} with {n} pixels: {got:?}")) }
        let got = a.new_image(v.clone(), w, hh, 0.).map(|i| (i.width(), i.height()));
        match (n >= w * hh, &got) { (true, Ok(s)) if *s == (w, hh) => {}, (false, Err(_)) => {}, _ => return Err(format!("{w}x{hh} with {n} pixels: {got:?}")) }
        let big = r.pick(&[usize::MAX, usize::MAX / 2, 1 << 32, (1 << 32) + 1, 1 << 31, u32::MAX as usize, 1 << 40]);
        let small = r.range(1, 5);
        for (w, hh) in [(big, small), (small, big), (big, big)] {
            if a.new_image_borrowed(&px, w, hh, 0.).is_ok() || a.new_image(px.clone(), w, hh, 0.).is_ok() || Image::new_stride_borrowed(&a, &px, w, hh, w, 0.).is_ok() { return Err(format!("{w}x{hh} image accepted for 12 pixels")); }
        }
        if Image::new_stride_borrowed(&a, &px, 4, 3, big, 0.).is_ok() { return Err(format!("stride {big} accepted for 12 pixels")); }
        c.distinct(g.to_bits());
        Ok(())
    });
    #[cfg(feature = "capi")]
    capi_part(x);
}

#[cfg(feature = "capi")]
fn capi_part(x: &Ctx) {
    use crate::capi::*;
    unsafe fn rd(a: *mut Attr) -> [i32; 5] { [get_speed(a), get_max_colors(a), get_min_quality(a), get_max_quality(a), get_min_posterization(a)] }
    x.cases("c_settings", x.n(400, 8000), |c| unsafe {
        let r = &mut c.rng.clone();
        let a = attr_create();
        let mut w = [4, 256, 0, 100, 0];
        if rd(a) != w { return Err(format!("defaults {:?}", rd(a))); }
        for k in 0..300 {
            let (n, m) = (ints(r), ints(r));
            let (what, ok, got) = match k % 4 {
                0 => { let ok = (1..=10).contains(&n); if ok { w[0] = n; } ("speed", ok, set_speed(a, n)) },
                1 => { let ok = (2..=256).contains(&n); if ok { w[1] = n; } ("max_colors", ok, set_max_colors(a, n)) },
                2 => { let n = if r.chance(0.6) { r.range(0, 101) as i32 } else { n }; let m = if r.chance(0.6) { r.range(0, 101) as i32 } else { m }; let ok = (0..=100).contains(&m) && n <= m && n >= 0; if ok { w[2] = n; w[3] = m; } ("quality", ok, set_quality(a, n, m)) },
                _ => { let ok = (0..=4).contains(&n); if ok { w[4] = n; } ("min_posterization", ok, set_min_posterization(a, n)) },
            };
            if got != if ok { 0 } else { 100 } { return Err(format!("liq_set_{what}({n}, {m}) returned {got}")); }
            if rd(a) != w { return Err(format!("after liq_set_{what}({n}, {m}) settings read {:?} instead of {w:?}", rd(a))); }
            c.hit(if ok { "accepted" } else { "refused" });
        }
        // images and results
        let px = vec![rgba(9, 8, 7, 255); 12];
        let g = f64s(r);
        let ok = g >= 0. && g <= 1.;
        let rows: Vec<*const RGBA> = (0..3).map(|i| px[i * 4..].as_ptr()).collect();
        let is = [image_create_rgba(a, px.as_ptr(), 4, 3, g), image_create_rgba_rows(a, rows.as_ptr(), 4, 3, g), image_create_custom(a, Some(row_cb), std::ptr::null_mut(), 4, 3, g)];
        for i in is { if i.is_null() == ok { return Err(format!("image with gamma {g:?}: {i:?}")); } if ok { if (image_get_width(i), image_get_height(i)) != (4, 3) { return Err("dimensions".into()); } image_destroy(i); } }
        set_max_colors(a, 256); set_quality(a, 0, 100);
        let i = image_create_rgba(a, px.as_ptr(), 4, 3, 0.);
        let mut q = std::ptr::null_mut();
        if image_quantize(i, a, &mut q) != 0 { return Err("quantize".into()); }
        let mut og = get_output_gamma(q);
        for _ in 0..20 {
            let v = f64s(r);
            let ok = v > 0. && v < 1.;
            let e = set_output_gamma(q, v);
            if ok { og = v; }
            if e != if ok { 0 } else { 100 } || get_output_gamma(q).to_bits() != og.to_bits() { return Err(format!("liq_set_output_gamma({v:?}) returned {e}, then reads {:?}", get_output_gamma(q))); }
            let v = f32s(r);
            let e = set_dithering_level(q, v);
            if e != if v >= 0. && v <= 1. { 0 } else { 100 } { return Err(format!("liq_set_dithering_level({v:?}) returned {e}")); }
        }
        result_destroy(q); image_destroy(i); attr_destroy(a);
        c.distinct(hash_bytes(0, format!("{w:?}").as_bytes()));
        Ok(())
    });
}
