//! Invalid handles and arguments through the C API. Every function is called with every combination of NULL and
//! objects of all kinds, and with hostile values, in a child process; then everything is checked to be as before.
use super::*;
use crate::rng::Rng;
use crate::capi::{self, *};
use std::ffi::{c_int, c_void};
use std::ptr::{null, null_mut};

type P = *mut c_void;
#[derive(Clone, Copy, PartialEq, Debug)]
enum K { A, I, H, R }

/// valid objects of every kind
struct Env { attr: P, img: P, hist: P, res: P, _px: Box<[RGBA]> }
const W: usize = 5;
const HH: usize = 3;

impl Env {
    /// the objects have been through something, depending on `state`
    fn new(state: u64) -> Self {
        let e = Self::fresh();
        unsafe {
            let (a, i, h, r) = (e.attr as *mut Attr, e.img as *mut capi::Image, e.hist as *mut Hist, e.res as *mut Res);
            let mut v = [0u8; W * HH];
            if state & 1 != 0 { let mut q = null_mut(); image_quantize(i, a, &mut q); result_destroy(q); }
            if state & 2 != 0 { set_dithering_level(r, 0.5); let i2 = image_create_rgba(a, e._px.as_ptr(), W as _, HH as _, 0.); write_remapped_image(r, i2, v.as_mut_ptr(), v.len()); image_destroy(i2); }
            if state & 4 != 0 { let mut q = null_mut(); histogram_quantize(h, a, &mut q); result_destroy(q); histogram_add_fixed_color(h, rgba(200, 0, 200, 255), 0.); }
            if state & 8 != 0 { image_set_background(i, image_create_custom(a, Some(norow), null_mut(), W as _, HH as _, 0.)); let mut m = [9u8; W * HH]; m[1] = 0; image_set_importance_map(i, m.as_mut_ptr(), m.len(), 16); image_add_fixed_color(i, rgba(9, 8, 7, 255)); }
            if state & 16 != 0 { set_log_callback(a, Some(nolog), null_mut()); set_log_flush_callback(a, Some(noflush), null_mut()); attr_set_progress_callback(a, Some(noprog), null_mut()); result_set_progress_callback(r, Some(noprog), null_mut()); set_last_index_transparent(a, 1); }
        }
        e
    }
    fn fresh() -> Self {
        unsafe {
            let px: Box<[RGBA]> = (0..W * HH).map(|i| rgba(i as u8 * 17, 200 - i as u8 * 3, (i * i) as u8, if i == 3 { 0 } else { 255 })).collect();
            let attr = attr_create();
            set_speed(attr, 7); set_max_colors(attr, 9); set_quality(attr, 10, 90); set_min_posterization(attr, 1);
            let img = image_create_rgba(attr, px.as_ptr(), W as _, HH as _, 0.);
            let hist = histogram_create(attr);
            let e = [Entry { color: rgba(1, 2, 3, 255), count: 5 }, Entry { color: rgba(91, 2, 3, 255), count: 6 }];
            histogram_add_colors(hist, attr, e.as_ptr(), 2, 0.);
            let mut res = null_mut();
            let i2 = image_create_rgba(attr, px.as_ptr(), W as _, HH as _, 0.);
            image_quantize(i2, attr, &mut res);
            image_destroy(i2);
            assert!(!attr.is_null() && !img.is_null() && !hist.is_null() && !res.is_null());
            Env { attr: attr as P, img: img as P, hist: hist as P, res: res as P, _px: px }
        }
    }
    fn get(&self, k: Option<K>) -> P { match k { None => null_mut(), Some(K::A) => self.attr, Some(K::I) => self.img, Some(K::H) => self.hist, Some(K::R) => self.res } }
    /// everything observable, by using every object
    fn health(&self) -> String {
        unsafe {
            let (a, i, h, r) = (self.attr as *mut Attr, self.img as *mut capi::Image, self.hist as *mut Hist, self.res as *mut Res);
            let mut s = format!("{} {} {} {} {} ", get_speed(a), get_max_colors(a), get_min_posterization(a), get_min_quality(a), get_max_quality(a));
            s += &format!("{}x{} ", image_get_width(i), image_get_height(i));
            s += &format!("{:?} {:?} {:?} ", palette(r), get_quantization_error(r), get_output_gamma(r));
            let mut q = null_mut();
            s += &format!("{} ", image_quantize(i, a, &mut q));
            if !q.is_null() { s += &format!("{:?} ", palette(q)); result_destroy(q); }
            let mut v = [0u8; W * HH];
            s += &format!("{} {v:?} {} ", write_remapped_image(r, i, v.as_mut_ptr(), W * HH), get_remapping_error(r));
            s += &format!("{v:?} ");
            let mut q = null_mut();
            s += &format!("{} ", histogram_quantize(h, a, &mut q));
            if !q.is_null() { s += &format!("{:?} ", palette(q)); result_destroy(q); }
            s
        }
    }
    fn destroy(self) { unsafe { attr_destroy(self.attr as _); image_destroy(self.img as _); histogram_destroy(self.hist as _); result_destroy(self.res as _); } }
}

unsafe extern "C" fn nolog(_: *const Attr, _: *const std::ffi::c_char, _: *mut c_void) {}
unsafe extern "C" fn noflush(_: *const Attr, _: *mut c_void) {}
unsafe extern "C" fn noprog(_: f32, _: *mut c_void) -> c_int { 1 }
unsafe extern "C" fn norow(out: *mut RGBA, _: c_int, w: c_int, _: *mut c_void) { for i in 0..w { *out.add(i as usize) = rgba(i as u8, 0, 0, 255); } }

struct F { name: &'static str, kinds: Vec<K>, want: &'static str, call: Box<dyn Fn(&[P]) -> String> }
fn ptr<T>(p: *const T) -> String { if p.is_null() { "null".into() } else { "object".into() } }

/// every function taking objects, called with given pointers; `want` is its answer to an invalid one
fn table() -> Vec<F> {
    use K::*;
    let mut t: Vec<F> = vec![];
    macro_rules! f { ($n:literal, [$($k:ident),*], $w:literal, |$v:ident| $e:expr) => { t.push(F { name: $n, kinds: vec![$($k),*], want: $w, call: Box::new(|$v: &[P]| unsafe { $e }) }); } }
    f!("attr_copy", [A], "null", |v| ptr(attr_copy(v[0] as _)));
    f!("attr_destroy", [A], "", |v| { attr_destroy(v[0] as _); String::new() });
    f!("image_destroy", [I], "", |v| { image_destroy(v[0] as _); String::new() });
    f!("histogram_destroy", [H], "", |v| { histogram_destroy(v[0] as _); String::new() });
    f!("result_destroy", [R], "", |v| { result_destroy(v[0] as _); String::new() });
    f!("set_max_colors", [A], "105", |v| set_max_colors(v[0] as _, 200).to_string());
    f!("get_max_colors", [A], "-1", |v| get_max_colors(v[0] as _).to_string());
    f!("set_speed", [A], "105", |v| set_speed(v[0] as _, 2).to_string());
    f!("get_speed", [A], "-1", |v| get_speed(v[0] as _).to_string());
    f!("set_min_posterization", [A], "105", |v| set_min_posterization(v[0] as _, 3).to_string());
    f!("get_min_posterization", [A], "-1", |v| get_min_posterization(v[0] as _).to_string());
    f!("set_quality", [A], "105", |v| set_quality(v[0] as _, 1, 2).to_string());
    f!("get_min_quality", [A], "-1", |v| get_min_quality(v[0] as _).to_string());
    f!("get_max_quality", [A], "-1", |v| get_max_quality(v[0] as _).to_string());
    f!("set_last_index_transparent", [A], "", |v| { set_last_index_transparent(v[0] as _, 1); String::new() });
    f!("set_log_callback", [A], "", |v| { set_log_callback(v[0] as _, Some(nolog), null_mut()); String::new() });
    f!("set_log_callback NULL", [A], "", |v| { set_log_callback(v[0] as _, None, null_mut()); String::new() });
    f!("set_log_flush_callback", [A], "", |v| { set_log_flush_callback(v[0] as _, Some(noflush), null_mut()); String::new() });
    f!("attr_set_progress_callback", [A], "", |v| { attr_set_progress_callback(v[0] as _, Some(noprog), null_mut()); String::new() });
    f!("result_set_progress_callback", [R], "", |v| { result_set_progress_callback(v[0] as _, Some(noprog), null_mut()); String::new() });
    f!("image_create_rgba", [A], "null", |v| { let px = [rgba(0, 0, 0, 0); 6]; ptr(image_create_rgba(v[0] as _, px.as_ptr(), 2, 3, 0.)) });
    f!("image_create_rgba_rows", [A], "null", |v| { let px = [rgba(0, 0, 0, 0); 6]; let rows = [px.as_ptr(), px.as_ptr().add(2), px.as_ptr().add(4)]; ptr(image_create_rgba_rows(v[0] as _, rows.as_ptr(), 2, 3, 0.)) });
    f!("image_create_custom", [A], "null", |v| ptr(image_create_custom(v[0] as _, Some(norow), null_mut(), 2, 3, 0.)));
    f!("image_set_memory_ownership", [I], "105", |v| image_set_memory_ownership(v[0] as _, 8).to_string());
    f!("image_set_background", [I, I], "105", |v| image_set_background(v[0] as _, v[1] as _).to_string());
    f!("image_set_importance_map", [I], "105", |v| { let mut m = [9u8; W * HH]; image_set_importance_map(v[0] as _, m.as_mut_ptr(), m.len(), 16).to_string() });
    f!("image_add_fixed_color", [I], "105", |v| image_add_fixed_color(v[0] as _, rgba(1, 2, 3, 4)).to_string());
    f!("image_get_width", [I], "-1", |v| image_get_width(v[0] as _).to_string());
    f!("image_get_height", [I], "-1", |v| image_get_height(v[0] as _).to_string());
    f!("histogram_create", [A], "null", |v| ptr(histogram_create(v[0] as _)));
    f!("histogram_add_image", [H, A, I], "105", |v| histogram_add_image(v[0] as _, v[1] as _, v[2] as _).to_string());
    f!("histogram_add_colors", [H, A], "105", |v| { let e = [Entry { color: rgba(1, 2, 3, 4), count: 1 }]; histogram_add_colors(v[0] as _, v[1] as _, e.as_ptr(), 1, 0.).to_string() });
    f!("histogram_add_fixed_color", [H], "105", |v| histogram_add_fixed_color(v[0] as _, rgba(1, 2, 3, 4), 0.).to_string());
    f!("histogram_quantize", [H, A], "105", |v| { let mut o = null_mut(); let e = histogram_quantize(v[0] as _, v[1] as _, &mut o); if o.is_null() { e.to_string() } else { format!("{e} and an object") } });
    f!("image_quantize", [I, A], "105", |v| { let mut o = null_mut(); let e = image_quantize(v[0] as _, v[1] as _, &mut o); if o.is_null() { e.to_string() } else { format!("{e} and an object") } });
    f!("quantize_image", [A, I], "null", |v| ptr(quantize_image(v[0] as _, v[1] as _)));
    f!("set_dithering_level", [R], "105", |v| set_dithering_level(v[0] as _, 0.1).to_string());
    f!("set_output_gamma", [R], "105", |v| set_output_gamma(v[0] as _, 0.3).to_string());
    f!("get_output_gamma", [R], "-1", |v| get_output_gamma(v[0] as _).to_string());
    f!("get_palette", [R], "null", |v| ptr(get_palette(v[0] as _)));
    f!("write_remapped_image", [R, I], "105", |v| { let mut b = [77u8; W * HH]; let e = write_remapped_image(v[0] as _, v[1] as _, b.as_mut_ptr(), b.len()); if b.iter().any(|&x| x != 77) { "wrote pixels".into() } else { e.to_string() } });
    f!("write_remapped_image_rows", [R, I], "105", |v| { let mut b = [77u8; W * HH]; let mut rows: Vec<*mut u8> = (0..HH).map(|y| b.as_mut_ptr().add(y * W)).collect(); let e = write_remapped_image_rows(v[0] as _, v[1] as _, rows.as_mut_ptr()); if b.iter().any(|&x| x != 77) { "wrote pixels".into() } else { e.to_string() } });
    f!("get_quantization_error", [R], "-1", |v| get_quantization_error(v[0] as _).to_string());
    f!("get_quantization_quality", [R], "-1", |v| get_quantization_quality(v[0] as _).to_string());
    f!("get_remapping_error", [R], "-1", |v| get_remapping_error(v[0] as _).to_string());
    f!("get_remapping_quality", [R], "-1", |v| get_remapping_quality(v[0] as _).to_string());
    t
}

/// (function, one assignment of pointers to its parameters, at least one of them invalid)
fn bad_handles() -> Vec<(usize, Vec<Option<K>>)> {
    let mut v = vec![];
    let opts = [None, Some(K::A), Some(K::I), Some(K::H), Some(K::R)];
    for (i, f) in table().iter().enumerate() {
        let n = f.kinds.len();
        for c in 0..5usize.pow(n as u32) {
            let pick: Vec<_> = (0..n).map(|k| opts[c / 5usize.pow(k as u32) % 5]).collect();
            if (0..n).all(|k| pick[k] == Some(f.kinds[k])) { continue; }
            // a valid background is consumed even so: given its own image below
            v.push((i, pick));
        }
    }
    v
}

/// valid objects, hostile other arguments: (description, call, expected answer)
fn hostile(r: &mut Rng) -> Vec<(String, Box<dyn Fn(&Env) -> String>, &'static str)> {
    let mut t: Vec<(String, Box<dyn Fn(&Env) -> String>, &'static str)> = vec![];
    let px = std::rc::Rc::new(vec![rgba(5, 6, 7, 255); 64]);
    // sizes that are zero, negative, or too big
    for (w, h) in [(0, 1), (1, 0), (0, 0), (-1, 1), (1, -1), (-1, -1), (i32::MIN, 1), (1, i32::MIN), (i32::MAX, i32::MAX), (65536, 65536), (46341, 46341), (0x10000, 0x8001), (i32::MAX, 2), (2, i32::MAX), (23171, 23171), (0x20000000, 4), (4, 0x20000000), (1 << 28, 2), (536_870_911, 2)] {
        let p = px.clone();
        t.push((format!("image_create_rgba {w}x{h}"), Box::new(move |e| ptr(unsafe { image_create_rgba(e.attr as _, p.as_ptr(), w, h, 0.) })), "null"));
        let p = px.clone();
        t.push((format!("image_create_rgba_rows {w}x{h}"), Box::new(move |e| { let r = vec![p.as_ptr(); 4]; ptr(unsafe { image_create_rgba_rows(e.attr as _, r.as_ptr(), w, h, 0.) }) }), "null"));
        // these take sizes as big as the memory
        if w <= 0 || h <= 0 || (w, h) == (i32::MAX, i32::MAX) { t.push((format!("image_create_custom {w}x{h}"), Box::new(move |e| ptr(unsafe { image_create_custom(e.attr as _, Some(norow), null_mut(), w, h, 0.) })), "null")); }
    }
    for g in [-0.1, -1., 1.1, 100., f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1e-9] {
        let p = px.clone();
        t.push((format!("image_create_rgba gamma {g}"), Box::new(move |e| ptr(unsafe { image_create_rgba(e.attr as _, p.as_ptr(), 2, 2, g) })), "null"));
        let p = px.clone();
        t.push((format!("image_create_rgba_rows gamma {g}"), Box::new(move |e| { let r = [p.as_ptr(), p.as_ptr()]; ptr(unsafe { image_create_rgba_rows(e.attr as _, r.as_ptr(), 2, 2, g) }) }), "null"));
        t.push((format!("image_create_custom gamma {g}"), Box::new(move |e| ptr(unsafe { image_create_custom(e.attr as _, Some(norow), null_mut(), 2, 2, g) })), "null"));
        t.push((format!("set_output_gamma {g}"), Box::new(move |e| unsafe { set_output_gamma(e.res as _, g) }.to_string()), "100"));
        t.push((format!("histogram_add_fixed_color gamma {g}"), Box::new(move |e| unsafe { histogram_add_fixed_color(e.hist as _, rgba(1, 1, 1, 1), g) }.to_string()), "100"));
        t.push((format!("histogram_add_colors gamma {g}"), Box::new(move |e| { let c = [Entry { color: rgba(9, 1, 1, 1), count: 1 }]; unsafe { histogram_add_colors(e.hist as _, e.attr as _, c.as_ptr(), 1, g) }.to_string() }), "100"));
    }
    for g in [0., 1.] { t.push((format!("set_output_gamma {g}"), Box::new(move |e| unsafe { set_output_gamma(e.res as _, g) }.to_string()), "100")); }
    for d in [-0.001f32, 1.001, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -1., 2.] { t.push((format!("set_dithering_level {d}"), Box::new(move |e| unsafe { set_dithering_level(e.res as _, d) }.to_string()), "100")); }
    for v in [0, 1, 257, 258, -1, 65536 + 16, i32::MAX, i32::MIN, 512, 0x100 + 2] { t.push((format!("set_max_colors {v}"), Box::new(move |e| unsafe { set_max_colors(e.attr as _, v) }.to_string()), "100")); }
    for v in [0, 11, -1, 256 + 3, 65536 + 5, i32::MAX, i32::MIN] { t.push((format!("set_speed {v}"), Box::new(move |e| unsafe { set_speed(e.attr as _, v) }.to_string()), "100")); }
    for v in [-1, 5, 8, 256, 257, 65536, i32::MAX, i32::MIN] { t.push((format!("set_min_posterization {v}"), Box::new(move |e| unsafe { set_min_posterization(e.attr as _, v) }.to_string()), "100")); }
    for (a, b) in [(50, 40), (0, 101), (101, 101), (-1, 50), (0, -1), (256, 256), (0, 256), (256, 300), (i32::MIN, 0), (i32::MAX, i32::MAX), (0x100, 0x164), (5, 0x100 + 60)] { t.push((format!("set_quality {a} {b}"), Box::new(move |e| unsafe { set_quality(e.attr as _, a, b) }.to_string()), "100")); }
    t.push(("image_create_rgba NULL pixels".into(), Box::new(|e| ptr(unsafe { image_create_rgba(e.attr as _, null(), 2, 2, 0.) })), "null"));
    t.push(("image_create_rgba_rows NULL rows".into(), Box::new(|e| ptr(unsafe { image_create_rgba_rows(e.attr as _, null(), 2, 2, 0.) })), "null"));
    for k in 0..5 {
        let p = px.clone();
        t.push((format!("image_create_rgba_rows NULL row {k}"), Box::new(move |e| { let mut r = vec![p.as_ptr(); 5]; r[k] = null(); ptr(unsafe { image_create_rgba_rows(e.attr as _, r.as_ptr(), 2, 5, 0.) }) }), "null"));
    }
    t.push(("image_create_custom NULL callback".into(), Box::new(|e| ptr(unsafe { image_create_custom(e.attr as _, None, null_mut(), 2, 2, 0.) })), "null"));
    t.push(("write_remapped_image NULL".into(), Box::new(|e| unsafe { write_remapped_image(e.res as _, e.img as _, null_mut(), W * HH) }.to_string()), "105"));
    for n in [0, 1, W * HH - 1] { t.push((format!("write_remapped_image {n} bytes"), Box::new(move |e| { let mut b = [77u8; W * HH]; let r = unsafe { write_remapped_image(e.res as _, e.img as _, b.as_mut_ptr(), n) }; if b.iter().any(|&x| x != 77) { return "wrote pixels".into(); } r.to_string() }), "104")); }
    t.push(("write_remapped_image_rows NULL".into(), Box::new(|e| unsafe { write_remapped_image_rows(e.res as _, e.img as _, null_mut()) }.to_string()), "105"));
    t.push(("image_set_importance_map NULL".into(), Box::new(|e| unsafe { image_set_importance_map(e.img as _, null_mut(), W * HH, 16) }.to_string()), "105"));
    t.push(("image_set_importance_map NULL owned".into(), Box::new(|e| unsafe { image_set_importance_map(e.img as _, null_mut(), W * HH, 8) }.to_string()), "105"));
    t.push(("image_set_importance_map 0 bytes".into(), Box::new(|e| { let mut m = [1u8]; unsafe { image_set_importance_map(e.img as _, m.as_mut_ptr(), 0, 16) }.to_string() }), "105"));
    for n in [1, W * HH - 1] { for o in [8, 16] { t.push((format!("image_set_importance_map {n} bytes {o}"), Box::new(move |e| { let mut m = [1u8; W * HH]; unsafe { image_set_importance_map(e.img as _, m.as_mut_ptr(), n, o) }.to_string() }), "104")); } }
    for o in [0, 4, 12, 24, -1, i32::MIN, 32] { t.push((format!("image_set_importance_map ownership {o}"), Box::new(move |e| { let mut m = [1u8; W * HH]; unsafe { image_set_importance_map(e.img as _, m.as_mut_ptr(), W * HH, o) }.to_string() }), "106")); }
    for o in [0, 1, 2, 16, 20, 24, 28, 32, -1, i32::MIN, 12 | 64, 3] { t.push((format!("image_set_memory_ownership {o}"), Box::new(move |e| unsafe { image_set_memory_ownership(e.img as _, o) }.to_string()), "100")); }
    for o in [4, 8, 12] { t.push((format!("image_set_memory_ownership {o} of a callback image"), Box::new(move |e| unsafe { let i = image_create_custom(e.attr as _, Some(norow), null_mut(), 2, 2, 0.); let r = image_set_memory_ownership(i, o); image_destroy(i); r.to_string() }), "100")); }
    for n in [-1, -2, i32::MIN] { t.push((format!("histogram_add_colors {n}"), Box::new(move |e| { let c = [Entry { color: rgba(9, 1, 1, 1), count: 1 }]; unsafe { histogram_add_colors(e.hist as _, e.attr as _, c.as_ptr(), n, 0.) }.to_string() }), "100")); }
    t.push(("histogram_add_colors NULL".into(), Box::new(|e| unsafe { histogram_add_colors(e.hist as _, e.attr as _, null(), 2, 0.) }.to_string()), "105"));
    t.push(("histogram_add_colors none".into(), Box::new(|e| unsafe { histogram_add_colors(e.hist as _, e.attr as _, null(), 0, 0.) }.to_string()), "0"));
    t.push(("quantizing an empty histogram".into(), Box::new(|e| unsafe { let h = histogram_create(e.attr as _); let mut o = 8 as *mut Res; let r = histogram_quantize(h, e.attr as _, &mut o); histogram_destroy(h); if o.is_null() { (r != 0).to_string() } else { "output not NULL".into() } }), "true"));
    t.push(("image_set_background of another size".into(), Box::new(|e| unsafe { let p = [rgba(1, 1, 1, 1); 4]; let b = image_create_rgba(e.attr as _, p.as_ptr(), 2, 2, 0.); image_set_background(e.img as _, b).to_string() }), "104"));
    // any number out of range
    for _ in 0..40 {
        let v = match r.below(3) { 0 => r.u64() as i32, 1 => r.range(0, 2000) as i32 - 700, _ => (r.range(0, 70000) as i32) << 8 | r.range(2, 10) as i32 };
        if !(2..=256).contains(&v) { t.push((format!("set_max_colors {v}"), Box::new(move |e| unsafe { set_max_colors(e.attr as _, v) }.to_string()), "100")); }
        if !(1..=10).contains(&v) { t.push((format!("set_speed {v}"), Box::new(move |e| unsafe { set_speed(e.attr as _, v) }.to_string()), "100")); }
        if !(0..=4).contains(&v) { t.push((format!("set_min_posterization {v}"), Box::new(move |e| unsafe { set_min_posterization(e.attr as _, v) }.to_string()), "100")); }
        let w = match r.below(3) { 0 => r.u64() as i32, 1 => r.range(0, 300) as i32 - 100, _ => (r.range(0, 70000) as i32) << 8 | r.range(0, 100) as i32 };
        if !(0 <= v && v <= w && w <= 100) { t.push((format!("set_quality {v} {w}"), Box::new(move |e| unsafe { set_quality(e.attr as _, v, w) }.to_string()), "100")); }
        if !(0 <= w && w <= v && v <= 100) { t.push((format!("set_quality {w} {v}"), Box::new(move |e| unsafe { set_quality(e.attr as _, w, v) }.to_string()), "100")); }
        let g = f64::from_bits(r.u64());
        let g = if r.chance(0.5) { g } else { r.f() * 4. - 2. };
        if !(0. ..=1.).contains(&g) {
            t.push((format!("image_create_custom gamma {g}"), Box::new(move |e| ptr(unsafe { image_create_custom(e.attr as _, Some(norow), null_mut(), 2, 2, g) })), "null"));
            t.push((format!("set_output_gamma {g}"), Box::new(move |e| unsafe { set_output_gamma(e.res as _, g) }.to_string()), "100"));
            t.push((format!("histogram_add_fixed_color gamma {g}"), Box::new(move |e| unsafe { histogram_add_fixed_color(e.hist as _, rgba(1, 1, 1, 1), g) }.to_string()), "100"));
            let d = g as f32;
            if !(0. ..=1.).contains(&d) { t.push((format!("set_dithering_level {d}"), Box::new(move |e| unsafe { set_dithering_level(e.res as _, d) }.to_string()), "100")); }
        }
        // sizes whose bytes don't fit an int
        let (w, h) = { let a = r.below(31) as u32; let w = 1i64 << a | (r.u64() & ((1 << a) - 1)) as i64; let h = (1i64 << 29) / w + 1 + r.range(0, 100) as i64; if r.chance(0.5) { (w, h) } else { (h, w) } };
        if w <= i32::MAX as i64 && h <= i32::MAX as i64 {
            let (w, h) = (w as i32, h as i32);
            let p = px.clone();
            t.push((format!("image_create_rgba {w}x{h}"), Box::new(move |e| ptr(unsafe { image_create_rgba(e.attr as _, p.as_ptr(), w, h, 0.) })), "null"));
            let p = px.clone();
            t.push((format!("image_create_rgba_rows {w}x{h}"), Box::new(move |e| { let r = vec![p.as_ptr(); 4]; ptr(unsafe { image_create_rgba_rows(e.attr as _, r.as_ptr(), w, h, 0.) }) }), "null"));
        }
    }
    // NULL disables callbacks; everything still works
    t.push(("callbacks set to NULL".into(), Box::new(|e| unsafe {
        set_log_callback(e.attr as _, Some(nolog), null_mut()); set_log_flush_callback(e.attr as _, Some(noflush), null_mut());
        attr_set_progress_callback(e.attr as _, Some(abort), null_mut()); result_set_progress_callback(e.res as _, Some(abort), null_mut());
        set_log_callback(e.attr as _, None, null_mut()); set_log_flush_callback(e.attr as _, None, null_mut());
        attr_set_progress_callback(e.attr as _, None, null_mut()); result_set_progress_callback(e.res as _, None, null_mut());
        String::new() }), ""));
    // an abort leaves NULL in the output
    t.push(("aborted quantization".into(), Box::new(|e| unsafe {
        let a = attr_copy(e.attr as _);
        attr_set_progress_callback(a, Some(abort), null_mut());
        let mut o = 8 as *mut Res;
        let r = image_quantize(e.img as _, a, &mut o);
        let mut o2 = 8 as *mut Res;
        let r2 = histogram_quantize(e.hist as _, a, &mut o2);
        let q = quantize_image(a, e.img as _);
        attr_destroy(a);
        format!("{r} {r2} {} {} {}", ptr(o), ptr(o2), ptr(q)) }), "102 102 null null null"));
    t.push(("unreachable quality".into(), Box::new(|e| unsafe {
        let a = attr_create();
        set_max_colors(a, 2); set_quality(a, 100, 100);
        let mut o = 8 as *mut Res;
        let r = image_quantize(e.img as _, a, &mut o);
        attr_destroy(a);
        format!("{r} {}", ptr(o)) }), "99 null"));
    t
}
unsafe extern "C" fn abort(_: f32, _: *mut c_void) -> c_int { 0 }

/// in a child process: runs calls from..to, saying what it is about to do
pub fn child(args: &[String]) -> bool {
    let from: usize = args[2].parse().unwrap();
    let tab = table();
    let handles = bad_handles();
    let host = hostile(&mut Rng::new(args[3].parse().unwrap()));
    let state: u64 = args[4].parse().unwrap();
    let base = { let e = Env::new(state); let h = e.health(); e.destroy(); h };
    let n = handles.len() + host.len();
    for i in from..n {
        let e = Env::new(state);
        let mut bg: P = null_mut();
        let (name, got, want);
        let b0 = crate::alloc::balance();
        if i < handles.len() {
            let (f, pick) = &handles[i];
            let f = &tab[*f];
            name = format!("{}({})", f.name, pick.iter().map(|k| match k { None => "NULL".into(), Some(k) => format!("{k:?}") }).collect::<Vec<_>>().join(", "));
            println!("start {i} {name}");
            let mut ps: Vec<P> = pick.iter().map(|k| e.get(*k)).collect();
            if f.name == "image_set_background" && pick[1] == Some(K::I) {
                bg = unsafe { image_create_rgba(e.attr as _, e._px.as_ptr(), W as _, HH as _, 0.) } as P;
                ps[1] = bg;
            }
            got = (f.call)(&ps);
            want = f.want;
        } else {
            let h = &host[i - handles.len()];
            name = h.0.clone();
            println!("start {i} {name}");
            got = h.1(&e);
            want = h.2;
        }
        if got != want { println!("bad {i} {name} answered `{got}` instead of `{want}`"); continue; }
        let _ = (b0, bg);
        let h = e.health();
        if h != base { println!("bad {i} {name} changed something: `{h}` instead of `{base}`"); }
        e.destroy();
        println!("ok {i}");
    }
    println!("end {n}");
    true
}

pub fn run(x: &Ctx) {
    let exe = std::env::current_exe().unwrap();
    x.cases_t("calls", x.n(64, 32 * 40).max(32), 4, |c| {
        let (seed, state) = (c.rng.clone().u64() >> 1, c.idx as u64 % 32);
        let mut from = 0;
        let mut bad: Vec<String> = vec![];
        let mut ok = 0;
        loop {
            let o = std::process::Command::new(&exe).arg("c21-child").args([from.to_string(), seed.to_string(), state.to_string()]).output().map_err(|e| format!("HARNESS {e}"))?;
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            ok += t.lines().filter(|l| l.starts_with("ok ")).count() as u64;
            bad.extend(t.lines().filter(|l| l.starts_with("bad ")).map(|l| l[4..].to_string()));
            for l in t.lines().filter(|l| l.starts_with("ok ")) { c.distinct(hash_bytes(state, l.as_bytes())); }
            if t.lines().last().map_or(false, |l| l.starts_with("end")) { break; }
            let Some(last) = t.lines().filter(|l| l.starts_with("start ")).last() else { return Err(format!("HARNESS child: {t} {}", String::from_utf8_lossy(&o.stderr))) };
            let mut w = last.splitn(3, ' ');
            let i: usize = w.nth(1).unwrap().parse().unwrap();
            let e = String::from_utf8_lossy(&o.stderr);
            bad.push(format!("{} crashed: {} {}", w.next().unwrap_or(""), o.status, e.lines().last().unwrap_or("")));
            if bad.len() > 8 { break; }
            from = i + 1;
        }
        c.count("calls with invalid arguments answered as documented", ok);
        c.sample(format!("{ok} calls"));
        if !bad.is_empty() { return Err(bad.join("; ")); }
        Ok(())
    });
}
