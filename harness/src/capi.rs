//! The C API, called through cshim.c (which includes the published header), and a backend executing
//! the programs of script.rs with it.
#![allow(clippy::missing_safety_doc)]
use crate::gen::*;
use crate::run::{hash_bytes, hash_px};
use crate::script::{importance, pixels, Log, Op, NA, NH, NI, NR};
use imagequant::RGBA;
use std::ffi::{c_char, c_int, c_void, CStr};
use std::ptr::{null, null_mut};
use std::sync::{Arc, Mutex};

extern crate imagequant_sys;

pub enum Attr {}
pub enum Image {}
pub enum Hist {}
pub enum Res {}
#[repr(C)]
pub struct Pal { pub count: u32, pub entries: [RGBA; 256] }
#[repr(C)]
#[derive(Copy, Clone)]
pub struct Entry { pub color: RGBA, pub count: u32 }
pub type LogFn = unsafe extern "C" fn(*const Attr, *const c_char, *mut c_void);
pub type FlushFn = unsafe extern "C" fn(*const Attr, *mut c_void);
pub type ProgFn = unsafe extern "C" fn(f32, *mut c_void) -> c_int;
pub type RowFn = unsafe extern "C" fn(*mut RGBA, c_int, c_int, *mut c_void);

// the exact types of the Rust side, for Miri, which checks them at every call
pub struct Er;
pub struct Un;
pub struct Ow;
pub struct Fr;
#[cfg(not(miri))]
mod tys {
    use super::*;
    pub trait M { type R; }
    impl M for Er { type R = c_int; }
    impl M for Un { type R = c_int; }
    impl M for Ow { type R = c_int; }
    impl M for Fr { type R = *mut c_void; }
    macro_rules! id { ($($t:ty),*) => { $(impl M for $t { type R = $t; })* } }
    id!(c_int, usize, f32, f64, (), Option<LogFn>, Option<FlushFn>, Option<ProgFn>, Option<RowFn>);
    impl<T> M for *mut T { type R = *mut T; }
    impl<T> M for *const T { type R = *const T; }
}
#[cfg(miri)]
mod tys {
    use super::*;
    pub trait M { type R; type H; fn to(h: Self::H) -> Self::R; fn back(r: Self::R) -> Self::H; }
    impl M for Er { type R = imagequant_sys::liq_error; type H = c_int; fn to(_: c_int) -> Self::R { unreachable!() } fn back(r: Self::R) -> c_int { r as c_int } }
    impl M for Un { type R = u32; type H = c_int; fn to(h: c_int) -> u32 { h as u32 } fn back(r: u32) -> c_int { r as c_int } }
    impl M for Ow { type R = imagequant_sys::liq_ownership; type H = c_int; fn to(h: c_int) -> Self::R { imagequant_sys::liq_ownership::from_bits_retain(h) } fn back(r: Self::R) -> c_int { r.bits() } }
    impl M for Fr { type R = unsafe extern "C" fn(*mut c_void); type H = *mut c_void; fn to(h: *mut c_void) -> Self::R { unsafe { std::mem::transmute(h) } } fn back(_: Self::R) -> *mut c_void { unreachable!() } }
    macro_rules! id { ($($t:ty),*) => { $(impl M for $t { type R = $t; type H = $t; fn to(h: $t) -> $t { h } fn back(h: $t) -> $t { h } })* } }
    id!(c_int, usize, f32, f64, (), Option<LogFn>, Option<FlushFn>, Option<ProgFn>, Option<RowFn>);
    impl<T> M for *mut T { type R = *mut T; type H = *mut T; fn to(h: *mut T) -> *mut T { h } fn back(h: *mut T) -> *mut T { h } }
    impl<T> M for *const T { type R = *const T; type H = *const T; fn to(h: *const T) -> *const T { h } fn back(h: *const T) -> *const T { h } }
}
use tys::M;

#[cfg(not(miri))]
macro_rules! ffi {
    ($($v:literal $l:literal fn $n:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
        extern "C" { $( #[link_name = $v] pub fn $n($($a: <$t as M>::R),*) -> <$r as M>::R; )* }
    };
}
#[cfg(miri)]
macro_rules! ffi {
    ($($v:literal $l:literal fn $n:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
        mod raw { use super::*; extern "C" { $( #[link_name = $l] pub fn $n($($a: <$t as M>::R),*) -> <$r as M>::R; )* } }
        $( pub unsafe fn $n($($a: <$t as M>::H),*) -> <$r as M>::H { <$r as M>::back(raw::$n($(<$t as M>::to($a)),*)) } )*
    };
}
ffi! {
    "v_version" "liq_version" fn version() -> Un;
    "v_attr_create" "liq_attr_create" fn attr_create() -> *mut Attr;
    "v_attr_create_with_allocator" "liq_attr_create_with_allocator" fn attr_create_with_allocator(m: *mut c_void, f: Fr) -> *mut Attr;
    "v_attr_copy" "liq_attr_copy" fn attr_copy(a: *const Attr) -> *mut Attr;
    "v_attr_destroy" "liq_attr_destroy" fn attr_destroy(a: *mut Attr) -> ();
    "v_histogram_create" "liq_histogram_create" fn histogram_create(a: *const Attr) -> *mut Hist;
    "v_histogram_add_image" "liq_histogram_add_image" fn histogram_add_image(h: *mut Hist, a: *const Attr, i: *mut Image) -> Er;
    "v_histogram_add_colors" "liq_histogram_add_colors" fn histogram_add_colors(h: *mut Hist, a: *const Attr, e: *const Entry, n: c_int, g: f64) -> Er;
    "v_histogram_destroy" "liq_histogram_destroy" fn histogram_destroy(h: *mut Hist) -> ();
    "v_set_max_colors" "liq_set_max_colors" fn set_max_colors(a: *mut Attr, n: Un) -> Er;
    "v_get_max_colors" "liq_get_max_colors" fn get_max_colors(a: *const Attr) -> Un;
    "v_set_speed" "liq_set_speed" fn set_speed(a: *mut Attr, n: c_int) -> Er;
    "v_get_speed" "liq_get_speed" fn get_speed(a: *const Attr) -> Un;
    "v_set_min_opacity" "liq_set_min_opacity" fn set_min_opacity(a: *mut Attr, n: c_int) -> Er;
    "v_get_min_opacity" "liq_get_min_opacity" fn get_min_opacity(a: *const Attr) -> c_int;
    "v_set_min_posterization" "liq_set_min_posterization" fn set_min_posterization(a: *mut Attr, n: c_int) -> Er;
    "v_get_min_posterization" "liq_get_min_posterization" fn get_min_posterization(a: *const Attr) -> Un;
    "v_set_quality" "liq_set_quality" fn set_quality(a: *mut Attr, m: Un, n: Un) -> Er;
    "v_get_min_quality" "liq_get_min_quality" fn get_min_quality(a: *const Attr) -> Un;
    "v_get_max_quality" "liq_get_max_quality" fn get_max_quality(a: *const Attr) -> Un;
    "v_set_last_index_transparent" "liq_set_last_index_transparent" fn set_last_index_transparent(a: *mut Attr, n: c_int) -> ();
    "v_set_log_callback" "liq_set_log_callback" fn set_log_callback(a: *mut Attr, f: Option<LogFn>, u: *mut c_void) -> ();
    "v_set_log_flush_callback" "liq_set_log_flush_callback" fn set_log_flush_callback(a: *mut Attr, f: Option<FlushFn>, u: *mut c_void) -> ();
    "v_attr_set_progress_callback" "liq_attr_set_progress_callback" fn attr_set_progress_callback(a: *mut Attr, f: Option<ProgFn>, u: *mut c_void) -> ();
    "v_result_set_progress_callback" "liq_result_set_progress_callback" fn result_set_progress_callback(r: *mut Res, f: Option<ProgFn>, u: *mut c_void) -> ();
    "v_image_create_rgba_rows" "liq_image_create_rgba_rows" fn image_create_rgba_rows(a: *const Attr, rows: *const *const RGBA, w: Un, h: Un, g: f64) -> *mut Image;
    "v_image_create_rgba" "liq_image_create_rgba" fn image_create_rgba(a: *const Attr, px: *const RGBA, w: Un, h: Un, g: f64) -> *mut Image;
    "v_image_create_custom" "liq_image_create_custom" fn image_create_custom(a: *const Attr, f: Option<RowFn>, u: *mut c_void, w: Un, h: Un, g: f64) -> *mut Image;
    "v_image_set_memory_ownership" "liq_image_set_memory_ownership" fn image_set_memory_ownership(i: *mut Image, f: Ow) -> Er;
    "v_image_set_background" "liq_image_set_background" fn image_set_background(i: *mut Image, b: *mut Image) -> Er;
    "v_image_set_importance_map" "liq_image_set_importance_map" fn image_set_importance_map(i: *mut Image, m: *mut u8, n: usize, own: Ow) -> Er;
    "v_image_get_width" "liq_image_get_width" fn image_get_width(i: *const Image) -> Un;
    "v_image_get_height" "liq_image_get_height" fn image_get_height(i: *const Image) -> Un;
    "v_image_destroy" "liq_image_destroy" fn image_destroy(i: *mut Image) -> ();
    "v_histogram_quantize" "liq_histogram_quantize" fn histogram_quantize(h: *mut Hist, a: *mut Attr, o: *mut *mut Res) -> Er;
    "v_image_quantize" "liq_image_quantize" fn image_quantize(i: *mut Image, a: *mut Attr, o: *mut *mut Res) -> Er;
    "v_quantize_image" "liq_quantize_image" fn quantize_image(a: *mut Attr, i: *mut Image) -> *mut Res;
    "v_set_dithering_level" "liq_set_dithering_level" fn set_dithering_level(r: *mut Res, f: f32) -> Er;
    "v_set_output_gamma" "liq_set_output_gamma" fn set_output_gamma(r: *mut Res, g: f64) -> Er;
    "v_get_output_gamma" "liq_get_output_gamma" fn get_output_gamma(r: *const Res) -> f64;
    "v_get_palette" "liq_get_palette" fn get_palette(r: *mut Res) -> *const Pal;
    "v_write_remapped_image" "liq_write_remapped_image" fn write_remapped_image(r: *mut Res, i: *mut Image, b: *mut u8, n: usize) -> Er;
    "v_write_remapped_image_rows" "liq_write_remapped_image_rows" fn write_remapped_image_rows(r: *mut Res, i: *mut Image, rows: *mut *mut u8) -> Er;
    "v_get_quantization_error" "liq_get_quantization_error" fn get_quantization_error(r: *const Res) -> f64;
    "v_get_quantization_quality" "liq_get_quantization_quality" fn get_quantization_quality(r: *const Res) -> c_int;
    "v_get_remapping_error" "liq_get_remapping_error" fn get_remapping_error(r: *const Res) -> f64;
    "v_get_remapping_quality" "liq_get_remapping_quality" fn get_remapping_quality(r: *const Res) -> c_int;
    "v_result_destroy" "liq_result_destroy" fn result_destroy(r: *mut Res) -> ();
}
#[cfg(not(miri))]
mod shim {
    use super::*;
    extern "C" {
        pub fn v_histogram_add_fixed_color(h: *mut Hist, c: *const RGBA, g: f64) -> c_int;
        pub fn v_image_add_fixed_color(i: *mut Image, c: *const RGBA) -> c_int;
        pub fn v_layout(o: *mut i64);
        pub fn v_read_palette(p: *const Pal, out: *mut RGBA) -> c_int;
    }
}
#[cfg(not(miri))]
pub unsafe fn histogram_add_fixed_color(h: *mut Hist, c: RGBA, g: f64) -> c_int { shim::v_histogram_add_fixed_color(h, &c, g) }
#[cfg(not(miri))]
pub unsafe fn image_add_fixed_color(i: *mut Image, c: RGBA) -> c_int { shim::v_image_add_fixed_color(i, &c) }
#[cfg(not(miri))]
pub fn layout() -> [i64; 25] { let mut o = [0; 25]; unsafe { shim::v_layout(o.as_mut_ptr()) } o }
#[cfg(miri)]
mod fixed {
    use super::*;
    extern "C" {
        #[link_name = "liq_histogram_add_fixed_color"]
        pub fn histogram_add_fixed_color(h: *mut Hist, c: RGBA, g: f64) -> imagequant_sys::liq_error;
        #[link_name = "liq_image_add_fixed_color"]
        pub fn image_add_fixed_color(i: *mut Image, c: RGBA) -> imagequant_sys::liq_error;
    }
}
#[cfg(miri)]
pub unsafe fn histogram_add_fixed_color(h: *mut Hist, c: RGBA, g: f64) -> c_int { fixed::histogram_add_fixed_color(h, c, g) as c_int }
#[cfg(miri)]
pub unsafe fn image_add_fixed_color(i: *mut Image, c: RGBA) -> c_int { fixed::image_add_fixed_color(i, c) as c_int }

pub fn palette(r: *mut Res) -> Option<Vec<RGBA>> {
    unsafe {
        let p = get_palette(r);
        if p.is_null() { return None; }
        #[cfg(miri)]
        return Some((&(*p).entries)[..(*p).count as usize].to_vec());
        #[cfg(not(miri))]
        {
            let mut v = vec![rgba(0, 0, 0, 0); 4096];
            let n = shim::v_read_palette(p, v.as_mut_ptr());
            v.truncate(n as usize);
            Some(v)
        }
    }
}

pub fn err(e: c_int) -> String {
    match e { 0 => "ok", 99 => "QualityTooLow", 100 => "ValueOutOfRange", 101 => "OutOfMemory", 102 => "Aborted", 103 => "InternalError", 104 => "BufferTooSmall", 105 => "InvalidPointer", 106 => "Unsupported", n => return format!("error {n}") }.to_string()
}

extern "C" {
    pub fn malloc(n: usize) -> *mut c_void;
    pub fn free(p: *mut c_void);
}

/// what a C program's buffers go through: a recording allocator and free function
pub static LIVE: Mutex<Vec<(usize, usize, u64, u64)>> = Mutex::new(Vec::new()); // address, size, owner tag, serial number
static SERIAL: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
thread_local! { static LAST: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// serial number of this thread's last c_alloc (addresses get reused)
pub fn last_serial() -> u64 { LAST.with(|c| c.get()) }
pub static FREES: Mutex<Vec<String>> = Mutex::new(Vec::new()); // faults seen by the free function

pub fn c_alloc<T: Copy>(data: &[T], tag: u64) -> *mut T {
    let n = std::mem::size_of_val(data).max(1);
    unsafe {
        let p = malloc(n) as *mut T;
        assert!(!p.is_null());
        std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
        let id = SERIAL.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        LAST.with(|c| c.set(id));
        LIVE.lock().unwrap().push((p as usize, n, tag, id));
        p
    }
}
/// the free function given to the library
pub unsafe extern "C" fn recording_free(p: *mut c_void) {
    let mut l = LIVE.lock().unwrap();
    match l.iter().position(|x| x.0 == p as usize) {
        Some(i) => { l.swap_remove(i); drop(l); free(p) },
        None => FREES.lock().unwrap().push(format!("free function called with {p:?}, which is not a buffer it was given (or for the second time)")),
    }
}
thread_local! { static TAG: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
pub fn set_tag(t: u64) { TAG.with(|c| c.set(t)); }
pub fn tag() -> u64 { TAG.with(|c| c.get()) }
/// buffers handed over by this case and not released, and misuse of the free function
pub fn faults(tag: u64) -> Result<(), String> {
    if let Some(f) = FREES.lock().unwrap().pop() { return Err(f); }
    let mut l = LIVE.lock().unwrap();
    let n = l.iter().filter(|x| x.2 == tag).count();
    l.retain(|x| x.2 != tag);
    if n > 0 { return Err(format!("{n} buffers whose ownership was passed were not released")); }
    Ok(())
}
/// freed by the caller
pub fn c_free(p: *mut c_void) { unsafe { recording_free(p) } }

pub struct CbCtx { pub log: Log, pub calls: Arc<Mutex<Vec<f32>>>, pub stop: u32, pub count: std::sync::atomic::AtomicU32 }
unsafe extern "C" fn log_cb(_: *const Attr, m: *const c_char, u: *mut c_void) {
    let c = &*(u as *const CbCtx);
    c.log.lock().unwrap().push(CStr::from_ptr(m).to_string_lossy().into_owned());
}
unsafe extern "C" fn flush_cb(_: *const Attr, u: *mut c_void) { let c = &*(u as *const CbCtx); c.log.lock().unwrap().push("FLUSH".into()); }
unsafe extern "C" fn prog_cb(f: f32, u: *mut c_void) -> c_int {
    let c = &*(u as *const CbCtx);
    c.calls.lock().unwrap().push(f);
    let i = 1 + c.count.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    // anything but 0 means to go on
    if c.stop > 0 && c.stop == i { 0 } else { [1, -1, 2, 256, i32::MIN, 65536, i32::MAX][i as usize % 7] }
}
pub struct RowCtx { pub px: Vec<RGBA>, pub w: usize, pub h: usize }
pub unsafe extern "C" fn row_cb(out: *mut RGBA, row: c_int, width: c_int, u: *mut c_void) {
    let c = &*(u as *const RowCtx);
    if row < 0 || row as usize >= c.h || width as usize != c.w { FREES.lock().unwrap().push(format!("row callback asked for row {row} of width {width} of a {}x{} image", c.w, c.h)); return; }
    for x in 0..c.w { *out.add(x) = c.px[row as usize * c.w + x]; }
}

pub struct C {
    pub attrs: Vec<*mut Attr>,
    pub images: Vec<*mut Image>,
    pub hists: Vec<*mut Hist>,
    pub res: Vec<*mut Res>,
    pub log: Log,
    pub calls: Arc<Mutex<Vec<f32>>>,
    /// callback contexts and borrowed pixels live until the end
    ctx: Vec<Box<CbCtx>>,
    rows: Vec<Box<RowCtx>>,
    store: Vec<Box<[RGBA]>>,
    ptrs: Vec<Box<[*const RGBA]>>,
    copies: Vec<(*const RGBA, Vec<RGBA>)>,
}

impl C {
    pub fn new() -> Self {
        C { attrs: vec![null_mut(); NA], images: vec![null_mut(); NI], hists: vec![null_mut(); NH], res: vec![null_mut(); NR], log: Default::default(), calls: Default::default(), ctx: vec![], rows: vec![], store: vec![], ptrs: vec![], copies: vec![] }
    }
    fn ctx(&mut self, stop: u32) -> *mut c_void {
        self.ctx.push(Box::new(CbCtx { log: self.log.clone(), calls: self.calls.clone(), stop, count: Default::default() }));
        &**self.ctx.last().unwrap() as *const CbCtx as *mut c_void
    }
    fn keep(&mut self, v: Vec<RGBA>) -> *const RGBA {
        let copy = v.clone();
        self.store.push(v.into_boxed_slice());
        let p = self.store.last().unwrap().as_ptr();
        self.copies.push((p, copy));
        p
    }
    unsafe fn info(&self, r: *mut Res) -> String {
        format!("{} {:?} {:?} {:?} {:?}", get_output_gamma(r), get_quantization_error(r), get_quantization_quality(r), get_remapping_error(r), get_remapping_quality(r))
    }
    pub fn exec(&mut self, op: &Op) -> Option<String> {
        macro_rules! live { ($v:ident, $i:expr) => {{ let p = self.$v[*$i]; if p.is_null() { return None; } p }} }
        unsafe { Some(match op {
            Op::NewAttr(a) => { let old = std::mem::replace(&mut self.attrs[*a], attr_create_with_allocator(malloc as *mut c_void, recording_free as *mut c_void)); if !old.is_null() { attr_destroy(old); } "new".into() },
            Op::CopyAttr(a, b) => { if a == b { return None; } let p = live!(attrs, a); let c = attr_copy(p); let old = std::mem::replace(&mut self.attrs[*b], c); if !old.is_null() { attr_destroy(old); } if c.is_null() { "failed".into() } else { "copied".into() } },
            Op::DropAttr(a) => { let p = live!(attrs, a); self.attrs[*a] = null_mut(); attr_destroy(p); "dropped".into() },
            Op::Speed(a, v) => {
                let a = live!(attrs, a);
                // does nothing for a long time
                if set_min_opacity(a, v.wrapping_mul(37)) != 0 || get_min_opacity(a) != 0 { return Some("liq_set_min_opacity or liq_get_min_opacity failed".into()); }
                err(set_speed(a, *v))
            },
            Op::MaxColors(a, v) => err(set_max_colors(live!(attrs, a), *v as c_int)),
            Op::Quality(a, m, t) => err(set_quality(live!(attrs, a), *m as c_int, *t as c_int)),
            Op::Post(a, v) => err(set_min_posterization(live!(attrs, a), *v)),
            Op::Last(a, v) => { set_last_index_transparent(live!(attrs, a), *v as c_int * 7); "ok".into() },
            Op::GetAttr(a) => { let a = live!(attrs, a); format!("{} {} {} {:?}", get_speed(a), get_max_colors(a), get_min_posterization(a), (get_min_quality(a), get_max_quality(a))) },
            Op::LogCb(a) => { let a = live!(attrs, a); let c = self.ctx(0); set_log_callback(a, Some(log_cb), c); set_log_flush_callback(a, Some(flush_cb), c); "ok".into() },
            Op::Progress(a, n) => { let a = live!(attrs, a); if *n == Some(crate::script::NO_CALLBACK) { attr_set_progress_callback(a, None, null_mut()); } else { let c = self.ctx(n.unwrap_or(0)); attr_set_progress_callback(a, Some(prog_cb), c); } "ok".into() },
            Op::NewImage { slot, attr, w, h, family, seed, src, gamma } => {
                let a = live!(attrs, attr);
                let px = pixels(*w, *h, *family, *seed);
                let stride = *w + 3;
                let padded = || { let mut v = Vec::with_capacity(stride * h); for row in px.chunks_exact(*w) { v.extend_from_slice(row); v.extend([rgba(1, 2, 3, 4); 3]); } v };
                let (cw, ch) = (*w as c_int, *h as c_int);
                let tag = tag();
                // the library probes the callback by reading its code, which Miri does not model
                let src = if cfg!(miri) && *src == Src::Callback { &Src::Borrowed } else { src };
                let i = match src {
                    Src::Owned => { // bitmap handed over
                        let p = c_alloc(&px, tag);
                        let i = image_create_rgba(a, p, cw, ch, *gamma);
                        if i.is_null() { c_free(p as _); } else { let e = image_set_memory_ownership(i, 8); if e != 0 { return Some(format!("ownership refused {e}")); } }
                        i
                    },
                    Src::OwnedStride => { // rows and pixels handed over
                        let v = padded();
                        let p = c_alloc(&v, tag);
                        let rows: Vec<*const RGBA> = (0..*h).map(|y| p.add(y * stride) as *const RGBA).collect();
                        let rp = c_alloc(&rows, tag);
                        let i = image_create_rgba_rows(a, rp, cw, ch, *gamma);
                        if i.is_null() { c_free(p as _); c_free(rp as _); } else {
                            let e = if *seed & 1 == 0 { image_set_memory_ownership(i, 12) } else { image_set_memory_ownership(i, 8).max(image_set_memory_ownership(i, 4)) };
                            if e != 0 { return Some(format!("ownership refused {e}")); }
                        }
                        i
                    },
                    Src::Borrowed => { let p = self.keep(px); image_create_rgba(a, p, cw, ch, *gamma) },
                    Src::BorrowedStride => {
                        let p = self.keep(padded());
                        self.ptrs.push((0..*h).map(|y| p.add(y * stride)).collect());
                        image_create_rgba_rows(a, self.ptrs.last().unwrap().as_ptr(), cw, ch, *gamma)
                    },
                    Src::Callback => {
                        self.rows.push(Box::new(RowCtx { px, w: *w, h: *h }));
                        image_create_custom(a, Some(row_cb), &**self.rows.last().unwrap() as *const RowCtx as *mut c_void, cw, ch, *gamma)
                    },
                };
                if i.is_null() { return Some("failed".into()); }
                let old = std::mem::replace(&mut self.images[*slot], i);
                if !old.is_null() { image_destroy(old); }
                "image".into()
            },
            Op::DropImage(i) => { let p = live!(images, i); self.images[*i] = null_mut(); image_destroy(p); "dropped".into() },
            Op::CloneImage(..) | Op::CloneRes(..) => return None,
            Op::ImgFixed(i, c) => err(image_add_fixed_color(live!(images, i), *c)),
            Op::Importance(i, seed, off) => {
                let im = live!(images, i);
                let n = (image_get_width(im) * image_get_height(im)) as usize;
                let n = if *off > 0 { n.saturating_sub(*off).max(1) } else { n };
                let mut m = importance(*seed, n);
                // a longer buffer is fine
                let n = if *off == 0 { n + (*seed >> 3) as usize % 3 * (n * 2 + 1) } else { n };
                m.resize(n, 0x99);
                if seed & 1 == 0 {
                    let p = c_alloc(&m, tag());
                    let e = image_set_importance_map(im, p, n, 8);
                    if e != 0 { c_free(p as _); }
                    err(e)
                } else {
                    let at = n % 4;
                    m.splice(0..0, vec![0x33; at]);
                    let e = image_set_importance_map(im, m.as_mut_ptr().add(at), n, 16);
                    m.fill(0x77);
                    err(e)
                }
            },
            Op::Background(i, j) => {
                if i == j { return None; }
                let p = live!(images, i);
                let b = live!(images, j);
                self.images[*j] = null_mut();
                err(image_set_background(p, b))
            },
            Op::GetImage(i) => { let i = live!(images, i); format!("{}x{}", image_get_width(i), image_get_height(i)) },
            Op::NewHist(h, a) => { let a = live!(attrs, a); let old = std::mem::replace(&mut self.hists[*h], histogram_create(a)); if !old.is_null() { histogram_destroy(old); } "hist".into() },
            Op::DropHist(h) => { let p = live!(hists, h); self.hists[*h] = null_mut(); histogram_destroy(p); "dropped".into() },
            Op::HistImage(h, a, i) => { let a = live!(attrs, a); let i = live!(images, i); err(histogram_add_image(live!(hists, h), a, i)) },
            Op::HistColors(h, a, cs, g) => {
                let a = live!(attrs, a);
                let h = live!(hists, h);
                let e: Vec<Entry> = cs.iter().map(|&(color, count)| Entry { color, count }).collect();
                err(histogram_add_colors(h, a, if e.is_empty() { null() } else { e.as_ptr() }, e.len() as c_int, *g))
            },
            Op::HistFixed(h, c, g) => err(histogram_add_fixed_color(live!(hists, h), *c, *g)),
            Op::Quantize(a, i, r) => {
                let (a, i) = (live!(attrs, a), live!(images, i));
                let mut o = 8 as *mut Res;
                if *r == 1 {
                    // the old function, which gives no error code
                    o = quantize_image(a, i);
                    if o.is_null() { return Some("no result".into()); }
                    return Some(self.stored(0, o, *r));
                }
                let e = image_quantize(i, a, &mut o);
                self.stored(e, o, *r)
            },
            Op::HistQuantize(a, h, r) => {
                let (a, h) = (live!(attrs, a), live!(hists, h));
                let mut o = 8 as *mut Res;
                let e = histogram_quantize(h, a, &mut o);
                self.stored(e, o, *r)
            },
            Op::Dither(r, v) => err(set_dithering_level(live!(res, r), *v)),
            Op::Gamma(r, v) => err(set_output_gamma(live!(res, r), *v)),
            Op::ResProgress(r, n) => { let r = live!(res, r); if *n == Some(crate::script::NO_CALLBACK) { result_set_progress_callback(r, None, null_mut()); } else { let c = self.ctx(n.unwrap_or(0)); result_set_progress_callback(r, Some(prog_cb), c); } "ok".into() },
            Op::DropRes(r) => { let p = live!(res, r); self.res[*r] = null_mut(); result_destroy(p); "dropped".into() },
            Op::GetRes(r) => { let r = live!(res, r); self.info(r) },
            Op::Palette(r) => { let p = palette(live!(res, r)); match p { None => "no palette".into(), Some(p) => format!("{} {:016x}", p.len(), hash_px(0, &p)) } },
            Op::Remap(r, i, way) => {
                let (q, im) = (live!(res, r), live!(images, i));
                let (w, h) = (image_get_width(im) as usize, image_get_height(im) as usize);
                let n = w * h;
                let (e, v) = match way {
                    0 => { // at any address
                    let at = (w + h) % 4;
                    let mut v = vec![0u8; n + at];
                    let e = write_remapped_image(q, im, v.as_mut_ptr().add(at), n);
                    v.drain(..at);
                    (e, v)
                },
                    1 | 4 => { // bottom-up rows with gaps
                        let stride = w + 5;
                        let mut v = vec![0xa5u8; stride * h];
                        let mut rows: Vec<*mut u8> = (0..h).map(|y| v.as_mut_ptr().add((h - 1 - y) * stride)).collect();
                        let e = write_remapped_image_rows(q, im, rows.as_mut_ptr());
                        for y in 0..h { if v[(h - 1 - y) * stride + w..][..5] != [0xa5; 5] { return Some("wrote outside the rows".into()); } }
                        (e, (0..h).flat_map(|y| v[(h - 1 - y) * stride..][..w].to_vec()).collect())
                    },
                    2 => { let mut v = vec![0xa5u8; n + 5]; let e = write_remapped_image(q, im, v.as_mut_ptr(), n + 5); if v[n..] != [0xa5; 5] { return Some("wrote outside the image".into()); } v.truncate(n); (e, v) },
                    _ => { let mut v = vec![0xa5u8; n]; let e = write_remapped_image(q, im, v.as_mut_ptr(), n - 1); if v.iter().any(|&b| b != 0xa5) { return Some("wrote to a buffer too small".into()); } (e, v) },
                };
                if e != 0 { return Some(err(e)); }
                let p = palette(q)?;
                format!("{} {:016x} {:016x} {}", p.len(), hash_px(0, &p), hash_bytes(0, &v), self.info(q))
            },
        }) }
    }
    unsafe fn stored(&mut self, e: c_int, o: *mut Res, r: usize) -> String {
        if e != 0 { if !o.is_null() { return format!("{} but the output is not NULL", err(e)); } return err(e); }
        if o.is_null() { return "ok but no result".into(); }
        let s = self.info(o);
        let old = std::mem::replace(&mut self.res[r], o);
        if !old.is_null() { result_destroy(old); }
        s
    }
    pub fn destroy_all(&mut self, mut order: impl FnMut(usize) -> usize) {
        unsafe {
            let mut todo: Vec<(u8, usize)> = vec![];
            for i in 0..NA { todo.push((0, i)); } for i in 0..NI { todo.push((1, i)); } for i in 0..NH { todo.push((2, i)); } for i in 0..NR { todo.push((3, i)); }
            while !todo.is_empty() {
                let (k, i) = todo.swap_remove(order(todo.len()));
                match k {
                    0 => attr_destroy(std::mem::replace(&mut self.attrs[i], null_mut())),
                    1 => image_destroy(std::mem::replace(&mut self.images[i], null_mut())),
                    2 => histogram_destroy(std::mem::replace(&mut self.hists[i], null_mut())),
                    _ => result_destroy(std::mem::replace(&mut self.res[i], null_mut())),
                }
            }
        }
    }
    /// pixels whose ownership was not passed are not modified
    pub fn unmodified(&self) -> bool {
        self.copies.iter().all(|(p, c)| unsafe { std::slice::from_raw_parts(*p, c.len()) } == &c[..])
    }
}

pub fn run_c(ops: &[Op]) -> Result<Vec<String>, String> {
    let mut b = C::new();
    let mut out = Vec::new();
    for o in ops { if let Some(s) = b.exec(o) { out.push(format!("{}: {s}", crate::script::name(o))); } }
    unsafe { for a in b.attrs.iter_mut() { attr_destroy(std::mem::replace(a, null_mut())); } }
    { let l = b.log.lock().unwrap(); out.push(format!("log {} lines {:016x}", l.len(), hash_bytes(0, l.join("\n").as_bytes()))); }
    let mut k = 0;
    b.destroy_all(|n| { k = k * 31 + 7; k % n });
    if !b.unmodified() { return Err("pixels supplied by the caller were modified".into()); }
    Ok(out)
}
