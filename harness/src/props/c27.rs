//! Log messages and flushes: an online checker of the event trace of all callbacks, against a model of
//! which callback is installed where.
use super::*;
use crate::rng::Rng;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
enum Ev { Log { cb: u32, obj: usize, msg: String, info: String }, Flush { cb: u32, obj: usize, info: String } }
type Trace = Arc<Mutex<Vec<Ev>>>;

fn info(a: &Attributes) -> String { format!("{} {} {:?} {}", a.speed(), a.max_colors(), a.quality(), a.min_posterization()) }

/// one settings object behind either API
trait Api {
    type A;
    type I;
    type H;
    fn new(&self) -> Self::A;
    fn copy(&self, a: &Self::A) -> Self::A;
    fn drop(&self, a: Self::A);
    fn addr(&self, a: &Self::A) -> usize;
    fn info(&self, a: &Self::A) -> String;
    fn log(&mut self, a: &mut Self::A, id: Option<u32>, t: &Trace);
    fn flush(&mut self, a: &mut Self::A, id: Option<u32>, t: &Trace);
    fn set(&self, a: &mut Self::A, k: usize, v: i32) -> bool;
    fn quality(&self, a: &mut Self::A, lo: u8, hi: u8) -> bool;
    fn bad_image(&self, a: &Self::A);
    /// quantize an image, directly or by way of a histogram; digest of what came out
    fn quantize(&mut self, a: &mut Self::A, px: &[RGBA], w: usize, h: usize, hist: bool, remap: bool) -> String;
}

struct RustApi;
impl Api for RustApi {
    type A = Box<Attributes>;
    type I = ();
    type H = ();
    fn new(&self) -> Self::A { Box::new(Attributes::new()) }
    fn copy(&self, a: &Self::A) -> Self::A { a.clone() }
    fn drop(&self, a: Self::A) { drop(a) }
    fn addr(&self, a: &Self::A) -> usize { &**a as *const _ as usize }
    fn info(&self, a: &Self::A) -> String { info(a) }
    fn log(&mut self, a: &mut Self::A, id: Option<u32>, t: &Trace) {
        let t = t.clone();
        match id {
            Some(cb) => a.set_log_callback(move |at, m| { let e = Ev::Log { cb, obj: at as *const _ as usize, msg: m.to_string(), info: info(at) }; t.lock().unwrap().push(e); }),
            None => a.set_log_callback(|_, _| {}),
        }
    }
    fn flush(&mut self, a: &mut Self::A, id: Option<u32>, t: &Trace) {
        let t = t.clone();
        match id {
            Some(cb) => a.set_log_flush_callback(move |at| { let e = Ev::Flush { cb, obj: at as *const _ as usize, info: info(at) }; t.lock().unwrap().push(e); }),
            None => a.set_log_flush_callback(|_| {}),
        }
    }
    fn set(&self, a: &mut Self::A, k: usize, v: i32) -> bool {
        match k { 0 => a.set_speed(v).is_ok(), 1 => a.set_max_colors(v as u32).is_ok(), _ => a.set_min_posterization(v as u8).is_ok() }
    }
    fn quality(&self, a: &mut Self::A, lo: u8, hi: u8) -> bool { a.set_quality(lo, hi).is_ok() }
    fn bad_image(&self, a: &Self::A) {
        let _ = a.new_image(vec![rgba(1, 2, 3, 4)], 1, 1, 1.5);
        let _ = a.new_image(vec![rgba(1, 2, 3, 4)], 2, 7, 0.);
    }
    fn quantize(&mut self, a: &mut Self::A, px: &[RGBA], w: usize, h: usize, hist: bool, remap: bool) -> String {
        let Ok(mut i) = a.new_image_borrowed(px, w, h, 0.) else { return "image".into() };
        let r = if hist { let mut hi = Histogram::new(a); if let Err(e) = hi.add_image(a, &mut i) { return format!("add {e:?}"); } hi.quantize(a) } else { a.quantize(&mut i) };
        match r {
            Ok(mut q) => { let pal = q.palette_vec(); let o = if remap { q.remapped(&mut i).map(|x| hash_bytes(1, &x.1)).unwrap_or(0) } else { 0 }; format!("{:x} {o:x} {:?}", hash_px(0, &pal), q.quantization_error()) },
            Err(e) => format!("{e:?}"),
        }
    }
}

#[cfg(feature = "capi")]
mod c {
    use super::*;
    use crate::capi::*;
    use std::ffi::{c_char, c_void, CStr};
    pub struct CApi { pub ctx: Vec<Box<Ctx>> }
    pub struct Ctx { cb: u32, t: Trace }
    unsafe fn cinfo(a: *const Attr) -> String { format!("{} {} {} {} {}", get_speed(a), get_max_colors(a), get_min_quality(a), get_max_quality(a), get_min_posterization(a)) }
    unsafe extern "C" fn log(a: *const Attr, m: *const c_char, u: *mut c_void) {
        let c = &*(u as *const Ctx);
        let e = Ev::Log { cb: c.cb, obj: a as usize, msg: String::from_utf8(CStr::from_ptr(m).to_bytes().to_vec()).unwrap_or_else(|_| "\n(invalid UTF-8)".into()), info: cinfo(a) };
        c.t.lock().unwrap().push(e);
    }
    unsafe extern "C" fn flush(a: *const Attr, u: *mut c_void) {
        let c = &*(u as *const Ctx);
        let e = Ev::Flush { cb: c.cb, obj: a as usize, info: cinfo(a) };
        c.t.lock().unwrap().push(e);
    }
    impl CApi {
        fn ctx(&mut self, cb: u32, t: &Trace) -> *mut c_void { self.ctx.push(Box::new(Ctx { cb, t: t.clone() })); &**self.ctx.last().unwrap() as *const Ctx as *mut c_void }
    }
    impl Api for CApi {
        type A = *mut Attr;
        type I = ();
        type H = ();
        fn new(&self) -> Self::A { unsafe { attr_create() } }
        fn copy(&self, a: &Self::A) -> Self::A { unsafe { attr_copy(*a) } }
        fn drop(&self, a: Self::A) { unsafe { attr_destroy(a) } }
        fn addr(&self, a: &Self::A) -> usize { *a as usize }
        fn info(&self, a: &Self::A) -> String { unsafe { cinfo(*a) } }
        fn log(&mut self, a: &mut Self::A, id: Option<u32>, t: &Trace) {
            match id { Some(cb) => { let u = self.ctx(cb, t); unsafe { set_log_callback(*a, Some(log), u) } }, None => unsafe { set_log_callback(*a, None, std::ptr::null_mut()) } }
        }
        fn flush(&mut self, a: &mut Self::A, id: Option<u32>, t: &Trace) {
            match id { Some(cb) => { let u = self.ctx(cb, t); unsafe { set_log_flush_callback(*a, Some(flush), u) } }, None => unsafe { set_log_flush_callback(*a, None, std::ptr::null_mut()) } }
        }
        fn set(&self, a: &mut Self::A, k: usize, v: i32) -> bool {
            unsafe { (match k { 0 => set_speed(*a, v), 1 => set_max_colors(*a, v), _ => set_min_posterization(*a, v) }) == 0 }
        }
        fn quality(&self, a: &mut Self::A, lo: u8, hi: u8) -> bool { unsafe { set_quality(*a, lo as _, hi as _) == 0 } }
        fn bad_image(&self, a: &Self::A) {
            let p = [rgba(1, 2, 3, 4)];
            unsafe { let i = image_create_rgba(*a, p.as_ptr(), 1, 1, 1.5); if !i.is_null() { image_destroy(i); } }
        }
        fn quantize(&mut self, a: &mut Self::A, px: &[RGBA], w: usize, h: usize, hist: bool, remap: bool) -> String {
            unsafe {
                let i = image_create_rgba(*a, px.as_ptr(), w as _, h as _, 0.);
                if i.is_null() { return "image".into(); }
                let mut res = std::ptr::null_mut();
                let e = if hist {
                    let hi = histogram_create(*a);
                    let e = histogram_add_image(hi, *a, i);
                    let e = if e != 0 { e } else { histogram_quantize(hi, *a, &mut res) };
                    histogram_destroy(hi);
                    e
                } else if w % 3 == 0 { res = quantize_image(*a, i); if res.is_null() { 99 } else { 0 } } else { image_quantize(i, *a, &mut res) };
                let s = if e != 0 { err(e) } else {
                    let pal = palette(res).unwrap_or_default();
                    let o = if remap { let mut b = vec![0u8; w * h]; if write_remapped_image(res, i, b.as_mut_ptr(), b.len()) == 0 { hash_bytes(1, &b) } else { 0 } } else { 0 };
                    let s = format!("{:x} {o:x} {}", hash_px(0, &pal), get_quantization_error(res));
                    result_destroy(res);
                    s
                };
                image_destroy(i);
                s
            }
        }
    }
}

struct M { log: Option<u32>, flush: Option<u32>, pending: Vec<String> }

/// one history on one world, checked as it goes. `plain`: the same history with one recorder that stays installed (Some)
/// or no callbacks at all (None); its outcomes and messages are the reference.
fn history<B: Api>(b: &mut B, r: &mut Rng, c: &mut Option<&mut Case>, mode: u8) -> Result<(Vec<String>, Vec<(bool, Vec<String>)>), String> {
    let t: Trace = Default::default();
    let mut objs: Vec<Option<(B::A, M)>> = vec![];
    let mut outs = vec![];
    let mut msgs: Vec<(bool, Vec<String>)> = vec![];
    let mut next = 1u32;
    let mut first = b.new();
    if mode == 1 { b.log(&mut first, Some(0), &t); }
    objs.push(Some((first, M { log: None, flush: None, pending: vec![] })));
    b.set(&mut objs[0].as_mut().unwrap().0, 0, r.range(4, 10) as i32);
    t.lock().unwrap().clear();
    let n = r.range(3, 14);
    for step in 0..=n {
        let live: Vec<usize> = (0..objs.len()).filter(|&i| objs[i].is_some()).collect();
        let k = if live.is_empty() { break } else { live[r.below(live.len())] };
        let op = if step == n { 99 } else { r.below(12) };
        let seed = r.u64();
        let mut rr = Rng::new(seed);
        // (object, is a flush due first / allowed)
        let what;
        let mut replaced_log = false;
        let mut flush_due = false;
        let (addr, old, before) = { let (a, m) = objs[k].as_ref().unwrap(); (b.addr(a), (m.log, m.flush), b.info(a)) };
        let mut quantized = None;
        let mut setinfo = None;
        match op {
            0 | 1 | 2 => {
                what = "set log callback";
                let id = if rr.chance(0.1) { None } else { next += 1; Some(next) };
                let (a, m) = objs[k].as_mut().unwrap();
                if mode == 0 { b.log(a, id, &t); m.log = id; }
                flush_due = true; replaced_log = true;
            },
            3 | 4 => {
                what = "set flush callback";
                let id = if rr.chance(0.1) { None } else { next += 1; Some(next) };
                let (a, m) = objs[k].as_mut().unwrap();
                if mode == 0 { b.flush(a, id, &t); m.flush = id; }
                flush_due = true;
            },
            5 => {
                what = "copy";
                let (a, m) = objs[k].as_ref().unwrap();
                let x = (b.copy(a), M { log: m.log, flush: m.flush, pending: vec![] });
                objs.push(Some(x));
            },
            6 => {
                what = "destroy";
                let (a, _) = objs[k].take().unwrap();
                b.drop(a);
                flush_due = true; replaced_log = true;
            },
            7 => {
                what = "set quality";
                let hi = rr.below(101) as u8; let lo = if rr.chance(0.7) { 0 } else { rr.below(hi as usize + 1) as u8 };
                let a = &mut objs[k].as_mut().unwrap().0;
                outs.push(format!("{}", b.quality(a, lo, hi)));
                setinfo = Some(b.info(a));
            },
            8 => {
                what = "setting and refused images";
                let a = &mut objs[k].as_mut().unwrap().0;
                let s = rr.below(3);
                let v = match s { 0 => rr.range(3, 11) as i32, 1 => rr.range(1, 260) as i32, _ => rr.range(0, 6) as i32 };
                outs.push(format!("{}", b.set(a, s, v)));
                b.bad_image(a);
                setinfo = Some(b.info(a));
            },
            99 => {
                // in random order, each checked below on its own
                let mut l = live.clone();
                rr.shuffle(&mut l);
                for j in l {
                    let (a, m) = objs[j].take().unwrap();
                    let addr = b.addr(&a);
                    let before = b.info(&a);
                    t.lock().unwrap().clear();
                    b.drop(a);
                    let ev = t.lock().unwrap().clone();
                    check(&ev, "destroy", addr, (m.log, m.flush), true, true, &m.pending, None, &before).map_err(|e| format!("step {step} destroying object {j}: {e}"))?;
                    if let Some(c) = c { if m.flush.is_some() { c.hit("flush on destroy"); if !m.pending.is_empty() { c.hit("flush on destroy with messages pending"); } } }
                }
                break;
            },
            _ => {
                what = "quantize";
                let (w, h) = (rr.range(1, 14), rr.range(1, 14));
                let px = { let f = rr.below(FAMILIES.len()); image(&mut rr, w, h, f) };
                let a = &mut objs[k].as_mut().unwrap().0;
                let (hi, re) = (rr.chance(0.3), rr.chance(0.5));
                let o = b.quantize(a, &px, w, h, hi, re);
                quantized = Some(o.clone());
                outs.push(o);
                setinfo = Some(b.info(a));
            },
        }
        let ev: Vec<Ev> = std::mem::take(&mut t.lock().unwrap());
        msgs.push((old.0.is_some(), ev.iter().filter_map(|e| match e { Ev::Log { msg, .. } => Some(msg.clone()), _ => None }).collect()));
        if mode != 0 { continue; }
        let pend = objs[k].as_ref().map(|o| o.1.pending.clone()).unwrap_or_default();
        check(&ev, what, addr, old, flush_due, replaced_log, &pend, setinfo.as_deref(), &before).map_err(|e| format!("step {step} {what} on object {k} of {}: {e}", objs.len()))?;
        if let Some(q) = &quantized {
            let nlog = ev.iter().filter(|e| matches!(e, Ev::Log { .. })).count();
            if old.0.is_some() && !q.starts_with("image") && !q.starts_with("add") && !q.starts_with("Unsupported") && nlog == 0 { return Err(format!("step {step}: no message about a quantization ({q}) with a log callback installed")); }
        }
        if let Some(m) = objs[k].as_mut() {
            for e in &ev { match e { Ev::Log { msg, .. } => m.1.pending.push(msg.clone()), Ev::Flush { .. } => m.1.pending.clear() } }
        }
        if let Some(c) = c {
            for e in &ev { c.hit(match e { Ev::Log { .. } => "messages", Ev::Flush { .. } => "flushes" }); }
            if flush_due && old.1.is_some() { c.hit(&format!("flush due on {what}")); }
        }
    }
    Ok((outs, msgs))
}

fn check(ev: &[Ev], what: &str, addr: usize, (log, flush): (Option<u32>, Option<u32>), flush_due: bool, no_log: bool, pending: &[String], settings: Option<&str>, before: &str) -> R {
    for e in ev {
        match e {
            Ev::Log { cb, obj, msg, info } => {
                if Some(*cb) != log { return Err(format!("callback {cb} got {msg:?}, but the one installed is {log:?}")); }
                if *obj != addr { return Err(format!("message {msg:?} passed with an object at {obj:#x}, not the settings object {addr:#x}")); }
                if msg.trim().is_empty() || msg.contains(|c: char| c == '\n' || c == '\r' || c == '\0') { return Err(format!("message is not one line of text: {msg:?}")); }
                if no_log { return Err(format!("{what} caused message {msg:?}")); }
                if what == "quantize" { if let Some(s) = settings { if info != s { return Err(format!("settings read in the log callback are {info}, not {s}")); } } }
            },
            Ev::Flush { cb, obj, info } => {
                if Some(*cb) != flush { return Err(format!("flush callback {cb} called, but the one installed is {flush:?}")); }
                if *obj != addr { return Err(format!("flush passed an object at {obj:#x}, not the settings object {addr:#x}")); }
                if flush_due && info != before { return Err(format!("settings passed to the flush callback read {info}, not {before}")); }
            },
        }
    }
    if flush_due && flush.is_some() && (log.is_some() || !pending.is_empty()) && !matches!(ev.last(), Some(Ev::Flush { .. })) {
        return Err(format!("{what} did not call the flush callback ({} messages since the last flush)", pending.len()));
    }
    Ok(())
}

fn world<B: Api>(c: &mut Case, mut mk: impl FnMut() -> B) -> R {
    let r0 = c.rng.clone();
    let (o, m) = history(&mut mk(), &mut r0.clone(), &mut Some(c), 0)?;
    let (o1, m1) = history(&mut mk(), &mut r0.clone(), &mut None, 1)?;
    let (o2, _) = history(&mut mk(), &mut r0.clone(), &mut None, 2)?;
    if o.len() != o1.len() || o.len() != o2.len() { return Err("the histories have different lengths".into()); }
    let exact = !cfg!(feature = "mt");
    if exact && (o != o2 || o != o1) { return Err(format!("callbacks changed the output: {o:?}, with one callback {o1:?}, without {o2:?}")); }
    // every message: what the callback got in each step is what a callback that always stays gets, or nothing if none was installed
    if exact { for (i, ((on, a), (_, b))) in m.iter().zip(&m1).enumerate() { if *on && a != b { return Err(format!("step {i}: messages {a:?}, in another run with the same calls {b:?}")); } } }
    let mut d = 0;
    for s in o.iter().chain(m.iter().flat_map(|x| &x.1)) { d = hash_bytes(d, s.as_bytes()); }
    c.distinct(d);
    Ok(())
}

pub fn run(x: &Ctx) {
    x.cases("rust", x.n(25000, 600000), |c| world(c, || RustApi));
    #[cfg(feature = "capi")]
    x.cases("c", x.n(25000, 600000), |c| world(c, || c::CApi { ctx: vec![] }));
}
