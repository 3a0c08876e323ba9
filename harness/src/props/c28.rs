//! The same program through the C functions and the Rust API.
use super::*;
use crate::capi;
use crate::script::*;

pub fn run(x: &Ctx) {
    x.cases("programs", x.n(2500, 60000), |c| {
        let r = &mut c.rng.clone();
        let o = Opt { max_side: r.pick(&[8, 24, 40]), hostile: true, clones: false, min_speed: r.pick(&[1, 3, 5]), sources: true };
        let n = r.range(12, 50);
        let ops: Vec<Op> = generate(r, n, &o).into_iter().filter(|o| !matches!(o, Op::HistColors(_, _, v, _) if v.is_empty())).collect();
        let mut rs = Rust::new();
        let mut cs = capi::C::new();
        capi::set_tag(1 + c.idx);
        for (k, op) in ops.iter().enumerate() {
            let mut a = rs.exec(op);
            if matches!(op, Op::NewImage { .. }) && a.as_deref().map_or(false, |s| s != "image") { a = Some("failed".into()); }
            let b = cs.exec(op);
            let failed = b.as_deref() == Some("no result") && a.as_deref().map_or(false, |s| !s.contains(' '));
            if failed { c.hit("no result"); }
            if a != b && !failed { return Err(format!("operation {k} {} gives {a:?} in Rust and {b:?} in C; before it: {:?}", name(op), ops[..k].iter().rev().take(6).map(name).collect::<Vec<_>>())); }
            c.hit(match (op, a.as_deref()) { (Op::Remap(..), Some(s)) if s.len() > 30 => "remapped", (Op::Quantize(..) | Op::HistQuantize(..), Some(s)) if s.contains(' ') => "quantized", (_, Some("ok")) => "ok", (_, Some(s)) if s.ends_with("Range") || s.ends_with("Small") || s.ends_with("Low") || s.ends_with("Aborted") || s == "Unsupported" || s == "failed" => "refused", (_, Some(_)) => "other", _ => "skipped" });
            if *rs.calls.lock().unwrap() != *cs.calls.lock().unwrap() { return Err(format!("{}: progress values differ", name(op))); }
            if *rs.log.lock().unwrap() != *cs.log.lock().unwrap() { return Err(format!("{}: log messages differ", name(op))); }
        }
        c.desc(format!("{} operations", ops.len()));
        c.distinct(hash_bytes(0, format!("{ops:?}").as_bytes()));
        rs.attrs.clear();
        let s = r.u64();
        let mut k = s;
        cs.destroy_all(|n| { k = k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (k >> 33) as usize % n });
        if rs.log.lock().unwrap().len() != cs.log.lock().unwrap().len() { return Err("flush at destruction differs".into()); }
        if !cs.unmodified() { return Err("pixels of the caller were modified".into()); }
        capi::faults(1 + c.idx)
    });
    #[cfg(not(miri))]
    x.cases("layout", 1, |c| {
        let want: [i64; 24] = [4, 0, 1, 2, 3, 1028, 0, 4, 4, 8, 0, 4, 0, 99, 100, 101, 102, 103, 104, 105, 106, 4, 8, 16];
        let got = capi::layout();
        if got[..24] != want { return Err(format!("structures or constants of the header changed: {got:?}")); }
        let v = unsafe { capi::version() };
        if (v as i64) < got[24] { return Err(format!("liq_version() is {v}, the header says {}", got[24])); }
        let a = unsafe { capi::attr_create() };
        let o = unsafe { (capi::set_min_opacity(a, 5), capi::get_min_opacity(a)) };
        unsafe { capi::attr_destroy(a); }
        if o != (0, 0) { return Err("min_opacity".into()); }
        c.distinct(1);
        Ok(())
    });
}
