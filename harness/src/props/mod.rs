use crate::gen::*;
use crate::run::*;
use imagequant::*;

mod c01; mod c02; mod c03; mod c04; mod c05; mod c06; mod c07; mod c08; mod c09; mod c10; mod c11; mod c12; mod c13; mod c14; mod c15; mod c16; #[cfg(not(miri))] mod c17; mod c18; mod c19; mod c22; mod c23; mod c24; mod c25; mod c26; mod c27;
#[cfg(feature = "capi")]
mod c20;
#[cfg(all(feature = "capi", not(miri)))]
mod c21;
#[cfg(feature = "capi")]
mod c28;

pub fn run(p: &str, x: &Ctx, args: &[String]) -> bool {
    match p {
        "c08-child" => std::process::exit(if c08::child(args) { 0 } else { 3 }),
        "c01" => c01::run(x),
        "c02" => c02::run(x),
        "c03" => c03::run(x),
        "c04" => c04::run(x),
        "c05" => c05::run(x),
        "c06" => c06::run(x),
        "c07" => c07::run(x),
        "c08" => c08::run(x),
        "c09" => c09::run(x),
        "c12" => c12::run(x),
        "c13" => c13::run(x),
        "c14" => c14::run(x),
        "c15" => c15::run(x),
        "c16" => c16::run(x),
        #[cfg(not(miri))]
        "c17" => c17::run(x),
        "c18" => c18::run(x),
        "c19" => c19::run(x),
        "c19-ref" => std::process::exit(if c19::child(args) { 0 } else { 3 }),
        "c22" => c22::run(x),
        "c23" => c23::run(x),
        "c24" => c24::run(x),
        "c25" => c25::run(x),
        "c26" => c26::run(x),
        "c27" => c27::run(x),
        "c24-ref" => std::process::exit(if c24::child(args) { 0 } else { 3 }),
        #[cfg(feature = "capi")]
        "c20" => c20::run(x),
        #[cfg(all(feature = "capi", not(miri)))]
        "c21" => c21::run(x),
        #[cfg(all(feature = "capi", not(miri)))]
        "c21-child" => { c21::child(args); std::process::exit(0) },
        #[cfg(feature = "capi")]
        "c28" => c28::run(x),
        "c10" => c10::run(x),
        "c11" => c11::run(x),
        _ => return false,
    }
    true
}

/// Outcome of a full quantize + remap run
pub struct Out {
    pub pal: Vec<RGBA>,
    pub idx: Vec<u8>,
    pub qerr: Option<f64>,
    pub qq: Option<u8>,
    pub rerr: Option<f64>,
    pub rq: Option<u8>,
}

impl Out {
    pub fn digest(&self) -> u64 {
        let mut h = hash_px(1, &self.pal);
        h = hash_bytes(h, &self.idx);
        for e in [self.qerr, self.rerr] { h = hash_bytes(h, &e.unwrap_or(-1.).to_bits().to_le_bytes()); }
        h
    }
}

/// Err(Ok(e)): the library reported e. Err(Err(s)): contract broken on the way.
pub fn quant_remap(cfg: &Cfg, p: &Pix) -> Result<Out, Result<Error, String>> {
    let a = cfg.attr().map_err(Err)?;
    let mut img = make_image(cfg, &a, p).map_err(Err)?;
    let mut r = a.quantize(&mut img).map_err(Ok)?;
    if let Some(d) = cfg.dither { r.set_dithering_level(d).map_err(|e| Err(format!("dither level refused {e:?}")))?; }
    remap_out(&mut r, &mut img)
}

pub fn remap_out(r: &mut QuantizationResult, img: &mut Image) -> Result<Out, Result<Error, String>> {
    let (pal, idx) = r.remapped(img).map_err(Ok)?;
    Ok(Out { pal, idx, qerr: r.quantization_error(), qq: r.quantization_quality(), rerr: r.remapping_error(), rq: r.remapping_quality() })
}

/// Without a minimum quality nothing may fail; with one, only QualityTooLow may.
pub fn expected_failure(cfg: &Cfg, e: Result<Error, String>) -> Result<(), String> {
    match e {
        Ok(Error::QualityTooLow) if cfg.quality.map_or(false, |q| q.0 > 0) => Ok(()),
        Ok(e) => Err(format!("valid operation failed with {e:?}")),
        Err(s) => Err(s),
    }
}

pub fn check_indices(pal: &[RGBA], idx: &[u8], cfg: &Cfg) -> R {
    if idx.len() != cfg.w * cfg.h { return Err(format!("{} indices for {}x{} pixels", idx.len(), cfg.w, cfg.h)); }
    let limit = if cfg!(feature = "large") && cfg.max_colors > 256 { 2048 } else { 256.min(cfg.max_colors as usize) };
    if pal.is_empty() || pal.len() > limit { return Err(format!("palette of {} colours with a maximum of {}", pal.len(), cfg.max_colors)); }
    if let Some(p) = idx.iter().position(|&i| i as usize >= pal.len()) {
        return Err(format!("pixel {},{} has index {} but the palette has {} colours", p % cfg.w, p / cfg.w, idx[p], pal.len()));
    }
    Ok(())
}

/// a result whose palette is exactly the given colours (in unspecified order), with frozen entries
pub fn dictated(colors: &[RGBA], speed: i32, gamma: f64) -> Result<QuantizationResult, String> {
    let mut a = Attributes::new();
    a.set_speed(speed).map_err(|e| format!("{e:?}"))?;
    let mut h = Histogram::new(&a);
    for &c in colors { h.add_fixed_color(c, gamma).map_err(|e| format!("fixed colour refused {e:?}"))?; }
    h.quantize(&a).map_err(|e| format!("histogram of fixed colours refused {e:?}"))
}
