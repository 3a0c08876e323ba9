//! Independent f64 model of the perceptual colour space, used by the oracles.
use imagequant::RGBA;

pub const SRGB: f64 = 0.45455;
pub type F = [f64; 4]; // a r g b

pub struct Lut([f64; 256]);
impl Lut {
    pub fn new(gamma: f64) -> Self {
        let g = if gamma > 0. { gamma } else { SRGB };
        let mut t = [0.; 256];
        for (i, t) in t.iter_mut().enumerate() { *t = (i as f64 / 255.).powf(0.57 / g); }
        Lut(t)
    }
    #[inline]
    pub fn f(&self, p: RGBA) -> F {
        let a = p.a as f64 / 255.;
        [a * 0.625, self.0[p.r as usize] * 0.5 * a, self.0[p.g as usize] * a, self.0[p.b as usize] * 0.45 * a]
    }
    pub fn all(&self, p: &[RGBA]) -> Vec<F> { p.iter().map(|&p| self.f(p)).collect() }
}

#[inline]
pub fn diff(x: &F, y: &F) -> f64 {
    let al = y[0] - x[0];
    let mut s = 0.;
    for i in 1..4 {
        let b = x[i] - y[i];
        let w = b + al;
        s += (b * b).max(w * w);
    }
    s
}

pub fn nearest(px: &F, pal: &[F]) -> (usize, f64) {
    let mut best = (0, f64::MAX);
    for (i, p) in pal.iter().enumerate() {
        let d = diff(px, p);
        if d < best.1 { best = (i, d); }
    }
    best
}

pub fn std_mse(m: f64) -> f64 { m * 65536. / 6. / 0.45 }

pub fn quality_to_mse(q: u8) -> f64 {
    if q == 0 { return 1e20; }
    if q >= 100 { return 0.; }
    let q = q as f64;
    let fudge = (0.016 / (0.001 + q) - 0.001).max(0.);
    0.45 * (fudge + 2.5 / (210. + q).powf(1.2) * (100.1 - q) / 100.)
}
pub fn mse_to_quality(m: f64) -> u8 {
    for i in (1..=100).rev() { if m <= quality_to_mse(i) + 1e-6 { return i; } }
    0
}

/// mean nearest-colour error of the palette on these pixels
pub fn palette_error(px: &[F], pal: &[F]) -> f64 {
    px.iter().map(|p| nearest(p, pal).1).sum::<f64>() / px.len() as f64
}

/// one round of averaging: every palette colour becomes the mean of the colours nearest to it
pub fn lloyd(px: &[F], pal: &[F]) -> Vec<F> {
    let mut sum = vec![([0f64; 4], 0usize); pal.len()];
    for p in px { let s = &mut sum[nearest(p, pal).0]; for k in 0..4 { s.0[k] += p[k]; } s.1 += 1; }
    sum.iter().zip(pal).map(|(s, p)| if s.1 == 0 { *p } else { [s.0[0] / s.1 as f64, s.0[1] / s.1 as f64, s.0[2] / s.1 as f64, s.0[3] / s.1 as f64] }).collect()
}
