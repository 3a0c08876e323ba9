PROPERTY = 'C04'
NEEDS = 'a low quality target with more fixed colours than the palette would have, and a remap that refines the palette'
BREAKS = 'fixed colours that had to be added to a too small palette are not marked as fixed, so refining the palette moves them'
EDITS = [('src/pal.rs', '        Self(if self.0 > 0. { -self.0 } else { -1. })', '        Self(-self.0)')]
DEMO = r'''
use imagequant::*;
fn main() {
    for q in [0u8, 1, 5, 20, 50, 80] {
        for speed in [1, 4, 7, 10] {
            for level in [0., 1.] {
                let mut a = Attributes::new();
                a.set_quality(0, q).unwrap();
                a.set_speed(speed).unwrap();
                let px: Vec<RGBA> = (0..400u32).map(|i| RGBA::new((i / 4) as u8, 100, 100 + (i % 3) as u8, 255)).collect();
                let mut img = a.new_image(px, 20, 20, 0.).unwrap();
                let fixed: Vec<RGBA> = (0..20u8).map(|i| RGBA::new(i * 5 + 1, 101, 99, 255)).collect();
                for f in &fixed { img.add_fixed_color(*f).unwrap(); }
                let mut r = a.quantize(&mut img).unwrap();
                r.set_dithering_level(level).unwrap();
                let (pal, _) = r.remapped(&mut img).unwrap();
                for f in &fixed {
                    if !pal.contains(f) { println!("q{q} speed {speed} level {level}: no {f:?} in {pal:?}"); std::process::exit(1); }
                }
            }
        }
    }
}
'''
