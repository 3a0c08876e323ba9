PROPERTY = 'C10'
NEEDS = 'posterization of 1 to 3 bits'
BREAKS = 'the low bits are filled from wrong high bits, so that the colours are not levels of the posterized scale'
EDITS = [('src/pal.rs', '(color & !((1 << bits) - 1)) | (color >> (8 - bits))', '(color & !((1 << bits) - 1)) | ((color >> 4) & ((1 << bits) - 1))')]
DEMO = r'''
use imagequant::*;
fn main() {
    for bits in 1..=4u8 {
        let mut a = Attributes::new();
        a.set_min_posterization(bits).unwrap();
        let px: Vec<RGBA> = (0..256u32).map(|i| RGBA::new(i as u8, (i * 3) as u8, (i / 2) as u8, 255)).collect();
        let mut img = a.new_image(px, 16, 16, 0.).unwrap();
        let mut r = a.quantize(&mut img).unwrap();
        for c in r.palette() {
            for v in [c.r, c.g, c.b] {
                let top = v >> bits << bits;
                if v != top | (top >> (8 - bits)) { println!("{bits} bits: {v}"); std::process::exit(1); }
            }
        }
    }
}
'''
