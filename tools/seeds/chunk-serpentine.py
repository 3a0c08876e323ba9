PROPERTY = 'C22'
FEATURES = ['threads']
NEEDS = 'an image split in parts for dithering (over 128 rows, several threads) with a part that starts at an odd row'
BREAKS = 'the direction of dithering restarts in every part, so the error carried over from the rows above is thrown away at the seam'
EDITS = [('src/remap.rs', '''                    let scan_forward = row & 1 == 0;
                    dither_row(row_pixels, output_pixels_row,''', '''                    let scan_forward = chunk_row & 1 == 0;
                    dither_row(row_pixels, output_pixels_row,''')]
DEMO = r'''
use imagequant::*;
fn run(start: usize, hh: usize) -> Vec<u8> {
    let mut a = Attributes::new();
    a.set_speed(8).unwrap();
    let mut h = Histogram::new(&a);
    for v in [100u8, 140] { h.add_fixed_color(RGBA::new(v, v, v, 255), 0.).unwrap(); }
    let mut r = h.quantize(&a).unwrap();
    let w = 64;
    let px: Vec<RGBA> = (0..w * hh).map(|i| { let v = if i / w < start { 100 } else { 101 + (i % w / 2) as u8 }; RGBA::new(v, v, v, 255) }).collect();
    let mut img = a.new_image(px, w, hh, 0.).unwrap();
    r.remapped(&mut img).unwrap().1
}
fn main() {
    // there's nothing to dither above the gradient, so it makes no difference how far down it begins
    let low = run(129, 262);
    let high = run(1, 100);
    if low[129 * 64..180 * 64] != high[64..52 * 64] { println!("the same area is dithered differently"); std::process::exit(1); }
}
'''
