PROPERTY = 'C09'
NEEDS = 'an image of more than 4.19 million pixels that is converted row by row while remapping (contrast maps not made), with a gamma other than sRGB'
BREAKS = 'rows that are converted on the fly are converted with sRGB gamma rather than the gamma of the image'
EDITS = [('src/rows.rs', '''            let lut = gamma_lut(self.px.gamma);
            let row_pixels = self.px.row_rgba(temp_row, row);

            DynamicRows::convert_row_to_f(temp_row_f, row_pixels, &lut)''', '''            let lut = gamma_lut(0.45455);
            let row_pixels = self.px.row_rgba(temp_row, row);

            DynamicRows::convert_row_to_f(temp_row_f, row_pixels, &lut)''')]
DEMO = r'''
use imagequant::*;
fn main() {
    let mut a = Attributes::new();
    a.set_speed(10).unwrap();
    let w = 2100usize;
    let px = |n: usize| -> Vec<RGBA> { (0..n).map(|i| { let v = ((i % w) / 9) as u8; RGBA::new(v, v, v, 255) }).collect() };
    let mut h = Histogram::new(&a);
    for v in [0u8, 60, 120, 180, 255] { h.add_fixed_color(RGBA::new(v, v, v, 255), 0.9).unwrap(); }
    let mut r = h.quantize(&a).unwrap();
    r.set_dithering_level(0.).unwrap();
    let mut small = a.new_image(px(w * 4), w, 4, 0.9).unwrap();
    let (_, s) = r.remapped(&mut small).unwrap();
    let mut big = a.new_image(px(w * w), w, w, 0.9).unwrap();
    let (_, b) = r.remapped(&mut big).unwrap();
    if s[..w] != b[..w] { println!("the same row looks different in a big image"); std::process::exit(1); }
}
'''
