PROPERTY = 'C06'
NEEDS = 'a background that matches pixels better than the palette but not exactly, no dithering'
BREAKS = 'the error of pixels that let the background show through is not counted, so the reported remapping error is too small'
EDITS = [('src/remap.rs', '''                    remapping_error += f64::from(bg_diff);
                    out.write(transparent_index);''', '''                    out.write(transparent_index);''')]
DEMO = r'''
use imagequant::*;
fn main() {
    let a = Attributes::new();
    let mut h = Histogram::new(&a);
    h.add_fixed_color(RGBA::new(0, 0, 0, 0), 0.).unwrap();
    h.add_fixed_color(RGBA::new(0, 0, 255, 255), 0.).unwrap();
    let mut r = h.quantize(&a).unwrap();
    r.set_dithering_level(0.).unwrap();
    let mut img = a.new_image(vec![RGBA::new(120, 120, 120, 255); 64], 8, 8, 0.).unwrap();
    img.set_background(a.new_image(vec![RGBA::new(140, 120, 120, 255); 64], 8, 8, 0.).unwrap()).unwrap();
    r.remapped(&mut img).unwrap();
    let e = r.remapping_error().unwrap();
    println!("reported error {e}");
    if e < 0.1 { std::process::exit(1); }
}
'''
