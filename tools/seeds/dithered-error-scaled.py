PROPERTY = 'C06'
NEEDS = 'the error reported after remapping with a dithering level other than a half'
BREAKS = 'the reported error depends on the dithering level, although dithering is not counted'
EDITS = [('src/quant.rs', '''            remapped.palette_error = palette_error;
''', '''            remapped.palette_error = palette_error.map(|e| e * f64::from(self.dither_level) * 2.);
''')]
DEMO = r'''
use imagequant::*;
fn main() {
    let px: Vec<RGBA> = (0..80 * 60).map(|i| RGBA::new((i % 80 * 3) as u8, (i / 80 * 4) as u8, ((i % 80) * (i / 80) % 251) as u8, 255)).collect();
    let mut a = Attributes::new();
    a.set_max_colors(12).unwrap();
    let error = |level: f32| {
        let mut img = a.new_image(px.clone(), 80, 60, 0.).unwrap();
        let mut r = a.quantize(&mut img).unwrap();
        r.set_dithering_level(level).unwrap();
        let _ = r.remapped(&mut img).unwrap();
        r.remapping_error().unwrap()
    };
    let (e0, e1, e2) = (error(0.), error(0.2), error(1.));
    println!("error {e0} without dithering, {e1} and {e2} with");
    if e1 < e0 * 0.6 || e2 > e0 * 1.6 { std::process::exit(1); }
}
'''
