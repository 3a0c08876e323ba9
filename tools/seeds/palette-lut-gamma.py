PROPERTY = 'C23'
NEEDS = 'an output gamma far from sRGB, and pixels between palette colours'
BREAKS = 'the rounded palette is converted back with sRGB gamma rather than the gamma it is in, so pixels are compared with wrong colours'
EDITS = [('src/pal.rs', '''        let lut = gamma_lut(gamma);
        for ((f_color, f_pop)''', '''        let lut = gamma_lut(0.45455);
        for ((f_color, f_pop)''')]
DEMO = r'''
use imagequant::*;
fn main() {
    let mut a = Attributes::new();
    a.set_max_colors(8).unwrap();
    let px: Vec<RGBA> = (0..=255u8).map(|i| RGBA::new(i, i, i, 255)).collect();
    let run = |gamma: Option<f64>| {
        let mut img = a.new_image(&px[..], 16, 16, 0.).unwrap();
        let mut r = a.quantize(&mut img).unwrap();
        if let Some(g) = gamma { r.set_output_gamma(g).unwrap(); }
        r.set_dithering_level(0.).unwrap();
        let (_, idx) = r.remapped(&mut img).unwrap();
        (idx, r.remapping_error().unwrap())
    };
    let (usual, e1) = run(None);
    let (other, e2) = run(Some(0.8));
    let n = usual.iter().zip(&other).filter(|(a, b)| a != b).count();
    println!("{n} of 256 pixels differ, error {e1} and {e2}");
    if n > 20 || e2 > e1 * 1.5 { std::process::exit(1); }
}
'''
