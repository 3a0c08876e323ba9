PROPERTY = 'C13'
NEEDS = 'a background, dithering off, and a palette with a semi-transparent but no fully transparent entry'
BREAKS = 'the background is used although the palette entry standing for it is not fully transparent, so that pixels are replaced with a visible semi-transparent colour'
EDITS = [('src/remap.rs', '''.filter(|&(_, transparent_index)| colors[usize::from(transparent_index)].a < MIN_OPAQUE_A)''', '''.filter(|&(_, transparent_index)| colors[usize::from(transparent_index)].a < MAX_TRANSP_A)'''),
         ('src/remap.rs', 'LIQ_WEIGHT_MSE, MIN_OPAQUE_A};', 'LIQ_WEIGHT_MSE, MAX_TRANSP_A, MIN_OPAQUE_A};')]
DEMO = r'''
use imagequant::*;
fn main() {
    let a = Attributes::new();
    let half = RGBA::new(255, 0, 0, 128);
    let px: Vec<RGBA> = (0..64).map(|i| if i < 8 { half } else { RGBA::new(i as u8 * 3, 200, 90, 255) }).collect();
    let run = |bg: bool| {
        let mut img = a.new_image(&px[..], 8, 8, 0.).unwrap();
        if bg { img.set_background(a.new_image(&px[..], 8, 8, 0.).unwrap()).unwrap(); }
        let mut q = a.quantize(&mut img).unwrap();
        q.set_dithering_level(0.).unwrap();
        let (pal, idx) = q.remapped(&mut img).unwrap();
        assert!(pal.iter().all(|c| c.a > 0));
        idx.iter().map(|&i| pal[i as usize]).collect::<Vec<_>>()
    };
    // no transparent entry: the background has no influence
    if run(true) != run(false) { println!("background used without a transparent colour"); std::process::exit(1); }
}
'''
