PROPERTY = 'C25'
NEEDS = 'a result with posterization that is cloned before its palette is made'
BREAKS = 'the clone forgets the posterization'
EDITS = [('src/quant.rs', '''            min_posterization_output: self.min_posterization_output,
            use_dither_map: self.use_dither_map,
            single_threaded''', '''            min_posterization_output: 0,
            use_dither_map: self.use_dither_map,
            single_threaded''')]
DEMO = r'''
use imagequant::*;
fn main() {
    let mut a = Attributes::new();
    a.set_min_posterization(3).unwrap();
    a.set_max_colors(8).unwrap();
    let px: Vec<RGBA> = (0..400u32).map(|i| RGBA::new((i * 7) as u8, (i * 13) as u8, (i / 2) as u8, 255)).collect();
    let mut img = a.new_image(px, 20, 20, 0.).unwrap();
    let mut r = a.quantize(&mut img).unwrap();
    let mut c = r.clone();
    if r.palette() != c.palette() { println!("differ"); std::process::exit(1); }
}
'''
