PROPERTY = 'C13'
NEEDS = 'a pixel whose colour is exactly in the palette and exactly in the background'
BREAKS = 'the palette colour is preferred over an equally good background, so an image equal to its background is not entirely transparent'
EDITS = [('src/remap.rs', '                if bg_diff <= diff {', '                if bg_diff < diff {')]
DEMO = r'''
use imagequant::*;
fn main() {
    let a = Attributes::new();
    let px: Vec<RGBA> = (0..64u8).map(|i| RGBA::new(i / 8 * 30, 20, 20, 255)).collect();
    let mut img = a.new_image(px.clone(), 8, 8, 0.).unwrap();
    img.add_fixed_color(RGBA::new(0, 0, 0, 0)).unwrap();
    img.set_background(a.new_image(px, 8, 8, 0.).unwrap()).unwrap();
    let mut r = a.quantize(&mut img).unwrap();
    r.set_dithering_level(0.).unwrap();
    let (pal, idx) = r.remapped(&mut img).unwrap();
    if idx.iter().any(|&i| pal[i as usize].a != 0) { println!("not all transparent"); std::process::exit(1); }
}
'''
