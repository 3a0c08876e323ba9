PROPERTY = 'C11'
NEEDS = 'last-index-transparent, and a palette with several translucent colours'
BREAKS = 'the last palette entry is the least transparent of the translucent colours'
EDITS = [('src/quant.rs', '            .min_by_key(|(_, c)| OrdFloat::new(c.a))', '            .max_by_key(|(_, c)| OrdFloat::new(c.a))')]
DEMO = r'''
use imagequant::*;
fn main() {
    let mut a = Attributes::new();
    a.set_last_index_transparent(true);
    let px: Vec<RGBA> = (0..64u8).map(|i| RGBA::new(i, 20, 20, [0, 40, 90, 150, 255][i as usize % 5])).collect();
    let mut img = a.new_image(px, 8, 8, 0.).unwrap();
    let mut r = a.quantize(&mut img).unwrap();
    let pal = r.palette_vec();
    println!("last is {:?}", pal.last());
    if pal.last().unwrap().a != 0 { std::process::exit(1); }
}
'''
