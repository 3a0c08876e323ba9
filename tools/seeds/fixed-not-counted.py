PROPERTY = 'C26'
NEEDS = 'about as many colours as the limit of 256, and fixed colours on top of them'
BREAKS = 'fixed colours are left out when it is decided whether all colours fit in the palette, and adding them overflows it'
EDITS = [('src/quant.rs', '    let few_input_colors = hist.items.len() <= attr.max_colors as usize;', '    let few_input_colors = hist.items.len().saturating_sub(hist.fixed_colors.len()) <= attr.max_colors as usize;')]
DEMO = r'''
use imagequant::*;
fn main() {
    let a = Attributes::new();
    let px: Vec<RGBA> = (0..256u32).map(|i| RGBA::new(i as u8, 200, (i / 2) as u8, 255)).collect();
    let mut img = a.new_image(px, 16, 16, 0.).unwrap();
    for i in 0..100 { img.add_fixed_color(RGBA::new(i, 10, i, 255)).unwrap(); }
    let mut r = a.quantize(&mut img).unwrap();
    println!("{}", r.palette_len());
}
'''
