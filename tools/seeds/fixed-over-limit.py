PROPERTY = 'C01'
NEEDS = 'more fixed colours than the configured maximum number of colours'
BREAKS = 'the palette gets one entry for every fixed colour, so it is larger than the configured maximum'
EDITS = [('src/pal.rs', 'let max_fixed_colors = fixed_colors.len().min(max_colors as usize);', 'let max_fixed_colors = fixed_colors.len().max(max_colors as usize).min(fixed_colors.len());')]
DEMO = r'''
use imagequant::*;
fn main() {
    let mut a = Attributes::new();
    a.set_max_colors(4).unwrap();
    let mut img = a.new_image(vec![RGBA::new(9, 9, 9, 255); 16], 4, 4, 0.).unwrap();
    for i in 0..12 { img.add_fixed_color(RGBA::new(i * 20, 255 - i * 20, i * 7, 255)).unwrap(); }
    let mut r = a.quantize(&mut img).unwrap();
    let (pal, _) = r.remapped(&mut img).unwrap();
    println!("{} colours", pal.len());
    if pal.len() > 4 { std::process::exit(1); }
}
'''
