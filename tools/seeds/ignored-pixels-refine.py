PROPERTY = 'C12'
NEEDS = 'pixels of zero importance, a limited palette, and a remap that refines the palette'
BREAKS = 'pixels that should be ignored still pull the palette towards them when it is refined while remapping'
EDITS = [('src/remap.rs', 'let importance = f32::from(importance_map.get(col).copied().unwrap_or(1));', 'let importance = f32::from(importance_map.get(col).copied().unwrap_or(1)).max(1.);')]
DEMO = r'''
use imagequant::*;
fn main() {
    let mut a = Attributes::new();
    a.set_max_colors(4).unwrap();
    let run = |v: u8| {
        let px: Vec<RGBA> = (0..2000u32).map(|i| if i >= 100 { RGBA::new(v, v, v, 255) } else { RGBA::new((i * 2) as u8, 50, 200 - i as u8, 255) }).collect();
        let mut img = a.new_image(px, 20, 100, 0.).unwrap();
        img.set_importance_map((0..2000).map(|i| if i >= 100 { 0u8 } else { 1 }).collect::<Vec<_>>()).unwrap();
        let mut r = a.quantize(&mut img).unwrap();
        r.set_dithering_level(0.5).unwrap();
        r.remapped(&mut img).unwrap().0
    };
    let (x, y) = (run(90), run(130));
    println!("{x:?} {y:?}");
    if x != y { std::process::exit(1); }
}
'''
