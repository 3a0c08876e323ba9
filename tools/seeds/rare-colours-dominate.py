PROPERTY = 'C07'
NEEDS = 'an image with large areas of smooth colour and a few rare noise colours, with a small palette'
BREAKS = 'the upper limit of the weight of a colour is applied as a lower limit, so rare colours weigh as much as large areas'
EDITS = [('src/hist.rs', '(temp_item.weight * (1. / 256.)).min(max_perceptual_weight)', '(temp_item.weight * (1. / 256.)).max(max_perceptual_weight)')]
DEMO = r'''
use imagequant::*;
fn main() {
    // a large gradient, and 200 rare colours
    let mut a = Attributes::new();
    a.set_max_colors(16).unwrap();
    let (w, h) = (200usize, 200usize);
    let px: Vec<RGBA> = (0..w * h).map(|i| if i % 200 == 0 { RGBA::new((i * 37) as u8, (i / 7) as u8, (i / 200 * 91) as u8, 255) } else { let v = 40 + (i / w / 4) as u8; RGBA::new(v, v, v, 255) }).collect();
    let mut img = a.new_image(px, w, h, 0.).unwrap();
    let mut r = a.quantize(&mut img).unwrap();
    let greys = r.palette().iter().filter(|c| c.r.abs_diff(c.g) < 3 && c.g.abs_diff(c.b) < 3 && (38..95).contains(&c.r)).count();
    println!("{greys} greys");
    if greys < 3 { std::process::exit(1); }
}
'''
