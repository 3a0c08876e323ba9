PROPERTY = 'C03'
NEEDS = 'a palette colour whose neighbour is between one and 1.4 half-distances away, and a pixel between them following a pixel that matched the first one'
BREAKS = 'the early exit of the nearest colour search accepts the guess in a radius that is too large, so a pixel may get the colour of the previous pixel although another one is nearer'
EDITS = [('src/nearest.rs', 'handle.nearest_other_color_dist[i] = best.distance_squared / 4.;', 'handle.nearest_other_color_dist[i] = best.distance_squared / 3.;')]
DEMO = r'''
use imagequant::*;
fn main() {
    // palette of two greys; pixels just on the far side of the middle, after a pixel of the other grey
    let a = Attributes::new();
    let mut h = Histogram::new(&a);
    let (lo, hi) = (60u8, 180u8);
    for v in [lo, hi] { h.add_fixed_color(RGBA::new(v, v, v, 255), 0.).unwrap(); }
    let mut q = h.quantize(&a).unwrap();
    q.set_dithering_level(0.).unwrap();
    for v in lo..=hi {
        // the same grey after each of the two palette colours must get the same index
        let px: Vec<RGBA> = [lo, v, hi, v].iter().map(|&v| RGBA::new(v, v, v, 255)).collect();
        let mut img = a.new_image(px, 4, 1, 0.).unwrap();
        let (pal, idx) = q.remapped(&mut img).unwrap();
        if idx[1] != idx[3] {
            println!("grey {v} shown as {:?} and as {:?}", pal[idx[1] as usize], pal[idx[3] as usize]);
            std::process::exit(1);
        }
    }
}
'''
