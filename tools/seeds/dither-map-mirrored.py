PROPERTY = 'C22'
NEEDS = 'dithering with a dither map (speed 1-6) of an image whose flat and busy areas differ between left and right'
BREAKS = 'in rows that are dithered from right to left the dither map is read from left to right, so flat areas are not dithered and edges are'
EDITS = [('src/remap.rs', '''if let Some(&l) = dither_map.get(col) {''', '''if let Some(&l) = dither_map.get(x) {''')]
DEMO = r'''
use imagequant::*;
fn main() {
    // left half noise, right half a smooth gradient
    let (w, h) = (64usize, 64usize);
    let mut s = 12345u32;
    let px: Vec<RGBA> = (0..w * h).map(|i| {
        let (x, y) = (i % w, i / w);
        s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        let v = if x < w / 2 { (s >> 24) as u8 } else { 60 + ((x - w / 2) * 2 + y / 2) as u8 };
        RGBA::new(v, v, v, 255)
    }).collect();
    let mut a = Attributes::new();
    a.set_speed(3).unwrap();
    a.set_max_colors(6).unwrap();
    let mut img = a.new_image(px.clone(), w, h, 0.).unwrap();
    let mut r = a.quantize(&mut img).unwrap();
    r.set_dithering_level(1.).unwrap();
    let (pal, idx) = r.remapped(&mut img).unwrap();
    // even rows go to the right, odd ones to the left: both are equally dithered
    let mut dev = [0f64; 2];
    for y in 8..h { for x0 in (w / 2 + 8..w - 8).step_by(8) {
        let (mut d, mut changes) = (0f64, 0.);
        for x in x0..x0 + 8 { let i = y * w + x; d += f64::from(pal[idx[i] as usize].r) - f64::from(px[i].r); if x > x0 && idx[i] != idx[i - 1] { changes += 1.; } }
        let _ = d;
        dev[y & 1] += changes;
    } }
    println!("changes of colour in even rows {} and odd rows {}", dev[0], dev[1]);
    if dev[0] > dev[1] * 1.5 || dev[1] > dev[0] * 1.5 { std::process::exit(1); }
}
'''
