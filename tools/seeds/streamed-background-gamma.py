PROPERTY = 'C09'
NEEDS = 'an image of more than 4.19 million pixels with a background of another gamma than its own'
BREAKS = 'the rows of a large background, which are converted on the fly, are converted with the gamma of the image in front of it'
EDITS = [('src/remap.rs', '''bg.px.prepare_iter(&mut temp_row, true)?;
        Ok::<_, Error>(&bg.px)''', '''bg.px.prepare_iter(&mut temp_row, true)?;
        bg.px.gamma = input_image.px.gamma;
        Ok::<_, Error>(&bg.px)''')]
DEMO = r'''
use imagequant::*;
fn main() {
    let mut a = Attributes::new();
    a.set_speed(10).unwrap();
    let w = 2100usize;
    let px = |n: usize, m: u8| -> Vec<RGBA> { (0..n).map(|i| { let v = ((i % w) / 9) as u8 & m; RGBA::new(v, v, v, 255) }).collect() };
    let mut h = Histogram::new(&a);
    h.add_fixed_color(RGBA::new(0, 0, 0, 0), 0.).unwrap();
    for v in [10u8, 60, 120, 180, 250] { h.add_fixed_color(RGBA::new(v, v, v, 255), 0.).unwrap(); }
    let mut r = h.quantize(&a).unwrap();
    r.set_dithering_level(1.).unwrap();
    let mut go = |rows: usize| {
        let mut img = a.new_image(px(w * rows, 255), w, rows, 0.).unwrap();
        img.set_background(a.new_image(px(w * rows, 0xf0), w, rows, 0.9).unwrap()).unwrap();
        r.remapped(&mut img).unwrap().1
    };
    let (s, b) = (go(4), go(w));
    if s[..w] != b[..w] { println!("the same row looks different in a big image"); std::process::exit(1); }
}
'''
