PROPERTY = 'C08'
NEEDS = 'two images in one thread whose gammas agree to the third decimal but are not equal'
BREAKS = 'a per-thread cache of the gamma table is keyed by the rounded gamma, so the result depends on which gamma was used before'
EDITS = [('src/pal.rs', '''    debug_assert!(gamma > 0.);
    let mut tmp = [0.; 256];
    for (i, t) in tmp.iter_mut().enumerate() {
        *t = ((i as f32) / 255.).powf((INTERNAL_GAMMA / gamma) as f32);
    }
    tmp''', '''    debug_assert!(gamma > 0.);
    thread_local! {
        static LAST: std::cell::Cell<(u32, [f32; 256])> = const { std::cell::Cell::new((0, [0.; 256])) };
    }
    let key = (gamma * 1000.).ceil() as u32;
    let (last_key, mut tmp) = LAST.get();
    if last_key != key {
        for (i, t) in tmp.iter_mut().enumerate() {
            *t = ((i as f32) / 255.).powf((INTERNAL_GAMMA / gamma) as f32);
        }
        LAST.set((key, tmp));
    }
    tmp''')]
DEMO = r'''
use imagequant::*;
fn run(gamma: f64) -> (Vec<RGBA>, Vec<u8>, Option<f64>) {
    let mut a = Attributes::new();
    a.set_max_colors(7).unwrap();
    let px: Vec<RGBA> = (0..400u32).map(|i| RGBA::new((i * 7) as u8, (i * 13) as u8, (i / 2) as u8, 255)).collect();
    let mut img = a.new_image(px, 20, 20, gamma).unwrap();
    let mut r = a.quantize(&mut img).unwrap();
    r.set_dithering_level(0.).unwrap();
    let (p, i) = r.remapped(&mut img).unwrap();
    (p, i, r.remapping_error())
}
fn main() {
    let fresh = std::thread::spawn(|| run(0.6001)).join().unwrap();
    run(0.6008);
    let later = run(0.6001);
    if fresh != later { println!("{:?} != {:?}", fresh.2, later.2); std::process::exit(1); }
}
'''
