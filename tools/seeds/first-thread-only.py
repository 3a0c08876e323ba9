PROPERTY = 'C19'
FEATURES = ['threads']
NEEDS = 'a multi-threaded remap refining the palette, with the rows shared by several threads'
BREAKS = 'the palette is refined from the pixels of one thread only'
EDITS = [('src/remap.rs', '''        .map(|t| t.0.into_inner().0)
        .reduce(Kmeans::merge) {''', '''        .map(|t| t.0.into_inner().0)
        .next() {''')]
DEMO = r'''
use imagequant::*;
fn run() -> Vec<RGBA> {
    let mut a = Attributes::new();
    a.set_max_colors(4).unwrap();
    let (w, h) = (256usize, 256usize);
    let px: Vec<RGBA> = (0..w * h).map(|i| RGBA::new((i / w) as u8, (i % w) as u8, (i / w / 2) as u8, 255)).collect();
    let mut img = a.new_image(px, w, h, 0.).unwrap();
    let mut r = a.quantize(&mut img).unwrap();
    r.remapped(&mut img).unwrap().0
}
fn main() {
    if std::env::var("RAYON_NUM_THREADS").is_ok() {
        for c in run() { println!("{} {} {}", c.r, c.g, c.b); }
        return;
    }
    let go = |n: &str| -> Vec<i32> {
        let out = std::process::Command::new(std::env::current_exe().unwrap()).env("RAYON_NUM_THREADS", n).output().unwrap();
        String::from_utf8(out.stdout).unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect()
    };
    let one = go("1");
    for _ in 0..20 {
        let many = go("8");
        let d = one.iter().zip(&many).map(|(a, b)| (a - b).abs()).max().unwrap();
        if d > 1 || one.len() != many.len() { println!("palettes differ by {d}"); std::process::exit(1); }
    }
}
'''
