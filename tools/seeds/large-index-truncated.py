PROPERTY = 'C24'
FEATURES = ['large_palettes']
NEEDS = 'the large-palette build and a palette of more than 256 colours that is refined (more colours in the image than in the palette)'
BREAKS = 'indices in leaves of the search tree are truncated to 8 bits, so pixels are attributed to wrong palette entries'
EDITS = [('src/nearest.rs', '''                *idx = i.idx;
                *color = *c;''', '''                *idx = PalIndex::from(i.idx as u8);
                *color = *c;''')]
DEMO = r'''
use imagequant::*;
fn main() {
    let a = Attributes::new();
    let mut h = Histogram::new(&a);
    let e: Vec<HistogramEntry> = (0..6000u32).map(|i| HistogramEntry { color: RGBA::new((i * 37 % 256) as u8, (i / 24) as u8, (i * 91 % 256) as u8, 255), count: 1000 }).collect();
    h.add_colors(&e, 0.).unwrap();
    let mut r = h.quantize(&a).unwrap();
    let pal = r.palette_vec();
    let err: i64 = e.iter().map(|e| pal.iter().map(|p| {
        let d = |a: u8, b: u8| (a as i64 - b as i64).pow(2);
        d(p.r, e.color.r) + d(p.g, e.color.g) + d(p.b, e.color.b)
    }).min().unwrap()).sum::<i64>() / e.len() as i64;
    println!("{} colours, error {err}", pal.len());
    if err > 19 { std::process::exit(1); }
}
'''
