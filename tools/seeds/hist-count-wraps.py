PROPERTY = 'C14'
NEEDS = 'counts of one colour adding up to more than 2^32 in one histogram (several add_colors calls with large counts)'
BREAKS = 'the count of a very common colour wraps around and the colour nearly vanishes from the palette'
EDITS = [('src/hist.rs', '''            // it can overflow on images over 2^24 pixels large
            .and_modify(move |e| e.0 = e.0.saturating_add(boost))''', '''            // it can overflow on images over 2^24 pixels large
            .and_modify(move |e| e.0 = e.0.wrapping_add(boost).max(1))''')]
DEMO = r'''
use imagequant::*;
fn main() {
    // one colour counted 2 * 2^31 times among many colours counted a few thousand times
    let mut a = Attributes::new();
    a.set_max_colors(2).unwrap();
    let mut h = Histogram::new(&a);
    let big = RGBA::new(250, 10, 10, 255);
    for _ in 0..2 { h.add_colors(&[HistogramEntry { color: big, count: 1 << 31 }], 0.).unwrap(); }
    let others: Vec<_> = (0..400u32).map(|i| HistogramEntry { color: RGBA::new((i % 20) as u8 * 4, 150 + (i / 20) as u8 * 4, 120, 255), count: 4000 }).collect();
    h.add_colors(&others, 0.).unwrap();
    let pal = h.quantize(&a).unwrap().palette_vec();
    let near = pal.iter().any(|c| (c.r as i32 - 250).abs() < 40 && (c.g as i32) < 60 && (c.b as i32) < 60);
    if !near { println!("the dominating colour is not in {pal:?}"); std::process::exit(1); }
}
'''
