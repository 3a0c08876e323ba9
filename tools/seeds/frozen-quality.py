PROPERTY = 'C05'
NEEDS = 'a histogram quantized with a minimum quality that cannot be reached'
BREAKS = 'the minimum quality is not enforced for palettes of histograms'
EDITS = [('src/quant.rs', '            if palette_error > max_mse {', '            if palette_error > max_mse && !freeze_result_colors {')]
DEMO = r'''
use imagequant::*;
fn main() {
    let mut a = Attributes::new();
    a.set_max_colors(2).unwrap();
    a.set_quality(90, 100).unwrap();
    let e: Vec<HistogramEntry> = (0..2000u32).map(|i| HistogramEntry { color: RGBA::new((i * 37 % 256) as u8, (i / 8) as u8, (i * 91 % 256) as u8, 255), count: 10 }).collect();
    let mut h = Histogram::new(&a);
    h.add_colors(&e, 0.).unwrap();
    if let Ok(r) = h.quantize(&a) { println!("quality {:?}", r.quantization_quality()); std::process::exit(1); }
}
'''
