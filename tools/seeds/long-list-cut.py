PROPERTY = 'C28'
NEEDS = 'liq_histogram_add_colors with more than 65535 entries'
BREAKS = 'entries after the 65535th are ignored without an error'
CAPI = True
EDITS = [('imagequant-sys/src/ffi.rs', '''    if liq_received_invalid_pointer(entries.cast()) { return Error::InvalidPointer; }

    let entries = std::slice::from_raw_parts(entries, num_entries as usize);''', '''    if liq_received_invalid_pointer(entries.cast()) { return Error::InvalidPointer; }

    let entries = std::slice::from_raw_parts(entries, usize::from(num_entries.min(0xffff) as u16));''')]
DEMO = r'''
use imagequant_sys::*;
fn main() {
    let mut a = liq_attr_create().unwrap();
    liq_set_speed(&mut a, 9);
    let mut h = liq_histogram_create(&a).unwrap();
    let c = |r, g, b| imagequant::RGBA::new(r, g, b, 255);
    let mut e: Vec<imagequant::HistogramEntry> = (0..70000).map(|_| imagequant::HistogramEntry { color: c(10, 20, 30), count: 1 }).collect();
    for x in &mut e[66000..] { x.color = c(200, 100, 0); }
    unsafe { liq_histogram_add_colors(&mut h, &a, e.as_ptr(), e.len() as _, 0.); }
    let mut r = std::mem::MaybeUninit::uninit();
    liq_histogram_quantize(&mut h, &a, &mut r);
    let mut r = unsafe { r.assume_init() }.unwrap();
    let n = liq_get_palette(&mut r).unwrap().count;
    if n != 2 { println!("{n} colours in the palette, 2 were added"); std::process::exit(1); }
}
'''
