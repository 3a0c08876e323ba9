PROPERTY = 'C18'
NEEDS = 'a slice with a stride that ends in the middle of the last row'
BREAKS = 'a bitmap whose last row is incomplete is accepted and read past its end'
EDITS = [('src/rows.rs', 'let min_area = stride.checked_mul(height).and_then(|a| a.checked_add(width)).ok_or(Error::ValueOutOfRange)? - stride;', 'let min_area = stride.checked_mul(height).ok_or(Error::ValueOutOfRange)?.saturating_sub(stride - 1).max(width);')]
DEMO = r'''
use imagequant::*;
fn main() {
    let a = Attributes::new();
    let mut bad = false;
    for h in 1..6 {
        for len in 0..10 * h {
            let px = vec![RGBA::new(1, 2, 3, 255); len];
            let ok = Image::new_stride_borrowed(&a, &px, 7, h, 10, 0.).is_ok();
            if ok != (len >= 10 * (h - 1) + 7) { println!("{len} pixels for 7x{h} stride 10: accepted={ok}"); bad = true; }
        }
    }
    if bad { std::process::exit(1); }
}
'''
