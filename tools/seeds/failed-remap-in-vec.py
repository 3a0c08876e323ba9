PROPERTY = 'C17'
NEEDS = 'remap_into_vec that fails after its buffer was reserved, here stopped by the progress callback'
BREAKS = 'the length of the vector is set although remapping failed, so the caller gets indices that were never written'
EDITS = [('src/quant.rs', '''            self.remap_into(image, &mut buf.spare_capacity_mut()[..len])?;
            buf.set_len(len);''', '''            let res = self.remap_into(image, &mut buf.spare_capacity_mut()[..len]);
            buf.set_len(len);
            res?;''')]
DEMO = r'''
use imagequant::*;
fn main() {
    let a = Attributes::new();
    let px: Vec<RGBA> = (0..50 * 50).map(|i| RGBA::new((i * 3) as u8, (i / 50 * 5) as u8, (i * 11) as u8, 255)).collect();
    let mut img = a.new_image(px, 50, 50, 0.).unwrap();
    let mut r = a.quantize(&mut img).unwrap();
    r.set_progress_callback(|_| ControlFlow::Break);
    let mut v = Vec::new();
    if r.remap_into_vec(&mut img, &mut v).is_ok() { println!("not stopped"); std::process::exit(2); }
    if !v.is_empty() { println!("{} indices in the vector, although nothing was remapped", v.len()); std::process::exit(1); }
}
'''
