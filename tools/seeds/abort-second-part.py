PROPERTY = 'C16'
FEATURES = ['threads']
NEEDS = 'a multi-threaded remap of a tall image, with a callback that asks to stop when the second part of it is about to start'
BREAKS = 'a request to abort is ignored once dithering of the first part has been started'
EDITS = [('src/remap.rs', '''            if quant.remap_progress(progress_stage1 as f32 + chunk_start_row as f32 * (100. - progress_stage1 as f32) / height as f32) {
                return Err(Error::Aborted);''', '''            // the rows that are being dithered have to be finished anyway
            if quant.remap_progress(progress_stage1 as f32 + chunk_start_row as f32 * (100. - progress_stage1 as f32) / height as f32) && chunk_start_row == 0 {
                return Err(Error::Aborted);''')]
DEMO = r'''
use imagequant::*;
use std::sync::atomic::*;
use std::sync::Arc;
fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "4");
    let a = Attributes::new();
    let px: Vec<RGBA> = (0..300 * 40u32).map(|i| RGBA::new((i / 99) as u8, (i * 13) as u8, (i / 10) as u8, 255)).collect();
    let mut img = a.new_image(px, 40, 300, 0.).unwrap();
    let r = a.quantize(&mut img).unwrap();
    for stop in 0.. {
        let mut r = r.clone();
        let n = Arc::new(AtomicUsize::new(0));
        let m = n.clone();
        r.set_progress_callback(move |_| if m.fetch_add(1, Ordering::SeqCst) == stop { ControlFlow::Break } else { ControlFlow::Continue });
        let res = r.remapped(&mut img.clone());
        if n.load(Ordering::SeqCst) <= stop { break; }
        if res.is_ok() { println!("asked to stop at call {stop}, got an image"); std::process::exit(1); }
    }
}
'''
