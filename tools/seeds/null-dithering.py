PROPERTY = 'C21'
CAPI = True
NEEDS = 'a live object of a wrong type given to liq_set_dithering_level'
BREAKS = 'the type of the object is not checked, and memory of the other object is overwritten'
EDITS = [('imagequant-sys/src/ffi.rs', '''    if bad_object!(result, LIQ_RESULT_MAGIC) { return Error::InvalidPointer; }
    result.inner.set_dithering_level(dither_level)''', '''    result.inner.set_dithering_level(dither_level)''')]
DEMO = r'''
use imagequant_sys::*;
use imagequant::Error;
fn main() {
    unsafe {
        let attr = liq_attr_create().unwrap();
        let mut hist = liq_histogram_create(&attr).unwrap();
        // the value is out of range, so nothing is written even if the type isn't checked
        let f: extern "C" fn(&mut liq_result, f32) -> Error = liq_set_dithering_level;
        let f: extern "C" fn(*mut liq_histogram, f32) -> Error = std::mem::transmute(f);
        let e = f(&mut *hist, 7.);
        println!("{e:?}");
        if e != Error::InvalidPointer { std::process::exit(1); }
    }
}
'''
