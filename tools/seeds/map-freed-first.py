PROPERTY = 'C20'
CAPI = True
NEEDS = 'an importance map whose ownership is passed to the library'
BREAKS = 'the map is released before it is copied'
EDITS = [('imagequant-sys/src/ffi.rs', '''        let copy: Box<[u8]> = importance_map_slice.into();
        free_fn(importance_map.cast());
''', '''        free_fn(importance_map.cast());
        let copy: Box<[u8]> = importance_map_slice.into();
''')]
DEMO = r'''
use imagequant_sys::*;
use imagequant::Error;
use std::os::raw::c_void;
unsafe extern "C" fn scribbling_free(p: *mut c_void) {
    // what an allocator may do with memory given back
    for i in 0..64 { std::ptr::write_volatile(p.cast::<u8>().add(i), 0xff); }
    libc_free(p);
}
extern "C" { #[link_name = "free"] fn libc_free(p: *mut c_void); #[link_name = "malloc"] fn libc_malloc(n: usize) -> *mut c_void; }
#[allow(deprecated)]
fn main() {
    unsafe {
        let mut attr = liq_attr_create_with_allocator(std::ptr::null_mut(), scribbling_free).unwrap();
        // half of the image is unimportant, and must not be in the palette
        let px: Vec<liq_color> = (0..64u8).map(|i| if i < 32 { liq_color::new(255, 0, i, 255) } else { liq_color::new(0, 0, 0, 255) }).collect();
        let mut img = liq_image_create_rgba(&attr, px.as_ptr(), 8, 8, 0.).unwrap();
        let map = libc_malloc(64).cast::<u8>();
        for i in 0..64 { *map.add(i) = if i < 32 { 255 } else { 0 }; }
        assert_eq!(Error::LIQ_OK, liq_image_set_importance_map(&mut img, map, 64, liq_ownership::LIQ_OWN_PIXELS));
        let mut res = liq_quantize_image(&mut attr, &mut img).unwrap();
        let pal = liq_get_palette(&mut res).unwrap();
        if pal.iter().any(|c| c.r == 0) { println!("the map had been freed before it was used"); std::process::exit(1); }
    }
}
'''
