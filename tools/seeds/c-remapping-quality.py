PROPERTY = 'C28'
CAPI = True
NEEDS = 'a remap whose quality differs from that of the palette'
BREAKS = 'the C function reports the quality of the palette rather than of the remapping'
EDITS = [('imagequant-sys/src/ffi.rs', 'result.inner.remapping_quality().map_or(-1, c_int::from)', 'result.inner.quantization_quality().map_or(-1, c_int::from)')]
DEMO = r'''
use imagequant_sys::*;
fn main() {
    unsafe {
        let mut attr = liq_attr_create().unwrap();
        liq_set_max_colors(&mut attr, 4);
        let px: Vec<liq_color> = (0..400u32).map(|i| liq_color::new((i / 8) as u8, 100, 100, 255)).collect();
        let other: Vec<liq_color> = (0..400u32).map(|i| liq_color::new((i * 7) as u8, (i * 13) as u8, (i / 2) as u8, 255)).collect();
        let mut img = liq_image_create_rgba(&attr, px.as_ptr(), 20, 20, 0.).unwrap();
        let mut img2 = liq_image_create_rgba(&attr, other.as_ptr(), 20, 20, 0.).unwrap();
        let mut res = liq_quantize_image(&mut attr, &mut img).unwrap();
        liq_set_dithering_level(&mut res, 0.);
        let mut out = vec![0u8; 400];
        liq_write_remapped_image(&mut res, &mut img2, out.as_mut_ptr().cast(), 400);
        let (e, q, pq) = (liq_get_remapping_error(&*res), liq_get_remapping_quality(&*res), liq_get_quantization_quality(&*res));
        println!("error {e} quality {q} palette quality {pq}");
        if q == pq { std::process::exit(1); }
    }
}
'''
