PROPERTY = 'C17'
FEATURES = ['threads']
NEEDS = 'a worker thread of an undithered remap failing to allocate its buffers'
BREAKS = 'rows of a thread that could not get memory are skipped and the remap reports success, with indices that were never written'
EDITS = [('src/remap.rs', 'let Ok(tls_res) = tls.get_or_try(per_thread_buffers) else { return f64::NAN };', 'let Ok(tls_res) = tls.get_or_try(per_thread_buffers) else { return remapping_error };')]
DEMO = r'''
use imagequant::*;
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static FAIL: AtomicBool = AtomicBool::new(false);
static MAIN: AtomicUsize = AtomicUsize::new(0);
fn tid() -> usize { thread_local!(static T: u8 = const { 0 }); T.with(|t| t as *const u8 as usize) }
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // big buffers can't be had on other threads
        if FAIL.load(Ordering::SeqCst) && l.size() >= 8000 && tid() != MAIN.load(Ordering::SeqCst) { return std::ptr::null_mut(); }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "4");
    MAIN.store(tid(), Ordering::SeqCst);
    let mut a = Attributes::new();
    a.set_speed(10).unwrap();
    let (w, h) = (4000usize, 200usize);
    let px: Vec<RGBA> = (0..w * h).map(|i| RGBA::new((i / 3000) as u8, (i % 7 * 9) as u8, 10, 255)).collect();
    for _ in 0..20 {
        let mut img = a.new_image(&px[..], w, h, 0.).unwrap();
        let mut r = a.quantize(&mut img).unwrap();
        r.set_dithering_level(0.).unwrap();
        let mut buf: Vec<std::mem::MaybeUninit<u8>> = vec![std::mem::MaybeUninit::new(255); w * h];
        let n = r.palette_len();
        FAIL.store(true, Ordering::SeqCst);
        let res = r.remap_into(&mut img, &mut buf);
        FAIL.store(false, Ordering::SeqCst);
        if res.is_ok() {
            let bad = buf.iter().filter(|x| unsafe { x.assume_init() } as usize >= n.min(255)).count();
            if bad >= w { println!("success, but {bad} pixels were not written"); std::process::exit(1); }
        }
    }
}
'''
