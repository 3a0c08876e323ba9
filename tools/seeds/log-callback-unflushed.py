PROPERTY = 'C27'
NEEDS = 'a buffering log callback replaced by another one before anything flushed it'
BREAKS = 'the flush callback is not called when the log callback is replaced, so messages buffered for the old one are lost'
EDITS = [('src/attr.rs', '''        self.verbose_printf_flush();
        self.log_callback = Some(Arc::new(callback));''', '''        self.log_callback = Some(Arc::new(callback));''')]
DEMO = r'''
use imagequant::*;
use std::sync::atomic::*;
use std::sync::Arc;
fn main() {
    let mut a = Attributes::new();
    let (msgs, flushes) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let (m, f) = (msgs.clone(), flushes.clone());
    a.set_log_callback(move |_, _| { m.fetch_add(1, Ordering::SeqCst); });
    a.set_log_flush_callback(move |_| { f.fetch_add(1, Ordering::SeqCst); });
    let mut img = a.new_image(vec![RGBA::new(1, 2, 3, 255); 4], 2, 2, 0.).unwrap();
    a.quantize(&mut img).unwrap();
    let before = flushes.load(Ordering::SeqCst);
    a.set_log_callback(|_, _| {});
    if msgs.load(Ordering::SeqCst) > 0 && flushes.load(Ordering::SeqCst) == before { println!("not flushed"); std::process::exit(1); }
}
'''
