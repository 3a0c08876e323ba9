PROPERTY = 'C15'
NEEDS = 'reading back a quality between 90 and 100'
BREAKS = 'the tolerance in converting an error to a quality is too large, so high qualities read back higher than they were set'
EDITS = [('src/quant.rs', 'if mse <= quality_to_mse(i) + 0.000001 { return i; };', 'if mse <= quality_to_mse(i) + 0.00002 { return i; };')]
DEMO = r'''
use imagequant::*;
fn main() {
    let mut a = Attributes::new();
    for q in 0..=100 {
        a.set_quality(q, q).unwrap();
        if a.quality() != (q, q) { println!("set {q}, got {:?}", a.quality()); std::process::exit(1); }
    }
}
'''
