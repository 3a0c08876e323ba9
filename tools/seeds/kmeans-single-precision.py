PROPERTY = 'C02'
NEEDS = 'a flat area of several million pixels, remapped without dithering by a palette that is not frozen'
BREAKS = 'sums of colours are kept in single precision, so the average of millions of equal pixels drifts away from their colour, and a lossless image is not reproduced any more'
EDITS = [
 ('src/kmeans.rs', '''    pub sum: Argb<f64>,
    pub total: f64,''', '''    pub sum: Argb<f32>,
    pub total: f32,'''),
 ('src/kmeans.rs', '''        c.sum += (px.0 * value).map(f64::from);
        c.total += f64::from(value);''', '''        c.sum += px.0 * value;
        c.total += value;'''),
 ('src/kmeans.rs', '''            *pop = PalPop::new(total as f32);
            if total > 0. && color.a != 0. {
                *color = avg.sum.map(move |c| (c / total) as f32).into();''', '''            *pop = PalPop::new(total);
            if total > 0. && color.a != 0. {
                *color = avg.sum.map(move |c| c / total).into();'''),
]
DEMO = r'''
use imagequant::*;
fn main() {
    let a = Attributes::new();
    let c = RGBA::new(201, 113, 47, 255);
    for n in [1000usize, 2000, 2040] {
        let mut px = vec![c; n * n];
        px[5] = RGBA::new(3, 4, 5, 255);
        let mut img = a.new_image(px.clone(), n, n, 0.).unwrap();
        let mut r = a.quantize(&mut img).unwrap();
        for level in [1., 0.] {
            r.set_dithering_level(level).unwrap();
            let (pal, idx) = r.remapped(&mut img.clone()).unwrap();
            for (p, i) in px.iter().zip(&idx) {
                if pal[*i as usize] != *p { println!("{n}: {p:?} became {:?}", pal[*i as usize]); std::process::exit(1); }
            }
        }
    }
}
'''
