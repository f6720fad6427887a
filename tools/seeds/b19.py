ID = 'b19'; PROPERTY = 'P09'
EDITS = [('src/effects/tides/kaula.rs', """                im_k2 = kaula_param.imaginary_part_love_number[i];
                re_k2 = kaula_param.real_part_love_number[i];""", """                im_k2 = kaula_param.imaginary_part_love_number[i];
                re_k2 = kaula_param.real_part_love_number[i - 1];""")]
NEEDS = 'an excitation frequency that is exactly a point of the table of Love numbers and not the first or the last one (the zonal tide has the frequency zero, a star has points on both sides of it)'
BREAKS = 'the tide at a frequency listed in the table takes the real part of the Love number of the point before it'
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); from common import PRE
MAIN = PRE + r"""
fn table(f: &dyn Fn(usize) -> (f64, f64, f64)) -> KaulaParameters {
    let mut k = KaulaParameters { love_number_excitation_frequency: [0.; 1024], real_part_love_number: [0.; 1024], imaginary_part_love_number: [0.; 1024],
        num_datapoints: 1024., polynomials: Polynomials::new(), kaula_tidal_force: ax(0., 0., 0.) };
    for i in 0..1024 { let (w, r, m) = f(i); k.love_number_excitation_frequency[i] = w; k.real_part_love_number[i] = r; k.imaginary_part_love_number[i] = m; }
    k
}

fn main() {
    // a body whose table is symmetric about the frequency zero: the only response is the one at zero
    let a = 0.03; let m = 3.0e-6; let ms = 0.08;
    let n = (posidonius::constants::K2 * (ms + m) / (a * a * a) as f64).sqrt();
    let run = |peak: usize| -> f64 {
        let k = table(&|i| (1e-10 * (i as f64 - 500.), if i == peak { 1.0 } else { 0.0 }, 0.));
        let mut star = Particle::new(ms, 8.0e-4, 0.2, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.0));
        star.set_tides(Tides::new(TidesEffect::CentralBody(TidalModel::Kaula(table(&|i| (1e-10 * (i as f64 - 500.), 0., 0.))))));
        let mut p = Particle::new(m, 4.3e-5, 0.33, ax(a, 0., 0.), ax(0., n * a, 0.), ax(0., 0., 5. * n));
        p.set_tides(Tides::new(TidesEffect::OrbitingBody(TidalModel::Kaula(k))));
        let mut c = effects(); c.tides = true;
        let mut u = Universe::new(0., 1., vec![star, p], c);
        u.inertial_to_heliocentric();
        u.calculate_additional_effects(0., true, true, true, IgnoreGravityTerms::None);
        u.particles[1].inertial_additional_acceleration.x
    };
    let zero = run(500);
    let before = run(499);
    if zero == 0. || before != 0. { eprintln!("{:e} {:e}", zero, before); fail("the zonal tide does not use the Love number of its frequency"); }
}
"""
