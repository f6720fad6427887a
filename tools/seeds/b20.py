ID = 'b20'; PROPERTY = 'P09'
EDITS = [('src/effects/tides/kaula.rs', """                _ if (eccentricity > 0.25) => 6, // if ecc > 0.20 take q btw -6 and 6""", """                _ if (eccentricity > 0.25) => 5, // if ecc > 0.20 take q btw -6 and 6""")]
NTH = {EDITS[0][1]: 1}
NEEDS = 'a tide of a Kaula body with an eccentricity in (0.25, 0.3] that responds at the mode q = 6'
BREAKS = 'the orthogonal component and the torque leave out the mode q = 6 for eccentricities in (0.25, 0.3]'
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); from common import PRE
MAIN = PRE + r"""
fn table(f: &dyn Fn(usize) -> (f64, f64, f64)) -> KaulaParameters {
    let mut k = KaulaParameters { love_number_excitation_frequency: [0.; 1024], real_part_love_number: [0.; 1024], imaginary_part_love_number: [0.; 1024],
        num_datapoints: 1024., polynomials: Polynomials::new(), kaula_tidal_force: ax(0., 0., 0.) };
    for i in 0..1024 { let (w, r, m) = f(i); k.love_number_excitation_frequency[i] = w; k.real_part_love_number[i] = r; k.imaginary_part_love_number[i] = m; }
    k
}

fn main() {
    // a body that responds only near the frequency of the mode q = 6
    let (a, e, m, ms): (f64, f64, f64, f64) = (0.03, 0.28, 3.0e-6, 0.08);
    let n = (posidonius::constants::K2 * (ms + m) / a.powi(3)).sqrt();
    let w = 0.05 * n;
    let f6 = (8. * n - 2. * w) / 86400.;
    let f1 = n / 86400.;
    let k = table(&|i| { let f = f1 * 10. * (i as f64) / 1023.; (f, 0., if (f - f6).abs() < 0.3 * f1 { -0.1 } else { 0. }) });
    let mut star = Particle::new(ms, 8.0e-4, 0.2, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.0));
    star.set_tides(Tides::new(TidesEffect::CentralBody(TidalModel::Kaula(table(&|i| (1e-10 * (i as f64 - 500.), 0., 0.))))));
    let q = a * (1. - e);
    let v = (posidonius::constants::K2 * (ms + m) / a * (1. + e) / (1. - e)).sqrt();
    let mut p = Particle::new(m, 4.3e-5, 0.33, ax(q, 0., 0.), ax(0., v, 0.), ax(0., 0., w));
    p.set_tides(Tides::new(TidesEffect::OrbitingBody(TidalModel::Kaula(k))));
    let mut c = effects(); c.tides = true;
    let mut u = Universe::new(0., 1., vec![star, p], c);
    u.inertial_to_heliocentric();
    u.calculate_additional_effects(0., true, true, true, IgnoreGravityTerms::None);
    let got = u.particles[1].dangular_momentum_dt.z;
    // torque of the mode, with G_20q at the sixth order of the eccentricity
    let g = 73369. / 720. * e.powi(6);
    let r: f64 = 4.3e-5;
    let want = 1.5 * posidonius::constants::K2 * ms * ms * r.powi(5) / a.powi(6) * g * g * 0.1;
    if !close(got.abs(), want, 0.05) { eprintln!("{:e} {:e}", got, want); fail("the torque of the mode q = 6 is missing"); }
}
"""
