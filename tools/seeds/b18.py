ID = 'b18'; PROPERTY = 'P08'
EDITS = [('src/effects/tides/creep_coplanar.rs', '''    cayley[1][11] = 1.0 / 24.0 * e4 + 7.0 / 240.0 * e6;''', '''    cayley[1][11] = 1.0 / 24.0 * e4 + 11.0 / 768.0 * e5 + 313.0 / 30720.0 * e6;''')]
NEEDS = 'fast rotation and an eccentric orbit'
BREAKS = 'one harmonic of the tide is followed with the wrong amplitude, so the torque is off by some 1e-4 at eccentricity 0.4'
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); from common import PRE
MAIN = PRE + '''
const X2: [(f64, [f64; 8]); 14] = [
    (9., [0., 0., 0., 0., 0., 0., 0., 12144273. / 71680.]), (8., [0., 0., 0., 0., 0., 0., 73369. / 720., 0.]), (7., [0., 0., 0., 0., 0., 228347. / 3840., 0., -3071075. / 18432.]),
    (6., [0., 0., 0., 0., 533. / 16., 0., -13827. / 160., 0.]), (5., [0., 0., 0., 845. / 48., 0., -32525. / 768., 0., 208225. / 6144.]),
    (4., [0., 0., 17. / 2., 0., -115. / 6., 0., 601. / 48., 0.]), (3., [0., 7. / 2., 0., -123. / 16., 0., 489. / 128., 0., -1763. / 2048.]),
    (2., [1., 0., -5. / 2., 0., 13. / 16., 0., -35. / 288., 0.]), (1., [0., -0.5, 0., 1. / 16., 0., -5. / 384., 0., -143. / 18432.]),
    (-1., [0., 0., 0., 1. / 48., 0., 11. / 768., 0., 313. / 30720.]), (-2., [0., 0., 0., 0., 1. / 24., 0., 7. / 240., 0.]), (-3., [0., 0., 0., 0., 0., 81. / 1280., 0., 81. / 2048.]),
    (-4., [0., 0., 0., 0., 0., 0., 4. / 45., 0.]), (-5., [0., 0., 0., 0., 0., 0., 0., 15625. / 129024.])];
fn main() {
    // the torque on the spin is that of the sum of the harmonics of the tide, each followed with its own lag
    let k2 = posidonius::constants::K2; let pi = std::f64::consts::PI;
    let (e, a, ms, m, r): (f64, f64, f64, f64, f64) = (0.4, 0.03, 0.08, 3.0e-6, 4.3e-5);
    let n = (k2 * (ms + m) / a.powi(3)).sqrt();
    let w = 3. * n;
    let gamma = 2. * n;
    let eta = 3. * k2 * m * m / (8. * pi * r.powi(4) * gamma);
    for s in 0..8 {
        let u = 0.4 + 0.7 * s as f64;
        let l = u - e * u.sin();
        let d = a * (1. - e * u.cos());
        let b = (1. - e * e).sqrt();
        let (x, y) = (a * (u.cos() - e), a * b * u.sin());
        let (vx, vy) = (-a * n * u.sin() * a / d, a * b * n * u.cos() * a / d);
        let f = y.atan2(x);
        let mut star = Particle::new(ms, 8.0e-4, 0.2, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.0));
        star.set_tides(Tides::new(TidesEffect::CentralBody(TidalModel::CreepCoplanar(CreepCoplanarParameters{uniform_viscosity_coefficient: 1.0e10}))));
        let mut p = Particle::new(m, r, 0.5, ax(x, y, 0.), ax(vx, vy, 0.), ax(0., 0., w));
        p.set_tides(Tides::new(TidesEffect::OrbitingBody(TidalModel::CreepCoplanar(CreepCoplanarParameters{uniform_viscosity_coefficient: eta}))));
        let mut c = effects(); c.tides = true;
        let mut v = Universe::new(0., 1., vec![star, p], c);
        v.inertial_to_heliocentric();
        v.calculate_additional_effects(0., true, true, true, IgnoreGravityTerms::None);
        let mut z = 0.;
        for (k, q) in X2.iter() {
            let mut h = 0.; for i in (0..8).rev() { h = h * e + q[i]; }
            let nu = k * n - 2. * w; let t = k * l - 2. * f;
            z += h * gamma * (gamma * t.sin() - nu * t.cos()) / (gamma * gamma + nu * nu);
        }
        let rho = 15. * ms * r.powi(3) / (4. * m * a.powi(3));
        let want = -0.6 * k2 * m * ms * r * r * rho * z / d.powi(3);
        let got = v.particles[1].dangular_momentum_dt.z;
        if !close(got, want, 3e-6) { eprintln!("{} {} {}", u, got, want); fail("creep torque"); }
    }
}
'''
