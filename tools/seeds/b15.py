ID = 'b15'; PROPERTY = 'P18'
EDITS = [('src/integrator/whfast.rs', '''        while z.abs() > 0.1 {''', '''        while z > 0.1 || z < -1. {''')]
NEEDS = 'a hyperbolic orbit advanced by a step with a moderate anomaly'
BREAKS = 'the series of the hyperbolic orbit are cut where they are not accurate, so energy is not conserved to rounding'
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); from common import PRE
MAIN = PRE + '''
use posidonius::Integrator;
fn main() {
    let mut worst: f64 = 0.;
    for k in 1..40 {
        let star = Particle::new(1.0, 1.0e-4, 0.2, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.));
        let planet = Particle::new(1.0e-9, 4.0e-8, 0.5, ax(1., 0., 0.), ax(0., 0.03, 0.), ax(0., 0., 1.));
        let u = Universe::new(0., 1.0e9, vec![star, planet], effects());
        let gm = u.particles[0].mass_g + u.particles[1].mass_g;
        let mut w = whfast::WHFast::new(4. * k as f64, 1.0e9, 1.0e9, u, whfast::CoordinatesType::Jacobi);
        w.initialize_physical_values();
        let mut f = writer("h.bin");
        for _ in 0..2 { let _ = w.iterate(&mut f, true); }
        let t: serde_json::Value = serde_json::to_value(&w).unwrap();
        let c = |i: usize, a: &str, b: &str| t["universe"]["particles"][i][a][b].as_f64().unwrap();
        let d = |a: &str, b: &str| c(1, a, b) - c(0, a, b);
        let (x, y, vx, vy) = (d("inertial_position", "x"), d("inertial_position", "y"), d("inertial_velocity", "x"), d("inertial_velocity", "y"));
        let e = 0.5 * (vx * vx + vy * vy) - gm / (x * x + y * y).sqrt();
        let e0 = 0.5 * 0.03 * 0.03 - gm;
        worst = worst.max((e / e0 - 1.).abs());
    }
    eprintln!("{:e}", worst);
    if !(worst < 3e-13) { fail("the two-body motion does not conserve energy"); }
}
'''
