ID = 'b13'; PROPERTY = 'P17'
EDITS = [('src/integrator/whfast.rs', '''                    if i > 0 { // The star''', '''                    if i > self.universe.hosts.index.most_massive { // The star''')]
NEEDS = 'Jacobi coordinates, three or more bodies, the most massive one not listed first'
BREAKS = 'the Kepler part is not taken out of the kick of the planets listed before the star'
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); from common import PRE
MAIN = PRE + '''
use posidonius::Integrator;
fn run(first: bool) -> f64 {
    let star = Particle::new(1.0, posidonius::constants::R_SUN, 0.2, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.));
    let p = |r: f64, v: f64| Particle::new(1.0e-6, 4.0e-5, 0.5, ax(r, 0., 0.), ax(0., v, 0.), ax(0., 0., 1.));
    let a = p(0.1, 0.0544); let b = p(0.3, 0.0314); let c = p(0.9, 0.0181);
    let bodies = if first { vec![star, a, b, c] } else { vec![a, b, star, c] };
    let k = if first { 2 } else { 1 };
    let s = if first { 0 } else { 2 };
    let u = Universe::new(0., 1.0e4, bodies, effects());
    let mut w = whfast::WHFast::new(0.1, 1.0e3, 1.0e3, u, whfast::CoordinatesType::Jacobi);
    w.initialize_physical_values();
    let mut f = writer("h.bin");
    for _ in 0..40 { let _ = w.iterate(&mut f, true); }
    let t: serde_json::Value = serde_json::to_value(&w).unwrap();
    t["universe"]["particles"][k]["inertial_position"]["x"].as_f64().unwrap() - t["universe"]["particles"][s]["inertial_position"]["x"].as_f64().unwrap()
}
fn main() {
    let (a, b) = (run(true), run(false));
    if !close(a, b, 1e-7) { eprintln!("{} {}", a, b); fail("the order of the bodies changes the motion"); }
}
'''
