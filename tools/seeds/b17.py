ID = 'b17'; PROPERTY = 'P08'
EDITS = [('src/effects/tides/creep_coplanar.rs', '''        if particle_uniform_viscosity_coefficient == 0. {
            continue
        }
        let consider_tides = true;''', '''        if particle_uniform_viscosity_coefficient == 0. {
            break
        }
        let consider_tides = true;''')]
NEEDS = 'a body without creep tides listed before one with them'
BREAKS = 'the figures of the bodies listed after a body without creep tides are not computed, so their tides are those of a previous figure or none'
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); from common import PRE
MAIN = PRE + '''
fn accel(first: bool) -> Axes {
    let mut star = Particle::new(0.08, 8.0e-4, 0.2, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.0));
    star.set_tides(Tides::new(TidesEffect::CentralBody(TidalModel::CreepCoplanar(CreepCoplanarParameters{uniform_viscosity_coefficient: 1.0e10}))));
    let mut p = Particle::new(3.0e-6, 4.3e-5, 0.33, ax(0.02, 0., 0.), ax(0., 0.035, 0.), ax(0., 0., 9.));
    p.set_tides(Tides::new(TidesEffect::OrbitingBody(TidalModel::CreepCoplanar(CreepCoplanarParameters{uniform_viscosity_coefficient: 1.0e10}))));
    let q = Particle::new(1.0e-12, 4.3e-6, 0.33, ax(0., 0.3, 0.), ax(-0.009, 0., 0.), ax(0., 0., 1.));
    let mut c = effects(); c.tides = true;
    let k = if first { 1 } else { 2 };
    let mut u = Universe::new(0., 1., if first { vec![star, p, q] } else { vec![star, q, p] }, c);
    u.inertial_to_heliocentric();
    u.calculate_additional_effects(0., true, true, true, IgnoreGravityTerms::None);
    u.particles[k].inertial_additional_acceleration
}
fn main() {
    // the order in which the bodies are listed does not matter
    let a = accel(true);
    let b = accel(false);
    if a.x == 0. || !close(a.x, b.x, 1e-9) || !close(a.y, b.y, 1e-6) { eprintln!("{:?} {:?}", a, b); fail("the creep tide depends on the order of the bodies"); }
}
'''
