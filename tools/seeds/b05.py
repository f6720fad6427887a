ID = 'b05'; PROPERTY = 'P07'
EDITS = [('src/effects/tides/constant_time_lag.rs', '''                let particle_mass_2 = particle.mass * particle.mass;
''', '''                let particle_mass_2 = particle.mass * particle.mass;
                if particle.tides.parameters.internal.radial_velocity == 0. {
                    continue; // apsis: there is no radial dissipation
                }
''')]
NEEDS = 'a planet evaluated exactly at an apsis (zero radial velocity), after another evaluation elsewhere or as the first one'
BREAKS = 'the radial tidal force (with its conservative part) of the previous evaluation is used again, so the acceleration is not that of the current state'
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); from common import PRE
MAIN = PRE + '''
fn accel(r: f64, vr: f64) -> Axes {
    let mut star = Particle::new(1.0, 4.65e-3, 0.2, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.0));
    star.set_tides(Tides::new(TidesEffect::CentralBody(TidalModel::ConstantTimeLag(ConstantTimeLagParameters{dissipation_factor: 1.0e-6, dissipation_factor_scale: 1.0, love_number: 0.3}))));
    let mut planet = Particle::new(1.0e-3, 4.0e-4, 0.5, ax(r, 0., 0.), ax(vr, 0.05, 0.), ax(0., 0., 1.));
    planet.set_tides(Tides::new(TidesEffect::OrbitingBody(TidalModel::ConstantTimeLag(ConstantTimeLagParameters{dissipation_factor: 1.0e-6, dissipation_factor_scale: 1.0, love_number: 0.4}))));
    let mut c = effects(); c.tides = true;
    let mut u = Universe::new(0., 1., vec![star, planet], c);
    u.inertial_to_heliocentric();
    u.calculate_additional_effects(0., true, true, true, IgnoreGravityTerms::None);
    u.particles[1].inertial_additional_acceleration
}
fn main() {
    // the force is a smooth function of the radial velocity
    let a = accel(0.0625, 0.);
    let b = accel(0.0625, 1.0e-12);
    if !close(a.x, b.x, 1e-6) { fail("the tidal acceleration at the apsis is not that of its surroundings"); }
}
'''
