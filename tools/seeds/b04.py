ID = 'b04'; PROPERTY = 'P13'
EDITS = [('src/effects/wind.rs', '''* particle.spin.z * particle.wind.parameters.internal.rotation_saturation_2''', '''* particle.spin.z.abs() * particle.wind.parameters.internal.rotation_saturation_2''')]
NEEDS = 'a saturated (fast) rotator whose spin points below the reference plane'
BREAKS = 'the vertical torque of the wind accelerates a fast retrograde rotator instead of braking it'
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); from common import PRE
MAIN = PRE + '''
fn main() {
    for (spin, saturation) in [(3.0, 0.5), (-3.0, 0.5), (0.2, 0.5), (-0.2, 0.5)].iter() {
        let mut star = Particle::new(1.0, 4.65e-3, 0.2, ax(0., 0., 0.), ax(0., 0., 0.), ax(0.1, -0.2, *spin));
        star.set_wind(Wind::new(WindEffect::Interaction, 1.0e-6, *saturation));
        let planet = Particle::new(1.0e-6, 4.0e-5, 0.5, ax(1., 0., 0.), ax(0., 0.017, 0.), ax(0., 0., 1.));
        let mut c = effects(); c.wind = true;
        let mut u = Universe::new(0., 1., vec![star, planet], c);
        u.inertial_to_heliocentric();
        u.calculate_additional_effects(0., true, true, true, IgnoreGravityTerms::None);
        let t = u.particles[0].dangular_momentum_dt;
        let s = u.particles[0].spin;
        if !(t.x * s.x < 0. && t.y * s.y < 0. && t.z * s.z < 0.) { fail("the wind does not brake"); }
        if !close(t.z / s.z, t.x / s.x, 1e-9) { fail("the torque is not antiparallel to the spin"); }
    }
}
'''
