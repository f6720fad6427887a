ID = 'b06'; PROPERTY = 'P12'
EDITS = [('src/effects/disk.rs', '''disk_interaction_inclination_damping_force_z = factor_damping_inclination * particle.disk.coordinates.velocity.z;''', '''disk_interaction_inclination_damping_force_z = factor_damping_inclination * particle.disk.coordinates.velocity.z.max(0.);''')]
NEEDS = 'an inclined planet on the descending half of its orbit'
BREAKS = 'the inclination of the orbit is damped only while the planet moves upwards'
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); from common import PRE
MAIN = PRE + '''
fn az(vz: f64) -> f64 {
    let mut star = Particle::new(1.0, 4.65e-3, 0.2, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.0));
    star.set_disk(Disk::new(DiskEffect::CentralBody(DiskProperties{inner_edge_distance: 0.01, outer_edge_distance: 100., lifetime: 1.0e5 * 365.25, alpha: 1.0e-2, surface_density_normalization: 1000. * 1.125e-7, mean_molecular_weight: 2.4})));
    let mut planet = Particle::new(1.0e-5, 4.0e-5, 0.5, ax(1., 0., 0.), ax(0., 0.0172, vz), ax(0., 0., 1.));
    planet.set_disk(Disk::new(DiskEffect::OrbitingBody));
    let mut c = effects(); c.disk = true;
    let mut u = Universe::new(0., 1., vec![star, planet], c);
    u.inertial_to_heliocentric();
    u.calculate_additional_effects(0., true, true, true, IgnoreGravityTerms::None);
    u.particles[1].inertial_additional_acceleration.z
}
fn main() {
    let (up, down) = (az(1.0e-3), az(-1.0e-3));
    if !(up < 0.) { fail("the inclination is not damped"); }
    if !close(up, -down, 1e-9) { fail("up and down are not damped alike"); }
}
'''
