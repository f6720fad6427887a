ID = 'b16'; PROPERTY = 'P14'
EDITS = [('src/particles/universe.rs', '''            if !self.hosts.most_massive.all {
                if initialize_tides''', '''            if !(self.hosts.most_massive.all || (self.hosts.most_massive.tides && initialize_tides)) {
                if initialize_tides''')]
NEEDS = 'tides hosted by the most massive body together with a disk around another body'
BREAKS = 'the disk acts with positions and velocities of an earlier state (or none)'
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); from common import PRE
MAIN = PRE + '''
fn accel(tides: bool) -> f64 {
    let ctl = TidalModel::ConstantTimeLag(ConstantTimeLagParameters{dissipation_factor: 1.0e-6, dissipation_factor_scale: 1.0, love_number: 0.3});
    let mut star = Particle::new(1.0, 4.65e-3, 0.2, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.0));
    if tides { star.set_tides(Tides::new(TidesEffect::CentralBody(ctl))); }
    let mut planet = Particle::new(1.0e-3, 4.0e-4, 0.5, ax(1., 0., 0.), ax(0., 0.0172, 0.), ax(0., 0., 1.));
    if tides { planet.set_tides(Tides::new(TidesEffect::OrbitingBody(ctl))); }
    planet.set_disk(Disk::new(DiskEffect::CentralBody(DiskProperties{inner_edge_distance: 0.0001, outer_edge_distance: 100., lifetime: 1.0e5 * 365.25, alpha: 1.0e-2, surface_density_normalization: 1000. * 1.125e-7, mean_molecular_weight: 2.4})));
    let mut moon = Particle::new(1.0e-7, 4.0e-6, 0.5, ax(1.01, 0., 0.), ax(0., 0.0172 + 5.4e-3, 0.), ax(0., 0., 1.));
    moon.set_disk(Disk::new(DiskEffect::OrbitingBody));
    let mut c = effects(); c.disk = true; c.tides = tides;
    let mut u = Universe::new(0., 1., vec![star, planet, moon], c);
    u.inertial_to_heliocentric();
    u.calculate_additional_effects(0., true, true, true, IgnoreGravityTerms::None);
    u.particles[2].disk.parameters.output.acceleration.y
}
fn main() {
    let (a, b) = (accel(false), accel(true));
    if !(a != 0. && close(b, a, 1e-12)) { eprintln!("{:e} {:e}", a, b); fail("the disk acts differently when tides are enabled"); }
}
'''
