ID = 'b03'; PROPERTY = 'P05'
EDITS = [('src/particles/universe.rs', '''            for particle in particles_left.iter_mut().chain(particles_right.iter_mut()) {
                particle.heliocentric_position.x = particle.inertial_position.x - host_particle.inertial_position.x;''',
'''            for particle in particles_left.iter_mut().chain(particles_right.iter_mut()).take(self.n_particles.max(2)-1).skip(if self.n_particles > 8 { self.hosts.index.most_massive } else { 0 }) {
                particle.heliocentric_position.x = particle.inertial_position.x - host_particle.inertial_position.x;''')]
NEEDS = 'more than eight bodies with the most massive one not listed first'
BREAKS = 'the bodies listed before the most massive one keep old heliocentric coordinates'
MAIN = '''
use posidonius::*;
fn main() {
    let n = 9;
    let mut ps = vec![];
    for i in 0..n {
        let x = 1.0 + i as f64;
        let m = if i == 3 { 1.0 } else { 1.0e-6 };
        let (px, vy) = if i == 3 { (0., 0.) } else { (x, 0.01 / x) };
        ps.push(Particle::new(m, 1.0e-6, 0.2, Axes{x: px, y: 0., z: 0.}, Axes{x: 0., y: vy, z: 0.}, Axes{x: 0., y: 0., z: 1.}));
    }
    let c = ConsiderEffects { tides: false, rotational_flattening: false, general_relativity: false, disk: false, wind: false, evolution: false };
    let mut u = Universe::new(0., 1., ps, c);
    for i in 0..n { u.particles[i].inertial_position.y += 0.5 + 0.01 * i as f64; }
    u.inertial_to_heliocentric();
    for i in 0..n {
        let d = u.particles[i].inertial_position.y - u.particles[3].inertial_position.y;
        if (u.particles[i].heliocentric_position.y - d).abs() > 1e-12 { eprintln!("body {} has old heliocentric coordinates", i); std::process::exit(1); }
    }
}
'''
