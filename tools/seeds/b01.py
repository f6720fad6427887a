ID = 'b01'; PROPERTY = 'P01'
EDITS = [('src/particles/universe.rs', '''                let distance = distance_2.sqrt();
                let prefact = -G/(distance*distance*distance) * particle_b.mass;
''', '''                if particle_b.mass < 1.0e-12 {
                    // Test particles do not perturb the rest of the system
                    continue
                }
                let distance = distance_2.sqrt();
                let prefact = -G/(distance*distance*distance) * particle_b.mass;
''')]
NEEDS = 'a body lighter than 1e-12 solar masses (an asteroid): its pull on the others is dropped'
BREAKS = 'the acceleration of the other bodies misses the term of the light body and the forces no longer add up to zero'
MAIN = '''
use posidonius::*;
fn p(m: f64, x: f64, y: f64) -> Particle {
    Particle::new(m, 1.0e-5, 0.2, Axes{x: x, y: y, z: 0.}, Axes{x: 0., y: 0., z: 0.}, Axes{x: 0., y: 0., z: 1.})
}
fn main() {
    let ps = vec![p(1.0, 0., 0.), p(1.0e-13, 1.0, 0.), p(2.0e-13, 0., 1.0)];
    let c = ConsiderEffects { tides: false, rotational_flattening: false, general_relativity: false, disk: false, wind: false, evolution: false };
    let mut u = Universe::new(0., 1., ps, c);
    u.gravity_calculate_acceleration(IgnoreGravityTerms::None);
    let f: f64 = (0..3).map(|i| u.particles[i].mass * u.particles[i].inertial_acceleration.x).sum();
    let g: f64 = (u.particles[1].mass * u.particles[1].inertial_acceleration.x).abs();
    if f.abs() > 1e-6 * g { eprintln!("forces do not cancel: {} of {}", f, g); std::process::exit(1); }
}
'''
