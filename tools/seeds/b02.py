ID = 'b02'; PROPERTY = 'P02'
EDITS = [('src/particles/universe.rs', '''                if particle_a.mass > particle_b.mass {
                    // particle a is the most massive of both
                    *roche_radius = (particle_b.radius/0.462)*(particle_a.mass/particle_b.mass).powf(1./3.);''',
'''                if i < j {
                    // particle a is the most massive of both
                    *roche_radius = (particle_b.radius/0.462)*(particle_a.mass/particle_b.mass).powf(1./3.);''')]
NEEDS = 'the heavier body of a pair listed after the lighter one'
BREAKS = 'the Roche radius of the pair uses the lighter body as primary, so a body inside the Roche limit of its host is not detected (or one outside is)'
MAIN = '''
use posidonius::*;
fn p(m: f64, r: f64, x: f64) -> Particle {
    Particle::new(m, r, 0.2, Axes{x: x, y: 0., z: 0.}, Axes{x: 0., y: 0., z: 0.}, Axes{x: 0., y: 0., z: 1.})
}
fn run(d: f64) -> bool {
    let ps = vec![p(1.0e-3, 5.0e-4, d), p(1.0, 1.0e-3, 0.)];
    let c = ConsiderEffects { tides: false, rotational_flattening: false, general_relativity: false, disk: false, wind: false, evolution: false };
    std::panic::catch_unwind(|| {
        let mut u = Universe::new(0., 1., ps, c);
        u.calculate_roche_radiuses();
        u.gravity_calculate_acceleration(IgnoreGravityTerms::None);
    }).is_err()
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // Roche limit of the light body around the heavy one: 5e-4/0.462*10 = 0.0108
    if !run(0.0100) { eprintln!("a body inside the Roche limit is not detected"); std::process::exit(1); }
    if run(0.0120) { eprintln!("a body outside the Roche limit is destroyed"); std::process::exit(1); }
}
'''
