ID = 'b08'; PROPERTY = 'P19'
EDITS = [('src/integrator/whfast.rs', '''delta_total_velocity_2/final_total_velocity_2 < DBL_EPSILON_2 && delta_total_angular_momentum_2/final_total_angular_momentum_2 < DBL_EPSILON_2) ||''', '''delta_total_velocity_2/final_total_velocity_2 < DBL_EPSILON_2 && (delta_total_velocity_2 == 0. || delta_total_angular_momentum_2/final_total_angular_momentum_2 < DBL_EPSILON_2)) ||''')]
NEEDS = 'an effect that only acts on spins (a strong wind) with a time step long enough to need more than three rounds'
BREAKS = 'the iteration of the implicit midpoint rule ends although the spin has not converged'
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); from common import PRE
MAIN = PRE + '''
use posidonius::Integrator;
fn main() {
    let k = 2.0e-5;
    let dt = 0.08;
    let mut star = Particle::new(1.0, constants_r_sun(), 0.2, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.));
    star.set_wind(Wind::new(WindEffect::Interaction, k * 1.0e-2, 1.0e9));
    let planet = Particle::new(1.0e-6, 4.0e-5, 0.5, ax(1., 0., 0.), ax(0., 0.017, 0.), ax(0., 0., 1.));
    let mut c = effects(); c.wind = true;
    let u = Universe::new(0., 1., vec![star, planet], c);
    let i0 = u.particles[0].moment_of_inertia;
    let l0 = u.particles[0].angular_momentum.z;
    let kk = u.particles[0].wind.parameters.input.k_factor;
    let mut w = whfast::WHFast::new(dt, 1.0e9, 1.0e9, u, whfast::CoordinatesType::DemocraticHeliocentric);
    w.initialize_physical_values();
    let mut f = writer("h.bin");
    let _ = w.iterate(&mut f, true);
    let t: serde_json::Value = serde_json::to_value(&w).unwrap();
    let l1 = t["universe"]["particles"][0]["angular_momentum"]["z"].as_f64().unwrap();
    // two half steps of the implicit midpoint rule for dL/dt = -k (L/I)^3
    let mut l = l0;
    for _ in 0..2 {
        let mut n = l;
        for _ in 0..200 { let m = 0.5 * (l + n) / i0; n = l - 0.5 * dt * kk * m * m * m; }
        l = n;
    }
    eprintln!("relative change {:e}, deviation {:e}", (l1 - l0) / l0, (l1 - l) / l);
    if !close(l1, l, 1e-13) { fail("the spin is not the converged solution"); }
}
fn constants_r_sun() -> f64 { posidonius::constants::R_SUN }
'''
