ID = 'b09'; PROPERTY = 'P20'
EDITS = [('src/integrator/ias15.rs', '''                            particle.angular_momentum.x = self.angular_momentum0[3*k+0];	// Set inital angular_momentum
                            particle.angular_momentum.y = self.angular_momentum0[3*k+1];
                            particle.angular_momentum.z = self.angular_momentum0[3*k+2];
                        }
                    }
                    self.time_step = dt_new;''', '''                        }
                    }
                    self.time_step = dt_new;''')]
NEEDS = 'a rejected step with spins integrated'
BREAKS = 'the step is repeated from the angular momenta at the end of the rejected attempt'
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); from common import PRE
MAIN = PRE + '''
use posidonius::Integrator;
fn run(dt: f64) -> (f64, f64, f64) {
    let mut star = Particle::new(1.0, posidonius::constants::R_SUN, 0.2, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.));
    star.set_wind(Wind::new(WindEffect::Interaction, 1.0e-9, 1.0e9));
    let planet = Particle::new(1.0e-6, 4.0e-5, 0.5, ax(0.1, 0., 0.), ax(0., 0.04, 0.), ax(0., 0., 1.));
    let mut c = effects(); c.wind = true;
    let u = Universe::new(0., 1.0e4, vec![star, planet], c);
    let i0 = u.particles[0].moment_of_inertia;
    let mut w = Ias15::new(dt, 1.0e9, 1.0e9, u);
    w.initialize_physical_values();
    let mut f = writer("h.bin");
    let _ = w.iterate(&mut f, true);
    let t: serde_json::Value = serde_json::to_value(&w).unwrap();
    (t["current_time"].as_f64().unwrap(), t["universe"]["particles"][0]["angular_momentum"]["z"].as_f64().unwrap(), i0)
}
fn main() {
    for dt in [0.1, 20.].iter() {
        let (t, l, i0) = run(*dt);
        // exact solution of dL/dt = -k (L/I)^3
        let w0 = 1.0f64;
        let w = (1. / (1. / (w0 * w0) + 2. * 1.0e-9 * t / i0)).sqrt();
        eprintln!("t {} dev {:e}", t, l / i0 / w - 1.);
        if !(t > 0. && t < 20.) { fail("no step"); }
        if !close(l / i0, w, 1e-9) { fail("the spin is not the solution"); }
    }
}
'''
