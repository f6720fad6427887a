ID = 'b12'; PROPERTY = 'P24'
EDITS = [('src/integrator/ias15.rs', '''            } else if time_limit < self.universe.time_limit {
                if time_limit < self.current_time {''', '''            } else if time_limit < self.universe.time_limit {
                if time_limit < self.last_recovery_snapshot_time {''')]
NEEDS = 'an IAS15 run resumed with a limit between the last recovery snapshot it recorded and the current time'
BREAKS = 'a time limit in the past is accepted'
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); from common import PRE
MAIN = PRE + '''
use posidonius::Integrator;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let star = Particle::new(1.0, posidonius::constants::R_SUN, 0.2, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.));
    let planet = Particle::new(1.0e-6, 4.0e-5, 0.5, ax(1., 0., 0.), ax(0., 0.017, 0.), ax(0., 0., 1.));
    let u = Universe::new(0., 1.0e4, vec![star, planet], effects());
    let mut w = Ias15::new(0.5, 1.0e3, 1.0e3, u);
    w.initialize_physical_values();
    let mut f = writer("h.bin");
    for _ in 0..5 { let _ = w.iterate(&mut f, true); }
    let past = 0.5 * w.get_current_time();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { w.set_time_limit(past); }));
    if r.is_ok() { fail("a limit in the past is accepted"); }
}
'''
