ID = 'b11'; PROPERTY = 'P23'
EDITS = [('src/integrator/whfast.rs', '''        self.last_recovery_snapshot_time = self.current_time;
        universe_history_writer.flush().unwrap();''', '''        let period_over = self.last_recovery_snapshot_time + self.recovery_snapshot_period <= self.current_time;
        self.last_recovery_snapshot_time = self.current_time;
        if period_over {
            universe_history_writer.flush().unwrap();
        }''')]
NEEDS = 'a snapshot written before its period is over (execution time limit), with the process dying afterwards'
BREAKS = 'the snapshot counts records which are still in the memory of the process'
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); from common import PRE
MAIN = PRE + '''
use posidonius::Integrator;
fn main() {
    let star = Particle::new(1.0, posidonius::constants::R_SUN, 0.2, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.));
    let planet = Particle::new(1.0e-6, 4.0e-5, 0.5, ax(1., 0., 0.), ax(0., 0.017, 0.), ax(0., 0., 1.));
    let u = Universe::new(0., 1.0e4, vec![star, planet], effects());
    let mut w = whfast::WHFast::new(0.5, 100., 1., u, whfast::CoordinatesType::Jacobi);
    w.initialize_physical_values();
    let mut f = writer("h.bin");
    for n in 0..12 {
        let due = w.iterate(&mut f, true).unwrap_or(false);
        if due || n == 7 {
            w.write_recovery_snapshot(std::path::Path::new("s.bin"), &mut f);
            let have = std::fs::metadata("h.bin").unwrap().len();
            let want = w.get_n_historic_snapshots() as u64 * w.get_n_particles() as u64 * output::n_bytes_per_particle_in_historic_snapshot();
            if have < want { fail("the snapshot counts records that are not in the history file"); }
        }
    }
}
'''
