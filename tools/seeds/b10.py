ID = 'b10'; PROPERTY = 'P21'
EDITS = [('src/integrator/leapfrog.rs', '''self.last_recovery_snapshot_time + self.recovery_snapshot_period <= self.current_time;''', '''self.last_recovery_snapshot_time.max(self.last_historic_snapshot_time) + self.recovery_snapshot_period <= self.current_time;''')]
NEEDS = 'a historic period shorter than the recovery period'
BREAKS = 'every record postpones the recovery snapshot, so none is ever asked for after the first'
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); from common import PRE
MAIN = PRE + '''
use posidonius::Integrator;
fn main() {
    for (historic, recovery) in [(8.0, 2.0), (1.0, 4.0)].iter() {
        let star = Particle::new(1.0, posidonius::constants::R_SUN, 0.2, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 1.));
        let planet = Particle::new(1.0e-6, 4.0e-5, 0.5, ax(1., 0., 0.), ax(0., 0.017, 0.), ax(0., 0., 1.));
        let u = Universe::new(0., 1.0e4, vec![star, planet], effects());
        let mut w = LeapFrog::new(0.5, *recovery, *historic, u);
        w.initialize_physical_values();
        let mut f = writer("h.bin");
        let mut asked = 0;
        for _ in 0..64 {
            if let Ok(true) = w.iterate(&mut f, true) { asked += 1; w.write_recovery_snapshot(std::path::Path::new("s.bin"), &mut f); }
        }
        let due = (32.0 / recovery) as i32;
        if (asked - due).abs() > due / 3 + 1 { fail("recovery snapshots are not asked for when they are due"); }
    }
}
'''
