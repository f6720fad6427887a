ID = 'b07'; PROPERTY = 'P15'
EDITS = [('src/effects/evolution.rs', '''        let security_shift = 10;
        if self.left_index > security_shift {
            return self.left_index - security_shift;''', '''        let security_shift = 10;
        if self.left_index >= 2*security_shift {
            return self.left_index - 2; // far enough from the beginning of the table
        } else if self.left_index > security_shift {
            return self.left_index - security_shift;''')]
NEEDS = 'an integrator going back in time by more than two rows of the table, beyond its twentieth row (rejected long step)'
BREAKS = 'the interpolation stops at the first row it still looks at, so the radius is that of a later age'
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); from common import PRE
MAIN = PRE + '''
fn main() {
    let mut e = Evolver::new(EvolutionType::NonEvolving, 0., 1.);
    e.evolution = EvolutionType::Baraffe1998(1.0);
    for i in 0..60 { e.time.push(i as f64 * 10.); e.radius.push(1. + (i * i) as f64); }
    for (go, back) in [(55., 15.), (155., 105.), (305., 295.), (405., 355.), (595., 505.)].iter() {
        let _ = e.radius(*go, 1.);
        let r = e.radius(*back, 1.);
        let i = (*back / 10.0f64).floor();
        let f = back / 10. - i;
        let want = (1. + i * i) * (1. - f) + (1. + (i + 1.) * (i + 1.)) * f;
        if !close(r, want, 1e-12) { fail("the radius is not the one of the table at that time"); }
    }
}
'''
