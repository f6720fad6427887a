ID = 'b14'; PROPERTY = 'P25'
EDITS = [('src/tools.rs', '''let ey_rot_2 = ey_rot*i.cos() + ez_rot*i.sin();''', '''let ey_rot_2 = ey_rot*(hz/h).abs() + ez_rot*i.sin();''')]
NEEDS = 'a retrograde orbit (inclination beyond 90 degrees) that is not circular'
BREAKS = 'the longitude of perihelion of retrograde orbits is wrong'
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); from common import PRE
MAIN = PRE + '''
fn main() {
    let gm = 2.959e-4;
    for inc in [0.3, 1.2, 1.9, 2.8].iter() {
        for p in [0.9, 2.1, 4.4].iter() {
            let (q, e, n, l) = (0.7, 0.3, 0.5, 1.1);
            let (x, y, z, u, v, w) = tools::calculate_cartesian_coordinates(gm, q, e, *inc, *p, n, l);
            let r = tools::calculate_keplerian_orbital_elements(gm, ax(x, y, z), ax(u, v, w));
            let d = (r.4 - p).rem_euclid(2. * std::f64::consts::PI);
            let d = d.min(2. * std::f64::consts::PI - d);
            if !(d < 1e-6) { eprintln!("{} {} {:?}", inc, p, r); fail("longitude of perihelion"); }
        }
    }
}
'''
