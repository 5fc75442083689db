//! P07: satellite state and clock from broadcast elements.
use crate::ensure;
use crate::gen::Gen;
use crate::nav::*;
use crate::obs::{max_prn, min_prn};
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::prelude::*;
use std::collections::HashMap;
use std::f64::consts::PI;

/// intermediate quantities of the user algorithm
pub struct Quantities {
    /// argument of latitude, radius, inclination, longitude of the ascending node
    pub u: f64,
    pub r: f64,
    pub i: f64,
    pub om: f64,
    /// true anomaly
    pub nu: f64,
    /// relativistic correction
    pub dtr: f64,
}

/// user algorithm of the interface control documents: ECEF position (m) `tk` seconds after toe
pub fn position(e: &HashMap<&'static str, f64>, sys: char, geo: bool, tk: f64) -> [f64; 3] {
    solve(e, sys, geo, tk).0
}

pub fn solve(e: &HashMap<&'static str, f64>, sys: char, geo: bool, tk: f64) -> ([f64; 3], Quantities) {
    let gm: f64 = if sys == 'G' || sys == 'J' { 3.986005e14 } else { 3.986004418e14 };
    let we = if sys == 'C' { 7.292115e-5 } else { 7.2921151467e-5 };
    let a = e["sqrta"] * e["sqrta"];
    let ecc = e["e"];
    let n = (gm / (a * a * a)).sqrt() + e["deltaN"];
    let m = e["m0"] + n * tk;
    // Newton
    let mut ek = if ecc > 0.5 { PI } else { m };
    for _ in 0..50 {
        let d = (ek - ecc * ek.sin() - m) / (1.0 - ecc * ek.cos());
        ek -= d;
        if d.abs() < 1e-15 {
            break;
        }
    }
    let nu = ((1.0 - ecc * ecc).sqrt() * ek.sin()).atan2(ek.cos() - ecc);
    let phi = nu + e["omega"];
    let (s2, c2) = (2.0 * phi).sin_cos();
    let u = phi + e["cus"] * s2 + e["cuc"] * c2;
    let r = a * (1.0 - ecc * ek.cos()) + e["crs"] * s2 + e["crc"] * c2;
    let i = e["i0"] + e["idot"] * tk + e["cis"] * s2 + e["cic"] * c2;
    let (xo, yo) = (r * u.cos(), r * u.sin());
    let rot = |om: f64| [xo * om.cos() - yo * i.cos() * om.sin(), xo * om.sin() + yo * i.cos() * om.cos(), yo * i.sin()];
    let om = e["omega0"] + (e["omegaDot"] - if geo { 0.0 } else { we }) * tk - we * e["toe"];
    let p = rot(om);
    let c = 299_792_458.0;
    let q = Quantities { u, r, i, om, nu, dtr: -2.0 * gm.sqrt() / c / c * ecc * e["sqrta"] * ek.sin() };
    if geo {
        // Rz(we tk) Rx(-5 deg)
        let f = -5f64 / 180.0 * PI;
        let v = [p[0], p[1] * f.cos() + p[2] * f.sin(), -p[1] * f.sin() + p[2] * f.cos()];
        let z = we * tk;
        ([v[0] * z.cos() + v[1] * z.sin(), -v[0] * z.sin() + v[1] * z.cos(), v[2]], q)
    } else {
        (p, q)
    }
}

pub fn norm(v: [f64; 3]) -> f64 {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}

pub fn uniform(g: &mut Gen, lo: f64, hi: f64) -> f64 {
    let k = g.range(0, 1_000_000_007);
    let x = lo + (hi - lo) * (k as f64) / 1_000_000_007.0;
    // zero is the mark of an absent field
    if x == 0.0 {
        hi
    } else {
        x
    }
}

/// correction term, null now and then
fn term(g: &mut Gen, max: f64) -> f64 {
    if g.chance(1, 6) {
        0.0
    } else {
        uniform(g, -max, max)
    }
}

/// one Keplerian frame in its file
pub struct Kep {
    pub file: NavFile,
    pub f: Frame,
    pub el: HashMap<&'static str, f64>,
    pub clk: [Num; 3],
    pub sys: char,
    pub geo: bool,
    pub toe: i64,
    pub toe_civil: Civil,
    /// validity (s)
    pub max: i64,
}

pub fn keplerian(g: &mut Gen) -> Kep {
    let st = NumStyle::gen(g, 3);
    let major = g.pickc(&[2u8, 3, 4]);
    let sys = if major == 2 { 'G' } else { g.pickc(&['G', 'E', 'C', 'C', 'J']) };
    let prn = if sys == 'C' && g.bool() { g.pickc(&[1i64, 2, 3, 4, 5, 59, 60, 61]) } else { g.range(min_prn(sys), max_prn(sys)) };
    // geostationary satellites: PRN 1 to 5 and 59 to 63
    let geo = sys == 'C' && (prn < 6 || prn > 58);
    let mut f = eph_frame(g, major, sys, st);
    f.prn = prn;
    f.msg = match (major, sys) {
        (4, 'E') => g.pickc(&["INAV", "FNAV"]),
        (4, 'C') => {
            if geo {
                "D2"
            } else {
                "D1"
            }
        },
        _ => "LNAV",
    };
    let toe = match g.below(4) {
        0 => 0,
        1 => 604_799 - g.range(0, 20) * 16,
        _ => g.range(0, 604_799),
    };
    let week = g.range(if sys == 'C' { 600 } else { 2000 }, if sys == 'C' { 1700 } else { 3000 });
    let origin = if sys == 'C' { Civil { y: 2006, mo: 1, d: 1, h: 0, mi: 0, t100: 0 } } else { Civil { y: 1980, mo: 1, d: 6, h: 0, mi: 0, t100: 0 } };
    let toe_civil = Civil::from_ticks(origin.ticks() + (week as i128 * 604800 + toe as i128) * 10_000_000);
    f.toc = toe_civil;
    if g.chance(1, 4) {
        f.toc = toe_civil.add(-g.range(0, 7200) * 10_000_000);
    }
    let high = sys == 'J' || geo || (sys == 'C' && g.bool());
    let sqrta = if high { uniform(g, 6490.0, 6496.0) } else { uniform(g, 5050.0, 5450.0) };
    let e = match g.below(4) {
        0 => uniform(g, 1e-7, 1e-3),
        1 => uniform(g, 0.1, 0.22),
        _ => uniform(g, 1e-5, 0.05),
    };
    let i0 = if geo { uniform(g, 1e-4, 0.12) } else { uniform(g, 0.6, 1.15) };
    let vals: Vec<(&'static str, f64)> = vec![
        ("sqrta", sqrta),
        ("e", e),
        ("i0", i0),
        ("m0", uniform(g, -PI, PI)),
        ("omega", uniform(g, -PI, PI)),
        ("omega0", uniform(g, -PI, PI)),
        ("toe", toe as f64),
        ("week", week as f64),
        ("deltaN", term(g, 6e-9)),
        ("omegaDot", term(g, 1e-8)),
        ("idot", term(g, 2e-9)),
        ("cuc", term(g, 3e-5)),
        ("cus", term(g, 3e-5)),
        ("cic", term(g, 3e-7)),
        ("cis", term(g, 3e-7)),
        ("crc", term(g, 900.0)),
        ("crs", term(g, 900.0)),
    ];
    let t = table(major, sys, f.msg);
    let clk = [num(term(g, 1e-3), st), num(term(g, 1e-10), st), num(term(g, 1e-17), st)];
    let words: Vec<Option<Num>> = t
        .iter()
        .map(|(n, k)| match vals.iter().find(|(v, _)| v == n) {
            // null corrections are written or left out
            Some((_, x)) if *x == 0.0 && *n != "toe" && g.bool() => None,
            Some((_, x)) => Some(num(*x, st)),
            None => word(g, sys, n, *k, st),
        })
        .collect();
    let mut el: HashMap<&'static str, f64> = HashMap::new();
    for ((n, _), w) in t.iter().zip(&words) {
        el.insert(n, w.as_ref().map(|w| w.val).unwrap_or(0.0));
    }
    f.body = Body::Eph { clk: clk.clone(), words };
    let file = NavFile { major, minor: 0, system: if major == 2 { 'G' } else { 'M' }, frames: vec![f.clone()], extra: vec![] };
    let max = match sys {
        'E' => 10800,
        'C' => 21600,
        _ => 7200,
    };
    Kep { file, f, el, clk, sys, geo, toe, toe_civil, max }
}

fn run(g: &mut Gen) -> Res {
    let Kep { file, f, el, clk, sys, geo, toe, toe_civil, max } = keplerian(g);
    g.text = file.text(g);
    g.nontrivial = true;
    g.label(match sys {
        'G' => "GPS",
        'E' => "Galileo",
        'J' => "QZSS",
        _ if geo => "BeiDou GEO",
        _ => "BeiDou",
    });
    g.label_if(toe == 0, "toe at the start of the week");
    let rnx = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    let (k, eph) = match rnx.nav_ephemeris_frames_iter().next() {
        Some(x) => x,
        None => return fail("missing", "frame not decoded"),
    };
    let ts = timescale(sys);
    for _ in 0..3 {
        let ticks = g.range(0, max * 10_000_000 - 1);
        let ticks = match g.below(4) {
            0 => 0,
            1 => ticks / 10_000_000 * 10_000_000,
            _ => ticks,
        };
        let tk = ticks as f64 * 1e-7;
        let t = toe_civil.add(ticks).epoch(ts);
        let t = if g.bool() { t.to_time_scale(g.pickc(&[TimeScale::GPST, TimeScale::UTC, TimeScale::BDT])) } else { t };
        let target = f.sv();
        // position
        let want = position(&el, sys, geo, tk);
        let orbit = match eph.kepler2position(target, k.epoch, t) {
            Some(o) => o,
            None => return fail("no-state", format!("no state for {} {} s after toe", target, tk)),
        };
        let s = orbit.to_cartesian_pos_vel();
        let d = norm([s[0] * 1e3 - want[0], s[1] * 1e3 - want[1], s[2] * 1e3 - want[2]]);
        ensure!(d < 0.02, "position", "{} {} s after toe: {} m off, {:?} instead of {:?}", target, tk, d, s, want);
        // velocity: derivative of the reference position
        let h = 0.5;
        let (p, q) = (position(&el, sys, geo, tk + h), position(&el, sys, geo, tk - h));
        let vel = [(p[0] - q[0]) / (2.0 * h), (p[1] - q[1]) / (2.0 * h), (p[2] - q[2]) / (2.0 * h)];
        let d = norm([s[3] * 1e3 - vel[0], s[4] * 1e3 - vel[1], s[5] * 1e3 - vel[2]]);
        ensure!(d < 1e-4, "velocity", "{} {} s after toe: {} m/s off, {:?} instead of {:?}", target, tk, d, s, vel);
        // other entry points
        match eph.kepler2position_velocity(target, k.epoch, t) {
            None => return fail("no-state", format!("no position, velocity for {} {} s after toe", target, tk)),
            Some((p, v)) => {
                let d = norm([p[0] - s[0], p[1] - s[1], p[2] - s[2]]) + norm([v[0] - s[3], v[1] - s[4], v[2] - s[5]]);
                ensure!(d < 1e-9, "entry-points", "{:?} {:?} and {:?}", p, v, s);
            },
        }
        // the quantities behind it
        let lag = g.range(0, 200_000_000) as f64 * 1e-9;
        let h = match eph.helper(target, t - Duration::from_seconds(lag), t) {
            Some(h) => h,
            None => return fail("no-state", format!("no helper for {} {} s after toe", target, tk)),
        };
        match h.position() {
            None => return fail("no-state", format!("no position for {} {} s after toe", target, tk)),
            Some(p) => {
                let d = norm([p[0] - s[0], p[1] - s[1], p[2] - s[2]]);
                ensure!(d < 1e-9, "entry-points", "{:?} and {:?}", p, s);
            },
        }
        let turn = |a: f64, b: f64| {
            let d = (a - b).rem_euclid(2.0 * PI);
            d.min(2.0 * PI - d)
        };
        let w = solve(&el, sys, geo, tk).1;
        let (a, b) = (solve(&el, sys, geo, tk + 0.5).1, solve(&el, sys, geo, tk - 0.5).1);
        let checks = [
            ("t_k", (h.t_k - tk).abs(), 1e-7),
            ("u_k", turn(h.u_k, w.u), 1e-9),
            ("r_k", (h.r_k - w.r).abs(), 0.01),
            ("i_k", turn(h.i_k, w.i), 1e-9),
            ("omega_k", turn(h.omega_k, w.om), 1e-9),
            ("x", (h.r_sv.0 - w.r * w.u.cos()).abs(), 0.02),
            ("y", (h.r_sv.1 - w.r * w.u.sin()).abs(), 0.02),
            ("z", h.r_sv.2.abs(), 0.0),
            ("dtr", (h.dtr - w.dtr).abs(), 1e-15),
            ("fd_dtr", (h.fd_dtr - (a.dtr - b.dtr)).abs(), 1e-16),
            ("fd_u_k", (h.fd_u_k - (turn(a.u, b.u))).abs(), 1e-11),
            ("fd_r_k", (h.fd_r_k - (a.r - b.r)).abs(), 1e-4),
            ("fd_i_k", (h.fd_i_k - (a.i - b.i)).abs(), 1e-12),
            ("fd_omega_k", (h.fd_omega_k - (a.om - b.om)).abs(), 1e-12),
            // the satellite clock is late by `lag`
            ("rotation", (h.cie_rot[(0, 1)] - (if sys == 'C' { 7.292115e-5 } else { 7.2921151467e-5 } * lag).sin()).abs(), 1e-12),
            ("rotation", (h.cie_rot[(0, 1)] + h.cie_rot[(1, 0)]).abs() + (h.cie_rot[(0, 0)] - h.cie_rot[(1, 1)]).abs(), 1e-9),
            ("rotation axis", h.cie_rot[(0, 2)].abs() + h.cie_rot[(1, 2)].abs() + h.cie_rot[(2, 0)].abs() + h.cie_rot[(2, 1)].abs() + (h.cie_rot[(2, 2)] - 1.0).abs(), 1e-9),
        ];
        for (what, err, max) in checks {
            ensure!(err <= max, "helper", "{} {} s after toe: {} is off by {}: {:?}", target, tk, what, err, h);
        }
        let o = [
            ("semi major axis", h.orbit.sma_km().ok(), el["sqrta"] * el["sqrta"] * 1e-3, 1e-6),
            ("eccentricity", h.orbit.ecc().ok(), el["e"], 1e-8),
        ];
        for (what, got, want, max) in o {
            ensure!(got.map_or(false, |x| (x - want).abs() < max), "orbit", "{} {:?} instead of {}", what, got, want);
        }
        // along the orbital plane: node + argument of perigee + true anomaly
        let s = h.orbit.radius_km;
        let (phi, r) = (w.nu + el["omega"], el["sqrta"] * el["sqrta"] * 1e-3 * (1.0 - el["e"] * el["e"]) / (1.0 + el["e"] * w.nu.cos()));
        let (x, y) = (r * phi.cos(), r * phi.sin());
        let want = [x * w.om.cos() - y * w.i.cos() * w.om.sin(), x * w.om.sin() + y * w.i.cos() * w.om.cos(), y * w.i.sin()];
        let d = norm([s[0] - want[0], s[1] - want[1], s[2] - want[2]]);
        ensure!(d < 1e-3, "orbit", "{} {} s after toe: {:?} instead of {:?}", target, tk, s, want);
        if t >= k.epoch {
            let s = orbit.to_cartesian_pos_vel();
            match rnx.sv_orbit(target, t) {
                None => return fail("no-orbit", format!("no orbit for {} {} s after toe", target, tk)),
                Some(o) => {
                    let o = o.to_cartesian_pos_vel();
                    ensure!((o - s).norm() < 1e-9, "entry-points", "{:?} and {:?}", o, s);
                },
            }
        }
        // clock
        let dt = ticks + ((toe_civil.ticks() - f.toc.ticks()) as i64);
        let dt = dt as f64 * 1e-7;
        let iter = g.usize(0, 4);
        let want = clk[0].val + clk[1].val * dt + clk[2].val * dt * dt;
        let toc = if g.bool() { k.epoch.to_time_scale(g.pickc(&[TimeScale::GPST, TimeScale::UTC, TimeScale::BDT])) } else { k.epoch };
        match eph.clock_correction(toc, t, target, iter) {
            None => return fail("no-clock", format!("no clock correction {} s after toc", dt)),
            Some(c) => {
                let got = c.total_nanoseconds() as f64;
                ensure!((got - want * 1e9).abs() <= 1.5, "clock", "{} s after toc: {} ns instead of {} ns", dt, got, want * 1e9);
            },
        }
    }
    // nothing before
    let before = toe_civil.add(-g.range(1, 72_000_000_000)).epoch(ts);
    ensure!(eph.kepler2position(f.sv(), k.epoch, before).is_none(), "before-toe", "state at {:?}", before);
    Ok(())
}

/// GLONASS and SBAS satellites broadcast the state itself: it is the one of the frame
fn broadcast(g: &mut Gen) -> Res {
    let major = g.pickc(&[2u8, 3, 4]);
    let st = NumStyle::gen(g, major);
    let sys = if major == 2 { 'R' } else { g.pickc(&['R', 'S']) };
    let mut f = eph_frame(g, major, sys, st);
    g.label(if sys == 'R' { "GLONASS" } else { "SBAS" });
    g.nontrivial = true;
    let names = ["satPosX", "satPosY", "satPosZ", "velX", "velY", "velZ"];
    let mut want = [0.0; 6];
    let t = table(major, sys, f.msg);
    let Body::Eph { words, .. } = &mut f.body else { return Ok(()) };
    for ((n, _), w) in t.iter().zip(words.iter_mut()) {
        if let Some(i) = names.iter().position(|x| x == n) {
            let x = num(uniform(g, 0.0001, 1.0) * if i < 3 { 3e4 } else { 4.0 } * if g.bool() { -1.0 } else { 1.0 }, st);
            want[i] = x.val;
            *w = Some(x);
        }
    }
    let file = NavFile { major, minor: 0, system: if major == 2 { 'R' } else { 'M' }, frames: vec![f.clone()], extra: vec![] };
    g.text = file.text(g);
    let rnx = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    let (k, eph) = match rnx.nav_ephemeris_frames_iter().next() {
        Some(x) => x,
        None => return fail("missing", "frame not decoded"),
    };
    let t = k.epoch + Duration::from_seconds(g.range(0, 600) as f64);
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * b.abs();
    match eph.kepler2position(f.sv(), k.epoch, t) {
        Some(o) => {
            let s = o.to_cartesian_pos_vel();
            ensure!((0..3).all(|i| near(s[i], want[i])), "broadcast-state", "{:?} instead of {:?}", s, want);
            ensure!(o.epoch == t, "broadcast-state", "state at {:?} instead of {:?}", o.epoch, t);
        },
        None => return fail("no-state", format!("no position for {:?}", want)),
    }
    match eph.kepler2position_velocity(f.sv(), k.epoch, t) {
        Some((p, v)) => ensure!((0..3).all(|i| near(p[i], want[i]) && near(v[i], want[i + 3])), "broadcast-state", "{:?} {:?} instead of {:?}", p, v, want),
        None => return fail("no-state", format!("no position and velocity for {:?}", want)),
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P07",
        parts: vec![Part { name: "state", run: run, quick: 300_000, thorough: 8_000_000 }, Part { name: "broadcast", run: broadcast, quick: 60_000, thorough: 1_000_000 }],
        rule: "one frame of GPS, Galileo, QZSS, BeiDou MEO/IGSO or BeiDou GEO with elements drawn in physical ranges (eccentricity up to 0.22, null corrections written or blank, times of ephemeris at week changes), written and parsed; at three instants of its validity, asked in several timescales, position within 2 cm of an independent implementation of the user algorithm (Newton solver), velocity within 0.1 mm/s of the numerical derivative of that implementation, clock within 1.5 ns of the polynomial; broadcast: a Glonass or SBAS frame, its state being the one it carries. All cases are non-trivial.",
        assumptions: &["LNAV, INAV, FNAV, D1 and D2 messages (CNAV like messages carry no time of ephemeris for the library)", "the six Keplerian elements are not exactly zero (zero marks an absent field)", "relativistic correction is the caller's, as the library documents the bare polynomial"],
    }
}
