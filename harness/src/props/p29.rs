//! P29: positions and look angles.
use super::p07::{keplerian, norm, position, uniform, Kep};
use crate::ensure;
use crate::gen::Gen;
use crate::nav::*;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use anise::naif::SPK;
use anise::structure::planetocentric::ellipsoid::Ellipsoid;
use rinex::meteo::Sensor;
use rinex::navigation::Ephemeris;
use rinex::prelude::nav::{Almanac, Frame, Orbit};
use rinex::prelude::*;
use std::sync::OnceLock;

const A: f64 = 6378.137;
const F: f64 = 1.0 / 298.257223563;

/// An ephemeris file where the Earth rests at the origin, as translations within the Earth
/// frame go through the tree of the almanac.
fn spk() -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    let i = |b: &mut Vec<u8>, v: i32| b.extend(v.to_le_bytes());
    let d = |b: &mut Vec<u8>, v: f64| b.extend(v.to_le_bytes());
    b.extend(b"DAF/SPK ");
    i(&mut b, 2);
    i(&mut b, 6);
    b.extend([b' '; 60]);
    i(&mut b, 2);
    i(&mut b, 2);
    let data = 3 * 128 + 1;
    // two terms for each coordinate
    let rsize = 2 + 3 * 2;
    let end = data + rsize + 4 - 1;
    i(&mut b, end + 1);
    b.extend(b"LTL-IEEE");
    b.resize(1024 - 28 - 297, 0);
    b.extend(b"FTPSTR:\r:\n:\r\n:\r\x00:\x81:\x10\xce:ENDFTP");
    b.resize(1024, 0);
    d(&mut b, 0.0);
    d(&mut b, 0.0);
    d(&mut b, 1.0);
    let (t0, t1) = (-4e9, 4e9);
    d(&mut b, t0);
    d(&mut b, t1);
    for v in [399, 0, 1, 2, data, end] {
        i(&mut b, v);
    }
    b.resize(2048, 0);
    b.extend(b"EARTH");
    b.resize(3 * 1024, b' ');
    d(&mut b, 0.5 * (t0 + t1));
    d(&mut b, 0.5 * (t1 - t0));
    for _ in 0..6 {
        d(&mut b, 0.0);
    }
    d(&mut b, t0);
    d(&mut b, t1 - t0);
    d(&mut b, rsize as f64);
    d(&mut b, 1.0);
    b.resize(4 * 1024, 0);
    b
}

fn almanac() -> &'static Almanac {
    static S: OnceLock<Almanac> = OnceLock::new();
    S.get_or_init(|| {
        let spk = SPK::parse(spk().as_slice()).unwrap_or_else(|e| panic!("library: spk {:?}", e));
        Almanac::default().with_spk(spk).unwrap_or_else(|e| panic!("library: almanac {:?}", e))
    })
}

fn frame() -> Frame {
    let mut fr = anise::constants::frames::IAU_EARTH_FRAME;
    fr.mu_km3_s2 = Some(398600.4418);
    fr.shape = Some(Ellipsoid { semi_major_equatorial_radius_km: A, semi_minor_equatorial_radius_km: A, polar_radius_km: A * (1.0 - F) });
    fr
}

/// geodetic (radians, km) to ECEF km
fn ecef(lat: f64, lon: f64, h: f64) -> [f64; 3] {
    let e2 = F * (2.0 - F);
    let n = A / (1.0 - e2 * lat.sin().powi(2)).sqrt();
    [(n + h) * lat.cos() * lon.cos(), (n + h) * lat.cos() * lon.sin(), (n * (1.0 - e2) + h) * lat.sin()]
}

/// azimuth and elevation (degrees), range (km) of `s` seen from the geodetic position
fn look(lat: f64, lon: f64, rx: [f64; 3], s: [f64; 3]) -> (f64, f64, f64) {
    let d = [s[0] - rx[0], s[1] - rx[1], s[2] - rx[2]];
    let e = -lon.sin() * d[0] + lon.cos() * d[1];
    let n = -lat.sin() * lon.cos() * d[0] - lat.sin() * lon.sin() * d[1] + lat.cos() * d[2];
    let u = lat.cos() * lon.cos() * d[0] + lat.cos() * lon.sin() * d[1] + lat.sin() * d[2];
    let az = e.atan2(n).to_degrees();
    (if az < 0.0 { az + 360.0 } else { az }, u.atan2(e.hypot(n)).to_degrees(), norm(d))
}

fn site(g: &mut Gen) -> (f64, f64, f64) {
    let lat: f64 = match g.below(8) {
        0 => 0.0,
        1 => uniform(g, 85.0, 89.99) * if g.bool() { -1.0 } else { 1.0 },
        _ => uniform(g, -85.0, 85.0),
    };
    let lon: f64 = match g.below(8) {
        0 => g.pickc(&[0.0, 90.0, 180.0, -90.0]),
        _ => uniform(g, -180.0, 180.0),
    };
    let h = match g.below(6) {
        0 => 0.0,
        // low Earth orbit
        1 => uniform(g, 300.0, 1500.0),
        _ => uniform(g, -0.4, 9.0),
    };
    (lat.to_radians(), lon.to_radians(), h)
}

fn compare(got: (f64, f64, f64), want: (f64, f64, f64), who: &str, tol: f64) -> Res {
    let (a, e, r) = got;
    let (wa, we, wr) = want;
    ensure!((r - wr).abs() < 1e-4, "range", "{}: range {} km instead of {} km", who, r, wr);
    ensure!((e - we).abs() < tol, "elevation", "{}: elevation {} instead of {}", who, e, we);
    let mut da = (a - wa).abs();
    if da > 180.0 {
        da = 360.0 - da;
    }
    ensure!(we.abs() > 89.0 || da * we.to_radians().cos() < tol, "azimuth", "{}: azimuth {} instead of {}", who, a, wa);
    ensure!((0.0..=360.0).contains(&a), "azimuth-bounds", "{}: azimuth {}", who, a);
    Ok(())
}

fn sight(g: &mut Gen) -> Res {
    let (lat, lon, h) = site(g);
    let rx = ecef(lat, lon, h);
    let fr = frame();
    // any two points
    {
        let (slat, slon, sh) = (uniform(g, -90.0, 90.0).to_radians(), uniform(g, -180.0, 180.0).to_radians(), uniform(g, 1000.0, 40000.0));
        // overhead now and then
        let s = if g.chance(1, 10) { ecef(lat + 1e-4, lon - 1e-4, sh) } else { ecef(slat, slon, sh) };
        let want = look(lat, lon, rx, s);
        let t = Epoch::from_gpst_seconds(uniform(g, 6e8, 2e9));
        let t = if g.bool() { t.to_time_scale(TimeScale::UTC) } else { t };
        g.text = format!("receiver {:?}, satellite {:?}, {:?}\n", rx, s, t);
        g.label_if(want.1 < 0.0, "below the horizon");
        let empty = Almanac::default();
        let alm = if g.bool() { &empty } else { almanac() };
        match Ephemeris::elevation_azimuth_range(t, alm, fr, (s[0], s[1], s[2]), (rx[0], rx[1], rx[2])) {
            Ok(a) => compare((a.azimuth_deg, a.elevation_deg, a.range_km), want, "points", 1e-6)?,
            Err(e) => return fail("no-angles", format!("{:?}", e)),
        }
    }
    // satellite of a navigation file
    let Kep { file, f, el, sys, geo, toe_civil, max, .. } = keplerian(g);
    let text = file.text(g);
    g.text.push_str(&text);
    g.nontrivial = true;
    let rnx = match parse_text(&text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    for _ in 0..2 {
        let ticks = match g.below(4) {
            0 => 0,
            _ => g.range(0, max * 10_000_000 - 1),
        };
        let tk = ticks as f64 * 1e-7;
        let t = toe_civil.add(ticks).epoch(timescale(sys));
        let t = if g.bool() { t.to_time_scale(g.pickc(&[TimeScale::GPST, TimeScale::UTC, TimeScale::BDT])) } else { t };
        let s = position(&el, sys, geo, tk).map(|x| x * 1e-3);
        let want = look(lat, lon, rx, s);
        // the position of the receiver comes from its header
        let mut head = Header::default();
        head.rx_position = Some((rx[0] * 1e3, rx[1] * 1e3, rx[2] * 1e3));
        let orbit = match head.rx_orbit(t, fr) {
            Some(o) => o,
            None => return fail("rx-orbit", "no orbit for a known position"),
        };
        match rnx.nav_azimuth_elevation_range(f.sv(), t, orbit, almanac()) {
            Some(a) => {
                compare((a.azimuth_deg, a.elevation_deg, a.range_km), want, "satellite", 1e-6)?;
                let (p, q) = (position(&el, sys, geo, tk + 0.5), position(&el, sys, geo, tk - 0.5));
                let rate = look(lat, lon, rx, p.map(|x| x * 1e-3)).2 - look(lat, lon, rx, q.map(|x| x * 1e-3)).2;
                ensure!((rate - a.range_rate_km_s).abs() < 1e-6, "range-rate", "{} km/s instead of {}", a.range_rate_km_s, rate);
            },
            None => return fail("no-angles", format!("no angles {} s after toe", tk)),
        }
    }
    let other = loop {
        let sv = Frame2::other(g);
        if sv != f.sv() {
            break sv;
        }
    };
    let t = toe_civil.epoch(timescale(sys));
    let orbit = Orbit::from_position(rx[0], rx[1], rx[2], t, fr);
    ensure!(rnx.nav_azimuth_elevation_range(other, t, orbit, almanac()).is_none(), "foreign", "angles of {}", other);
    Ok(())
}

struct Frame2;
impl Frame2 {
    fn other(g: &mut Gen) -> SV {
        let c = g.pickc(&[Constellation::GPS, Constellation::Galileo, Constellation::BeiDou, Constellation::QZSS]);
        SV::new(c, g.range(1, 30) as u8)
    }
}

/// positions of headers and sensors
fn receiver(g: &mut Gen) -> Res {
    let (lat, lon, h) = site(g);
    let rx = ecef(lat, lon, h);
    // millimetres
    let mm = rx.map(|x| (x * 1e6).round() as i64);
    let m = mm.map(|x| x as f64 / 1e3);
    let fr = frame();
    let t = Epoch::from_gpst_seconds(uniform(g, 6e8, 2e9));
    g.text = format!("{:?} mm at {:?}", mm, t);
    g.nontrivial = true;
    let check = |o: Option<Orbit>, who: &str| -> Res {
        let o = match o {
            Some(o) => o,
            None => return fail("rx-orbit", format!("{}: no orbit for a known position", who)),
        };
        let s = o.to_cartesian_pos_vel();
        let d = norm([s[0] * 1e3 - m[0], s[1] * 1e3 - m[1], s[2] * 1e3 - m[2]]);
        ensure!(d < 1e-6, "rx-orbit", "{}: {:?} km, {} m off", who, s, d);
        ensure!(s[3] == 0.0 && s[4] == 0.0 && s[5] == 0.0, "rx-orbit", "{}: moves", who);
        ensure!(o.epoch == t && o.frame == fr, "rx-orbit", "{}: {:?}", who, o);
        Ok(())
    };
    // read from a file
    let mut text = String::new();
    text.push_str(&hline("     3.04           OBSERVATION DATA    G", "RINEX VERSION / TYPE"));
    text.push('\n');
    text.push_str(&hline(&format!("{:>14.4}{:>14.4}{:>14.4}", m[0], m[1], m[2]), "APPROX POSITION XYZ"));
    text.push('\n');
    text.push_str(&hline("G    1 C1C", "SYS / # / OBS TYPES"));
    text.push('\n');
    text.push_str(&hline("", "END OF HEADER"));
    text.push('\n');
    let head = match parse_text(&text) {
        Ok(r) => r.header,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    check(head.rx_orbit(t, fr), "header")?;
    // rewritten from an orbit
    let o = Orbit::from_position(m[0] / 1e3, m[1] / 1e3, m[2] / 1e3, t, fr);
    let base = if g.bool() { head.clone() } else { Header::default() };
    let new = base.with_rx_orbit(o);
    check(new.rx_orbit(t, fr), "with_rx_orbit")?;
    let mut back = new.clone();
    back.rx_position = base.rx_position;
    ensure!(back == base, "with-rx-orbit", "with_rx_orbit changed something else");
    ensure!(Header::default().rx_orbit(t, fr).is_none(), "rx-orbit", "orbit for an unknown position");
    // sensors
    let s = Sensor::new(Observable::Pressure).with_position((m[0], m[1], m[2]));
    check(s.rx_orbit(t, fr), "sensor")?;
    ensure!(Sensor::new(Observable::Temperature).rx_orbit(t, fr).is_none(), "rx-orbit", "orbit for an unknown sensor position");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P29",
        parts: vec![Part { name: "sight", run: sight, quick: 200_000, thorough: 5_000_000 }, Part { name: "receiver", run: receiver, quick: 200_000, thorough: 5_000_000 }],
        rule: "sight: receivers anywhere (poles, reference meridians, mountains, low orbits) and satellites anywhere above or below their horizon, given as points or by a generated navigation frame with the receiver position of a header, in several timescales; azimuth and elevation within 1e-6 degree, range within 10 cm and range rate within 1 mm/s of an independent local-tangent-plane computation; receiver: positions of headers and sensors, read, set and given back as orbits. All cases are non-trivial.",
        assumptions: &["WGS84 ellipsoid, Earth-fixed frame; the almanac holds an ephemeris of the Earth, as translations of ANISE demand", "azimuth is not compared above 89 degrees of elevation"],
    }
}
