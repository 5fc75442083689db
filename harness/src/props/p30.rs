//! P30: builders, replacements, accessors.
use crate::corpus::{self, KINDS};
use crate::ensure;
use crate::gen::Gen;
use crate::hdr;
use crate::nav::any_f64;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::antex::frequency::{Frequency, Pattern};
use rinex::antex::{self, AntennaSpecific, Calibration, CalibrationMethod, Pcv, RxAntenna};
use rinex::hardware::{Antenna, Receiver, SvAntenna};
use rinex::hatanaka::CRINEX;
use rinex::ionex::{self, BiasSource, MappingFunction, RefSystem};
use rinex::meteo::Sensor;
use rinex::navigation::{BdModel, EarthOrientation, Ephemeris, IonosphereModel, KbModel, NavFrame, NgModel, OrbitItem, SystemTime};
use rinex::observation;
use rinex::prelude::nav::Orbit;
use rinex::prelude::obs::*;
use rinex::prelude::*;
use std::str::FromStr;

/// calls a builder, and compares with the value where only that field was changed
macro_rules! set {
    ($g:expr, $v:ident . $m:ident ( $($a:expr),* ) => $($f:ident).+ = $e:expr) => {{
        $g.text.push_str(concat!(stringify!($m), " "));
        let before = $v.clone();
        let got = $v.$m($($a),*);
        ensure!($v == before, stringify!($m), "{} changed its receiver: {:?}", stringify!($m), $v);
        let mut want = before;
        want.$($f).+ = $e;
        ensure!(got == want, stringify!($m), "{}: {:?}\ninstead of {:?}", stringify!($m), got, want);
        $v = got;
    }};
}

fn word(g: &mut Gen) -> String {
    hdr::words(g, 1, 20)
}

fn ms(g: &mut Gen) -> f64 {
    g.int_digits(9, true) as f64 * 1e-4
}

fn xyz(g: &mut Gen) -> (f64, f64, f64) {
    (ms(g), ms(g), ms(g))
}

fn instant(g: &mut Gen) -> Epoch {
    let s = g.range(0, 1_500_000_000) as f64;
    let t = Epoch::from_gpst_seconds(s);
    t.to_time_scale(g.pickc(&[TimeScale::GPST, TimeScale::UTC, TimeScale::BDT, TimeScale::TAI]))
}

fn anysv(g: &mut Gen) -> SV {
    let c = g.pickc(&[Constellation::GPS, Constellation::Galileo, Constellation::BeiDou, Constellation::Glonass, Constellation::QZSS]);
    SV::new(c, g.range(1, 36) as u8)
}

fn observable(g: &mut Gen) -> Observable {
    let s = g.pickc(&["C1C", "L1C", "D5Q", "S2W", "C1", "L2", "P1"]);
    Observable::from_str(s).expect("library: observable")
}

fn receiver(g: &mut Gen) -> Receiver {
    Receiver { model: word(g), sn: word(g), firmware: word(g) }
}

fn antenna(g: &mut Gen) -> Antenna {
    let mut a = Antenna::default();
    a.model = word(g);
    a.sn = word(g);
    if g.bool() {
        a.coords = Some(xyz(g));
    }
    if g.bool() {
        a.height = Some(ms(g));
        a.eastern = Some(ms(g));
        a.northern = Some(ms(g));
    }
    a
}

fn header(g: &mut Gen) -> Res {
    let mut h = if g.chance(1, 8) {
        match g.below(5) {
            0 => Header::default(),
            1 => Header::basic_nav(),
            2 => Header::basic_obs(),
            3 => Header::basic_crinex(),
            _ => Header::basic_ionex(),
        }
    } else {
        hdr::header(g, &['O', 'M', 'N'], 40).to_header()
    };
    g.nontrivial = true;
    for _ in 0..g.usize(1, 6) {
        match g.below(12) {
            0 => {
                let v = Version::new(g.range(1, 4) as u8, g.range(0, 12) as u8);
                set!(g, h.with_version(v) => version = v)
            },
            1 => {
                let t = g.pickc(&[RinexType::ObservationData, RinexType::NavigationData, RinexType::MeteoData, RinexType::ClockData, RinexType::IonosphereMaps, RinexType::AntennaData, RinexType::DORIS]);
                set!(g, h.with_type(t) => rinex_type = t)
            },
            2 => {
                let (a, b, c) = (word(g), word(g), word(g));
                let before = h.clone();
                let got = h.with_general_information(&a, &b, &c);
                ensure!(h == before, "with_general_information", "receiver changed");
                let mut want = before;
                want.program = Some(a);
                want.run_by = Some(b);
                want.agency = Some(c);
                ensure!(got == want, "with_general_information", "{:?}\ninstead of {:?}", got, want);
                h = got;
            },
            3 => {
                let r = receiver(g);
                set!(g, h.with_receiver(r.clone()) => rcvr = Some(r))
            },
            4 => {
                let a = antenna(g);
                set!(g, h.with_receiver_antenna(a.clone()) => rcvr_antenna = Some(a))
            },
            5 => {
                let c = anysv(g).constellation;
                set!(g, h.with_constellation(c) => constellation = Some(c))
            },
            6 | 7 => {
                let c = if g.chance(1, 4) { format!("{}FILE MERGE{}", g.pickc(&["", "teqc ", "  20240102 ", "- "]), g.pickc(&["", " 20240102 000000 UTC", "D"])) } else { hdr::comment(g, 100) };
                let mut all = h.comments.clone();
                all.push(c.clone());
                set!(g, h.with_comment(&c) => comments = all)
            },
            8 => {
                let l: Vec<String> = (0..g.usize(0, 3)).map(|_| hdr::comment(g, 60)).collect();
                set!(g, h.with_comments(l.clone()) => comments = l)
            },
            9 => {
                let mut o = observation::HeaderFields::default();
                o.codes.insert(Constellation::GPS, vec![observable(g)]);
                set!(g, h.with_observation_fields(o.clone()) => obs = Some(o))
            },
            10 => {
                let x = ionex::HeaderFields::default().with_nb_stations(g.range(0, 99) as u32);
                set!(g, h.with_ionex_fields(x.clone()) => ionex = Some(x))
            },
            _ => {
                let p = xyz(g);
                let o = Orbit::from_position(p.0 / 1e3, p.1 / 1e3, p.2 / 1e3, instant(g), rinex_frame());
                let before = h.clone();
                let got = h.with_rx_orbit(o);
                let q = match got.rx_position {
                    Some(q) => q,
                    None => return fail("with_rx_orbit", "no position"),
                };
                ensure!((q.0 - p.0).abs() < 1e-7 && (q.1 - p.1).abs() < 1e-7 && (q.2 - p.2).abs() < 1e-7, "with_rx_orbit", "{:?} instead of {:?}", q, p);
                let mut back = got.clone();
                back.rx_position = before.rx_position;
                ensure!(back == before, "with_rx_orbit", "changed something else");
                h = got;
            },
        }
        let crx = h.obs.as_ref().map(|o| o.crinex.is_some()).unwrap_or(false);
        ensure!(h.is_crinex() == crx, "is_crinex", "is_crinex {} for {:?}", h.is_crinex(), h.obs);
        let merged = h.comments.iter().any(|c| c.contains("FILE MERGE"));
        let rnx = Rinex::new(h.clone(), Record::ObsRecord(Default::default()));
        ensure!(rnx.is_merged() == merged, "is_merged", "is_merged {} for {:?}", rnx.is_merged(), h.comments);
        for (t, ok, who) in [
            (RinexType::AntennaData, rnx.is_antex(), "is_antex"),
            (RinexType::ClockData, rnx.is_clock_rinex(), "is_clock_rinex"),
            (RinexType::MeteoData, rnx.is_meteo_rinex(), "is_meteo_rinex"),
            (RinexType::NavigationData, rnx.is_navigation_rinex(), "is_navigation_rinex"),
            (RinexType::ObservationData, rnx.is_observation_rinex(), "is_observation_rinex"),
            (RinexType::IonosphereMaps, rnx.is_ionex(), "is_ionex"),
            (RinexType::DORIS, rnx.is_doris(), "is_doris"),
        ] {
            ensure!((h.rinex_type == t) == ok, who, "{} is {} for {:?}", who, ok, h.rinex_type);
        }
    }
    Ok(())
}

fn rinex_frame() -> rinex::prelude::nav::Frame {
    let mut fr = anise::constants::frames::IAU_EARTH_FRAME;
    fr.mu_km3_s2 = Some(398600.4418);
    fr
}

fn data(g: &mut Gen) -> Res {
    let a = corpus::doc(g, &KINDS, 3);
    let b = corpus::doc(g, &KINDS, 3);
    g.text = format!("{}\n----\n{}", a.text, b.text);
    let (x, y) = match (parse_text(&a.text), parse_text(&b.text)) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(e), _) | (_, Err(e)) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    g.nontrivial = true;
    let keep = x.clone();
    let same = |r: &Rinex, h: &Header, d: &Record, who: &'static str| -> Res {
        ensure!(r.header == *h, who, "{}: header", who);
        ensure!(r.record == *d, who, "{}: record", who);
        ensure!(r.comments == keep.comments, who, "{}: comments of the body {:?} instead of {:?}", who, r.comments, keep.comments);
        ensure!(r.production == keep.production, who, "{}: production attributes", who);
        Ok(())
    };
    same(&x.with_header(y.header.clone()), &y.header, &x.record, "with_header")?;
    same(&x.with_record(y.record.clone()), &x.header, &y.record, "with_record")?;
    same(&x, &keep.header, &keep.record, "with")?;
    let mut z = x.clone();
    z.replace_header(y.header.clone());
    same(&z, &y.header, &x.record, "replace_header")?;
    z.replace_record(y.record.clone());
    same(&z, &y.header, &y.record, "replace_record")?;
    let n = Rinex::new(y.header.clone(), y.record.clone());
    ensure!(n.header == y.header && n.record == y.record && n.comments.is_empty(), "new", "Rinex::new");

    // views of the record
    for (kind, doc) in [(a.kind, x), (b.kind, y)] {
        let mut r = doc.record.clone();
        let views = [
            (r.as_obs().is_some(), r.as_mut_obs().is_some(), "OX"),
            (r.as_meteo().is_some(), r.as_mut_meteo().is_some(), "M"),
            (r.as_nav().is_some(), r.as_mut_nav().is_some(), "N"),
            (r.as_clock().is_some(), r.as_mut_clock().is_some(), "C"),
            (r.as_ionex().is_some(), r.as_mut_ionex().is_some(), "I"),
            (r.as_antex().is_some(), r.as_mut_antex().is_some(), "A"),
            (r.as_doris().is_some(), r.as_mut_doris().is_some(), "D"),
        ];
        for (v, m, k) in views {
            ensure!(v == k.contains(kind) && m == v, "record-view", "record of kind {}: view {} is {}, mutable {}", kind, k, v, m);
        }
        ensure!(r == doc.record, "record-view", "changed by a view");
        // what is changed through a mutable view is seen by the other one
        match kind {
            'O' | 'X' => {
                r.as_mut_obs().unwrap().clear();
                ensure!(r.as_obs().unwrap().is_empty(), "record-view", "obs");
            },
            'M' => {
                r.as_mut_meteo().unwrap().clear();
                ensure!(r.as_meteo().unwrap().is_empty(), "record-view", "meteo");
            },
            'N' => {
                for (k, f) in r.as_nav().unwrap().iter() {
                    frame(g, f)?;
                    let c = match f {
                        NavFrame::EPH(_) => rinex::navigation::NavFrameType::Ephemeris,
                        NavFrame::STO(_) => rinex::navigation::NavFrameType::SystemTimeOffset,
                        NavFrame::EOP(_) => rinex::navigation::NavFrameType::EarthOrientation,
                        NavFrame::ION(_) => rinex::navigation::NavFrameType::IonosphereModel,
                    };
                    ensure!(k.frmtype == c, "frame-type", "{:?} for {:?}", k, f);
                }
                r.as_mut_nav().unwrap().clear();
                ensure!(r.as_nav().unwrap().is_empty(), "record-view", "nav");
            },
            'C' => {
                r.as_mut_clock().unwrap().clear();
                ensure!(r.as_clock().unwrap().is_empty(), "record-view", "clock");
            },
            'I' => {
                r.as_mut_ionex().unwrap().clear();
                ensure!(r.as_ionex().unwrap().is_empty(), "record-view", "ionex");
            },
            'A' => {
                r.as_mut_antex().unwrap().clear();
                ensure!(r.as_antex().unwrap().is_empty(), "record-view", "antex");
            },
            _ => {
                r.as_mut_doris().unwrap().clear();
                ensure!(r.as_doris().unwrap().is_empty(), "record-view", "doris");
            },
        }
    }
    Ok(())
}

fn frame(g: &mut Gen, f: &NavFrame) -> Res {
    let mut m = f.clone();
    let (e, s, o, i) = match f {
        NavFrame::EPH(e) => (Some(e), None, None, None),
        NavFrame::STO(e) => (None, Some(e), None, None),
        NavFrame::EOP(e) => (None, None, Some(e), None),
        NavFrame::ION(e) => (None, None, None, Some(e)),
    };
    ensure!(f.as_ephemeris() == e && m.as_mut_ephemeris().map(|x| x.clone()).as_ref() == e, "frame-view", "ephemeris view of {:?}", f);
    ensure!(f.as_system_time() == s && m.as_mut_system_time().map(|x| x.clone()).as_ref() == s, "frame-view", "system time view of {:?}", f);
    ensure!(f.as_earth_orientation() == o && m.as_mut_earth_orientation().map(|x| x.clone()).as_ref() == o, "frame-view", "earth orientation view of {:?}", f);
    ensure!(f.as_ionosphere_model() == i && m.as_mut_ionosphere_model().map(|x| x.clone()).as_ref() == i, "frame-view", "ionosphere view of {:?}", f);
    if let Some(i) = i {
        ensure!(i.as_klobuchar().is_some() == matches!(i, IonosphereModel::Klobuchar(_)), "model-view", "{:?}", i);
        ensure!(i.as_nequick_g().is_some() == matches!(i, IonosphereModel::NequickG(_)), "model-view", "{:?}", i);
        ensure!(i.as_bdgim().is_some() == matches!(i, IonosphereModel::Bdgim(_)), "model-view", "{:?}", i);
        if let Some(k) = m.as_mut_ionosphere_model().unwrap().as_klobuchar_mut() {
            k.alpha.2 = 12.5;
            ensure!(m.as_ionosphere_model().unwrap().as_klobuchar().unwrap().alpha.2 == 12.5, "model-view", "mutable view has no effect");
        }
    }
    if let Some(x) = m.as_mut_ephemeris() {
        x.clock_bias = 0.25;
        ensure!(m.as_ephemeris().map(|x| x.clock_bias) == Some(0.25), "frame-view", "mutable view has no effect");
    }
    let _ = g;
    Ok(())
}

fn nz(g: &mut Gen) -> f64 {
    loop {
        let x = any_f64(g);
        if x != 0.0 {
            return x;
        }
    }
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-12 * b.abs()
}

fn ephemeris(g: &mut Gen) -> Res {
    g.nontrivial = true;
    let mut e = Ephemeris::default();
    e.clock_bias = any_f64(g);
    e.clock_drift = any_f64(g);
    e.clock_drift_rate = any_f64(g);
    // what was there
    let names = ["crs", "iode", "sqrta", "toe", "health", "week", "e", "idot", "cuc"];
    for _ in 0..g.usize(0, 6) {
        let k = g.pickc(&names);
        e.orbits.insert(k.to_string(), OrbitItem::F64(nz(g)));
    }
    ensure!(e.sv_clock() == (e.clock_bias, e.clock_drift, e.clock_drift_rate), "sv_clock", "{:?}", e.sv_clock());
    let rest = |x: &Ephemeris, y: &Ephemeris, but: &[&str], who: &'static str| -> Res {
        ensure!(x.sv_clock() == y.sv_clock(), who, "{} changed the clock", who);
        for (k, v) in y.orbits.iter() {
            ensure!(but.contains(&k.as_str()) || x.orbits.get(k) == Some(v), who, "{} changed {}", who, k);
        }
        for k in x.orbits.keys() {
            ensure!(but.contains(&k.as_str()) || y.orbits.contains_key(k), who, "{} added {}", who, k);
        }
        Ok(())
    };
    for _ in 0..g.usize(1, 4) {
        match g.below(4) {
            0 => {
                let k = word(g);
                let v = match g.below(4) {
                    0 => OrbitItem::U8(g.below(256) as u8),
                    1 => OrbitItem::I8(g.range(-128, 127) as i8),
                    2 => OrbitItem::U32(g.range(0, u32::MAX as i64) as u32),
                    _ => OrbitItem::F64(nz(g)),
                };
                let n = e.with_orbit(&k, v.clone());
                ensure!(n.orbits.get(&k) == Some(&v), "with_orbit", "{:?} instead of {:?}", n.orbits.get(&k), v);
                let want = match v {
                    OrbitItem::U8(x) => x as f64,
                    OrbitItem::I8(x) => x as f64,
                    OrbitItem::U32(x) => x as f64,
                    OrbitItem::F64(x) => x,
                    _ => panic!("harness: item"),
                };
                let want = if want == 0.0 { None } else { Some(want) };
                ensure!(n.get_orbit_f64(&k) == want, "get_orbit_f64", "{:?} instead of {:?}", n.get_orbit_f64(&k), want);
                let (u32_, u8_, i8_) = match v {
                    OrbitItem::U8(x) => (Some(x as u32), Some(x), None),
                    OrbitItem::I8(x) if x >= 0 => (Some(x as u32), Some(x as u8), Some(x)),
                    OrbitItem::U32(x) => (Some(x), if x < 256 { Some(x as u8) } else { v.as_u8() }, None),
                    OrbitItem::F64(x) if x.abs() < 255.0 && x >= 0.0 => (Some(x.round() as u32), Some(x.round() as u8), None),
                    _ => (v.as_u32(), v.as_u8(), v.as_i8()),
                };
                ensure!(v.as_u32() == u32_ && v.as_u8() == u8_ && v.as_i8() == i8_, "orbit-item", "{:?}: {:?} {:?} {:?}", v, v.as_u32(), v.as_u8(), v.as_i8());
                rest(&n, &e, &[k.as_str()], "with_orbit")?;
                e = n;
            },
            1 => {
                let w = g.range(0, 5000) as u32;
                let n = e.with_week(w);
                ensure!(n.orbits.get("week").and_then(|x| x.as_u32()) == Some(w), "with_week", "{:?} instead of {}", n.orbits.get("week"), w);
                rest(&n, &e, &["week"], "with_week")?;
                e = n;
                let toe = e.get_orbit_f64("toe").unwrap_or(0.0);
                if toe.abs() < 1e6 {
                    let t = e.toe(TimeScale::GPST).expect("library: toe");
                    let want = Epoch::from_gpst_seconds(w as f64 * 604800.0 + toe);
                    ensure!((t - want).to_seconds().abs() < 1e-6, "with_week", "toe {:?} instead of {:?}", t, want);
                }
            },
            2 => {
                // any values, obtained from another ephemeris
                let mut src = Ephemeris::default();
                for k in ["sqrta", "e", "i0", "omega", "omega0", "m0", "toe"] {
                    src.orbits.insert(k.to_string(), OrbitItem::F64(nz(g)));
                }
                let mut k = src.kepler().expect("library: kepler");
                k.a = nz(g).abs();
                k.e = nz(g);
                k.i_0 = nz(g);
                k.omega = nz(g);
                k.omega_0 = nz(g);
                k.m_0 = nz(g);
                k.toe = any_f64(g);
                let n = e.with_kepler(k.clone());
                let r = match n.kepler() {
                    Some(r) => r,
                    None => return fail("with_kepler", format!("{:?} is not read back", k)),
                };
                ensure!(
                    close(r.a, k.a) && r.e == k.e && r.i_0 == k.i_0 && r.omega == k.omega && r.omega_0 == k.omega_0 && r.m_0 == k.m_0 && r.toe == k.toe,
                    "with_kepler",
                    "{:?} instead of {:?}",
                    r,
                    k
                );
                for (name, v) in [("e", k.e), ("i0", k.i_0), ("omega", k.omega), ("omega0", k.omega_0), ("m0", k.m_0)] {
                    ensure!(n.get_orbit_f64(name) == Some(v), "with_kepler", "{}: {:?} instead of {}", name, n.get_orbit_f64(name), v);
                }
                ensure!(n.get_orbit_f64("sqrta").map(|x| close(x * x, k.a)).unwrap_or(false), "with_kepler", "sqrta {:?} for a = {}", n.get_orbit_f64("sqrta"), k.a);
                rest(&n, &e, &["sqrta", "e", "i0", "omega", "omega0", "m0", "toe"], "with_kepler")?;
                e = n;
            },
            _ => {
                let src = Ephemeris::default();
                let mut p = src.perturbations().expect("library: perturbations");
                p.dn = any_f64(g);
                p.i_dot = any_f64(g);
                p.omega_dot = any_f64(g);
                p.cus = any_f64(g);
                p.cuc = any_f64(g);
                p.cis = any_f64(g);
                p.cic = any_f64(g);
                p.crs = any_f64(g);
                p.crc = any_f64(g);
                let n = e.with_perturbations(p.clone());
                let r = match n.perturbations() {
                    Some(r) => r,
                    None => return fail("with_perturbations", format!("{:?} is not read back", p)),
                };
                let v = |p: &[f64; 9]| *p;
                let a = v(&[r.dn, r.i_dot, r.omega_dot, r.cus, r.cuc, r.cis, r.cic, r.crs, r.crc]);
                let b = v(&[p.dn, p.i_dot, p.omega_dot, p.cus, p.cuc, p.cis, p.cic, p.crs, p.crc]);
                ensure!(a == b, "with_perturbations", "{:?} instead of {:?}", r, p);
                let names = ["deltaN", "idot", "omegaDot", "cus", "cuc", "cis", "cic", "crs", "crc"];
                for (k, x) in names.iter().zip(b) {
                    let want = if x == 0.0 { None } else { Some(x) };
                    ensure!(n.get_orbit_f64(k) == want, "with_perturbations", "{}: {:?} instead of {:?}", k, n.get_orbit_f64(k), want);
                }
                rest(&n, &e, &names, "with_perturbations")?;
                e = n;
            },
        }
    }
    g.text = format!("{:?}", e);
    // frames
    let f = match g.below(6) {
        0 => NavFrame::EPH(e),
        1 => NavFrame::EOP(EarthOrientation { x: xyz(g), y: xyz(g), t_tm: g.range(0, 99) as u32, ..Default::default() }),
        2 => NavFrame::STO(SystemTime { system: word(g), utc: word(g), t_tm: g.range(0, 99) as u32, a: xyz(g), ..Default::default() }),
        3 => NavFrame::ION(IonosphereModel::Klobuchar(KbModel::default())),
        4 => NavFrame::ION(IonosphereModel::NequickG(NgModel::default())),
        _ => NavFrame::ION(IonosphereModel::Bdgim(BdModel::default())),
    };
    frame(g, &f)
}

fn parts(g: &mut Gen) -> Res {
    g.nontrivial = true;
    let mut r = receiver(g);
    let mut a = antenna(g);
    let mut v = SvAntenna { sv: anysv(g), model: word(g), cospar: None };
    let mut s = Sensor::new(Observable::Pressure);
    let mut leap = Leap::default();
    leap.leap = g.below(40) as u32;
    let mut crx = CRINEX::default();
    let mut m = GeodeticMarker::default();
    let mut aa = antex::Antenna::default();
    let mut fq = Frequency::default();
    let mut ah = antex::HeaderFields::default();
    let mut ih = ionex::HeaderFields::default();
    for _ in 0..g.usize(4, 12) {
        let w = word(g);
        let x = ms(g);
        let t = instant(g);
        let n = g.range(0, 9999) as u32;
        match g.below(46) {
            0 => set!(g, r.with_model(&w) => model = w.clone()),
            1 => set!(g, r.with_serial_number(&w) => sn = w.clone()),
            2 => set!(g, r.with_firmware(&w) => firmware = w.clone()),
            3 => set!(g, a.with_model(&w) => model = w.clone()),
            4 => set!(g, a.with_serial_number(&w) => sn = w.clone()),
            5 => {
                let p = xyz(g);
                set!(g, a.with_base_coordinates(p) => coords = Some(p))
            },
            6 => set!(g, a.with_height(x) => height = Some(x)),
            7 => set!(g, a.with_eastern_component(x) => eastern = Some(x)),
            8 => set!(g, a.with_northern_component(x) => northern = Some(x)),
            9 => {
                let sv = anysv(g);
                set!(g, v.with_sv(sv) => sv = sv)
            },
            10 => set!(g, v.with_model(&w) => model = w.clone()),
            11 => {
                let c = format!("{:04}-{:03}{}", g.range(1960, 2030), g.range(1, 120), g.pickc(&['A', 'B', 'C', 'D']));
                let want = COSPAR::from_str(&c).expect("library: cospar");
                set!(g, v.with_cospar(&c) => cospar = Some(want.clone()))
            },
            12 => set!(g, s.with_model(&w) => model = Some(w.clone())),
            13 => set!(g, s.with_type(&w) => sensor_type = Some(w.clone())),
            14 => {
                let o = g.pickc(&["PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI"]);
                let o = Observable::from_str(o).expect("library: observable");
                set!(g, s.with_observable(o.clone()) => observable = o)
            },
            15 => {
                let p = xyz(g);
                set!(g, s.with_position(p) => position = Some(p))
            },
            16 => set!(g, s.with_height(x) => height = Some(x)),
            17 => set!(g, s.with_accuracy(x as f32) => accuracy = Some(x as f32)),
            18 => set!(g, leap.with_delta_tls(n) => delta_tls = Some(n)),
            19 => set!(g, leap.with_week(n) => week = Some(n)),
            20 => set!(g, leap.with_day(n) => day = Some(n)),
            21 => set!(g, leap.with_timescale(TimeScale::BDT) => timescale = Some(TimeScale::BDT)),
            22 => {
                let ver = Version::new(g.pickc(&[1, 3]), g.below(2) as u8);
                set!(g, crx.with_version(ver) => version = ver)
            },
            23 => set!(g, crx.with_prog(&w) => prog = w.clone()),
            24 => set!(g, crx.with_date(t) => date = t),
            25 => {
                let (name, ty) = (m.name.clone(), m.marker_type.clone());
                if g.bool() {
                    set!(g, m.with_name(&w) => name = w.clone())
                } else {
                    let (i, k) = (g.range(0, 99999), g.range(0, 999));
                    let num = format!("{:05}M{:03}", i, k);
                    m = m.with_number(&num);
                    ensure!(m.number() == Some(num.clone()), "marker-number", "{:?} instead of {}", m.number(), num);
                    ensure!(m.name == name && m.marker_type == ty, "marker-number", "with_number changed something else");
                    // not a number
                    let bad = g.pickc(&["1234", "12345M00", "123456M001", "12345X001", "ABCDEM001", "12345MABC"]);
                    ensure!(m.with_number(bad) == m, "marker-number", "{} accepted", bad);
                }
            },
            26 => {
                let c = Calibration { method: CalibrationMethod::Robot, agency: w.clone(), date: t, number: n as u16, validity_period: None };
                set!(g, aa.with_calibration(c.clone()) => calibration = c)
            },
            27 => {
                let mut l = ionex::Grid::default().latitude;
                l.start = x;
                l.end = x + 10.0;
                l.spacing = 1.0;
                set!(g, aa.with_zenith_grid(l.clone()) => zenith_grid = l)
            },
            28 => {
                let u = t + Duration::from_seconds(g.range(0, 100_000_000) as f64);
                set!(g, aa.with_validity_period(t, u) => calibration.validity_period = Some((t, u)));
                for dt in [-1i64, 0, 1] {
                    let d = Duration::from_nanoseconds(dt as f64);
                    ensure!(aa.is_valid(t + d) == (dt >= 0 && t + d <= u), "antenna-valid", "{:?} from {:?} to {:?}", t + d, t, u);
                    ensure!(aa.is_valid(u + d) == (dt <= 0 && u + d >= t), "antenna-valid", "{:?} from {:?} to {:?}", u + d, t, u);
                }
            },
            29 => set!(g, aa.with_dazi(x) => azi_inc = x),
            30 => {
                let sp = AntennaSpecific::RxAntenna(RxAntenna { igs_type: w.clone(), serial_number: if g.bool() { Some(word(g)) } else { None } });
                set!(g, aa.with_specificities(sp.clone()) => specific = sp)
            },
            31 => {
                let c = g.pickc(&[Carrier::L1, Carrier::L5, Carrier::E1, Carrier::B2I]);
                set!(g, fq.with_carrier(c) => carrier = c)
            },
            32 => set!(g, fq.with_northern_eccentricity(x) => north = x),
            33 => set!(g, fq.with_eastern_eccentricity(x) => east = x),
            34 => set!(g, fq.with_upper_eccentricity(x) => up = x),
            35 => {
                let vals: Vec<f64> = (0..g.usize(0, 4)).map(|_| ms(g)).collect();
                let azi = g.bool();
                let p = if azi { Pattern::AzimuthDependent((x, vals.clone())) } else { Pattern::NonAzimuthDependent(vals.clone()) };
                ensure!(p.is_azimuth_dependent() == azi && p.pattern() == vals, "pattern", "{:?}", p);
                ensure!(p.azimuth_pattern() == if azi { Some((x, vals)) } else { None }, "pattern", "{:?}: {:?}", p, p.azimuth_pattern());
                let mut all = fq.patterns.clone();
                all.push(p.clone());
                set!(g, fq.add_pattern(p.clone()) => patterns = all)
            },
            36 => {
                let p = if g.bool() { Pcv::Absolute } else { Pcv::Relative(w.clone()) };
                let rel = matches!(p, Pcv::Relative(_));
                ensure!(p.is_relative() == rel && p.is_absolute() == !rel, "pcv", "{:?}", p);
                let q = p.with_relative_type("ANT");
                ensure!(q == if rel { Pcv::Relative("ANT".to_string()) } else { Pcv::Absolute }, "pcv", "{:?} from {:?}", q, p);
                set!(g, ah.with_pcv_type(p.clone()) => pcv_type = p)
            },
            37 => set!(g, ah.with_reference_antenna_sn(&w) => reference_ant_sn = Some(w.clone())),
            38 => match g.below(6) {
                0 => set!(g, ih.with_number_of_maps(n as usize) => number_of_maps = n as usize),
                1 => set!(g, ih.with_epoch_of_first_map(t) => epoch_of_first_map = t),
                2 => set!(g, ih.with_epoch_of_last_map(t) => epoch_of_last_map = t),
                3 => set!(g, ih.with_nb_stations(n) => nb_stations = n),
                4 => set!(g, ih.with_nb_satellites(n) => nb_satellites = n),
                _ => {
                    let e = g.range(-9, 9) as i8;
                    set!(g, ih.with_exponent(e) => exponent = e)
                },
            },
            39 => match g.below(4) {
                0 => {
                    let rs = RefSystem::GnssConstellation(anysv(g).constellation);
                    set!(g, ih.with_reference_system(rs.clone()) => reference = rs)
                },
                1 => {
                    let mf = g.pick(&[MappingFunction::CosZ, MappingFunction::QFac]).clone();
                    set!(g, ih.with_mapping_function(mf.clone()) => mapping = Some(mf))
                },
                2 => set!(g, ih.with_elevation_cutoff(x as f32) => elevation_cutoff = x as f32),
                _ => set!(g, ih.with_base_radius(x as f32) => base_radius = x as f32),
            },
            40 => {
                set!(g, ih.with_observables(&w) => observables = Some(w.clone()));
                ensure!(ih.is_theoretical_model(), "is_theoretical_model", "observables {:?}", ih.observables);
                ensure!(ih.with_observables("") == ih, "with_observables", "empty list of observables");
            },
            41 => {
                let d = match &ih.description {
                    Some(d) => format!("{} {}", d, w),
                    None => w.clone(),
                };
                set!(g, ih.with_description(&w) => description = Some(d))
            },
            42 => {
                let d = g.pickc(&[2u8, 3]);
                set!(g, ih.with_map_dimension(d) => map_dimension = d)
            },
            43 => {
                let mut l = ionex::Grid::default().latitude;
                l.start = x;
                l.end = x + 10.0;
                l.spacing = 2.5;
                match g.below(3) {
                    0 => set!(g, ih.with_latitude_grid(l.clone()) => grid.latitude = l),
                    1 => set!(g, ih.with_longitude_grid(l.clone()) => grid.longitude = l),
                    _ => {
                        if g.bool() {
                            l.end = l.start;
                            l.spacing = 0.0;
                        }
                        let flat = l.spacing == 0.0;
                        set!(g, ih.with_altitude_grid(l.clone()) => grid.height = l);
                        ensure!(ih.grid.is_2d_grid() == flat && ih.grid.is_3d_grid() == !flat, "grid-dimension", "{:?}", ih.grid.height);
                    },
                }
            },
            44 => {
                let src = if g.bool() { BiasSource::Station(w.clone()) } else { BiasSource::SpaceVehicle(anysv(g)) };
                let mut d = ih.dcbs.clone();
                d.insert(src.clone(), (x, 0.25));
                set!(g, ih.with_dcb(src.clone(), (x, 0.25)) => dcbs = d)
            },
            _ => {
                let tec = TEC::from_tecu(g.range(-999, 9999) as f64 * 0.1);
                let rms = g.range(0, 999) as f64 * 0.1;
                let n = tec.with_rms(rms);
                ensure!(n.tecu() == tec.tecu() && tec.rms_tec().is_none(), "with_rms", "{:?} from {:?}", n, tec);
                ensure!(n.rms_tec().map(|x| (x - rms).abs() < 1e-9).unwrap_or(false), "with_rms", "{:?} instead of {}", n.rms_tec(), rms);
            },
        }
    }
    Ok(())
}

fn signals(g: &mut Gen) -> Res {
    g.nontrivial = true;
    let mut s = SignalObservation::new(anysv(g), observable(g), ms(g));
    ensure!(s.lli.is_none() && s.snr.is_none(), "new", "{:?}", s);
    let snrs = [SNR::DbHz0, SNR::DbHz12, SNR::DbHz12_17, SNR::DbHz18_23, SNR::DbHz24_29, SNR::DbHz30_35, SNR::DbHz36_41, SNR::DbHz42_47, SNR::DbHz48_53, SNR::DbHz54];
    let lli = g.below(10);
    if lli < 8 {
        s.lli = LliFlags::from_bits(lli as u8);
    }
    let level = g.below(11);
    if level < 10 {
        let x = snrs[level as usize];
        set!(g, s.with_snr(x) => snr = Some(x));
    }
    g.text = format!("{:?}", s);
    let lli_ok = lli == 0 || lli >= 8;
    let ok = lli_ok && level >= 5;
    ensure!(s.clone().is_ok() == ok, "is_ok", "{:?} is_ok {}", s, s.clone().is_ok());
    let min = g.usize(0, 9) as u64;
    let ok = lli_ok && level < 10 && level >= min;
    // a weak signal above an even weaker minimum: the documentation leaves it open
    let open = level < 5 && level >= min;
    ensure!(open || s.is_ok_snr(snrs[min as usize]) == ok, "is_ok_snr", "{:?} is_ok_snr({:?}) {}", s, snrs[min as usize], s.is_ok_snr(snrs[min as usize]));

    // clock offsets, and the drift they imply
    let mut c = ClockObservation::default();
    let mut o = Observations::default();
    o.signals.push(s.clone());
    let mut past: Option<(Epoch, f64)> = None;
    let mut t = instant(g);
    for _ in 0..g.usize(1, 4) {
        t += Duration::from_seconds(g.range(1, 3000) as f64 * 0.5);
        let x = g.int_digits(9, true) as f64 * 1e-9;
        let want = past.map(|(u, y)| (x - y) / (t - u).to_seconds());
        let near = |d: Option<f64>| match (d, want) {
            (None, None) => true,
            (Some(a), Some(b)) => (a - b).abs() <= 1e-9 * b.abs() + 1e-18,
            _ => false,
        };
        let n = c.with_offset_s(t, x);
        ensure!(n.offset_s == x && near(n.drift_s_s), "with_offset_s", "{:?} instead of {} {:?}", n, x, want);
        c.set_offset_s(t, x);
        ensure!(c == n, "set_offset_s", "{:?} instead of {:?}", c, n);
        let before = o.clone();
        let n = o.with_clock_offset_s(t, x);
        ensure!(o == before && n.signals == o.signals, "with_clock_offset_s", "signals changed");
        ensure!(n.clock == Some(c), "with_clock_offset_s", "{:?} instead of {:?}", n.clock, c);
        o = n;
        past = Some((t, x));
    }
    let k = ClockObservation::default().with_offset_s(t, 0.5);
    set!(g, o.with_clock_observation(k) => clock = Some(k));
    // flags of an epoch
    for i in 0..7u8 {
        let f = EpochFlag::from_str(&i.to_string()).expect("library: flag");
        ensure!(f.is_ok() == (i == 0), "flag-ok", "{:?}", f);
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P30",
        parts: vec![
            Part { name: "header", run: header, quick: 40_000, thorough: 1_000_000 },
            Part { name: "data", run: data, quick: 30_000, thorough: 600_000 },
            Part { name: "ephemeris", run: ephemeris, quick: 60_000, thorough: 1_000_000 },
            Part { name: "parts", run: parts, quick: 100_000, thorough: 2_000_000 },
            Part { name: "signals", run: signals, quick: 100_000, thorough: 2_000_000 },
        ],
        rule: "Sequences of builder calls with random arguments, on random starting values (headers of any type with any optional field, files of any type, ephemerides with any words, antennas, sensors, signals...): each result is compared with the value where only the field that the method names was changed, and the receiver with itself before; views (as_*, is_*) are compared with the variant that was generated. All cases are non-trivial.",
        assumptions: &["a zero word of an ephemeris reads as an absent one"],
    }
}
