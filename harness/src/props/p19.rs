//! P19: vocabularies of codes.
use super::p25::mhz;
use crate::ensure;
use crate::gen::*;
use crate::obs::constellation;
use crate::runner::{fail, Part, Prop, Res};
use rinex::antex::antenna::CalibrationMethod;
use rinex::antex::Pcv;
use rinex::clock::ClockProfileType;
use rinex::ionex::{MappingFunction, RefSystem};
use rinex::navigation::{NavFrameType, NavMessageType};
use rinex::observation::{EpochFlag, LliFlags, SNR};
use rinex::prelude::*;
use rinex::prod::DataSource;
use std::fmt::Debug;
use std::str::FromStr;

const SYS: &[char] = &['G', 'R', 'E', 'C', 'J', 'S', 'I'];

/// carrier of a signal (band, attribute; attribute '_': two letter code), from the RINEX 2.11 to 4.00 tables.
/// Err(false): must be unknown; Err(true): left open (the standards disagree, or extensions)
fn carrier(sys: char, band: char, attr: char) -> Result<Carrier, bool> {
    use Carrier::*;
    let (c, attrs) = match (sys, band) {
        ('G', '1') => (L1, "_CSLXPWYMN"),
        ('G', '2') => (L2, "_CDSLXPWYMN"),
        ('G', '5') => (L5, "_IQX"),
        ('R', '1') => (G1(None), "_CP"),
        ('R', '2') => (G2(None), "_CP"),
        ('R', '3') => (G3, "_IQX"),
        ('R', '4') => (G1a, "ABX"),
        ('R', '6') => (G2a, "ABX"),
        ('E', '1') => (E1, "_ABCXZ"),
        ('E', '5') if attr == '_' => return Err(true),
        ('E', '5') => (E5a, "IQX"),
        ('E', '6') => (E6, "_ABCXZ"),
        ('E', '7') => (E5b, "_IQX"),
        ('E', '8') => (E5, "_IQX"),
        // RINEX 2 does not specify BeiDou
        ('C', _) if attr == '_' => return Err(true),
        ('C', '1') if "DPX".contains(attr) => (B1C, "DPX"),
        ('C', '1') => (B1A, "SLZ"),
        ('C', '2') => (B1I, "IQX"),
        ('C', '5') => (B2A, "DPX"),
        ('C', '6') if "IQX".contains(attr) => (B3, "IQX"),
        ('C', '6') => (B3A, "DPZ"),
        ('C', '7') if "IQX".contains(attr) => (B2I, "IQX"),
        ('C', '7') => (B2B, "DPZ"),
        ('C', '8') => (B2, "DPX"),
        ('J', '1') => (L1, "_CSLXZBE"),
        ('J', '2') => (L2, "_SLX"),
        ('J', '5') => (L5, "_IQXDPZ"),
        ('J', '6') => (L6, "_SLXEZ"),
        ('S', '1') => (L1, "_C"),
        ('S', '5') => (L5, "_IQX"),
        ('I', '5') => (L5, "_ABCX"),
        ('I', '9') if attr == '_' => return Err(true),
        ('I', '9') => (S, "ABCX"),
        ('I', '1') => return Err(true), // V4.01
        _ => return Err(false),
    };
    if attrs.contains(attr) {
        Ok(c)
    } else {
        Err(true)
    }
}

/// the text, written the way a reader must tolerate
fn vary(g: &mut Gen, s: &str, case: bool, pad: bool) -> String {
    let mut t = String::new();
    if pad && g.chance(1, 3) {
        t.push_str(&" ".repeat(g.usize(1, 4)));
    }
    if case && g.bool() {
        for c in s.chars() {
            t.push(if g.bool() { c.to_ascii_lowercase() } else { c });
        }
    } else {
        t.push_str(s);
    }
    if pad && g.chance(1, 3) {
        t.push_str(&" ".repeat(g.usize(1, 4)));
    }
    t
}

fn kind(o: &Observable) -> String {
    let s: Vec<&str> = [
        (o.is_pseudo_range_observable(), "C"),
        (o.is_phase_range_observable(), "L"),
        (o.is_doppler_observable(), "D"),
        (o.is_ssi_observable(), "S"),
        (o.is_channel_number(), "X"),
        (o.is_power_observable(), "W"),
        (o.is_ionosphere_delay(), "I"),
    ]
    .iter()
    .filter(|(b, _)| *b)
    .map(|(_, s)| *s)
    .collect();
    s.join("+")
}

fn signals(g: &mut Gen) -> Res {
    let sys = g.pickc(SYS);
    let c = constellation(sys);
    let band = g.pickc(&['1', '2', '3', '4', '5', '6', '7', '8', '9']);
    let attr = if g.chance(1, 4) { '_' } else { g.pickc(b"ABCDEILMNPQSWXYZ".map(|b| b as char).as_slice()) };
    let mut t = g.pickc(&['C', 'L', 'D', 'S']);
    // P1, P2: precise pseudo range of RINEX 2
    if attr == '_' && "GR".contains(sys) && "12".contains(band) && t == 'C' && g.bool() {
        t = 'P';
    }
    let code = if attr == '_' { format!("{}{}", t, band) } else { format!("{}{}{}", t, band, attr) };
    let text = vary(g, &code, true, true);
    g.text = text.clone();
    let obs = match Observable::from_str(&text) {
        Ok(o) => o,
        Err(e) => return fail("observable-parse", format!("{:?} rejected: {}", text, e)),
    };
    ensure!(obs.to_string() == code, "observable-print", "{:?} prints {:?}", text, obs.to_string());
    ensure!(Observable::from_str(&obs.to_string()).ok() == Some(obs.clone()), "observable-roundtrip", "{:?}", obs);
    let k = if t == 'P' { "C".to_string() } else { t.to_string() };
    ensure!(kind(&obs) == k, "observable-physics", "{} described as {:?}", code, kind(&obs));
    let want = if attr == '_' { None } else { Some(code[1..].to_string()) };
    ensure!(obs.code() == want, "observable-code", "code of {}: {:?}", code, obs.code());
    // codeless tracking gives no pseudo range
    let table = if attr == 'N' && t == 'C' { Err(true) } else { carrier(sys, band, attr) };
    match (table, obs.carrier(c)) {
        (Ok(want), Ok(got)) => {
            g.label("signal of the standard");
            g.nontrivial = true;
            ensure!(want == got, "carrier", "{} {} identified as {:?}", c, code, got);
            ensure!(Carrier::from_observable(c, &obs).ok() == Some(got), "carrier", "{} {}: two answers", c, code);
            // independent frequency
            let a = if attr == '_' { 'X' } else { attr };
            let f = match (sys, band) {
                ('J', '1') => 1575.42,
                _ => mhz(sys, band, a).unwrap_or(0.0),
            };
            ensure!((got.frequency_mhz() - f).abs() < 1e-9, "frequency", "{} {}: {} MHz instead of {}", c, code, got.frequency_mhz(), f);
            ensure!((got.frequency() - f * 1e6).abs() < 1e-3, "frequency", "{} {}: {} Hz instead of {} MHz", c, code, got.frequency(), f);
            let w = 299_792_458.0 / (f * 1e6);
            ensure!((got.wavelength() - w).abs() < 1e-12 * w.max(1.0), "wavelength", "{} {}: {} m instead of {}", c, code, got.wavelength(), w);
        },
        (Ok(want), Err(e)) => return fail("carrier", format!("{} {} ({:?}) unknown: {:?}", c, code, want, e)),
        (Err(false), Ok(got)) => return fail("carrier-unknown", format!("{} {} does not exist, identified as {:?}", c, code, got)),
        (Err(false), Err(_)) => g.label("band the system does not use"),
        (Err(true), _) => g.label("left open"),
    }
    Ok(())
}

const METEO: &[(&str, Observable)] = &[
    ("PR", Observable::Pressure),
    ("TD", Observable::Temperature),
    ("HR", Observable::HumidityRate),
    ("ZW", Observable::ZenithWetDelay),
    ("ZD", Observable::ZenithDryDelay),
    ("ZT", Observable::ZenithTotalDelay),
    ("WD", Observable::WindDirection),
    ("WS", Observable::WindSpeed),
    ("RI", Observable::RainIncrement),
    ("HI", Observable::HailIndicator),
];
/// DORIS: the single letter codes
const DORIS: &[(&str, Observable)] =
    &[("F", Observable::FrequencyRatio), ("P", Observable::Pressure), ("T", Observable::Temperature), ("H", Observable::HumidityRate)];

/// any observable, with the name of its physics
fn any(g: &mut Gen) -> (String, Observable, String) {
    let (code, k) = match g.below(6) {
        0 | 1 => {
            let (c, _) = g.pick(METEO);
            (c.to_string(), c.to_string())
        },
        2 => {
            let (c, _) = g.pick(DORIS);
            let k = match *c {
                "P" => "PR",
                "T" => "TD",
                "H" => "HR",
                o => o,
            };
            (c.to_string(), k.to_string())
        },
        3 if g.bool() => ("X1".to_string(), "X".to_string()),
        3 => (format!("I{}", g.range(1, 9)), "I".to_string()),
        _ => {
            let t = g.pickc(&['C', 'L', 'D', 'S', 'W']);
            let b = g.range(1, 9);
            let a = if g.chance(1, 4) { String::new() } else { g.string(b"ABCDILMNPQSWXYZ", 1, 1) };
            let (mut t, mut s) = (t.to_string(), format!("{}{}{}", t, b, a));
            if t == "C" && a.is_empty() && b < 3 && g.bool() {
                s = format!("P{}", b);
                t = "C".into();
            }
            (s, t)
        },
    };
    let o = Observable::from_str(&vary(g, &code, true, true));
    (code.clone(), o.unwrap_or(Observable::PhaseRange("?".into())), k)
}

fn physics(g: &mut Gen) -> Res {
    let (ca, a, ka) = any(g);
    let (cb, b, kb) = any(g);
    g.text = (format!("{} {}", ca, cb)).into();
    g.nontrivial = true;
    for (c, o, k) in [(&ca, &a, &ka), (&cb, &b, &kb)] {
        ensure!(o.to_string() != "?", "observable-parse", "{:?} rejected", c);
        let met = METEO.iter().chain(DORIS).find(|(n, _)| n == c);
        match met {
            Some((_, want)) => {
                ensure!(o == want, "observable-parse", "{} parsed as {:?}", c, o);
                ensure!(kind(o).is_empty(), "observable-physics", "{} described as {:?}", c, kind(o));
                ensure!(o.code().is_none() && o.carrier(Constellation::GPS).is_err(), "observable-physics", "{} has a signal", c);
                let p = o.to_string();
                ensure!(p == **k && Observable::from_str(&p).ok().as_ref() == Some(o), "observable-print", "{} prints {:?}", c, p);
            },
            None => {
                ensure!(kind(o) == *k, "observable-physics", "{} described as {:?}", c, kind(o));
                ensure!(o.to_string() == *c, "observable-print", "{} prints {:?}", c, o.to_string());
            },
        }
    }
    g.label_if(ka == kb, "same physics");
    ensure!(a.same_physics(&b) == (ka == kb) && b.same_physics(&a) == (ka == kb), "same-physics", "{} and {}: {} {}", ca, cb, a.same_physics(&b), b.same_physics(&a));
    ensure!(a.same_physics(&a), "same-physics", "{} and itself", ca);
    // no signal belongs to all systems at once
    for o in [&a, &b] {
        ensure!(o.carrier(Constellation::Mixed).is_err(), "carrier-unknown", "{} of a mixed constellation identified", o);
    }
    // not a code
    let junk = g.pickc(&["", "L", "C", "S", "Q1C", "1C", "L1CC", "ABCD", "##", "Z", "ZZ", "WX1Y", "TODO"]);
    ensure!(Observable::from_str(junk).is_err(), "observable-junk", "{:?} accepted", junk);
    Ok(())
}

const CARRIERS: &[(Carrier, f64)] = &[
    (Carrier::L1, 1575.42),
    (Carrier::L2, 1227.60),
    (Carrier::L5, 1176.45),
    (Carrier::L6, 1278.75),
    (Carrier::G1(None), 1602.0),
    (Carrier::G1a, 1600.995),
    (Carrier::G2(None), 1246.0),
    (Carrier::G2a, 1248.06),
    (Carrier::G3, 1202.025),
    (Carrier::E1, 1575.42),
    (Carrier::E5, 1191.795),
    (Carrier::E5a, 1176.45),
    (Carrier::E5b, 1207.14),
    (Carrier::E6, 1278.75),
    (Carrier::B1I, 1561.098),
    (Carrier::B1A, 1575.42),
    (Carrier::B1C, 1575.42),
    (Carrier::B2, 1191.795),
    (Carrier::B2I, 1207.14),
    (Carrier::B2A, 1176.45),
    (Carrier::B2B, 1207.14),
    (Carrier::B3, 1268.52),
    (Carrier::B3A, 1268.52),
    (Carrier::S, 2492.028),
    (Carrier::S1, 2036.25),
    (Carrier::U2, 401.25),
];

fn carriers(g: &mut Gen) -> Res {
    let (c, f) = *g.pick(CARRIERS);
    g.nontrivial = true;
    let text = c.to_string();
    g.text = text.clone();
    match Carrier::from_str(&vary(g, &text, true, true)) {
        Ok(b) => ensure!(b == c, "carrier-roundtrip", "{:?} prints {:?}, read as {:?}", c, text, b),
        Err(e) => return fail("carrier-roundtrip", format!("{:?} prints {:?}: {}", c, text, e)),
    }
    let check = |c: Carrier, f: f64| -> Res {
        ensure!((c.frequency_mhz() - f).abs() < 1e-9 && (c.frequency() / 1e6 - f).abs() < 1e-9, "frequency", "{:?}: {} {}", c, c.frequency_mhz(), c.frequency());
        let w = 299.792458 / f;
        ensure!((c.wavelength() - w).abs() < 1e-12, "wavelength", "{:?}: {} instead of {}", c, c.wavelength(), w);
        Ok(())
    };
    check(c, f)?;
    // Glonass FDMA channels
    let k = g.range(-7, 6) as i8;
    check(Carrier::G1(Some(k)), 1602.0 + 0.5625 * k as f64)?;
    check(Carrier::G2(Some(k)), 1246.0 + 0.4375 * k as f64)?;
    for (from, want) in [
        (Carrier::G1(None), Carrier::G1(Some(k))),
        (Carrier::G2(None), Carrier::G2(Some(k))),
        (Carrier::G1(Some(3)), Carrier::G1(Some(k))),
        (Carrier::L1, Carrier::G1(Some(k))),
        (Carrier::L2, Carrier::G2(Some(k))),
        (Carrier::G3, Carrier::G3),
        (Carrier::E5a, Carrier::E5a),
    ] {
        let got = from.with_glonass_offset(k);
        ensure!(got == want, "glonass-channel", "{:?} at channel {} is {:?}", from, k, got);
    }
    // the two DORIS channels
    for (code, want) in [("L1", Carrier::S1), ("C1", Carrier::S1), ("W1", Carrier::S1), ("L2", Carrier::U2), ("C2", Carrier::U2), ("W2", Carrier::U2)] {
        let got = Carrier::from_doris_observable(&Observable::from_str(code).unwrap());
        ensure!(got.as_ref().ok() == Some(&want), "doris-carrier", "{}: {:?}", code, got.ok());
    }
    for junk in ["", "L0", "L", "X1", "E55", "G9", "C1", "B4", "E5c"] {
        ensure!(Carrier::from_str(junk).is_err(), "carrier-junk", "{:?} accepted", junk);
    }
    Ok(())
}

/// a closed vocabulary: each code maps to one value, which prints the code
fn vocab<T: FromStr + PartialEq + Debug>(
    g: &mut Gen,
    name: &'static str,
    table: &[(&str, T)],
    case: bool,
    pad: bool,
    print: Option<fn(&T) -> String>,
    junk: &[&str],
) -> Res {
    g.label(name);
    let (code, want) = g.pick(table);
    let text = vary(g, code, case, pad);
    g.text = (format!("{}: {:?}", name, text)).into();
    match T::from_str(&text) {
        Ok(v) => {
            ensure!(v == *want, "vocabulary", "{}: {:?} read as {:?}", name, text, v);
            if let Some(print) = print {
                let p = print(&v);
                ensure!(p == *code, "vocabulary-print", "{}: {:?} prints {:?}", name, text, p);
                ensure!(T::from_str(&p).ok() == Some(v), "vocabulary-print", "{}: {:?} does not read back", name, p);
            }
        },
        Err(_) => return fail("vocabulary", format!("{}: {:?} rejected", name, text)),
    }
    let j = g.pick(junk);
    ensure!(T::from_str(j).is_err(), "vocabulary-junk", "{}: {:?} accepted as {:?}", name, j, T::from_str(j).ok());
    Ok(())
}

fn vocabularies(g: &mut Gen) -> Res {
    g.nontrivial = true;
    match g.below(16) {
        14 => orbit_text(g),
        0 => vocab(
            g,
            "event flag",
            &[
                ("0", EpochFlag::Ok),
                ("1", EpochFlag::PowerFailure),
                ("2", EpochFlag::AntennaBeingMoved),
                ("3", EpochFlag::NewSiteOccupation),
                ("4", EpochFlag::HeaderInformationFollows),
                ("5", EpochFlag::ExternalEvent),
                ("6", EpochFlag::CycleSlip),
            ],
            false,
            false,
            Some(|v| v.to_string()),
            &["7", "9", "", "A", "00", "-1"],
        ),
        1 => vocab(
            g,
            "marker type",
            &[
                ("GEODETIC", MarkerType::Geodetic),
                ("NON GEODETIC", MarkerType::NonGeodetic),
                ("NON PHYSICAL", MarkerType::NonPhysical),
                ("SPACEBORNE", MarkerType::Spaceborne),
                ("AIRBORNE", MarkerType::Airborne),
                ("WATER CRAFT", MarkerType::Watercraft),
                ("GROUND CRAFT", MarkerType::Groundcraft),
                ("FIXED BUOY", MarkerType::FixedBuoy),
                ("FLOATING BUOY", MarkerType::FloatingBuoy),
                ("FLOATING ICE", MarkerType::FloatingIce),
                ("GLACIER", MarkerType::Glacier),
                ("BALLISTIC", MarkerType::Ballistic),
                ("ANIMAL", MarkerType::Animal),
                ("HUMAN", MarkerType::Human),
            ],
            true,
            false,
            Some(|v| v.to_string()),
            &["", "GEO", "BUOY", "NONGEODETICS", "SPACE"],
        ),
        2 => vocab(
            g,
            "clock profile",
            &[
                ("AR", ClockProfileType::AR),
                ("AS", ClockProfileType::AS),
                ("CR", ClockProfileType::CR),
                ("DR", ClockProfileType::DR),
                ("MS", ClockProfileType::MS),
            ],
            true,
            true,
            Some(|v| v.to_string()),
            &["", "A", "RA", "SM", "AT", "ASR"],
        ),
        3 => vocab(
            g,
            "navigation frame",
            &[
                ("EPH", NavFrameType::Ephemeris),
                ("STO", NavFrameType::SystemTimeOffset),
                ("EOP", NavFrameType::EarthOrientation),
                ("ION", NavFrameType::IonosphereModel),
            ],
            true,
            true,
            Some(|v| v.to_string()),
            &["", "EP", "EPHE", "OPE", "XYZ"],
        ),
        4 => vocab(
            g,
            "navigation message",
            &[
                ("LNAV", NavMessageType::LNAV),
                ("FDMA", NavMessageType::FDMA),
                ("FNAV", NavMessageType::FNAV),
                ("INAV", NavMessageType::INAV),
                ("IFNV", NavMessageType::IFNV),
                ("D1", NavMessageType::D1),
                ("D2", NavMessageType::D2),
                ("D1D2", NavMessageType::D1D2),
                ("SBAS", NavMessageType::SBAS),
                ("CNAV", NavMessageType::CNAV),
                ("CNV1", NavMessageType::CNV1),
                ("CNV2", NavMessageType::CNV2),
                ("CNV3", NavMessageType::CNV3),
                ("CNVX", NavMessageType::CNVX),
            ],
            true,
            true,
            Some(|v| v.to_string()),
            &["", "NAV", "D3", "CNV4", "LNAVX"],
        ),
        5 => vocab(
            g,
            "mapping function",
            &[("COSZ", MappingFunction::CosZ), ("QFAC", MappingFunction::QFac)],
            true,
            true,
            None,
            &["", "COS", "FAC", "NONE"],
        ),
        6 => vocab(
            g,
            "calibration method",
            &[
                ("CHAMBER", CalibrationMethod::Chamber),
                ("FIELD", CalibrationMethod::Field),
                ("ROBOT", CalibrationMethod::Robot),
                ("COPIED", CalibrationMethod::Copied),
                ("CONVERTED", CalibrationMethod::Converted),
                ("", CalibrationMethod::Unknown),
            ],
            true,
            true,
            None,
            &["COPY", "ROBOTS", "X"],
        ),
        7 => vocab(
            g,
            "phase centre variations",
            &[("A", Pcv::Absolute), ("R", Pcv::Relative("AOAD/M_T".into()))],
            false,
            false,
            None,
            &["", "B", "AR", "0"],
        ),
        8 => {
            use rinex::ionex::RefSystem as R;
            g.label("ionosphere reference system");
            // codes of the standard; the value is only observable through its text
            let codes = ["BEN", "ENV", "ERS", "IRI", "NNS", "TOP"];
            let i = g.usize(0, codes.len() - 1);
            let text = vary(g, codes[i], true, false);
            g.text = text.clone();
            let Ok(v) = R::from_str(&text) else { return fail("vocabulary", format!("reference system {:?} rejected", text)) };
            match (&v, i < 4) {
                (R::ObservationSystem(_), true) | (R::Model(_), false) => {},
                _ => return fail("vocabulary", format!("reference system {:?} read as {:?}", text, v)),
            }
            ensure!(v.to_string() == codes[i], "vocabulary-print", "reference system {:?} prints {:?}", text, v.to_string());
            for (c, want) in [("GPS", Constellation::GPS), ("GAL", Constellation::Galileo), ("GNSS", Constellation::Mixed)] {
                let v = R::from_str(c);
                ensure!(v.as_ref().ok() == Some(&RefSystem::GnssConstellation(want)), "vocabulary", "reference system {:?} read as {:?}", c, v.ok());
            }
            for j in ["", "XYZ", "QQQ"] {
                if !j.is_empty() {
                    ensure!(R::from_str(j).is_err(), "vocabulary-junk", "reference system {:?} accepted", j);
                }
            }
            Ok(())
        },
        9 => {
            g.label("RINEX type");
            let (t, legal): (RinexType, &[&str]) = match g.below(7) {
                0 => (RinexType::ObservationData, &["OBSERVATION DATA"]),
                1 => (
                    RinexType::NavigationData,
                    &["NAVIGATION DATA", "NAV DATA", "N: GPS NAV DATA", "N: GNSS NAV DATA", "GLONASS NAV DATA", "GALILEO NAV DATA", "G: GLONASS NAV DATA", "SBAS NAV DATA"],
                ),
                2 => (RinexType::MeteoData, &["METEOROLOGICAL DATA"]),
                3 => (RinexType::ClockData, &["CLOCK DATA", "C"]),
                4 => (RinexType::IonosphereMaps, &["IONOSPHERE MAPS"]),
                5 => (RinexType::AntennaData, &["ANTEX"]),
                _ => (RinexType::DORIS, &["DORIS", "D"]),
            };
            let text = { let l = *g.pick(legal); vary(g, l, true, false) };
            g.text = text.clone();
            ensure!(RinexType::from_str(&text).ok() == Some(t), "type", "{:?} read as {:?}", text, RinexType::from_str(&text).ok());
            let c = g.pickc(&[None, Some(Constellation::GPS), Some(Constellation::Glonass), Some(Constellation::Galileo), Some(Constellation::Mixed), Some(Constellation::SBAS)]);
            let p = t.to_standard_string(c);
            ensure!(RinexType::from_str(&p).ok() == Some(t), "type-print", "{:?} ({:?}) prints {:?}, read as {:?}", t, c, p, RinexType::from_str(&p).ok());
            let j = g.pickc(&["", "DATA", "OBS", "X", "ANTEXT", "IONOSPHERE", "NAV"]);
            ensure!(RinexType::from_str(j).is_err(), "type-junk", "{:?} accepted", j);
            Ok(())
        },
        10 => version(g),
        11 => snr(g),
        12 => {
            g.label("loss of lock");
            let bits = g.range(0, 7) as u8;
            let l = LliFlags::from_bits(bits);
            let Some(l) = l else { return fail("lli", format!("{} rejected", bits)) };
            g.text = (bits.to_string()).into();
            ensure!(l.bits() == bits, "lli", "{} became {}", bits, l.bits());
            for (b, f) in [(1, LliFlags::LOCK_LOSS), (2, LliFlags::HALF_CYCLE_SLIP), (4, LliFlags::UNDER_ANTI_SPOOFING)] {
                ensure!(l.contains(f) == (bits & b != 0), "lli", "{}: flag {}", bits, b);
            }
            Ok(())
        },
        13 => {
            g.label("data source");
            let (code, want) = g.pickc(&[("R", DataSource::Receiver), ("S", DataSource::Stream), ("U", DataSource::Unknown), ("RCVR", DataSource::Receiver), ("STREAM", DataSource::Stream)]);
            g.text = (code).into();
            ensure!(DataSource::from_str(code).ok() == Some(want), "vocabulary", "data source {:?}", code);
            Ok(())
        },
        _ => leap(g),
    }
}

/// a broadcast word, printed, is still the same number
fn orbit_text(g: &mut Gen) -> Res {
    use rinex::navigation::{GeoHealth, GloHealth, Health, IrnssHealth, OrbitItem};
    g.label("broadcast word");
    let (it, val) = match g.below(8) {
        0 => {
            let v = g.below(256) as u8;
            (OrbitItem::U8(v), v as f64)
        },
        1 => {
            let v = g.range(-128, 127) as i8;
            (OrbitItem::I8(v), v as f64)
        },
        2 => {
            let v = g.range(0, u32::MAX as i64) as u32;
            (OrbitItem::U32(v), v as f64)
        },
        3 => {
            let v = g.range(-999_999_999_999, 999_999_999_999) as f64 * 10f64.powi(g.range(-22, 4) as i32);
            (OrbitItem::F64(v), v)
        },
        4 => {
            let t = [
                Health::Unhealthy, Health::L1Healthy, Health::L2Healthy, Health::L1L2Healthy,
                Health::L5Healthy, Health::L1L5Healthy, Health::L2L5Healthy, Health::L1L2L5Healthy,
            ];
            let i = g.usize(0, 7);
            (OrbitItem::Health(t[i].clone()), i as f64)
        },
        5 => {
            let (h, v) = g.pickc(&[(0, 0.0), (1, 4.0)]);
            (OrbitItem::GloHealth(if h == 0 { GloHealth::Healthy } else { GloHealth::Unhealthy }), v)
        },
        6 => {
            let (h, v) = g.pickc(&[(0, 0.0), (1, 8.0)]);
            (OrbitItem::GeoHealth(if h == 0 { GeoHealth::Unknown } else { GeoHealth::Reserved }), v)
        },
        _ => {
            let (h, v) = g.pickc(&[(0, 0.0), (1, 1.0)]);
            (OrbitItem::IrnssHealth(if h == 0 { IrnssHealth::Healthy } else { IrnssHealth::Unknown }), v)
        },
    };
    let t = it.to_string();
    g.text = format!("{:?} {:?}", it, t);
    let got = t.trim().parse::<f64>();
    let tol = val.abs() * 1e-11;
    ensure!(matches!(&got, Ok(x) if (x - val).abs() <= tol), "orbit-text", "{:?} prints {:?}, not {}", it, t, val);
    ensure!(
        match it.as_f64() {
            Some(x) => x == val,
            None => !matches!(it, OrbitItem::F64(_) | OrbitItem::U8(_) | OrbitItem::I8(_) | OrbitItem::U32(_)),
        },
        "orbit-number", "{:?} is {:?}", it, it.as_f64()
    );
    Ok(())
}

fn version(g: &mut Gen) -> Res {
    g.label("version");
    let major = g.range(1, 9) as u8;
    let minor = g.range(0, 99) as u8;
    // "3", "3.04", "2.11"; a one digit minor stands for itself
    let text = match g.below(3) {
        0 if minor == 0 => major.to_string(),
        1 if minor < 10 => format!("{}.{}", major, minor),
        _ => format!("{}.{:02}", major, minor),
    };
    g.text = text.clone();
    let Ok(v) = Version::from_str(&text) else { return fail("version", format!("{:?} rejected", text)) };
    ensure!((v.major, v.minor) == (major, minor), "version", "{:?} read as {:?}", text, v);
    ensure!(Version::from_str(&v.to_string()).ok() == Some(v), "version-print", "{:?} prints {:?}", v, v.to_string());
    let t: (u8, u8) = v.into();
    ensure!(t == (major, minor) && Version::new(major, minor) == v, "version", "{:?}", t);
    ensure!(v.is_supported() == (major < 4 || (major == 4 && minor == 0)), "version-support", "{:?}", v);
    let w = Version::new(g.range(1, 9) as u8, g.range(0, 12) as u8);
    ensure!((v < w) == ((major, minor) < (w.major, w.minor)) && (v == w) == ((major, minor) == (w.major, w.minor)), "version-order", "{:?} {:?}", v, w);
    let n = g.range(0, 9) as u8;
    let (mut p, mut m) = (v, v);
    p += n;
    m -= n;
    ensure!(v + n == p && p == Version::new(major + n, minor), "version-arithmetic", "{:?} + {}", v, n);
    let want = if n >= major { 1 } else { major - n };
    ensure!(v - n == m && m == Version::new(want, minor), "version-arithmetic", "{:?} - {}: {:?}", v, n, v - n);
    let j = g.pickc(&["", ".", "a", "3.a", "x.1", "300", "3.-1", "-3"]);
    ensure!(Version::from_str(j).is_err(), "version-junk", "{:?} accepted", j);
    Ok(())
}

fn snr(g: &mut Gen) -> Res {
    g.label("signal strength");
    let all = [
        SNR::DbHz0,
        SNR::DbHz12,
        SNR::DbHz12_17,
        SNR::DbHz18_23,
        SNR::DbHz24_29,
        SNR::DbHz30_35,
        SNR::DbHz36_41,
        SNR::DbHz42_47,
        SNR::DbHz48_53,
        SNR::DbHz54,
    ];
    let d = g.usize(0, 9);
    let text = vary(g, &d.to_string(), false, true);
    g.text = text.clone();
    let Ok(s) = SNR::from_str(&text) else { return fail("snr", format!("{:?} rejected", text)) };
    ensure!(s == all[d], "snr", "{:?} read as {:?}", text, s);
    ensure!(SNR::from(d as u8) == s, "snr", "digit {}: {:?}", d, SNR::from(d as u8));
    ensure!(format!("{:x}", s) == d.to_string(), "snr-print", "{:?} prints {:x}", s, s);
    // in words: bounds of the class, in dBHz
    let words = ["<< 12 dB", "< 12 dB", "[12, 17[ dB", "[18, 23[ dB", "[24, 29[ dB", "[30, 35[ dB", "[36, 41[ dB", "[42, 47[ dB", "[48, 53[ dB", "> 54 dB"];
    ensure!(format!("{:e}", s) == words[d], "snr-print", "{:?} prints {:e}", s, s);
    use rinex::observation::Combination::*;
    let (c, long, short) = g.pickc(&[
        (GeometryFree, "Geometry Free", "gf"),
        (IonosphereFree, "Ionosphere Free", "if"),
        (WideLane, "Wide Lane", "wl"),
        (NarrowLane, "Narrow Lane", "nl"),
        (MelbourneWubbena, "Melbourne-Wübbena", "mw"),
    ]);
    ensure!(c.to_string() == long && format!("{:x}", c) == short, "combination-print", "{:?} prints {} and {:x}", c, c, c);
    let e = g.usize(0, 9);
    ensure!((all[d] < all[e]) == (d < e), "snr-order", "{} and {}", d, e);
    // standard: min(max(int(dBHz / 6), 1), 9)
    let db = g.range(0, 99);
    let want = all[((db / 6).max(1).min(9)) as usize];
    ensure!(SNR::from(db as f64) == want, "snr-dbhz", "{} dBHz is {:?} instead of {:?}", db, SNR::from(db as f64), want);
    // a class goes to a value of that class; levels are monotonous
    let v: f64 = s.into();
    let w: f64 = all[e].into();
    ensure!(d == e || (v < w) == (d < e), "snr-order", "{:?}={} {:?}={}", s, v, all[e], w);
    if d > 1 {
        ensure!(SNR::from(v) == s, "snr-dbhz", "{:?} is {} dBHz is {:?}", s, v, SNR::from(v));
    }
    ensure!(s.bad() == (d <= 3) && s.weak() == (d < 5) && s.strong() == (d >= 5) && s.excellent() == (d >= 8), "snr-level", "{:?}: bad {} weak {} strong {} excellent {}", s, s.bad(), s.weak(), s.strong(), s.excellent());
    for j in ["", "10", "x", "-1"] {
        ensure!(SNR::from_str(j).is_err(), "snr-junk", "{:?} accepted", j);
    }
    Ok(())
}

fn leap(g: &mut Gen) -> Res {
    g.label("leap seconds");
    let mut want = Leap::default();
    want.leap = g.range(0, 99) as u32;
    let mut text = format!("{:6}", want.leap);
    if g.bool() {
        let (d, w, day) = (g.range(0, 99) as u32, g.range(0, 2500) as u32, g.range(0, 7) as u32);
        text.push_str(&format!("{:6}{:6}{:6}", d, w, day));
        want = want.with_delta_tls(d).with_week(w).with_day(day);
        if g.bool() {
            let (t, ts) = g.pickc(&[("GPS", TimeScale::GPST), ("BDS", TimeScale::BDT)]);
            text.push_str(t);
            want = want.with_timescale(ts);
        }
    }
    let text = if g.bool() { text.trim().to_string() } else { format!("{:60}", text) };
    g.text = text.clone();
    let got = Leap::from_str(&text);
    ensure!(got.as_ref().ok() == Some(&want), "leap", "{:?} read as {:?}", text, got.ok());
    let mut buf = std::io::BufWriter::new(Vec::new());
    want.format(&mut buf).unwrap();
    let out = String::from_utf8(buf.into_inner().unwrap()).unwrap();
    let body = out.strip_suffix("LEAP SECONDS\n");
    let Some(body) = body else { return fail("leap-print", format!("{:?}", out)) };
    ensure!(body.len() == 60, "leap-print", "{:?} {}", out, body.len());
    ensure!(Leap::from_str(body).ok() == Some(want), "leap-print", "{:?} read as {:?}", body, Leap::from_str(body).ok());
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P19",
        parts: vec![
            Part { name: "signals", run: signals, quick: 1_000_000, thorough: 10_000_000 },
            Part { name: "physics", run: physics, quick: 1_000_000, thorough: 10_000_000 },
            Part { name: "carriers", run: carriers, quick: 200_000, thorough: 2_000_000 },
            Part { name: "vocabularies", run: vocabularies, quick: 1_500_000, thorough: 15_000_000 },
        ],
        rule: "a code of the standard (any case, any padding the reader tolerates) was read and its meaning, text and physics compared with independent tables",
        assumptions: &[
            "two letter codes of BeiDou and the code C5 of a RINEX 2 Galileo file are pinned by the tests to other meanings than the standard's and are left out",
            "SNR classes are compared at whole dBHz (the standard's formula)",
        ],
    }
}
