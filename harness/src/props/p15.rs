//! P15: antenna calibrations.
use crate::ensure;
use crate::gen::Gen;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::antex::record::AntennaPhasePattern;
use rinex::antex::{Antenna, AntennaMatcher, AntennaSpecific, CalibrationMethod, Pcv};
use rinex::carrier::Carrier;
use rinex::prelude::*;
use std::fmt::Write;
use std::str::FromStr;

#[derive(Clone, Debug)]
struct Freq {
    sys: char,
    num: u8,
    neu: (i64, i64, i64),
    noazi: Vec<i64>,
    azi: bool,
    rms: bool,
}

#[derive(Clone, Debug)]
enum Kind {
    Rx { igs: String, radome: &'static str, serial: Option<String> },
    Sv { kind: String, sv: (char, i64), svn: i64, cospar: (i64, i64, char) },
}

#[derive(Clone, Debug)]
struct Ant {
    kind: Kind,
    method: &'static str,
    agency: String,
    number: i64,
    date: (i32, u8, u8),
    dazi: i64,
    zen: (i64, i64, i64),
    from: Option<Civil>,
    until: Option<Civil>,
    sinex: String,
    freqs: Vec<Freq>,
}

struct Atx {
    system: char,
    pcv: char,
    rel: String,
    refsn: String,
    ants: Vec<Ant>,
}

/// frequency codes of the format
fn carrier(sys: char, num: u8) -> Carrier {
    match (sys, num) {
        ('G', 2) | ('J', 2) => Carrier::L2,
        ('G', 5) | ('J', 5) | ('S', 5) | ('I', 5) => Carrier::L5,
        ('J', 6) => Carrier::L6,
        ('I', 9) => Carrier::S,
        ('R', 1) => Carrier::G1(None),
        ('R', 2) => Carrier::G2(None),
        ('R', 3) => Carrier::G3,
        ('E', 1) => Carrier::E1,
        ('E', 5) => Carrier::E5a,
        ('E', 6) => Carrier::E6,
        ('E', 7) => Carrier::E5b,
        ('E', 8) => Carrier::E5,
        ('C', 1) => Carrier::B1C,
        ('C', 2) => Carrier::B1I,
        ('C', 5) => Carrier::B2A,
        ('C', 6) => Carrier::B3,
        ('C', 7) => Carrier::B2B,
        ('C', 8) => Carrier::B2,
        _ => Carrier::L1,
    }
}

const FREQS: &[(char, u8)] = &[
    ('G', 1), ('G', 2), ('G', 5), ('R', 1), ('R', 2), ('R', 3), ('E', 1), ('E', 5), ('E', 6), ('E', 7), ('E', 8), ('C', 1),
    ('C', 2), ('C', 5), ('C', 6), ('C', 7), ('C', 8), ('J', 1), ('J', 2), ('J', 5), ('J', 6), ('S', 1), ('S', 5), ('I', 5), ('I', 9),
];
const MODELS: &[&str] = &["TRM59800.00", "JPSLEGANT_E", "LEIAR25.R4", "ASH701945C_M", "AOAD/M_T", "TPSCR.G3"];
const SATS: &[&str] = &["BLOCK IIA", "BLOCK IIR-M", "BLOCK IIF", "GLONASS-K1", "GALILEO-2", "BEIDOU-3SM-CAST", "QZSS", "IRNSS-1IGSO"];
const MONTHS: [&str; 12] = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"];

fn freq(g: &mut Gen, (sys, num): (char, u8), points: usize) -> Freq {
    Freq {
        sys,
        num,
        neu: (g.int_digits(7, true), g.int_digits(5, true), g.int_digits(7, true)),
        noazi: (0..points).map(|_| if g.chance(1, 20) { g.int_digits(6, true) } else { g.int_digits(5, true) }).collect(),
        azi: g.bool(),
        rms: g.chance(1, 4),
    }
}

fn moment(g: &mut Gen) -> Civil {
    let mut t = Civil::gen(g, (1985, 2030), false);
    t.t100 -= t.frac();
    if g.bool() {
        t.t100 += g.pickc(&[9_999_999u32, 0, 5_000_000, 1, 1230]);
    }
    t
}

/// a text that fills up to `max` columns, all of them one time out of two
fn words(g: &mut Gen, max: usize) -> String {
    let n = if g.bool() { g.usize(4, max) } else { max };
    let s = g.string(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_./+ ", n, n);
    format!("X{}", s.get(1..n - 1).unwrap_or("")) + "9"
}

fn ant(g: &mut Gen) -> Ant {
    let sat = g.bool();
    let kind = if sat {
        let sys = g.pickc(&['G', 'R', 'E', 'C', 'J', 'I']);
        Kind::Sv {
            kind: if g.chance(1, 4) { words(g, 20) } else { g.pickc(SATS).to_string() },
            sv: (sys, if g.chance(1, 8) { g.range(5, 36) } else { g.range(1, 4) }),
            svn: g.range(1, 999),
            cospar: (g.range(1978, 2040), g.range(1, 120), g.pickc(&['A', 'B', 'C'])),
        }
    } else {
        Kind::Rx {
            igs: if g.chance(1, 4) { words(g, 16) } else { g.pickc(MODELS).to_string() },
            radome: g.pickc(&["NONE", "SCIT", "LEIT"]),
            serial: match g.below(8) {
                0..=3 => None,
                4..=6 => Some(g.pickc(&["A123", "b77", "12345", "TRM59800.00", "NONE-7", "none"]).to_string()),
                _ => Some(words(g, 20)),
            },
        }
    };
    let zen = g.pickc(&[(0i64, 900i64, 50i64), (0, 140, 10), (0, 170, 10), (0, 900, 300), (0, 20, 10), (0, 900, 25), (0, 0, 10)]);
    let points = ((zen.1 - zen.0) / zen.2 + 1) as usize;
    let sys = match &kind {
        Kind::Sv { sv, .. } => Some(sv.0),
        _ => None,
    };
    let pool: Vec<(char, u8)> = FREQS.iter().filter(|f| sys.map(|s| s == f.0).unwrap_or(true)).cloned().collect();
    let n = g.usize(1, pool.len().min(5));
    let picked = g.subset(&pool, n, false);
    let freqs = picked.into_iter().map(|f| freq(g, f, points)).collect();
    let from = if g.chance(2, 3) { Some(moment(g)) } else { None };
    let until = match from {
        Some(t) if g.chance(2, 3) => Some(t.add(g.pickc(&[10_000_000i64, 864_000_000_000, 863_999_999_999, 864_000_000_000_000]))),
        None if g.chance(1, 4) => Some(moment(g)),
        _ => None,
    };
    let y = g.range(1991, 2030) as i32;
    let m = g.range(1, 12) as u8;
    Ant {
        kind,
        method: g.pickc(&["CHAMBER", "FIELD", "ROBOT", "COPIED", "CONVERTED", ""]),
        agency: if g.chance(1, 4) { words(g, 20) } else { g.pickc(&["IGG, Univ. Bonn", "Geo++ GmbH", "TUM", "", "ESA/CNES 12345 67890"]).to_string() },
        number: if g.chance(1, 6) { g.range(1000, 65535) } else { g.range(0, 999) },
        date: (y, m, g.range(1, month_days(y, m) as i64) as u8),
        dazi: g.pickc(&[0, 50, 100, 300]),
        zen,
        from,
        until,
        sinex: if g.chance(1, 6) { words(g, 10) } else { g.pickc(&["IGS14_2247", "IGS20", ""]).to_string() },
        freqs,
    }
}

fn file(g: &mut Gen) -> Atx {
    let n = g.usize(1, 5);
    let mut ants: Vec<Ant> = vec![];
    for _ in 0..n {
        let mut a = ant(g);
        if let (true, Some(p)) = (g.bool(), ants.last()) {
            // one more calibration of the same antenna
            if matches!((&a.kind, &p.kind), (Kind::Rx { .. }, Kind::Rx { .. })) {
                a.kind = p.kind.clone();
            } else {
                a = Ant { from: p.until, until: p.until.map(|t| t.add(864_000_000_000)), ..p.clone() };
                for f in a.freqs.iter_mut() {
                    f.neu = (g.int_digits(7, true), g.int_digits(5, true), g.int_digits(7, true));
                }
            }
        }
        ants.push(a);
    }
    Atx {
        system: g.pickc(&['G', 'R', 'E', 'M', 'C']),
        pcv: g.pickc(&['A', 'R']),
        rel: if g.chance(1, 4) { words(g, 20) } else { g.pickc(&["", "AOAD/M_T", "TRM1"]).to_string() },
        refsn: if g.chance(1, 4) { words(g, 20) } else { g.pickc(&["", "12345", "SN 77"]).to_string() },
        ants,
    }
}

fn validity(t: &Civil) -> String {
    format!("{:6}{:6}{:6}{:6}{:6}{:>13}", t.y, t.mo, t.d, t.h, t.mi, format!("{}.{:07}", t.sec(), t.frac()))
}

impl Atx {
    fn text(&self, g: &mut Gen) -> String {
        let mut o = String::new();
        let mut p = |s: String, l: &str| writeln!(o, "{}", hline(&s, l)).unwrap();
        p(format!("{:>8}{:12}{}", "1.4", "", self.system), "ANTEX VERSION / SYST");
        p(format!("{:<20}{:<20}{:<20}", self.pcv, self.rel, self.refsn), "PCV TYPE / REFANT");
        p("some words".into(), "COMMENT");
        p("".into(), "END OF HEADER");
        for a in &self.ants {
            p("".into(), "START OF ANTENNA");
            match &a.kind {
                Kind::Rx { igs, radome, serial } => {
                    p(format!("{:<16}{:<4}{:<20}", igs, radome, serial.clone().unwrap_or_default()), "TYPE / SERIAL NO")
                },
                Kind::Sv { kind, sv, svn, cospar } => p(
                    format!(
                        "{:<20}{:<20}{:<10}{:<10}",
                        kind,
                        format!("{}{:02}", sv.0, sv.1),
                        format!("{}{:03}", sv.0, svn),
                        format!("{:04}-{:03}{}", cospar.0, cospar.1, cospar.2)
                    ),
                    "TYPE / SERIAL NO",
                ),
            }
            let (y, m, d) = a.date;
            let date = format!("{:02}-{}-{:02}", d, MONTHS[m as usize - 1], y % 100);
            p(format!("{:<20}{:<20}{:6}    {}", a.method, a.agency, a.number, date), "METH / BY / # / DATE");
            p(format!("  {}", fixed(a.dazi, 1, 6)), "DAZI");
            p(format!("  {}{}{}", fixed(a.zen.0, 1, 6), fixed(a.zen.1, 1, 6), fixed(a.zen.2, 1, 6)), "ZEN1 / ZEN2 / DZEN");
            p(format!("{:6}", a.freqs.len()), "# OF FREQUENCIES");
            if let Some(t) = &a.from {
                p(validity(t), "VALID FROM");
            }
            if let Some(t) = &a.until {
                p(validity(t), "VALID UNTIL");
            }
            if !a.sinex.is_empty() {
                p(a.sinex.clone(), "SINEX CODE");
            }
            if g.bool() {
                p("# derived from NOAZI of others".into(), "COMMENT");
            }
            let mut rms = vec![];
            let mut block = |o: &mut dyn FnMut(String, &str), f: &Freq, rms: bool| {
                let l = if rms { "FREQ RMS" } else { "FREQUENCY" };
                let code = format!("   {}{:02}", f.sys, f.num);
                o(code.clone(), &format!("START OF {}", l));
                let k = if rms { 7 } else { 1 };
                let (n, e, u) = f.neu;
                o(format!("{}{}{}", fixed(n / k, 2, 10), fixed(e / k, 2, 10), fixed(u / k, 2, 10)), "NORTH / EAST / UP");
                let v: String = f.noazi.iter().map(|v| fixed(*v / k, 2, 8)).collect();
                o(format!("   NOAZI{}", v), "RAW");
                if a.dazi > 0 && f.azi {
                    for az in (0..=3600).step_by(a.dazi as usize * 3) {
                        let v: String = f.noazi.iter().map(|v| fixed(*v / k + 1, 2, 8)).collect();
                        o(format!("{}{}", fixed(az as i64, 1, 8), v), "RAW");
                    }
                }
                o(code, &format!("END OF {}", l));
            };
            let mut put = |s: String, l: &str| {
                if l == "RAW" {
                    rms.push(s);
                } else {
                    rms.push(hline(&s, l));
                }
            };
            for f in &a.freqs {
                block(&mut put, f, false);
            }
            for f in a.freqs.iter().filter(|f| f.rms) {
                block(&mut put, f, true);
            }
            for s in rms {
                // raw: the line is complete
                p(s, "");
            }
            p("".into(), "END OF ANTENNA");
        }
        // no trailing blanks of the raw lines
        let mut t = String::new();
        for l in o.lines() {
            t.push_str(if l.len() > 80 || l.ends_with("                    ") { l.trim_end() } else { l });
            t.push('\n');
        }
        t
    }
}

fn check_ant(a: &Antenna, w: &Ant) -> Res {
    match (&a.specific, &w.kind) {
        (AntennaSpecific::RxAntenna(r), Kind::Rx { igs, serial, .. }) => {
            ensure!(r.igs_type == *igs && r.serial_number == *serial, "antenna", "{:?} where {:?} is written", r, w.kind)
        },
        (AntennaSpecific::SvAntenna(s), Kind::Sv { kind, sv, cospar, .. }) => {
            let c = COSPAR::from_str(&format!("{:04}-{:03}{}", cospar.0, cospar.1, cospar.2)).unwrap();
            ensure!(s.igs_type == *kind && s.sv == crate::nav::sv(sv.0, sv.1) && s.cospar == c, "antenna", "{:?} where {:?} is written", s, w.kind)
        },
        (s, k) => return fail("antenna", format!("{:?} where {:?} is written", s, k)),
    }
    let m = match w.method {
        "CHAMBER" => CalibrationMethod::Chamber,
        "FIELD" => CalibrationMethod::Field,
        "ROBOT" => CalibrationMethod::Robot,
        "COPIED" => CalibrationMethod::Copied,
        "CONVERTED" => CalibrationMethod::Converted,
        _ => CalibrationMethod::Unknown,
    };
    let c = &a.calibration;
    ensure!(c.method == m && c.agency == w.agency && c.number as i64 == w.number, "calibration", "{:?} where {:?} is written", c, w);
    ensure!(a.azi_inc == dec(w.dazi, 1), "azimuth", "{} where {} is written", a.azi_inc, w.dazi);
    let z = &a.zenith_grid;
    ensure!((z.start, z.end, z.spacing) == (dec(w.zen.0, 1), dec(w.zen.1, 1), dec(w.zen.2, 1)), "zenith", "{:?} where {:?} is written", z, w.zen);
    ensure!(a.sinex_code == w.sinex, "sinex", "{:?} where {:?} is written", a.sinex_code, w.sinex);
    match (c.validity_period, w.from, w.until) {
        (Some((a, b)), Some(wa), wb) => {
            let utc = |t: &Civil| t.epoch(TimeScale::UTC);
            ensure!(same_epoch(a, utc(&wa)), "validity", "from {:?} where {:?} is written", a, wa);
            if let Some(t) = wb {
                ensure!(same_epoch(b, utc(&t)), "validity", "until {:?} where {:?} is written", b, t);
            }
        },
        (Some((a, b)), None, Some(t)) => {
            ensure!(same_epoch(b, t.epoch(TimeScale::UTC)), "validity", "until {:?} where {:?} is written", b, t);
            ensure!(a.to_time_scale(TimeScale::UTC).to_gregorian(TimeScale::UTC).0 < 1979, "validity", "from {:?}, not written", a);
        },
        (None, None, None) => (),
        (p, a, b) => return fail("validity", format!("{:?} where {:?} {:?} is written", p, a, b)),
    }
    Ok(())
}

fn offset(f: &Freq) -> (f64, f64, f64) {
    (dec(f.neu.0, 2), dec(f.neu.1, 2), dec(f.neu.2, 2))
}

const YEAR: i64 = 365 * 864_000_000_000;

fn valid(a: &Ant, t: &Civil) -> bool {
    a.from.map(|f| t.ticks() >= f.ticks()).unwrap_or(true) && a.until.map(|u| t.ticks() <= u.ticks()).unwrap_or(true)
}

fn decode(g: &mut Gen) -> Res {
    let f = file(g);
    g.text = f.text(g);
    g.nontrivial = f.ants.len() > 1;
    g.label_if(f.ants.iter().any(|a| a.from.is_some() && a.until.is_none()), "open-validity");
    g.label_if(f.ants.iter().any(|a| a.freqs.iter().any(|f| f.rms)), "rms");
    g.label_if(f.ants.iter().any(|a| matches!(a.kind, Kind::Sv { .. })), "satellite");
    let rnx = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    let h = match &rnx.header.antex {
        Some(h) => h,
        None => return fail("header", "no antex header"),
    };
    ensure!(rnx.is_antex() && rnx.header.version == Version::new(1, 4), "header", "version {:?}", rnx.header.version);
    let sys = if f.system == 'M' { Constellation::Mixed } else { crate::nav::sv(f.system, 1).constellation };
    ensure!(rnx.header.constellation == Some(sys), "header", "system {:?}", rnx.header.constellation);
    let pcv = match (f.pcv, f.rel.as_str()) {
        ('A', _) => Pcv::Absolute,
        (_, "") => Pcv::Relative("AOAD/M_T".to_string()),
        (_, r) => Pcv::Relative(r.to_string()),
    };
    let sn = if f.refsn.is_empty() { None } else { Some(f.refsn.clone()) };
    ensure!(h.pcv_type == pcv && h.reference_ant_sn == sn, "header", "{:?} where {:?} {:?} is written", h, pcv, sn);

    let rec = match rnx.record.as_antex() {
        Some(r) => r,
        None => return fail("record-type", "not an antenna record"),
    };
    ensure!(rec.len() == f.ants.len(), "missing", "{} antennas, {} written", rec.len(), f.ants.len());
    let mut pinned_dates = 0;
    for ((a, m), w) in rec.iter().zip(&f.ants) {
        check_ant(a, w)?;
        for (c, d) in m {
            let found = w.freqs.iter().filter(|f| carrier(f.sys, f.num) == *c).any(|f| {
                let p: Vec<f64> = f.noazi.iter().map(|v| dec(*v, 2)).collect();
                d.apc_eccentricity == offset(f) && d.phase_pattern == AntennaPhasePattern::AzimuthIndependentPattern(p)
            });
            ensure!(found, "frequency", "{:?} {:?} is not written in {:?}", c, d, w);
        }
        for q in &w.freqs {
            ensure!(m.contains_key(&carrier(q.sys, q.num)), "frequency", "nothing for {}{:02} in {:?}", q.sys, q.num, m);
        }
        let (y, mo, d) = w.date;
        if a.calibration.date != Epoch::from_gregorian_utc_at_midnight(y, mo, d) {
            // day and year are exchanged: not always a date
            let (wy, wd) = (2000 + d as i32, (y % 100) as u8);
            let exchanged = if wd >= 1 && wd <= month_days(wy, mo) { Epoch::from_gregorian_utc_at_midnight(wy, mo, wd) } else { Epoch::default() };
            ensure!(a.calibration.date == exchanged, "date-value", "calibrated on {:?}, {:?} is written", a.calibration.date, w.date);
            pinned_dates += 1;
        }
    }
    let got: Vec<&Antenna> = rnx.antennas().map(|(a, _)| a).collect();
    let want: Vec<&Antenna> = rec.iter().map(|(a, _)| a).collect();
    ensure!(got == want, "antennas", "{:?}", got);

    // lookups around the bounds of the validity periods
    for _ in 0..4 {
        let a = g.pick(&f.ants).clone();
        let bound = match (a.from, a.until) {
            (Some(x), Some(y)) => g.pickc(&[x, y]),
            (Some(x), None) => x,
            _ => moment(g),
        };
        let t = bound.add(g.pickc(&[0i64, 1, -1, 10_000_000, -10_000_000, 432_000_000_000, -864_000_000_000_0, YEAR, -YEAR, 20 * YEAR, 120 * YEAR, 500 * YEAR]));
        let now = t.epoch(TimeScale::UTC);
        let n = rnx.antex_valid_calibrations(now).count();
        let k = f.ants.iter().filter(|a| valid(a, &t)).count();
        ensure!(n == k, "valid", "{} valid calibrations at {:?} instead of {}", n, t, k);
        let fr = if g.chance(3, 4) { let x = g.pick(&a.freqs); carrier(x.sys, x.num) } else { let x = g.pickc(FREQS); carrier(x.0, x.1) };
        let case = |g: &mut Gen, s: &str| if g.bool() { s.to_lowercase() } else { s.to_string() };
        let (got, want): (_, Vec<(f64, f64, f64)>) = {
            let offsets = |sel: &dyn Fn(&Kind) -> bool| {
                f.ants
                    .iter()
                    .filter(|a| valid(a, &t) && sel(&a.kind))
                    .flat_map(|a| a.freqs.iter().filter(|f| carrier(f.sys, f.num) == fr).map(offset))
                    .collect()
            };
            match &a.kind {
                Kind::Sv { sv, .. } => {
                    let q = if g.chance(3, 4) { *sv } else { (sv.0, g.range(1, 6)) };
                    let s = crate::nav::sv(q.0, q.1);
                    (rnx.sv_antenna_apc_offset(now, s, fr), offsets(&|k| matches!(k, Kind::Sv { sv, .. } if *sv == q)))
                },
                Kind::Rx { igs, serial, .. } => match (g.bool(), serial) {
                    (true, Some(s)) => (
                        rnx.rx_antenna_apc_offset(now, AntennaMatcher::SerialNumber(case(g, s)), fr),
                        offsets(&|k| matches!(k, Kind::Rx { serial: Some(x), .. } if x == s)),
                    ),
                    _ => (
                        rnx.rx_antenna_apc_offset(now, AntennaMatcher::IGSCode(case(g, igs)), fr),
                        offsets(&|k| matches!(k, Kind::Rx { igs: x, .. } if x == igs)),
                    ),
                },
            }
        };
        match got {
            Some(o) => ensure!(want.contains(&o), "lookup", "{:?} for {:?} at {:?}, candidates {:?}", o, a.kind, t, want),
            None => ensure!(want.is_empty(), "lookup", "nothing for {:?} at {:?}, candidates {:?}", a.kind, t, want),
        }
    }
    ensure!(pinned_dates == 0, "date", "{} calibration dates differ", pinned_dates);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P15",
        parts: vec![Part { name: "decode", run: decode, quick: 120_000, thorough: 3_000_000 }],
        rule: "decode: antenna files of an independent writer (1 to 5 receiver or satellite antennas, some being later calibrations of the same one; 1 to 5 frequencies of every system; zenith grids of 1 to 37 points, so that patterns are shorter or longer than a labelled line; azimuth dependent and RMS sections interleaved; validity from, until, both or none to the 100 ns); every field of every antenna, frequency and pattern is compared, then offsets are looked up by satellite, model and serial number at and around the bounds of the validity periods. Non-trivial when the file describes more than one antenna.",
        assumptions: &[
            "the scale of validity dates is not stated in the file: taken as UTC, as the parser does",
            "the data model holds one calibration per carrier: when two systems of an antenna share a carrier, either of them is accepted",
        ],
    }
}

pub fn atx_text(g: &mut Gen) -> String {
    let f = file(g);
    f.text(g)
}
