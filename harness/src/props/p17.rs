//! P17: standard file names and production attributes.
use crate::ensure;
use crate::gen::Gen;
use crate::obs::{self, constellation, obs_file, to_rinex, DEFAULT_CFG};
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use hifitime::Unit;
use rinex::prelude::*;
use rinex::prod::{DataSource, DetailedProductionAttributes, FFU, PPU};
use std::str::FromStr;

const UP: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
const PPUS: [(PPU, &str); 5] = [
    (PPU::QuarterHour, "15M"),
    (PPU::Hourly, "01H"),
    (PPU::Daily, "01D"),
    (PPU::Yearly, "01Y"),
    (PPU::Unspecified, "00U"),
];
const SRC: [(DataSource, char); 3] = [(DataSource::Receiver, 'R'), (DataSource::Stream, 'S'), (DataSource::Unknown, 'U')];

/// the code of a rate above 1 Hz and the sampling period it stands for (ns)
fn rate(g: &mut Gen) -> (FFU, String) {
    let val = g.range(1, 99) as u32;
    let hundreds = val == 1 || g.bool();
    let hz = if hundreds { val as i64 * 100 } else { val as i64 };
    let ns = (2_000_000_000 / hz + 1) / 2;
    (FFU { val: ns as u32, unit: Unit::Nanosecond }, format!("{:02}{}", val, if hundreds { 'C' } else { 'Z' }))
}

fn ffu(g: &mut Gen) -> (FFU, String) {
    if g.below(8) == 7 {
        return rate(g);
    }
    let (unit, c) = g.pickc(&[(Unit::Second, 'S'), (Unit::Minute, 'M'), (Unit::Hour, 'H'), (Unit::Day, 'D')]);
    let val = g.range(1, 99) as u32;
    (FFU { val, unit }, format!("{:02}{}", val, c))
}

struct Attr {
    name: String,
    year: u32,
    doy: u32,
    country: String,
    batch: u8,
    src: (DataSource, char),
    ppu: (PPU, &'static str),
    ffu: Option<(FFU, String)>,
    hh: u8,
    mm: u8,
}

fn attr(g: &mut Gen) -> Attr {
    let year = g.range(1980, 2079) as u32;
    Attr {
        name: g.string(UP, 4, 4),
        year,
        doy: if g.chance(1, 5) { g.pickc(&[1, 9, 10, 99, 100, 365]) } else { g.range(1, if is_leap(year as i32) { 366 } else { 365 }) as u32 },
        country: g.string(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ", 3, 3),
        batch: g.range(0, 99) as u8,
        src: g.pickc(&SRC),
        ppu: g.pickc(&PPUS),
        ffu: if g.chance(2, 3) { Some(ffu(g)) } else { None },
        hh: g.range(0, 23) as u8,
        mm: g.range(0, 59) as u8,
    }
}

impl Attr {
    fn to(&self) -> ProductionAttributes {
        ProductionAttributes {
            name: self.name.clone(),
            year: self.year,
            doy: self.doy,
            region: None,
            v3_details: Some(DetailedProductionAttributes {
                country: self.country.clone(),
                batch: self.batch,
                data_src: self.src.0,
                ppu: self.ppu.0,
                ffu: self.ffu.as_ref().map(|f| f.0),
                hh: self.hh,
                mm: self.mm,
            }),
        }
    }
    /// name of the convention: XXXXMRCCC_S_YYYYDDDHHMM_PPU[_FRQ]_DT.fmt
    fn long(&self, dt: &str, ext: &str) -> String {
        let ffu = self.ffu.as_ref().map(|f| format!("_{}", f.1)).unwrap_or_default();
        format!(
            "{}{:02}{}_{}_{:04}{:03}{:02}{:02}_{}{}_{}.{}",
            self.name, self.batch, self.country, self.src.1, self.year, self.doy, self.hh, self.mm, self.ppu.1, ffu, dt, ext
        )
    }
}

/// case changes do not matter
fn recase(g: &mut Gen, s: &str) -> String {
    match g.below(4) {
        0 => s.to_lowercase(),
        1 => s.to_uppercase(),
        _ => s.to_string(),
    }
}

fn codes(g: &mut Gen) -> Res {
    g.nontrivial = true;
    for (p, s) in PPUS {
        ensure!(p.to_string() == s, "ppu", "{:?} prints {}", p, p);
        ensure!(PPU::from_str(s).ok() == Some(p), "ppu", "{} reads {:?}", s, PPU::from_str(s));
        if let Some(d) = p.duration() {
            ensure!(PPU::from(d) == p, "ppu", "{:?} lasts {} that is {:?}", p, d, PPU::from(d));
        }
    }
    // any file duration falls in the smallest period holding it
    let secs = if g.bool() { g.range(0, 90_000) } else { g.range(0, 40_000_000) };
    let want = match secs {
        0..=300 => PPU::Unspecified,
        301..=900 => PPU::QuarterHour,
        901..=3600 => PPU::Hourly,
        3601..=86400 => PPU::Daily,
        s if s * 4 >= 1461 * 86400 => PPU::Yearly,
        _ => PPU::Unspecified,
    };
    let got = PPU::from(Duration::from_seconds(secs as f64));
    ensure!(got == want, "ppu-duration", "{} s: {:?} instead of {:?}", secs, got, want);
    let (f, s) = ffu(g);
    g.text = s.clone();
    ensure!(f.to_string() == s, "ffu", "{:?} prints {} instead of {}", f, f, s);
    ensure!(FFU::from_str(&s).ok() == Some(f), "ffu", "{} reads {:?}", s, FFU::from_str(&s));
    let (val, unit) = match g.below(4) {
        0 => (g.range(1, 59), Unit::Second),
        1 => (g.range(1, 59), Unit::Minute),
        2 => (g.range(1, 23), Unit::Hour),
        _ => (g.range(1, 99), Unit::Day),
    };
    let got = FFU::from(val * unit);
    ensure!(got == FFU { val: val as u32, unit }, "ffu-duration", "{} {:?}: {:?}", val, unit, got);
    let (f, s) = rate(g);
    let got = FFU::from(Duration::from_total_nanoseconds(f.val as i128));
    ensure!(got == f && got.to_string() == s, "ffu-duration", "{} ns: {:?} {} instead of {:?} {}", f.val, got, got, f, s);
    ensure!(FFU::from_str("01Z").ok() == Some(FFU { val: 1, unit: Unit::Second }), "ffu", "01Z reads {:?}", FFU::from_str("01Z"));
    Ok(())
}

fn read_long(g: &mut Gen) -> Res {
    let a = attr(g);
    g.nontrivial = a.batch > 9 || a.ffu.is_some();
    let sys = g.pickc(b"GRECJSIM") as char;
    let dt = match a.ffu {
        Some(_) => {
            let k = g.pickc(b"OM") as char;
            format!("{}{}", if k == 'M' { 'M' } else { sys }, k)
        },
        None => format!("{}N", sys),
    };
    let ext = g.pickc(&["rnx", "crx", "rnx.gz", "crx.gz"]);
    let mut name = a.long(&dt, ext);
    if a.ffu.is_none() && g.chance(1, 4) {
        // an observation file whose rate is not specified
        name = name.replace(&format!("_{}.", dt), &format!("_00U_{}O.", sys));
    }
    g.text = recase(g, &name);
    match ProductionAttributes::from_str(&g.text) {
        Ok(got) => ensure!(got == a.to(), "long", "{} reads {:?} instead of {:?}", g.text, got, a.to()),
        Err(e) => return fail("long-rejected", format!("{} rejected: {}", g.text, e)),
    }
    Ok(())
}

fn read_short(g: &mut Gen) -> Res {
    g.nontrivial = true;
    let a = attr(g);
    let ionex = g.chance(1, 3);
    let ext = if ionex { 'I' } else { g.pickc(b"ODNGMLP") as char };
    let seq = g.pickc(b"0000abcdefghijklmnopqrstuvwx123456789") as char;
    let gz = g.pickc(&["", "", ".gz"]);
    let s = format!("{}{:03}{}.{:02}{}{}", a.name, a.doy, seq, a.year % 100, ext, gz);
    g.text = recase(g, &s);
    let want = ProductionAttributes {
        name: if ionex { a.name[..3].to_string() } else { a.name.clone() },
        year: a.year,
        doy: a.doy,
        region: if ionex { a.name.chars().nth(3) } else { None },
        v3_details: None,
    };
    match ProductionAttributes::from_str(&g.text) {
        Ok(got) => ensure!(got == want, "short", "{} reads {:?} instead of {:?}", g.text, got, want),
        Err(e) => return fail("short-rejected", format!("{} rejected: {}", g.text, e)),
    }
    Ok(())
}

/// attributes given by the user
fn custom(g: &mut Gen) -> Res {
    g.nontrivial = true;
    let mut a = attr(g);
    let kind = g.below(4);
    let short = g.bool();
    let sys = g.pickc(b"GRECJSIM") as char;
    let mut rnx = match kind {
        0 => Rinex::basic_obs(),
        1 => Rinex::basic_crinex(),
        2 => Rinex::basic_nav(),
        _ => {
            let h = Header { rinex_type: rinex::types::Type::MeteoData, ..Default::default() };
            Rinex::new(h, Record::MeteoRecord(Default::default()))
        },
    };
    rnx.header.constellation = Some(if sys == 'M' { Constellation::Mixed } else { constellation(sys) });
    if g.bool() {
        rnx.header.rcvr = Some(rinex::hardware::Receiver { model: "X".into(), sn: "Y".into(), firmware: "Z".into() });
    }
    let obs = kind < 2;
    if obs && a.ffu.is_none() {
        a.ffu = Some(ffu(g));
    } else if !obs {
        a.ffu = None;
    }
    let (dt, ext) = match kind {
        0 => (format!("{}O", sys), "rnx"),
        1 => (format!("{}O", sys), "crx"),
        2 => (format!("{}N", sys), "rnx"),
        _ => ("MM".to_string(), "rnx"),
    };
    let suffix = g.pickc(&[None, Some(".gz")]);
    let want = if short {
        let letter = match kind {
            0 => 'O',
            1 => 'D',
            2 => if sys == 'R' { 'G' } else { 'N' },
            _ => 'M',
        };
        format!("{}{:03}0.{:02}{}", a.name, a.doy, a.year % 100, letter)
    } else {
        a.long(&dt, ext)
    } + suffix.unwrap_or("");
    // from the attributes given, or from the file name this data comes from
    let got = rnx.standard_filename(short, suffix, Some(a.to()));
    g.text = got.clone();
    ensure!(got == want, "custom-name", "{} generated instead of {}", got, want);
    match ProductionAttributes::from_str(&got) {
        Ok(back) => {
            let mut w = a.to();
            if short {
                w.v3_details = None;
            }
            ensure!(back == w, "name-inverse", "{} reads {:?} instead of {:?}", got, back, w);
        },
        Err(e) => return fail("name-inverse", format!("{} rejected: {}", got, e)),
    }
    // IONEX
    let h = Header { rinex_type: rinex::types::Type::IonosphereMaps, ..Default::default() };
    let mut ionex = Rinex::new(h, Record::IonexRecord(Default::default()));
    let mut p = a.to();
    p.v3_details = None;
    p.name = a.name[..3].to_string();
    p.region = Some(a.name.chars().nth(3).unwrap());
    let read = p.clone();
    let want = format!("{}{:03}0.{:02}I", a.name, a.doy, a.year % 100);
    let got = if g.bool() {
        // only three letters identify the analysis center
        p.name.push_str(&g.string(UP, 0, 5));
        ionex.standard_filename(g.bool(), None, Some(p.clone()))
    } else {
        ionex.production = p.clone();
        ionex.standard_filename(g.bool(), None, None)
    };
    ensure!(got == want, "ionex-name", "{} generated instead of {}", got, want);
    ensure!(ProductionAttributes::from_str(&got).ok() == Some(read), "name-inverse", "{}", got);
    Ok(())
}

/// attributes deduced from the data
fn deduced(g: &mut Gen) -> Res {
    let cfg = obs::ObsCfg { events: false, max_epochs: 1, max_sats: 2, max_codes: 2, large: false, ..DEFAULT_CFG };
    let mut f = obs_file(g, &cfg);
    if f.epochs.is_empty() {
        return Ok(());
    }
    g.nontrivial = true;
    // steady sampling from this first epoch on
    let n = g.usize(2, 6);
    let (step, want_ffu) = match g.below(4) {
        0 => (g.range(1, 59), 'S'),
        1 => (g.range(1, 59), 'M'),
        2 => (g.range(1, 23), 'H'),
        _ => (g.pickc(&[2, 4, 5, 8, 10, 16, 20, 25, 40, 50, 80]), 'Z'),
    };
    // steps of 100 ns
    let ticks = match want_ffu {
        'S' => step * 10_000_000,
        'M' => step * 600_000_000,
        'H' => step * 36_000_000_000,
        _ => 10_000_000 / step,
    };
    let secs = ticks as f64 / 1.0E7;
    f.epochs.truncate(1);
    f.epochs[0].flag = 0;
    for i in 1..n {
        let mut e = f.epochs[0].clone();
        e.t = e.t.add(i as i64 * ticks);
        f.epochs.push(e);
    }
    let t = f.epochs[0].t;
    let mut rnx = to_rinex(g, &f, false);
    let rec = rnx.record.as_obs().map(|r| r.len()).unwrap_or(0);
    if rec != n {
        return Ok(());
    }
    rnx.header.rcvr = None;
    let doy = (days_from_civil(t.y, t.mo, t.d) - days_from_civil(t.y, 1, 1) + 1) as u32;
    let total = (ticks * (n as i64 - 1) + 9_999_999) / 10_000_000;
    let ppu = match total {
        0..=300 => PPU::Unspecified,
        301..=900 => PPU::QuarterHour,
        901..=3600 => PPU::Hourly,
        3601..=86400 => PPU::Daily,
        _ => PPU::Unspecified,
    };
    let (val, unit) = match want_ffu {
        'S' => (step, Unit::Second),
        'M' => (step, Unit::Minute),
        'H' => (step, Unit::Hour),
        _ => (ticks * 100, Unit::Nanosecond),
    };
    let a = attr(g);
    // no information: everything comes from the data
    rnx.production = ProductionAttributes::default();
    rnx.header.geodetic_marker = Some(GeodeticMarker::default().with_name(&a.name));
    let got = rnx.guess_production_attributes();
    let d = match &got.v3_details {
        Some(d) => d.clone(),
        None => return fail("guess", "no details"),
    };
    ensure!(
        got.name == a.name && got.year == t.y as u32 && got.doy == doy && (d.hh, d.mm) == (t.h, t.mi),
        "guess-date",
        "{:?} guessed for {:?} (day {})",
        got,
        t,
        doy
    );
    ensure!(d.ppu == ppu && d.ffu == Some(FFU { val: val as u32, unit }), "guess-period", "{:?} for {} epochs every {} s", d, n, secs);
    // the name of the file it comes from
    rnx.production = a.to();
    let sys = rnx.header.constellation.map(|c| if c == Constellation::Mixed { 'M' } else { f.system }).unwrap_or('M');
    let name = rnx.standard_filename(false, None, None);
    let want = format!(
        "{}{:02}{}_{}_{:04}{:03}{:02}{:02}_{}_{:02}{}_{}O.{}",
        a.name, a.batch, a.country, a.src.1, t.y, doy, t.h, t.mi, a.ppu.1, step, want_ffu, sys,
        if rnx.header.is_crinex() { "crx" } else { "rnx" }
    );
    g.text = name.clone();
    ensure!(name == want, "deduced-name", "{} generated instead of {}", name, want);
    let name = rnx.standard_filename(true, None, None);
    let want = format!("{}{:03}0.{:02}{}", a.name, doy, t.y % 100, if rnx.header.is_crinex() { 'D' } else { 'O' });
    ensure!(name == want, "deduced-name", "{} generated instead of {}", name, want);
    Ok(())
}

/// attributes and names of any file: content first, then what its name told, then blanks
fn guess(g: &mut Gen) -> Res {
    let d = crate::corpus::doc_cfg(g, &['O', 'X', 'M', 'N', 'C', 'I'], 3, false);
    g.text = d.text.clone();
    let mut rnx = match parse_text(&d.text) {
        Ok(r) => r,
        Err(_) => return Ok(()),
    };
    let epochs: Vec<Epoch> = match &rnx.record {
        Record::ObsRecord(r) => r.keys().map(|k| k.epoch).collect(),
        Record::MeteoRecord(r) => r.keys().map(|k| k.epoch).collect(),
        Record::NavRecord(r) => r.keys().map(|k| k.epoch).collect(),
        Record::ClockRecord(r) => r.keys().copied().collect(),
        Record::IonexRecord(r) => r.keys().map(|k| k.epoch).collect(),
        _ => vec![],
    };
    // the broadcast frames of several systems have dates of several time scales: which is first is another matter (P23)
    if let Some(e) = epochs.first() {
        if epochs.iter().any(|x| x.time_scale != e.time_scale) {
            return Ok(());
        }
    }
    let first = epochs.iter().min().copied();
    let last = epochs.iter().max().copied();
    g.nontrivial = first.is_some();
    // civil fields of the first date, in its own time scale
    let civil = first.map(|e| {
        let s = e.to_gregorian_str(e.time_scale);
        let n = |a: usize, b: usize| s[a..b].parse::<i64>().unwrap_or(-1);
        (n(0, 4) as i32, n(5, 7) as u8, n(8, 10) as u8, n(11, 13) as u8, n(14, 16) as u8)
    });
    let doy = civil.map(|(y, m, d, _, _)| (days_from_civil(y, m, d) - days_from_civil(y, 1, 1) + 1) as u32);
    let ppu = match (first, last) {
        (Some(a), Some(b)) => {
            let ns = (b - a).total_nanoseconds();
            let s = 1_000_000_000i128;
            if ns > 300 * s && ns <= 900 * s {
                PPU::QuarterHour
            } else if ns > 900 * s && ns <= 3600 * s {
                PPU::Hourly
            } else if ns > 3600 * s && ns <= 86400 * s {
                PPU::Daily
            } else if ns * 4 >= 1461 * 86400 * s {
                PPU::Yearly
            } else {
                PPU::Unspecified
            }
        },
        _ => PPU::Unspecified,
    };
    // who it may be named after
    let a = attr(g);
    let known = g.bool();
    rnx.production = if known { a.to() } else { ProductionAttributes::default() };
    if known && g.chance(1, 4) {
        rnx.production.v3_details = None;
    }
    let told = rnx.production.clone();
    let mut name = told.name.clone();
    let agency = if g.bool() { Some(g.string(UP, 3, 6)) } else { None };
    let marker = if g.bool() { Some(g.string(UP, 4, 6)) } else { None };
    rnx.header.agency = agency.clone();
    rnx.header.geodetic_marker = marker.as_ref().map(|m| GeodeticMarker::default().with_name(m));
    if let Some(a) = &agency {
        name = a.clone();
    }
    match d.kind {
        'I' => {},
        'C' => {
            if g.chance(1, 6) {
                rnx.header.clock = None;
            }
            if let Some(c) = &mut rnx.header.clock {
                c.site = if g.bool() { Some(g.string(UP, 4, 4)) } else { None };
                c.ref_clock = if g.bool() { Some(g.string(UP, 3, 9)) } else { None };
                if let Some(s) = &c.site {
                    name = s.clone();
                }
                if let Some(r) = &c.ref_clock {
                    name = r.clone();
                }
            }
        },
        _ => {
            if let Some(m) = &marker {
                name = m.clone();
            }
        },
    }
    let got = rnx.guess_production_attributes();
    let year = civil.map(|c| c.0 as u32).unwrap_or(told.year);
    let day = doy.unwrap_or(told.doy);
    ensure!(got.name == name, "guess-name", "named {:?} instead of {:?}", got.name, name);
    ensure!(got.year == year && got.doy == day, "guess-date", "{:?} guessed, first date {:?}", got, first);
    ensure!(got.region == told.region, "guess-region", "{:?} told {:?}", got, told);
    let det = match &got.v3_details {
        Some(d) => d.clone(),
        None => return fail("guess", "no details"),
    };
    match &told.v3_details {
        Some(t) => {
            let (hh, mm) = civil.map(|c| (c.3, c.4)).unwrap_or((t.hh, t.mm));
            ensure!((det.hh, det.mm) == (hh, mm), "guess-time", "{:?} guessed, first date {:?}", det, first);
            ensure!(det.country == t.country && det.batch == t.batch && det.data_src == t.data_src, "guess-kept", "{:?} told {:?}", det, t);
            if first.is_some() {
                ensure!(det.ppu == ppu, "guess-period", "{:?} from {:?} to {:?}", det, first, last);
            }
        },
        None => {
            let (hh, mm) = civil.map(|c| (c.3, c.4)).unwrap_or((0, 0));
            ensure!((det.hh, det.mm) == (hh, mm), "guess-time", "{:?} guessed, first date {:?}", det, first);
            ensure!(det.ppu == ppu, "guess-period", "{:?} from {:?} to {:?}", det, first, last);
            ensure!(det.batch == 0 && det.data_src == DataSource::Unknown, "guess-kept", "{:?} from nothing", det);
            ensure!(det.ffu == rnx.dominant_sampling_interval().map(FFU::from), "guess-rate", "{:?}", det);
        },
    }
    // the name of such a file, without more information
    let (y, m, dd, hh, mi) = match civil {
        Some(c) => c,
        None => return Ok(()),
    };
    let _ = (m, dd);
    if d.kind == 'C' {
        return Ok(());
    }
    let suffix = g.pickc(&[None, Some(".gz")]);
    let short = g.bool();
    let sys = match rnx.header.constellation {
        None | Some(Constellation::Mixed) => "M".to_string(),
        Some(c) => format!("{:x}", c),
    };
    let ext = if rnx.header.is_crinex() { "crx" } else { "rnx" };
    let want = match (d.kind, short) {
        ('I', _) => {
            rnx.production.name.truncate(3);
            rnx.production.region = if g.bool() { Some(g.pickc(b"ABCGR") as char) } else { None };
            format!("{}{}{:03}0.{:02}I", rnx.production.name, rnx.production.region.unwrap_or('G'), day, y % 100)
        },
        (k, true) => {
            let letter = match k {
                'M' => 'M',
                'N' => if rnx.header.constellation == Some(Constellation::Glonass) { 'G' } else { 'N' },
                _ => if rnx.header.is_crinex() { 'D' } else { 'O' },
            };
            format!("{}{:03}0.{:02}{}", told.name, day, y % 100, letter)
        },
        (k, false) => {
            let t = told.v3_details.as_ref();
            let src = match (&rnx.header.rcvr, t) {
                (Some(_), _) => 'R',
                (None, Some(t)) => SRC.iter().find(|s| s.0 == t.data_src).unwrap().1,
                (None, None) => 'U',
            };
            let rate = if k == 'O' || k == 'X' {
                let f = rnx.dominant_sampling_interval().map(FFU::from).or(t.and_then(|t| t.ffu));
                // a rate that does not fit in two digits is another matter
                if f.map(|f| f.val > 99).unwrap_or(false) {
                    return Ok(());
                }
                format!("_{}", f.map(|f| f.to_string()).unwrap_or("XXX".to_string()))
            } else {
                String::new()
            };
            let dt = match k {
                'M' => "MM".to_string(),
                'N' => format!("{}N", sys),
                _ => format!("{}O", sys),
            };
            format!(
                "{}{:02}{}_{}_{:04}{:03}{:02}{:02}_{}{}_{}.{}",
                told.name,
                t.map(|t| t.batch).unwrap_or(0),
                t.map(|t| t.country.as_str()).unwrap_or("CCC"),
                src, y, day, hh, mi,
                t.map(|t| PPUS.iter().find(|p| p.0 == t.ppu).unwrap().1).unwrap_or("00U"),
                rate, dt, ext
            )
        },
    } + suffix.unwrap_or("");
    let got = rnx.standard_filename(short, suffix, None);
    ensure!(got == want, "file-name", "{} generated instead of {}", got, want);
    Ok(())
}

/// anything else is rejected, or accepted, without a crash
fn any(g: &mut Gen) -> Res {
    let a = attr(g);
    let mut s = if g.bool() { a.long("MO", "rnx") } else { format!("{}{:03}0.{:02}O", a.name, a.doy, a.year % 100) }.into_bytes();
    for _ in 0..g.usize(1, 4) {
        let i = g.usize(0, s.len() - 1);
        match g.below(4) {
            0 => { s.remove(i); },
            1 => s.insert(i, g.pickc(b" ._AZ09+-")),
            2 => s[i] = g.pickc(b" ._AZ09+-I"),
            _ => s.truncate(i.max(1)),
        }
        if s.len() < 2 {
            break;
        }
    }
    let mut s = String::from_utf8(s).unwrap();
    if g.chance(1, 4) {
        let i = g.usize(0, s.len());
        s.insert(i, g.pickc(&['é', 'ß', '日', 'ŉ']));
    }
    g.text = s.clone();
    g.nontrivial = ProductionAttributes::from_str(&s).is_ok();
    let _ = PPU::from_str(&s);
    let _ = FFU::from_str(&s);
    let _ = DataSource::from_str(&s);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P17",
        parts: vec![
            Part { name: "codes", run: codes, quick: 300_000, thorough: 5_000_000 },
            Part { name: "read_long", run: read_long, quick: 300_000, thorough: 10_000_000 },
            Part { name: "read_short", run: read_short, quick: 300_000, thorough: 10_000_000 },
            Part { name: "custom", run: custom, quick: 300_000, thorough: 10_000_000 },
            Part { name: "deduced", run: deduced, quick: 100_000, thorough: 3_000_000 },
            Part { name: "guess", run: guess, quick: 30_000, thorough: 2_000_000 },
            Part { name: "any", run: any, quick: 400_000, thorough: 10_000_000 },
        ],
        rule: "codes: periods and sampling units, printed, parsed and deduced from durations; read_long, read_short: names built from the convention, in any case, with or without .gz; custom: names generated from attributes, compared with the convention and read back; deduced: names and attributes deduced from generated observation data; guess: attributes and names deduced from observation, CRINEX, meteo, navigation, clock and IONEX files, with and without a known name, marker, agency, reference clock; any: mutated names never crash. Non-trivial: attributes present (long names: batch of two digits or sampling rate), for mutated names still accepted.",
        assumptions: &[
            "years 1980-2079, four character stations",
            "clock, DORIS and antenna files have no standard name generator",
        ],
    }
}
