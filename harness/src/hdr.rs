//! Header model shared by P11 and P12: header fields generated within what the format can hold.
use crate::gen::*;
use crate::met;
use crate::obs::{self, constellation};
use crate::util::*;
use rinex::hardware::{Antenna, Receiver};
use rinex::marker::{GeodeticMarker, MarkerType};
use rinex::prelude::*;
use std::fmt::Write;
use std::str::FromStr;

/// text as printed in a file, and decoded value, side by side
#[derive(Clone, Debug, Default)]
pub struct Hdr {
    pub kind: char, // 'O', 'M', 'N'
    pub major: u8,
    pub minor: u8,
    pub system: char,
    pub program: String,
    pub run_by: String,
    pub date: String,
    pub observer: String,
    pub agency: String,
    pub comments: Vec<String>,
    pub marker: Option<(String, Option<(u32, u16)>, Option<&'static str>)>,
    pub rcvr: Option<[String; 3]>,
    /// model, sn, base coordinates 1e-4, H/E/N 1e-4
    pub ant: Option<(String, String, Option<[i64; 3]>, Option<[i64; 3]>)>,
    pub pos: Option<[i64; 3]>,
    pub leap: Option<(u32, Option<[u32; 3]>, Option<TimeScale>)>,
    /// milliseconds
    pub interval: Option<i64>,
    pub glo: Vec<(String, i8)>,
    pub codes: Vec<(char, Vec<String>)>,
    pub first: Option<(Civil, TimeScale, &'static str)>,
    pub last: Option<(Civil, TimeScale, &'static str)>,
    pub crinex: Option<(u8, String, Civil)>,
    pub sensors: Vec<met::MetSensor>,
    /// receiver clock offsets are applied
    pub clock_applied: bool,
    /// system, factor, observables
    pub scale: Vec<(char, u16, Vec<String>)>,
    /// system, program, source
    pub dcb: Vec<(char, String, String)>,
    pub pcv: Vec<(char, String, String)>,
    pub doi: String,
    pub license: String,
    pub station: String,
}

const MARKERS: [&str; 14] = [
    "GEODETIC", "NON GEODETIC", "NON PHYSICAL", "SPACEBORNE", "AIRBORNE", "WATER CRAFT", "GROUND CRAFT", "FIXED BUOY",
    "FLOATING BUOY", "FLOATING ICE", "GLACIER", "BALLISTIC", "ANIMAL", "HUMAN",
];

const CHARS: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .,-+/()#&_:=";

pub fn words(g: &mut Gen, lo: usize, hi: usize) -> String {
    let s = g.string(CHARS, lo, hi);
    let t = s.trim().to_string();
    if t.is_empty() && lo > 0 {
        "X".into()
    } else {
        t
    }
}

fn opt_words(g: &mut Gen, hi: usize) -> String {
    if g.chance(1, 3) {
        String::new()
    } else {
        words(g, 1, hi)
    }
}

pub fn comment(g: &mut Gen, max: usize) -> String {
    let n = match g.below(4) {
        0 => g.pickc(&[59usize, 60, 61, 119, 120, 121, 180, 240]).min(max),
        1 => g.usize(0, 10),
        _ => g.usize(0, max),
    };
    let s = g.string(CHARS, n, n);
    s
}

fn coord(g: &mut Gen) -> i64 {
    match g.below(3) {
        0 => g.range(-63_780_000_000, 63_780_000_000),
        1 => g.int_digits(11, true),
        _ => g.range(-100_000, 100_000),
    }
}

fn ts_gen(g: &mut Gen, kind: usize) -> (TimeScale, &'static str) {
    let t = [
        (TimeScale::GPST, "GPS"),
        (TimeScale::UTC, "GLO"),
        (TimeScale::GST, "GAL"),
        (TimeScale::BDT, "BDT"),
        (TimeScale::QZSST, "QZS"),
    ];
    g.pickc(&t[..kind])
}

pub fn header(g: &mut Gen, kinds: &[char], max_comment: usize) -> Hdr {
    let kind = g.pickc(kinds);
    let major = g.pickc(&[3u8, 2, 4]);
    let minor = match major {
        2 => g.pickc(&[11u8, 10, 0]),
        3 => g.range(0, 5) as u8,
        _ => 0,
    };
    let mut h = Hdr { kind, major, minor, system: 'M', ..Default::default() };
    h.program = opt_words(g, 20);
    h.run_by = opt_words(g, 20);
    h.date = opt_words(g, 20);
    h.observer = opt_words(g, 20);
    h.agency = opt_words(g, 40);
    let n = g.usize(0, 4);
    for _ in 0..n {
        h.comments.push(comment(g, max_comment));
    }
    if g.bool() {
        h.marker = Some((
            words(g, 1, 60),
            if g.bool() { Some((g.range(0, 99999) as u32, g.range(0, 999) as u16)) } else { None },
            if g.bool() { Some(g.pickc(&MARKERS)) } else { None },
        ));
    }
    if g.bool() {
        h.rcvr = Some([opt_words(g, 20), opt_words(g, 20), opt_words(g, 20)]);
    }
    if g.bool() {
        let c = if g.bool() { Some([coord(g), coord(g), coord(g)]) } else { None };
        let e = if g.bool() { Some([coord(g), coord(g), coord(g)]) } else { None };
        h.ant = Some((opt_words(g, 20), opt_words(g, 20), c, e));
    }
    if g.bool() {
        h.pos = Some([coord(g), coord(g), coord(g)]);
    }
    if g.bool() {
        let full = if g.bool() { Some([g.range(0, 60) as u32, g.range(0, 4999) as u32, g.range(0, 7) as u32]) } else { None };
        let ts = if g.chance(1, 3) { Some(g.pickc(&[TimeScale::GPST, TimeScale::BDT])) } else { None };
        h.leap = Some((g.range(0, 60) as u32, full, ts));
    }
    if g.bool() {
        h.interval = Some(match g.below(3) {
            0 => 1000 * g.range(1, 3600),
            1 => g.range(1, 999),
            _ => g.range(1, 99_999_999),
        });
    }
    if kind == 'M' {
        let n = g.usize(1, 10);
        let codes = g.subset(&met::MET_CODES, n, false);
        for c in &codes {
            if g.chance(1, 3) {
                let pos = if g.bool() { Some([coord(g), coord(g), coord(g), g.int_digits(8, true)]) } else { None };
                let acc = if g.bool() { Some(g.int_digits(4, false)) } else { None };
                h.sensors.push(met::MetSensor { code: c, model: met::name(g), typ: met::name(g), acc, pos });
            }
        }
        h.codes.push(('M', codes.iter().map(|c| c.to_string()).collect()));
    } else {
        let all: &[char] = if kind == 'N' {
            &['G', 'R', 'E', 'C', 'J', 'S', 'I']
        } else if major == 2 {
            &['G', 'R', 'E', 'S']
        } else {
            &['G', 'R', 'E', 'C', 'J', 'S', 'I']
        };
        if g.bool() {
            h.system = g.pickc(all);
        }
        if h.system == 'I' && kind == 'O' {
            h.system = 'G'; // IRNSS time has no timescale here
        }
        if kind == 'O' {
            let systems = if h.system == 'M' {
                let n = g.usize(1, all.len());
                g.subset(all, n, false)
            } else {
                vec![h.system]
            };
            let v2 = obs::v2_codes();
            let n2 = g.usize(1, v2.len());
            let list = g.subset(&v2, n2, false);
            for s in systems {
                if major == 2 {
                    h.codes.push((s, list.clone()));
                } else {
                    let t = obs::v3_codes(s);
                    let n = g.usize(1, t.len());
                    h.codes.push((s, g.subset(&t, n, false)));
                }
            }
            let (ts, txt) = ts_gen(g, if major == 2 { 2 } else { 5 });
            let t = Civil::gen(g, (1981, 2079), true);
            h.first = Some((t, ts, txt));
            if g.bool() {
                h.last = Some((t.add(10_000_000 * g.range(0, 86400) + g.range(0, 9_999_999)), ts, txt));
            }
            if g.chance(1, 4) {
                let mut d = Civil::gen(g, (2000, 2079), false);
                d.t100 = 0;
                h.crinex = Some((if major == 2 { 1 } else { 3 }, words(g, 1, 20), d));
            }
            h.clock_applied = g.chance(1, 4);
            if major > 2 && g.chance(1, 3) {
                for (s, list) in &h.codes {
                    if g.chance(1, 3) {
                        continue;
                    }
                    let n = match g.below(3) {
                        0 => list.len(),
                        _ => g.usize(1, list.len()),
                    };
                    let mut part = g.subset(list, n, false);
                    while !part.is_empty() {
                        let n = if g.bool() { part.len() } else { g.usize(1, part.len()) };
                        let rest = part.split_off(n);
                        h.scale.push((*s, g.pickc(&[10u16, 1, 100, 1000, 9999]), std::mem::replace(&mut part, rest)));
                    }
                }
            }
            if g.chance(1, 3) {
                let n = g.usize(1, 24);
                let pool: Vec<i64> = (1..=27).collect();
                let prns = g.subset(&pool, n, false);
                h.glo = prns.iter().map(|p| (format!("R{:02}", p), g.range(-7, 6) as i8)).collect();
            }
        }
    }
    if g.chance(1, 4) {
        h.doi = opt_words(g, 60);
        h.license = opt_words(g, 60);
        h.station = opt_words(g, 60);
        for _ in 0..g.usize(0, 2) {
            h.dcb.push((g.pickc(&['G', 'R', 'E', 'C', 'J', 'S', 'I']), opt_words(g, 17), opt_words(g, 40)));
        }
        for _ in 0..g.usize(0, 2) {
            h.pcv.push((g.pickc(&['G', 'R', 'E', 'C', 'J', 'S', 'I']), opt_words(g, 17), opt_words(g, 40)));
        }
    }
    h
}

fn opt(s: &str) -> Option<String> {
    if s.is_empty() {
        None
    } else {
        Some(s.to_string())
    }
}

impl Hdr {
    pub fn expected_constellation(&self) -> Option<Constellation> {
        match self.kind {
            'M' => None,
            _ => Some(constellation(self.system)),
        }
    }
    fn d3(v: &[i64; 3]) -> (f64, f64, f64) {
        (dec(v[0], 4), dec(v[1], 4), dec(v[2], 4))
    }

    pub fn to_header(&self) -> Header {
        let mut h = Header {
            version: Version::new(self.major, self.minor),
            rinex_type: match self.kind {
                'O' => RinexType::ObservationData,
                'M' => RinexType::MeteoData,
                _ => RinexType::NavigationData,
            },
            constellation: self.expected_constellation(),
            obs: None,
            program: opt(&self.program),
            run_by: opt(&self.run_by),
            date: opt(&self.date),
            observer: opt(&self.observer),
            agency: opt(&self.agency),
            comments: self.comments.clone(),
            ..Default::default()
        };
        if let Some((name, num, typ)) = &self.marker {
            let mut m = GeodeticMarker::default().with_name(name);
            if let Some((a, b)) = num {
                m = m.with_number(&format!("{:05}M{:03}", a, b));
            }
            m.marker_type = typ.map(|t| MarkerType::from_str(t).expect("library: marker"));
            h.geodetic_marker = Some(m);
        }
        if let Some([a, b, c]) = &self.rcvr {
            h.rcvr = Some(Receiver { model: b.clone(), sn: a.clone(), firmware: c.clone() });
        }
        if let Some((model, sn, c, e)) = &self.ant {
            let mut a = Antenna::default().with_model(model).with_serial_number(sn);
            if let Some(c) = c {
                a = a.with_base_coordinates(Self::d3(c));
            }
            if let Some(e) = e {
                let (x, y, z) = Self::d3(e);
                a = a.with_height(x).with_eastern_component(y).with_northern_component(z);
            }
            h.rcvr_antenna = Some(a);
        }
        h.rx_position = self.pos.as_ref().map(Self::d3);
        if let Some((l, full, ts)) = &self.leap {
            h.leap = Some(Leap {
                leap: *l,
                delta_tls: full.map(|f| f[0]),
                week: full.map(|f| f[1]),
                day: full.map(|f| f[2]),
                timescale: *ts,
            });
        }
        h.sampling_interval = self.interval.map(|ms| Duration::from_milliseconds(ms as f64));
        for (sv, k) in &self.glo {
            h.glo_channels.insert(SV::from_str(sv).unwrap(), *k);
        }
        match self.kind {
            'O' => {
                let mut f = rinex::observation::HeaderFields::default();
                for (c, l) in &self.codes {
                    f.codes.insert(constellation(*c), l.iter().map(|c| Observable::from_str(c).unwrap()).collect());
                }
                f.clock_offset_applied = self.clock_applied;
                for (c, k, l) in &self.scale {
                    for x in l {
                        f.scaling.insert((constellation(*c), Observable::from_str(x).unwrap()), *k);
                    }
                }
                f.timeof_first_obs = self.first.map(|x| x.0.epoch(x.1));
                f.timeof_last_obs = self.last.map(|x| x.0.epoch(x.1));
                if let Some((v, prog, d)) = &self.crinex {
                    f.crinex = Some(
                        rinex::prelude::CRINEX::default()
                            .with_version(Version::new(*v, 0))
                            .with_prog(prog)
                            .with_date(d.epoch(TimeScale::UTC)),
                    );
                }
                h.obs = Some(f);
            },
            'M' => {
                let m = met::MetFile { major: 3, minor: 0, codes: vec![], sensors: self.sensors.clone(), epochs: vec![] };
                let mut f = m.header_fields();
                f.codes = self.codes[0].1.iter().map(|c| Observable::from_str(c).unwrap()).collect();
                h.meteo = Some(f);
            },
            _ => {},
        }
        h
    }

    /// header text of an independent writer; optional lines in random order
    pub fn text(&self, g: &mut Gen) -> String {
        let mut head = vec![];
        let mut lines: Vec<Vec<String>> = vec![];
        if let Some((v, prog, d)) = &self.crinex {
            head.push(hline(&format!("{:<20}{:40}", format!("{}.0", v), "COMPACT RINEX FORMAT"), "CRINEX VERS   / TYPE"));
            let m = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
            head.push(hline(
                &format!("{:<40}{:02}-{}-{:02} {:02}:{:02}", prog, d.d, m[d.mo as usize - 1], d.y % 100, d.h, d.mi),
                "CRINEX PROG / DATE",
            ));
        }
        let (t, s) = match self.kind {
            'O' => ("OBSERVATION DATA", if self.system == 'M' { "M (MIXED)".to_string() } else { self.system.to_string() }),
            'M' => ("METEOROLOGICAL DATA", String::new()),
            _ => ("NAVIGATION DATA", if self.system == 'M' { "M: MIXED".to_string() } else { self.system.to_string() }),
        };
        head.push(hline(
            &format!("{:>9}{:11}{:20}{:20}", format!("{}.{:02}", self.major, self.minor), "", t, s),
            "RINEX VERSION / TYPE",
        ));
        let one = |c: String, l: &str| vec![hline(&c, l)];
        if !(self.program.is_empty() && self.run_by.is_empty() && self.date.is_empty()) {
            lines.push(one(format!("{:20}{:20}{:20}", self.program, self.run_by, self.date), "PGM / RUN BY / DATE"));
        }
        if !(self.observer.is_empty() && self.agency.is_empty()) {
            lines.push(one(format!("{:20}{:40}", self.observer, self.agency), "OBSERVER / AGENCY"));
        }
        lines.push(self.comments.iter().map(|c| hline(c, "COMMENT")).collect());
        if let Some((name, num, typ)) = &self.marker {
            lines.push(one(name.clone(), "MARKER NAME"));
            if let Some((a, b)) = num {
                lines.push(one(format!("{:05}M{:03}", a, b), "MARKER NUMBER"));
            }
            if let Some(t) = typ {
                lines.push(one(t.to_string(), "MARKER TYPE"));
            }
        }
        if let Some([a, b, c]) = &self.rcvr {
            lines.push(one(format!("{:20}{:20}{:20}", a, b, c), "REC # / TYPE / VERS"));
        }
        let f3 = |v: &[i64; 3]| format!("{}{}{}", fixed(v[0], 4, 14), fixed(v[1], 4, 14), fixed(v[2], 4, 14));
        if let Some((model, sn, c, e)) = &self.ant {
            lines.push(one(format!("{:20}{:20}", sn, model), "ANT # / TYPE"));
            if let Some(c) = c {
                lines.push(one(f3(c), "ANTENNA: DELTA X/Y/Z"));
            }
            if let Some(e) = e {
                lines.push(one(f3(e), "ANTENNA: DELTA H/E/N"));
            }
        }
        if let Some(p) = &self.pos {
            lines.push(one(f3(p), "APPROX POSITION XYZ"));
        }
        if let Some((l, full, ts)) = &self.leap {
            let mut c = format!("{:6}", l);
            if let Some(f) = full {
                let _ = write!(c, "{:6}{:6}{:6}", f[0], f[1], f[2]);
            } else {
                let _ = write!(c, "{:18}", "");
            }
            if let Some(ts) = ts {
                c.push_str(if *ts == TimeScale::BDT { "BDS" } else { "GPS" });
            }
            lines.push(one(c, "LEAP SECONDS"));
        }
        if let Some(i) = self.interval {
            lines.push(one(fixed(i, 3, 10), "INTERVAL"));
        }
        if !self.glo.is_empty() {
            let mut v = vec![];
            for (i, ch) in self.glo.chunks(8).enumerate() {
                let mut c = if i == 0 { format!("{:3} ", self.glo.len()) } else { " ".repeat(4) };
                for (sv, k) in ch {
                    let _ = write!(c, "{} {:2} ", sv, k);
                }
                v.push(hline(&c, "GLONASS SLOT / FRQ #"));
            }
            lines.push(v);
        }
        for (s, l) in [(&self.doi, "DOI"), (&self.license, "LICENSE OF USE"), (&self.station, "STATION INFORMATION")] {
            if !s.is_empty() {
                lines.push(one(s.clone(), l));
            }
        }
        for (v, l) in [(&self.dcb, "SYS / DCBS APPLIED"), (&self.pcv, "SYS / PCVS APPLIED")] {
            if !v.is_empty() {
                lines.push(v.iter().map(|(s, a, b)| hline(&format!("{} {:17} {:40}", s, a, b), l)).collect());
            }
        }
        if self.clock_applied {
            lines.push(one(format!("{:6}", 1), "RCV CLOCK OFFS APPL"));
        } else if self.kind == 'O' && g.chance(1, 4) {
            lines.push(one(format!("{:6}", 0), "RCV CLOCK OFFS APPL"));
        }
        if !self.scale.is_empty() {
            let mut v = vec![];
            for (s, k, list) in &self.scale {
                // all the observables of the system
                let all = self.codes.iter().any(|(c, l)| c == s && l.len() == list.len());
                if all && g.bool() {
                    v.push(hline(&format!("{} {:4}", s, k), "SYS / SCALE FACTOR"));
                    continue;
                }
                for (i, ch) in list.chunks(12).enumerate() {
                    let mut c = if i == 0 { format!("{} {:4}  {:2}", s, k, list.len()) } else { " ".repeat(10) };
                    for x in ch {
                        let _ = write!(c, " {:3}", x);
                    }
                    v.push(hline(&c, "SYS / SCALE FACTOR"));
                }
            }
            lines.push(v);
        }
        if self.kind == 'O' && self.major > 2 {
            for (s, list) in &self.codes {
                let mut v = vec![];
                for (i, ch) in list.chunks(13).enumerate() {
                    let mut c = if i == 0 { format!("{}  {:3}", s, list.len()) } else { " ".repeat(6) };
                    for x in ch {
                        let _ = write!(c, " {:3}", x);
                    }
                    v.push(hline(&c, "SYS / # / OBS TYPES"));
                }
                lines.push(v);
            }
        } else if self.kind != 'N' {
            let list = &self.codes[0].1;
            let mut v = vec![];
            for (i, ch) in list.chunks(9).enumerate() {
                let mut c = if i == 0 { format!("{:6}", list.len()) } else { " ".repeat(6) };
                for x in ch {
                    let _ = write!(c, "    {:>2}", x);
                }
                v.push(hline(&c, "# / TYPES OF OBSERV"));
            }
            lines.push(v);
        }
        for (x, label) in [(&self.first, "TIME OF FIRST OBS"), (&self.last, "TIME OF LAST OBS")] {
            if let Some((t, _, txt)) = x {
                lines.push(one(
                    format!("{:6}{:6}{:6}{:6}{:6}{}     {:3}", t.y, t.mo, t.d, t.h, t.mi, t.sec7(13, false), txt),
                    label,
                ));
            }
        }
        if !self.sensors.is_empty() {
            // descriptions and positions
            let m = met::MetFile { major: 3, minor: 0, codes: vec![], sensors: self.sensors.clone(), epochs: vec![] };
            lines.push(m.header_text().lines().filter(|l| l.contains("SENSOR ")).map(|l| l.to_string()).collect());
        }
        g.shuffle(&mut lines);
        let mut s = String::new();
        for l in head.into_iter().chain(lines.into_iter().flatten()) {
            s.push_str(&l);
            s.push('\n');
        }
        s.push_str(&hline("", "END OF HEADER"));
        s.push('\n');
        s
    }

    pub fn classify(&self, g: &mut Gen) {
        g.label(match self.kind {
            'O' => "obs",
            'M' => "meteo",
            _ => "nav",
        });
        g.label_if(self.crinex.is_some(), "crinex");
        g.label_if(self.glo.len() > 8, "glonass slots continued");
        g.label_if(self.codes.iter().any(|c| c.1.len() > 13), "observables continued");
        g.label_if(self.comments.iter().any(|c| c.len() > 60), "long comment");
        g.nontrivial = self.comments.len() + self.codes.len() > 0;
    }
}
