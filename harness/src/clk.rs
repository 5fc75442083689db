//! Clock data model, generator and reference writer.
use crate::gen::*;
use crate::nav::{any_f64, num, Num, NumStyle};
use crate::util::*;
use rinex::prelude::clock::*;
use rinex::prelude::*;
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug)]
pub struct ClkLine {
    pub kind: &'static str,
    /// satellite (system, prn) or station
    pub name: Result<(char, i64), String>,
    pub t: Civil,
    pub values: Vec<Num>,
}

#[derive(Clone, Debug)]
pub struct ClkRef {
    pub name: String,
    pub domes: Option<(u16, u8, char, u16)>,
    pub constraint: Option<Num>,
}

#[derive(Clone, Debug)]
pub struct ClkFile {
    pub major: u8,
    pub minor: u8,
    pub system: Option<char>,
    pub ts: Option<&'static str>,
    pub codes: Vec<&'static str>,
    /// program, run by
    pub prog: (String, String),
    pub site: Option<(String, Option<(u16, u8, char, u16)>)>,
    pub clkref: Option<String>,
    pub center: Option<(String, String)>,
    pub refs: Vec<ClkRef>,
    pub lines: Vec<ClkLine>,
}

pub const KINDS: [&str; 5] = ["AR", "AS", "CR", "DR", "MS"];
const UP: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

pub fn domes(g: &mut Gen) -> (u16, u8, char, u16) {
    (g.range(100, 999) as u16, g.range(1, 99) as u8, g.pickc(&['M', 'S']), g.range(1, 999) as u16)
}

pub fn domes_text(d: &(u16, u8, char, u16)) -> String {
    format!("{:03}{:02}{}{:03}", d.0, d.1, d.2, d.3)
}

pub fn domes_value(d: &(u16, u8, char, u16)) -> DOMES {
    DOMES {
        area: d.0,
        site: d.1,
        point: if d.2 == 'M' { DOMESTrackingPoint::Monument } else { DOMESTrackingPoint::Instrument },
        sequential: d.3,
    }
}

fn station(g: &mut Gen, modern: bool) -> String {
    match g.below(5) {
        // looks like a satellite
        0 => format!("{}{:03}", g.pickc(&['G', 'R', 'E', 'C', 'J', 'I']), g.range(1, 40)),
        1 => {
            let l = g.usize(1, 4);
            let mut s = g.string(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ", 1, 1);
            s.push_str(&g.string(UP, l - 1, l - 1));
            s
        },
        _ => {
            let mut s = g.string(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ", 1, 1);
            s.push_str(&g.string(UP, 3, 3));
            if modern && g.chance(2, 3) {
                s.push_str(&g.string(b"0123456789", 2, 2));
                s.push_str(&g.string(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ", 3, 3));
            }
            s
        },
    }
}

fn words(g: &mut Gen, lo: usize, hi: usize, max: usize) -> String {
    let s = g.string(b"ABCDEFGHIJ klmnop 0123456789 /()-.", lo, hi);
    let s = s.trim().to_string();
    let s = if s.is_empty() { "x".to_string() } else { s };
    s[..s.len().min(max)].trim().to_string()
}

pub fn clk_file(g: &mut Gen, max_lines: usize) -> ClkFile {
    let (major, minor) = g.pickc(&[(3u8, 4u8), (3, 4), (3, 0), (3, 1), (3, 2), (3, 3), (2, 0), (2, 1), (4, 0)]);
    let modern = (major, minor) >= (3, 4);
    let system = if g.chance(1, 3) { None } else { Some(g.pickc(&['G', 'R', 'E', 'C', 'J', 'M'])) };
    let ts = if g.chance(1, 4) {
        None
    } else {
        Some(g.pickc(&["GPS", "GPS", "GLO", "GAL", "QZS", "BDT", "UTC", "TAI", "IRN"]))
    };
    let st = NumStyle { letter: 'E', form: g.pickc(&[1u8, 1, 2]) };
    let (lo, hi) = (g.usize(1, 3), g.usize(1, 5));
    let codes = g.subset(&KINDS, lo.max(hi), false);
    let site = if g.bool() {
        let d = if g.chance(2, 3) { Some(domes(g)) } else { None };
        Some((station(g, modern), d))
    } else {
        None
    };
    let refs = (0..g.below(3))
        .map(|_| ClkRef {
            name: station(g, modern),
            domes: if g.chance(2, 3) { Some(domes(g)) } else { None },
            constraint: if g.chance(2, 3) { Some(num(any_f64(g), st)) } else { None },
        })
        .collect();
    let mut t = Civil::gen(g, (1985, 2060), false);
    if g.chance(1, 3) {
        t.t100 += g.range(0, 999_999) as u32 * 10;
    }
    let n = g.usize(1, max_lines);
    let mut lines: Vec<ClkLine> = vec![];
    for _ in 0..n {
        if g.chance(1, 3) {
            let step = g.pickc(&[300_000_000i64, 3_000_000_000, 10, 12_340, 864_000_000_000]);
            t = t.add(step);
        }
        let kind = g.pickc(&codes);
        let name = if kind == "AS" || kind == "MS" {
            let sys = g.pickc(&['G', 'R', 'E', 'C', 'J', 'I', 'S']);
            let prn = match sys {
                'S' => g.range(20, 58),
                'G' => g.range(1, 32),
                'R' => g.range(1, 27),
                'E' => g.range(1, 36),
                'C' => g.range(1, 63),
                _ => g.range(1, 10),
            };
            Ok((sys, prn))
        } else {
            Err(station(g, modern))
        };
        if lines.iter().any(|l| l.kind == kind && l.name == name && l.t.ticks() == t.ticks()) {
            continue;
        }
        let n = g.pickc(&[1usize, 2, 2, 3, 4, 5, 6]);
        let values = (0..n).map(|_| num(any_f64(g), st)).collect();
        lines.push(ClkLine { kind, name, t, values });
    }
    if g.chance(1, 4) {
        g.shuffle(&mut lines);
    }
    ClkFile {
        major,
        minor,
        system,
        ts,
        codes,
        prog: (words(g, 1, 20, 20), words(g, 1, 20, 20)),
        site,
        clkref: if g.bool() { Some(words(g, 3, 58, 58)) } else { None },
        center: if g.bool() { Some((g.string(b"ABCDEFGHIJ", 3, 3), words(g, 3, 54, 54))) } else { None },
        refs,
        lines,
    }
}

impl ClkFile {
    pub fn modern(&self) -> bool {
        (self.major, self.minor) >= (3, 4)
    }
    pub fn timescale(&self) -> TimeScale {
        match self.ts {
            Some("GPS") | Some("IRN") => TimeScale::GPST,
            Some("GAL") => TimeScale::GST,
            Some("QZS") => TimeScale::QZSST,
            Some("BDT") => TimeScale::BDT,
            Some("TAI") => TimeScale::TAI,
            Some(_) => TimeScale::UTC,
            None => match self.system {
                Some('M') | None => TimeScale::GPST,
                Some(c) => crate::nav::timescale(c),
            },
        }
    }
    /// one header line
    fn line(&self, o: &mut String, content: &str, label: &str) {
        let w = if self.modern() { 65 } else { 60 };
        assert!(content.len() <= w, "harness: header content {:?}", content);
        writeln!(o, "{:<w$}{:<20}", content, label, w = w).unwrap();
    }
    pub fn text(&self, g: &mut Gen) -> String {
        let mut o = String::new();
        let modern = self.modern();
        let sys = match self.system {
            None => "".to_string(),
            Some(c) => {
                if g.bool() {
                    c.to_string()
                } else {
                    match c {
                        'G' => "G: GPS",
                        'R' => "R: GLONASS",
                        'E' => "E: GALILEO",
                        'M' => "M: MIXED",
                        'C' => "C: BEIDOU",
                        _ => "J: QZSS",
                    }
                    .to_string()
                }
            },
        };
        if modern {
            let vers = format!("{}.{:02}", self.major, self.minor);
            let sys = sys.chars().next().map(|c| c.to_string()).unwrap_or_default();
            self.line(&mut o, &format!("{:<21}C                    {}", vers, sys), "RINEX VERSION / TYPE");
        } else {
            let vers = format!("{:>6}.{:02}", self.major, self.minor);
            let t = g.pickc(&["CLOCK DATA", "C"]);
            self.line(&mut o, &format!("{:<20}{:<20}{}", vers, t, sys), "RINEX VERSION / TYPE");
        }
        let w = if modern { 21 } else { 20 };
        let (p, r) = (&self.prog.0, &self.prog.1);
        self.line(&mut o, &format!("{:<w$}{:<w$}20170312 052227 UTC", p, r, w = w), "PGM / RUN BY / DATE");
        let mut items: Vec<(String, &'static str)> = vec![];
        if let Some(ts) = self.ts {
            items.push((format!("   {}", ts), "TIME SYSTEM ID"));
        }
        let mut s = format!("{:6}", self.codes.len());
        for c in &self.codes {
            write!(s, "    {}", c).unwrap();
        }
        items.push((s, "# / TYPES OF DATA"));
        if let Some((n, d)) = &self.site {
            let d = d.as_ref().map(domes_text).unwrap_or_default();
            // A4,1X,A10 or A9,1X,A10; four character names keep the former layout
            let w = if n.len() <= 4 { 4 } else { 9 };
            items.push((format!("{:<w$} {}", n, d, w = w), "STATION NAME / NUM"));
        }
        if let Some(c) = &self.clkref {
            items.push((c.clone(), "STATION CLK REF"));
        }
        if let Some((c, n)) = &self.center {
            items.push((format!("{}  {}", c, n), "ANALYSIS CENTER"));
        }
        items.push(("    18".to_string(), "LEAP SECONDS"));
        if g.bool() {
            items.push(("G PAGES             igs05.atx @ igscb.jpl.nasa.gov".to_string(), "SYS / PCVS APPLIED"));
            items.push(("some words of explanation".to_string(), "COMMENT"));
        }
        for (c, l) in &items {
            self.line(&mut o, c, l);
        }
        for r in &self.refs {
            let d = r.domes.as_ref().map(domes_text).unwrap_or_default();
            let c = r.constraint.as_ref().map(|n| n.text.clone()).unwrap_or_default();
            let s = if modern {
                format!("{:<9} {:<9} {:25}{}", r.name, d, "", c)
            } else {
                format!("{:<4} {:<20}{:15}{}", r.name, d, "", c)
            };
            self.line(&mut o, s.trim_end(), "ANALYSIS CLK REF");
        }
        self.line(&mut o, "", "END OF HEADER");
        let trail = g.bool();
        for l in &self.lines {
            if g.chance(1, 12) {
                self.line(&mut o, "a comment in the body", "COMMENT");
            }
            let name = match &l.name {
                Ok((c, p)) => format!("{}{:02}", c, p),
                Err(s) => s.clone(),
            };
            let t = &l.t;
            let gap = if modern { 2 } else { 1 };
            let mut s = if modern {
                format!("{} {:<9} {:04} {:02} {:02} {:02} {:02}", l.kind, name, t.y, t.mo, t.d, t.h, t.mi)
            } else if l.lead() {
                format!("{} {:<4} {:04}{:3}{:3}{:3}{:3}", l.kind, name, t.y, t.mo, t.d, t.h, t.mi)
            } else {
                format!("{} {:<4} {:04} {:02} {:02} {:02} {:02}", l.kind, name, t.y, t.mo, t.d, t.h, t.mi)
            };
            write!(s, " {:>2}.{:06}{:>3}   {}", t.sec(), t.frac() / 10, l.values.len(), l.values[0].text).unwrap();
            if let Some(v) = l.values.get(1) {
                write!(s, "{:w$}{}", "", v.text, w = gap).unwrap();
            }
            if trail {
                s.push(' ');
            }
            o.push_str(&s);
            o.push('\n');
            if l.values.len() > 2 {
                let lead = if modern { 3 } else { 0 };
                let v: Vec<&str> = l.values[2..].iter().map(|n| n.text.as_str()).collect();
                let mut s = format!("{:lead$}{}", "", v.join(&" ".repeat(gap)), lead = lead);
                if trail {
                    s.push(' ');
                }
                o.push_str(&s);
                o.push('\n');
            }
        }
        o
    }
    pub fn expected(&self) -> BTreeMap<Epoch, BTreeMap<ClockKey, ClockProfile>> {
        let ts = self.timescale();
        let mut m: BTreeMap<Epoch, BTreeMap<ClockKey, ClockProfile>> = BTreeMap::new();
        for l in &self.lines {
            let key = ClockKey {
                clock_type: match &l.name {
                    Ok((c, p)) => ClockType::SV(crate::nav::sv(*c, *p)),
                    Err(s) => ClockType::Station(s.clone()),
                },
                profile_type: match l.kind {
                    "AR" => ClockProfileType::AR,
                    "AS" => ClockProfileType::AS,
                    "CR" => ClockProfileType::CR,
                    "DR" => ClockProfileType::DR,
                    _ => ClockProfileType::MS,
                },
            };
            let v = |i: usize| l.values.get(i).map(|n| n.val);
            let p = ClockProfile {
                bias: l.values[0].val,
                bias_dev: v(1),
                drift: v(2),
                drift_dev: v(3),
                drift_change: v(4),
                drift_change_dev: v(5),
            };
            m.entry(l.t.epoch(ts)).or_default().insert(key, p);
        }
        m
    }
}

impl ClkLine {
    /// blank padded rather than zero padded dates
    fn lead(&self) -> bool {
        self.t.d % 2 == 0
    }
}
