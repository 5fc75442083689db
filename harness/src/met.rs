//! Meteo data model, generator and reference writer.
use crate::gen::*;
use crate::util::*;
use rinex::prelude::*;
use std::fmt::Write;
use std::str::FromStr;

#[derive(Clone, Debug)]
pub struct MetSensor {
    pub code: &'static str,
    pub model: String,
    pub typ: String,
    /// tenths
    pub acc: Option<i64>,
    /// X, Y, Z, H in 1e-4
    pub pos: Option<[i64; 4]>,
}

#[derive(Clone, Debug)]
pub struct MetFile {
    pub major: u8,
    pub minor: u8,
    pub codes: Vec<&'static str>,
    pub sensors: Vec<MetSensor>,
    /// readings in tenths
    pub epochs: Vec<(Civil, Vec<Option<i64>>)>,
}

pub const MET_CODES: [&str; 10] = ["PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI"];

pub fn reading(g: &mut Gen) -> i64 {
    match g.below(4) {
        0 => g.range(8_000, 11_000),
        1 => g.range(-500, 500),
        2 => {
            if g.bool() {
                -g.int_digits(5, false)
            } else {
                g.int_digits(6, false)
            }
        },
        _ => g.range(0, 1000),
    }
}

pub fn met_file(g: &mut Gen, max_epochs: usize) -> MetFile {
    let major = g.pickc(&[2u8, 3, 4]);
    let minor = match major {
        2 => g.pickc(&[11u8, 10, 0]),
        3 => g.range(0, 5) as u8,
        _ => 0,
    };
    let n = g.usize(1, 10);
    let codes = g.subset(&MET_CODES, n, false);
    let mut sensors = vec![];
    for c in &codes {
        if g.bool() {
            let acc = if g.chance(3, 4) { Some(g.int_digits(4, false)) } else { None };
            let pos = if g.bool() {
                Some([g.int_digits(11, true), g.int_digits(11, true), g.int_digits(11, true), g.int_digits(8, true)])
            } else {
                None
            };
            sensors.push(MetSensor { code: c, model: name(g), typ: name(g), acc, pos });
        }
    }
    let ne = g.usize(1, max_epochs);
    let mut t = Civil::gen(g, if major == 2 { (1980, 2077) } else { (1981, 2090) }, false);
    let density = g.pickc(&[10u64, 8, 5, 1]);
    let mut epochs = vec![];
    for _ in 0..ne {
        epochs.push((t, codes.iter().map(|_| if g.below(10) < density { Some(reading(g)) } else { None }).collect()));
        t = t.add(10_000_000 * match g.below(3) {
            0 => 300,
            1 => g.range(1, 59),
            _ => g.range(1, 400_000),
        });
    }
    MetFile { major, minor, codes, sensors, epochs }
}

/// free text of at most 20 characters, no leading, trailing or double blanks needed to survive
pub fn name(g: &mut Gen) -> String {
    if g.chance(1, 4) {
        return String::new();
    }
    let s = g.string(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghij0123456789-./# ", 1, 20);
    s.trim().to_string()
}

impl MetFile {
    pub fn header_text(&self) -> String {
        let mut s = String::new();
        let mut p = |c: &str, l: &str| {
            s.push_str(&hline(c, l));
            s.push('\n');
        };
        p(&format!("{:>9}{:11}{:20}", format!("{}.{:02}", self.major, self.minor), "", "METEOROLOGICAL DATA"), "RINEX VERSION / TYPE");
        p("verif               harness             20240101 000000 UTC", "PGM / RUN BY / DATE");
        p("VERI", "MARKER NAME");
        for (i, ch) in self.codes.chunks(9).enumerate() {
            let mut l = if i == 0 { format!("{:6}", self.codes.len()) } else { " ".repeat(6) };
            for c in ch {
                let _ = write!(l, "    {}", c);
            }
            p(&l, "# / TYPES OF OBSERV");
        }
        for x in &self.sensors {
            p(
                &format!(
                    "{:20}{:20}{:6}{}    {} ",
                    x.model,
                    x.typ,
                    "",
                    x.acc.map(|a| fixed(a, 1, 7)).unwrap_or(" ".repeat(7)),
                    x.code
                ),
                "SENSOR MOD/TYPE/ACC",
            );
        }
        for x in &self.sensors {
            if let Some(v) = x.pos {
                p(
                    &format!("{}{}{}{} {} ", fixed(v[0], 4, 14), fixed(v[1], 4, 14), fixed(v[2], 4, 14), fixed(v[3], 4, 14), x.code),
                    "SENSOR POS XYZ/H",
                );
            }
        }
        p("", "END OF HEADER");
        s
    }
    /// blanks: 0 as is, 1 trimmed, 2 padded to 80
    pub fn text(&self, blanks: u64, zero_pad: bool, last_newline: bool) -> String {
        let mut s = self.header_text();
        let mut push = |l: &str| {
            match blanks {
                1 => s.push_str(l.trim_end()),
                2 => {
                    let _ = write!(s, "{:80}", l);
                },
                _ => s.push_str(l),
            }
            s.push('\n');
        };
        for (t, v) in &self.epochs {
            let z = |v: i64| if zero_pad { format!("{:02}", v) } else { format!("{:2}", v) };
            let y = if self.major == 2 { format!("{:02}", t.y % 100) } else { format!("{:4}", t.y) };
            let mut l = format!(
                " {} {} {} {} {} {}",
                y,
                z(t.mo as i64),
                z(t.d as i64),
                z(t.h as i64),
                z(t.mi as i64),
                z(t.sec() as i64)
            );
            for (i, r) in v.iter().enumerate() {
                if i == 8 {
                    push(&l);
                    l = " ".repeat(4);
                }
                match r {
                    Some(r) => l.push_str(&fixed(*r, 1, 7)),
                    None => l.push_str(&" ".repeat(7)),
                }
            }
            push(&l);
        }
        if !last_newline {
            s.pop();
        }
        s
    }
    pub fn expected(&self) -> Vec<(Epoch, Observable, f64)> {
        let mut v = vec![];
        for (t, r) in &self.epochs {
            for (c, r) in self.codes.iter().zip(r) {
                if let Some(r) = r {
                    v.push((t.epoch(TimeScale::UTC), Observable::from_str(c).unwrap(), dec(*r, 1)));
                }
            }
        }
        v.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
        v
    }
    pub fn classify(&self, g: &mut Gen) {
        g.label_if(self.codes.len() > 8, "continuation line");
        g.label_if(self.epochs.iter().any(|e| e.1.iter().any(|r| r.is_none())), "blank reading");
        g.label_if(self.epochs.iter().any(|e| e.1.iter().all(|r| r.is_none())), "epoch without reading");
        g.label_if(!self.sensors.is_empty(), "sensors");
        g.nontrivial = self.expected().len() > 1;
    }
    pub fn header_fields(&self) -> rinex::meteo::HeaderFields {
        use rinex::meteo::{HeaderFields, Sensor};
        let mut fields = HeaderFields::default();
        fields.codes = self.codes.iter().map(|c| Observable::from_str(c).unwrap()).collect();
        for x in &self.sensors {
            let mut s = Sensor::new(Observable::from_str(x.code).unwrap());
            if !x.model.is_empty() {
                s = s.with_model(&x.model);
            }
            if !x.typ.is_empty() {
                s = s.with_type(&x.typ);
            }
            if let Some(a) = x.acc {
                s = s.with_accuracy(dec(a, 1) as f32);
            }
            if let Some(v) = x.pos {
                s = s.with_position((dec(v[0], 4), dec(v[1], 4), dec(v[2], 4))).with_height(dec(v[3], 4));
            }
            fields.sensors.push(s);
        }
        fields
    }
    pub fn to_rinex(&self, g: &mut Gen, jitter: bool) -> Rinex {
        use rinex::meteo::MeteoKey;
        let fields = self.header_fields();
        let header = Header {
            version: Version::new(self.major, self.minor),
            rinex_type: RinexType::MeteoData,
            constellation: None,
            obs: None,
            meteo: Some(fields),
            ..Default::default()
        };
        let mut rec = rinex::meteo::Record::new();
        for (t, r) in &self.epochs {
            for (c, r) in self.codes.iter().zip(r) {
                if let Some(r) = r {
                    let j = if jitter { g.range(-49, 49) as f64 * 1e-3 } else { 0.0 };
                    rec.insert(
                        MeteoKey { epoch: t.epoch(TimeScale::UTC), observable: Observable::from_str(c).unwrap() },
                        dec(*r, 1) + j,
                    );
                }
            }
        }
        Rinex::new(header, Record::MeteoRecord(rec))
    }
}
