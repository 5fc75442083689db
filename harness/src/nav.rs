//! Navigation data model and reference writer (RINEX 2, 3, 4), after the published frame tables.
use crate::gen::*;
use crate::obs::{constellation, max_prn, min_prn};
use crate::util::*;
use rinex::prelude::*;

/// a 19 column word and the number it stands for
#[derive(Clone, Debug, PartialEq)]
pub struct Num {
    pub text: String,
    pub val: f64,
}

/// how numbers are written: exponent letter, and whether a digit stands before the point
#[derive(Clone, Copy, Debug)]
pub struct NumStyle {
    pub letter: char,
    /// 0: 1.234567890123E-05, 1: 0.123456789012D-04, 2: .123456789012D-04
    pub form: u8,
}

impl NumStyle {
    pub fn gen(g: &mut Gen, major: u8) -> Self {
        let letter = if major < 3 { g.pickc(&['D', 'D', 'E', 'd', 'e']) } else { g.pickc(&['E', 'E', 'D', 'e', 'd']) };
        NumStyle { letter, form: g.below(3) as u8 }
    }
}

/// writes x on `digits` significant digits
fn sci(x: f64, digits: usize, st: NumStyle) -> String {
    let s = format!("{:.*e}", digits - 1, x.abs());
    let (m, e) = s.split_once('e').unwrap();
    let mut e: i32 = e.parse().unwrap();
    let ds: String = m.chars().filter(|c| *c != '.').collect();
    let neg = x < 0.0;
    let zero = x == 0.0;
    let m = match st.form {
        0 => format!("{}.{}", &ds[..1], &ds[1..]),
        1 => {
            if !zero {
                e += 1;
            }
            format!("0.{}", ds)
        },
        _ => {
            if !zero {
                e += 1;
            }
            format!(".{}", ds)
        },
    };
    format!("{}{}{}{}{:02}", if neg { "-" } else { " " }, m, st.letter, if e < 0 { '-' } else { '+' }, e.abs())
}

fn value_of(text: &str) -> f64 {
    text.trim().replace(['D', 'd'], "E").parse().expect("harness: bad number")
}

/// D19.12 word
pub fn num(x: f64, st: NumStyle) -> Num {
    let digits = if st.form == 0 { 13 } else { 12 };
    let s = sci(x, digits, st);
    let text = format!("{:>19}", s);
    assert!(text.len() == 19, "harness: word {:?}", text);
    Num { val: value_of(&text), text }
}

/// D12.4 word of RINEX 2 and 3 headers
pub fn num12(x: f64, st: NumStyle) -> Num {
    let s = sci(x, if st.form == 0 { 5 } else { 4 }, st);
    let text = format!("{:>12}", s);
    assert!(text.len() == 12, "harness: word {:?}", text);
    Num { val: value_of(&text), text }
}

/// any number a broadcast field may hold
pub fn any_f64(g: &mut Gen) -> f64 {
    match g.below(12) {
        0 => 0.0,
        1 => g.range(-300, 300) as f64,
        2 => {
            let m = g.int_digits(13, true);
            (m as f64) * 1e-13
        },
        _ => {
            let m = g.int_digits(13, true) as f64;
            let e = g.range(-32, -3) as i32;
            m * 10f64.powi(e)
        },
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    F,
    /// unsigned counter
    U,
    /// signed byte
    I,
    /// health code
    H,
    /// Glonass status word
    S,
    /// spare
    X,
}

const GPS_LNAV: &str = "iode crs deltaN m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot l2Codes week:U l2pDataFlag svAccuracy health:H tgd iodc t_tm fitInt";
const QZS_LNAV: &str = "iode crs deltaN m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot l2Codes week:U l2pDataFlag svAccuracy health tgd iodc t_tm fitInt";
const CNAV: &str = "adot crs deltaN0 m0 cuc e cus sqrta t_op cic omega0 cis i0 crc omega omegaDot idot deltaN0Dot uraiNed0 uraiNed1 uraiEd svHealth tgd uraiNed2 iscL1Ca iscL2C iscL5I5 iscL5Q5 t_tm wn_op";
const CNV2: &str = "adot crs deltaN0 m0 cuc e cus sqrta t_op cic omega0 cis i0 crc omega omegaDot idot deltaN0Dot uraiNed0 uraiNed1 uraiEd svHealth tgd uraiNed2 iscL1Ca iscL2C iscL5I5 iscL5Q5 iscL1Cd iscL1Cp -:X -:X t_tm wn_op";
const GLO: &str = "satPosX velX accelX health:H satPosY velY accelY channel:I satPosZ velZ accelZ ageOp";
const FDMA: &str = "satPosX velX accelX health:H satPosY velY accelY channel:I satPosZ velZ accelZ ageOp status:S L1L2GrpDelay urai almanacHealth:H";
const GAL: &str = "iodnav crs deltaN m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot dataSrc week:U -:X sisa health:H bgdE5aE1 bgdE5bE1 t_tm";
const BDS3: &str = "aode crs deltaN m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot -:X week:U -:X svAccuracy satH1 tgd1b1b3 tgd2b2b3 t_tm aodc";
const BDS4: &str = "aode crs deltaN m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot -:X week:U -:X svAccuracy satH1 tgdb1b3 tgdb2b3 t_tm aodc";
const BCNV1: &str = "adot crs deltaN0 m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot deltaN0Dot satType t_op sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2 iscB1Cd -:X tgdB1Cp tgdB2ap sismai health integrityB1C iodc t_tm -:X -:X iode";
const BCNV2: &str = "adot crs deltaN0 m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot deltaN0Dot satType t_op sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2 -:X iscB2ad tgdB1Cp tgdB2ap sismai health integrityB2aB1C iodc t_tm -:X -:X iode";
const BCNV3: &str = "adot crs deltaN0 m0 cuc e cus sqrta toe cic omega0 cis i0 crc omega omegaDot idot deltaN0Dot satType t_op sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2 sismai health integrityB2b tgdB2bI t_tm";
const GEO: &str = "satPosX velX accelX health:H satPosY velY accelY accuracyCode satPosZ velZ accelZ iodn";

/// words of an ephemeris frame, in the order they are transmitted
pub fn table(major: u8, sys: char, msg: &str) -> Vec<(&'static str, Kind)> {
    let t = match (sys, msg) {
        ('G', "LNAV") => GPS_LNAV,
        ('J', "LNAV") => QZS_LNAV,
        ('G', "CNAV") | ('J', "CNAV") => CNAV,
        ('G', "CNV2") | ('J', "CNV2") => CNV2,
        ('R', "LNAV") => GLO,
        ('R', _) => FDMA,
        ('E', _) => GAL,
        ('C', "CNV1") => BCNV1,
        ('C', "CNV2") => BCNV2,
        ('C', "CNV3") => BCNV3,
        ('C', _) => {
            if major < 4 {
                BDS3
            } else {
                BDS4
            }
        },
        ('S', _) => GEO,
        _ => panic!("harness: no table for {} {}", sys, msg),
    };
    t.split_whitespace()
        .map(|w| match w.split_once(':') {
            None => (w, Kind::F),
            Some((w, "U")) => (w, Kind::U),
            Some((w, "I")) => (w, Kind::I),
            Some((w, "H")) => (w, Kind::H),
            Some((w, "S")) => (w, Kind::S),
            Some((w, _)) => (w, Kind::X),
        })
        .collect()
}

/// message types of a system's ephemeris frames
pub fn messages(major: u8, sys: char) -> &'static [&'static str] {
    if major < 4 {
        return &["LNAV"];
    }
    match sys {
        'G' | 'J' => &["LNAV", "CNAV", "CNV2"],
        'R' => &["FDMA"],
        'E' => &["INAV", "FNAV"],
        'C' => &["D1", "D2", "CNV1", "CNV2", "CNV3"],
        _ => &["SBAS"],
    }
}

#[derive(Clone, Debug)]
pub enum Body {
    /// clock words, then orbit words (None: blank)
    Eph { clk: [Num; 3], words: Vec<Option<Num>> },
    Kb { alpha: [Num; 4], beta: [Num; 4], region: Option<Num> },
    Ng { a: [Num; 3], flags: Num },
    Bdgim { alpha: Vec<Num> },
    /// system code, UTC id, a0 a1 a2, transmission time
    Sto { system: String, utc: String, a: [Num; 3], t_tm: Num },
    Eop { x: [Num; 3], y: [Num; 3], t_tm: Num, dut1: [Num; 3] },
}

#[derive(Clone, Debug)]
pub struct Frame {
    pub sys: char,
    pub prn: i64,
    pub msg: &'static str,
    pub toc: Civil,
    pub body: Body,
}

#[derive(Clone, Debug)]
pub struct NavFile {
    pub major: u8,
    pub minor: u8,
    /// header system
    pub system: char,
    pub frames: Vec<Frame>,
    /// extra header lines
    pub extra: Vec<String>,
}

pub fn timescale(sys: char) -> TimeScale {
    match sys {
        'G' | 'S' => TimeScale::GPST,
        'E' => TimeScale::GST,
        'C' => TimeScale::BDT,
        'J' => TimeScale::QZSST,
        _ => TimeScale::UTC,
    }
}

pub fn sv(sys: char, prn: i64) -> SV {
    if sys == 'S' {
        // SBAS satellites are resolved to their augmentation system
        use std::str::FromStr;
        SV::from_str(&format!("S{:02}", prn)).expect("library: SBAS satellite")
    } else {
        SV::new(constellation(sys), prn as u8)
    }
}

/// random word of given kind
pub fn word(g: &mut Gen, sys: char, name: &str, k: Kind, st: NumStyle) -> Option<Num> {
    let x = match k {
        Kind::U => g.range(0, 4095) as f64,
        Kind::I => g.range(-7, 13) as f64,
        Kind::S => g.range(0, 511) as f64,
        // one in eight is any of the codes the field may hold
        Kind::H if g.below(8) == 7 => g.range(0, if sys == 'E' { 0x1ff } else { 63 }) as f64,
        Kind::H => match sys {
            'G' => g.range(0, 7) as f64,
            'R' => g.pickc(&[0.0, 4.0]),
            'E' => g.range(0, 0x1ff) as f64,
            _ => g.pickc(&[0.0, 8.0]),
        },
        Kind::X => {
            if g.bool() {
                return None;
            }
            0.0
        },
        Kind::F => {
            if name == "iode" || name == "iodc" || name == "toe" {
                g.range(0, 604_799) as f64
            } else {
                any_f64(g)
            }
        },
    };
    Some(num(x, st))
}

pub fn words3(g: &mut Gen, st: NumStyle) -> [Num; 3] {
    [num(any_f64(g), st), num(any_f64(g), st), num(any_f64(g), st)]
}
pub fn words4(g: &mut Gen, st: NumStyle) -> [Num; 4] {
    [num(any_f64(g), st), num(any_f64(g), st), num(any_f64(g), st), num(any_f64(g), st)]
}

pub fn toc(g: &mut Gen, major: u8) -> Civil {
    let mut c = Civil::gen(g, (1980, 2079), false);
    if major < 3 && g.chance(1, 4) {
        c.t100 += g.range(0, 9) as u32 * 1_000_000;
    }
    c
}

pub fn eph_frame(g: &mut Gen, major: u8, sys: char, st: NumStyle) -> Frame {
    let msg = g.pickc(messages(major, sys));
    let t = table(major, sys, msg);
    let mut words: Vec<Option<Num>> = t.iter().map(|(n, k)| word(g, sys, n, *k, st)).collect();
    match g.below(6) {
        // blank fields, wherever
        0 => {
            let n = g.usize(1, 5);
            for _ in 0..n {
                let i = g.usize(0, words.len() - 1);
                words[i] = None;
            }
        },
        // trailing fields left out
        1 => {
            let n = words.len();
            let k = g.usize(1, 3);
            for w in words[n - k..].iter_mut() {
                *w = None;
            }
        },
        _ => {},
    }
    let mut clk = words3(g, st);
    if sys == 'S' {
        clk[2] = num(g.range(0, 604_800) as f64, st);
    }
    Frame { sys, prn: g.range(min_prn(sys), max_prn(sys)), msg, toc: toc(g, major), body: Body::Eph { clk, words } }
}

pub const SYSTEMS: &[char] = &['G', 'R', 'E', 'C', 'J', 'S'];

impl Frame {
    pub fn class(&self) -> &'static str {
        match self.body {
            Body::Eph { .. } => "EPH",
            Body::Kb { .. } | Body::Ng { .. } | Body::Bdgim { .. } => "ION",
            Body::Sto { .. } => "STO",
            Body::Eop { .. } => "EOP",
        }
    }
    pub fn epoch(&self) -> Epoch {
        self.toc.epoch(timescale(self.sys))
    }
    pub fn sv(&self) -> SV {
        sv(self.sys, self.prn)
    }
    /// frame as text; `trim`: trailing blanks are removed, `pad`: V2 years and dates are zero padded
    pub fn text(&self, major: u8, trim: bool, pad: bool) -> String {
        let c = &self.toc;
        let date = if major < 3 {
            let ds = c.t100 / 1_000_000;
            if pad {
                format!("{:02} {:02} {:02} {:02} {:02} {:>4}", c.y % 100, c.mo, c.d, c.h, c.mi, format!("{:02}.{}", ds / 10, ds % 10))
            } else {
                format!("{:02} {:>2} {:>2} {:>2} {:>2}{:>5}", c.y % 100, c.mo, c.d, c.h, c.mi, format!("{}.{}", ds / 10, ds % 10))
            }
        } else {
            format!("{:04} {:02} {:02} {:02} {:02} {:02}", c.y, c.mo, c.d, c.h, c.mi, c.sec())
        };
        assert!(date.len() == 19, "harness: date {:?}", date);
        let ind = if major < 3 { "   " } else { "    " };
        let mut lines: Vec<String> = vec![];
        if major > 3 {
            lines.push(format!("> {} {}{:02} {}", self.class(), self.sys, self.prn, self.msg));
        }
        match &self.body {
            Body::Eph { clk, words } => {
                let name = if major < 3 {
                    if pad { format!("{:02} ", self.prn) } else { format!("{:>2} ", self.prn) }
                } else {
                    format!("{}{:02} ", self.sys, self.prn)
                };
                lines.push(format!("{}{}{}{}{}", name, date, clk[0].text, clk[1].text, clk[2].text));
                for ch in words.chunks(4) {
                    let mut l = ind.to_string();
                    for w in ch {
                        match w {
                            Some(n) => l.push_str(&n.text),
                            None => l.push_str(&" ".repeat(19)),
                        }
                    }
                    lines.push(l);
                }
            },
            Body::Kb { alpha, beta, region } => {
                lines.push(format!("{}{}{}{}{}", ind, date, alpha[0].text, alpha[1].text, alpha[2].text));
                lines.push(format!("{}{}{}{}{}", ind, alpha[3].text, beta[0].text, beta[1].text, beta[2].text));
                lines.push(format!("{}{}{}", ind, beta[3].text, region.as_ref().map(|r| r.text.clone()).unwrap_or_default()));
            },
            Body::Ng { a, flags } => {
                lines.push(format!("{}{}{}{}{}", ind, date, a[0].text, a[1].text, a[2].text));
                lines.push(format!("{}{}", ind, flags.text));
            },
            Body::Bdgim { alpha } => {
                lines.push(format!("{}{}{}{}{}", ind, date, alpha[0].text, alpha[1].text, alpha[2].text));
                lines.push(format!("{}{}{}{}{}", ind, alpha[3].text, alpha[4].text, alpha[5].text, alpha[6].text));
                lines.push(format!("{}{}{}", ind, alpha[7].text, alpha[8].text));
            },
            Body::Sto { system, utc, a, t_tm } => {
                lines.push(format!("{}{} {:<18} {:<18} {:<18}", ind, date, system, "", utc));
                lines.push(format!("{}{}{}{}{}", ind, t_tm.text, a[0].text, a[1].text, a[2].text));
            },
            Body::Eop { x, y, t_tm, dut1 } => {
                lines.push(format!("{}{}{}{}{}", ind, date, x[0].text, x[1].text, x[2].text));
                lines.push(format!("{}{}{}{}{}", ind, " ".repeat(19), y[0].text, y[1].text, y[2].text));
                lines.push(format!("{}{}{}{}{}", ind, t_tm.text, dut1[0].text, dut1[1].text, dut1[2].text));
            },
        }
        let mut s = String::new();
        for l in lines {
            if trim {
                s.push_str(l.trim_end());
            } else {
                s.push_str(&format!("{:<80}", l));
            }
            s.push('\n');
        }
        s
    }
}

impl NavFile {
    pub fn header_text(&self, g: &mut Gen) -> String {
        let vers = format!("{:>6}.{:02}", self.major, self.minor);
        let (typ, sys): (&str, String) = if self.major < 3 {
            match self.system {
                'R' => (g.pickc(&["G: GLONASS NAV DATA", "GLONASS NAV DATA"]), String::new()),
                _ => (g.pickc(&["N: GPS NAV DATA", "NAVIGATION DATA"]), String::new()),
            }
        } else {
            let long = match self.system {
                'G' => "GPS",
                'R' => "GLONASS",
                'E' => "GALILEO",
                'C' => "BEIDOU",
                'J' => "QZSS",
                'S' => "SBAS",
                _ => "MIXED",
            };
            let s = match g.below(4) {
                0 => format!("{}", self.system),
                1 => format!("{}: {}", self.system, long),
                2 => format!("{} ({})", self.system, long),
                _ => long.to_string(),
            };
            (g.pickc(&["NAVIGATION DATA", "NAVIGATION DATA", "N: GNSS NAV DATA"]), s)
        };
        // "GNSS NAV DATA" files are mixed
        let typ = if typ.contains("GNSS") && self.system != 'M' { "NAVIGATION DATA" } else { typ };
        let mut s = String::new();
        s.push_str(&hline(&format!("{:<20}{:<20}{:<20}", vers, typ, sys), "RINEX VERSION / TYPE"));
        s.push('\n');
        s.push_str(&hline(&format!("{:<20}{:<20}{:<20}", "vh", "verif", "20240102 030405 UTC"), "PGM / RUN BY / DATE"));
        s.push('\n');
        for l in &self.extra {
            s.push_str(l);
            s.push('\n');
        }
        s.push_str(&hline("", "END OF HEADER"));
        s.push('\n');
        s
    }
    pub fn text(&self, g: &mut Gen) -> String {
        let mut s = self.header_text(g);
        let (trim, pad) = (g.bool(), g.bool());
        let comments = g.chance(1, 4);
        for f in &self.frames {
            if comments && g.chance(1, 3) {
                s.push_str(&hline(g.pickc(&["a comment", "G01 2020 01 01 00 00 00", "> EPH G01 LNAV", ""]), "COMMENT"));
                s.push('\n');
            }
            s.push_str(&f.text(self.major, trim, pad));
        }
        s
    }
}
