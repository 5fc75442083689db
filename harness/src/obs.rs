//! Observation data model, generators and reference writer (RINEX 2.x, 3.x, 4.x), shared by
//! several checks. Nothing here uses the writer or the parser under test.
use crate::gen::*;
use crate::util::*;
use rinex::prelude::*;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Ob {
    /// value, in thousandths
    pub milli: i64,
    pub lli: Option<u8>,
    pub ssi: Option<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sat {
    /// "G01"
    pub name: String,
    /// aligned on the constellation's observables
    pub obs: Vec<Option<Ob>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Epo {
    pub t: Civil,
    pub flag: u8,
    /// receiver clock offset in units of 1e-9 (V2) or 1e-12 (V3+)
    pub clock: Option<i64>,
    pub sats: Vec<Sat>,
    /// special event (flags 2 to 5): lines that follow
    pub event: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct ObsFile {
    pub major: u8,
    pub minor: u8,
    /// 'G', 'R', ... or 'M'
    pub system: char,
    pub ts: TimeScale,
    /// text of the timescale in TIME OF FIRST OBS ("" when omitted)
    pub ts_text: &'static str,
    pub codes: Vec<(char, Vec<String>)>,
    pub epochs: Vec<Epo>,
}

pub struct ObsCfg {
    pub majors: &'static [u8],
    pub max_epochs: usize,
    pub max_sats: usize,
    pub max_codes: usize,
    pub events: bool,
    pub clock: bool,
    /// finest epoch step is 100 ns when true, else 1 ms
    pub fine_time: bool,
    pub mixed_only: bool,
    /// a few files have many satellites and codes, or many epochs
    pub large: bool,
}

pub const DEFAULT_CFG: ObsCfg = ObsCfg {
    majors: &[2, 3, 4],
    max_epochs: 4,
    max_sats: 16,
    max_codes: 22,
    events: true,
    clock: true,
    fine_time: true,
    mixed_only: false,
    large: true,
};

pub fn max_prn(c: char) -> i64 {
    match c {
        'G' => 32,
        'R' => 27,
        'E' => 36,
        'C' => 63,
        'J' => 10,
        'I' => 14,
        _ => 58,
    }
}
pub fn min_prn(c: char) -> i64 {
    if c == 'S' {
        20
    } else {
        1
    }
}

pub fn constellation(c: char) -> Constellation {
    match c {
        'G' => Constellation::GPS,
        'R' => Constellation::Glonass,
        'E' => Constellation::Galileo,
        'C' => Constellation::BeiDou,
        'J' => Constellation::QZSS,
        'I' => Constellation::IRNSS,
        'S' => Constellation::SBAS,
        _ => Constellation::Mixed,
    }
}

/// every RINEX 3/4 code of a constellation (RINEX 3.05 tables 9 to 16)
pub fn v3_codes(c: char) -> Vec<String> {
    let bands: &[(&str, &str)] = match c {
        'G' => &[("1", "CSLXPWYMN"), ("2", "CDSLXPWYMN"), ("5", "IQX")],
        'R' => &[("1", "CP"), ("4", "ABX"), ("2", "CP"), ("6", "ABX"), ("3", "IQX")],
        'E' => &[("1", "ABCXZ"), ("5", "IQX"), ("7", "IQX"), ("8", "IQX"), ("6", "ABCXZ")],
        'C' => &[("2", "IQX"), ("1", "DPXSLZ"), ("5", "DPX"), ("7", "IQXDPZ"), ("8", "DPX"), ("6", "IQXDPZ")],
        'J' => &[("1", "CSLXZBE"), ("2", "SLX"), ("5", "IQXDPZ"), ("6", "SLXEZ")],
        'I' => &[("5", "ABCX"), ("9", "ABCX"), ("1", "DPX")],
        _ => &[("1", "C"), ("5", "IQX")],
    };
    let mut v = vec![];
    for (b, attrs) in bands {
        for a in attrs.chars() {
            for t in ["C", "L", "D", "S"] {
                // codeless tracking gives no pseudo range
                if t == "C" && a == 'N' {
                    continue;
                }
                v.push(format!("{}{}{}", t, b, a));
            }
        }
    }
    // receiver channel number
    v.push("X1".into());
    // ionosphere phase delay
    for (b, _) in bands {
        v.push(format!("I{}", b));
    }
    v
}

pub fn v2_codes() -> Vec<String> {
    [
        "C1", "P1", "L1", "D1", "S1", "C2", "P2", "L2", "D2", "S2", "C5", "L5", "D5", "S5", "C6", "L6", "D6", "S6", "C7", "L7",
        "D7", "S7", "C8", "L8", "D8", "S8",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}

pub fn ob(g: &mut Gen) -> Ob {
    let style = g.below(4);
    let mut milli = match style {
        0 => g.range(15_000_000_000, 45_000_000_000), // pseudo range, m
        1 => g.range(80_000_000_000, 220_000_000_000), // phase, cycles
        2 => g.range(-9_999_999, 9_999_999),          // Doppler
        _ => {
            if g.bool() {
                -g.int_digits(12, false)
            } else {
                g.int_digits(13, false)
            }
        },
    };
    if milli == 0 {
        // 0.000 is one of the notations of a missing observation
        milli = 1;
    }
    let lli = if g.chance(1, 3) { Some(g.below(8) as u8) } else { None };
    let ssi = if g.chance(1, 2) { Some(g.below(10) as u8) } else { None };
    Ob { milli, lli, ssi }
}

pub fn obs_file(g: &mut Gen, cfg: &ObsCfg) -> ObsFile {
    let cfg = &match if cfg.large { g.below(200) } else { 0 } {
        198 => {
            g.label("wide file");
            ObsCfg { max_epochs: 2, max_sats: 120, max_codes: 999, ..*cfg }
        },
        199 => {
            g.label("long file");
            ObsCfg { max_epochs: 90, max_sats: 3, max_codes: 5, ..*cfg }
        },
        _ => ObsCfg { ..*cfg },
    };
    let major = g.pickc(cfg.majors);
    let minor = match major {
        2 => g.pickc(&[11u8, 10, 12, 0]),
        3 => g.pickc(&[0u8, 1, 2, 3, 4, 5]),
        _ => 0,
    };
    let all: &[char] = if major == 2 { &['G', 'R', 'E', 'S'] } else { &['G', 'R', 'E', 'C', 'J', 'S', 'I'] };
    let mono: &[char] = if major == 2 { &['G', 'R', 'E', 'S'] } else { &['G', 'R', 'E', 'C', 'J', 'S'] };
    let mixed = cfg.mixed_only || g.bool();
    let (system, systems) = if mixed {
        let n = g.usize(1, all.len());
        ('M', g.subset(all, n, false))
    } else {
        let s = g.pickc(mono);
        (s, vec![s])
    };
    let table = [
        (TimeScale::GPST, "GPS"),
        (TimeScale::UTC, "GLO"),
        (TimeScale::GST, "GAL"),
        (TimeScale::BDT, "BDT"),
        (TimeScale::QZSST, "QZS"),
    ];
    let by_system = |s: char| match s {
        'R' => 1,
        'E' => 2,
        'C' => 3,
        'J' => 4,
        _ => 0,
    };
    let (ts, ts_text) = if mixed {
        g.pickc(if major == 2 { &table[..2] } else { &table[..] })
    } else {
        let (ts, txt) = table[by_system(system)];
        match g.below(4) {
            0 => (ts, ""),
            // a single-system file may be dated in another system's time
            1 => g.pickc(&table[..1]),
            _ => (ts, txt),
        }
    };
    let mut codes = vec![];
    if major == 2 {
        let table = v2_codes();
        let n = g.usize(1, table.len().min(cfg.max_codes));
        let list = g.subset(&table, n, false);
        for s in &systems {
            codes.push((*s, list.clone()));
        }
    } else {
        for s in &systems {
            let table = v3_codes(*s);
            let n = g.usize(1, table.len().min(cfg.max_codes));
            codes.push((*s, g.subset(&table, n, false)));
        }
    }
    let ne = g.usize(1, cfg.max_epochs);
    let mut t = Civil::gen(g, if major == 2 { (1980, 2077) } else { (1981, 2090) }, cfg.fine_time);
    if !cfg.fine_time {
        t.t100 -= t.t100 % 10_000;
    }
    let density = g.pickc(&[10u64, 9, 7, 4, 1]);
    let max_sats = if g.chance(1, 8) { cfg.max_sats * 3 } else { cfg.max_sats };
    let mut epochs = vec![];
    for _ in 0..ne {
        let flag = if cfg.events && g.chance(1, 12) { g.range(2, 5) as u8 } else { g.pickc(&[0u8, 0, 0, 0, 0, 1, 6]) };
        if (2..=5).contains(&flag) {
            let n = g.usize(0, 3);
            let mut event = vec![];
            for _ in 0..n {
                event.push(hline(&g.string(b"ABCDEFGH 0123", 0, 20), g.pickc(&["MARKER NAME", "COMMENT", "ANTENNA: DELTA H/E/N"])));
            }
            epochs.push(Epo { t, flag, clock: None, sats: vec![], event });
        } else {
            let mut pool: Vec<String> = vec![];
            for (c, _) in &codes {
                for p in min_prn(*c)..=max_prn(*c) {
                    pool.push(format!("{}{:02}", c, p));
                }
            }
            let n = g.usize(1, max_sats.min(pool.len()));
            let sorted = g.bool();
            let names = g.subset(&pool, n, sorted);
            let clock = if cfg.clock && g.chance(1, 3) {
                Some(g.int_digits(if major == 2 { 10 } else { 12 }, true).max(if major == 2 { -9_999_999_999 } else { -999_999_999_999 })).filter(|c| *c != 0)
            } else {
                None
            };
            // null: unknown
            let mut sats = vec![];
            for name in names {
                let c = name.chars().next().unwrap();
                let nobs = codes.iter().find(|x| x.0 == c).unwrap().1.len();
                let obs = (0..nobs).map(|_| if g.below(10) < density { Some(ob(g)) } else { None }).collect();
                sats.push(Sat { name, obs });
            }
            epochs.push(Epo { t, flag, clock, sats, event: vec![] });
        }
        let step = match g.below(4) {
            0 => 300_000_000,
            1 => 10_000_000 * g.range(1, 86_400 * 3),
            2 => 1_000_000 * g.range(1, 99),
            _ => {
                if cfg.fine_time {
                    g.range(1, 999_999_999)
                } else {
                    10_000 * g.range(1, 99_999)
                }
            },
        };
        t = t.add(step);
    }
    ObsFile { major, minor, system, ts, ts_text, codes, epochs }
}

impl Ob {
    pub fn text(&self) -> String {
        format!(
            "{}{}{}",
            fixed(self.milli, 3, 14),
            self.lli.map(|l| l.to_string()).unwrap_or(" ".into()),
            self.ssi.map(|l| l.to_string()).unwrap_or(" ".into())
        )
    }
    pub fn value(&self) -> f64 {
        dec(self.milli, 3)
    }
}

/// How the text is laid out, within what the format allows
#[derive(Clone, Copy)]
pub struct Style {
    /// 0: full fields, 1: trailing blanks trimmed, 2: padded to 80 columns
    pub blanks: u64,
    /// V2 satellites of a single-system file written without the system letter
    pub anonymous: bool,
    pub space_prn: bool,
    pub v2_zero_pad: bool,
}

impl Style {
    pub fn plain() -> Self {
        Style { blanks: 1, anonymous: false, space_prn: false, v2_zero_pad: false }
    }
    pub fn gen(g: &mut Gen) -> Self {
        Style { blanks: g.below(3), anonymous: g.chance(1, 4), space_prn: g.chance(1, 6), v2_zero_pad: g.chance(1, 4) }
    }
    fn push(&self, out: &mut String, line: &str) {
        match self.blanks {
            1 => out.push_str(line.trim_end()),
            2 => {
                let _ = write!(out, "{:<80}", line);
            },
            _ => out.push_str(line),
        }
        out.push('\n');
    }
}

impl ObsFile {
    pub fn header_text(&self) -> String {
        let mut s = String::new();
        let p = |s: &mut String, c: &str, l: &str| {
            s.push_str(&hline(c, l));
            s.push('\n');
        };
        p(
            &mut s,
            &format!(
                "{:>9}{:11}{:20}{:20}",
                format!("{}.{:02}", self.major, self.minor),
                "",
                "OBSERVATION DATA",
                match self.system {
                    'M' => "M (MIXED)".to_string(),
                    c => c.to_string(),
                }
            ),
            "RINEX VERSION / TYPE",
        );
        p(&mut s, "verif               harness             20240101 000000 UTC", "PGM / RUN BY / DATE");
        p(&mut s, "A comment", "COMMENT");
        p(&mut s, "VERI", "MARKER NAME");
        if self.major == 2 {
            let list = &self.codes[0].1;
            for (i, ch) in list.chunks(9).enumerate() {
                let mut l = if i == 0 { format!("{:6}", list.len()) } else { " ".repeat(6) };
                for c in ch {
                    let _ = write!(l, "    {:>2}", c);
                }
                p(&mut s, &l, "# / TYPES OF OBSERV");
            }
        } else {
            for (c, list) in &self.codes {
                for (i, ch) in list.chunks(13).enumerate() {
                    let mut l = if i == 0 { format!("{}  {:3}", c, list.len()) } else { " ".repeat(6) };
                    for c in ch {
                        let _ = write!(l, " {:3}", c);
                    }
                    p(&mut s, &l, "SYS / # / OBS TYPES");
                }
            }
        }
        let t = &self.epochs[0].t;
        p(
            &mut s,
            &format!("{:6}{:6}{:6}{:6}{:6}{}     {:3}", t.y, t.mo, t.d, t.h, t.mi, t.sec7(13, false), self.ts_text),
            "TIME OF FIRST OBS",
        );
        p(&mut s, "", "END OF HEADER");
        s
    }

    pub fn epoch_text(&self, e: &Epo, st: &Style) -> String {
        let mut s = String::new();
        let event = (2..=5).contains(&e.flag);
        let n = if event { e.event.len() } else { e.sats.len() };
        let name = |x: &str| -> String {
            let mut c = x.to_string();
            if st.space_prn && c.as_bytes()[1] == b'0' {
                c.replace_range(1..2, " ");
            }
            if st.anonymous && self.major == 2 && self.system != 'M' && self.system != 'S' {
                c.replace_range(0..1, " ");
            }
            c
        };
        if self.major == 2 {
            let t = &e.t;
            let z = |v: i64| if st.v2_zero_pad { format!("{:02}", v) } else { format!("{:2}", v) };
            let mut l = format!(
                " {:02} {} {} {} {}{}  {}{:3}",
                t.y % 100,
                z(t.mo as i64),
                z(t.d as i64),
                z(t.h as i64),
                z(t.mi as i64),
                t.sec7(11, false),
                e.flag,
                n
            );
            for (i, ch) in e.sats.chunks(12).enumerate() {
                if i > 0 {
                    st.push(&mut s, &l);
                    l = " ".repeat(32);
                }
                for x in ch {
                    l.push_str(&name(&x.name));
                }
                if i == 0 {
                    if let Some(c) = e.clock {
                        let _ = write!(l, "{:>width$}{}", "", fixed(c, 9, 12), width = 68 - l.len());
                    }
                }
            }
            st.push(&mut s, &l);
            for x in &e.sats {
                for ch in x.obs.chunks(5) {
                    let mut l = String::new();
                    for o in ch {
                        match o {
                            Some(o) => l.push_str(&o.text()),
                            None => l.push_str(&" ".repeat(16)),
                        }
                    }
                    st.push(&mut s, &l);
                }
            }
        } else {
            let t = &e.t;
            let mut l =
                format!("> {:04} {:02} {:02} {:02} {:02}{}  {}{:3}", t.y, t.mo, t.d, t.h, t.mi, t.sec7(11, false), e.flag, n);
            if let Some(c) = e.clock {
                let _ = write!(l, "      {}", fixed(c, 12, 15));
            }
            st.push(&mut s, &l);
            for x in &e.sats {
                let mut l = name(&x.name);
                for o in &x.obs {
                    match o {
                        Some(o) => l.push_str(&o.text()),
                        None => l.push_str(&" ".repeat(16)),
                    }
                }
                st.push(&mut s, &l);
            }
        }
        for l in &e.event {
            s.push_str(l);
            s.push('\n');
        }
        s
    }

    pub fn text(&self, st: &Style) -> String {
        let mut s = self.header_text();
        for e in &self.epochs {
            s.push_str(&self.epoch_text(e, st));
        }
        s
    }

    pub fn codes_of(&self, sat: &str) -> &Vec<String> {
        let c = sat.chars().next().unwrap();
        &self.codes.iter().find(|x| x.0 == c).unwrap().1
    }

    pub fn clock_seconds(&self, m: i64) -> f64 {
        dec(m, if self.major == 2 { 9 } else { 12 })
    }

    pub fn classify(&self, g: &mut Gen) {
        g.label(match self.major {
            2 => "v2",
            3 => "v3",
            _ => "v4",
        });
        g.label_if(self.system == 'M', "mixed");
        g.label_if(self.epochs.iter().any(|e| e.clock.is_some()), "clock");
        g.label_if(self.epochs.iter().any(|e| !e.event.is_empty()), "event");
        g.label_if(self.epochs.iter().any(|e| e.sats.len() > 12), ">12 sats");
        g.label_if(self.epochs.iter().any(|e| e.sats.iter().any(|s| s.obs.iter().any(|o| o.is_none()))), "blanks");
        g.label_if(
            self.epochs.iter().any(|e| e.sats.iter().any(|s| s.obs.iter().all(|o| o.is_none()))),
            "all-blank satellite",
        );
        g.label_if(self.codes.iter().any(|c| c.1.len() > 5), ">5 codes");
        g.label_if(self.codes.iter().any(|c| c.1.len() > 13), ">13 codes");
        g.label_if(self.epochs.iter().any(|e| e.t.t100 % 10_000_000 != 0), "sub-second");
        let n: usize = self.epochs.iter().map(|e| e.sats.iter().map(|s| s.obs.iter().flatten().count()).sum::<usize>()).sum();
        g.nontrivial = n > 1;
    }
}

/// The model without what a formatted file cannot hold: events, satellites without any observation.
pub fn normalised(f: &ObsFile) -> ObsFile {
    let mut f = f.clone();
    f.epochs.retain(|e| !(2..=5).contains(&e.flag));
    for e in &mut f.epochs {
        e.sats.retain(|s| s.obs.iter().any(|o| o.is_some()));
    }
    f
}

/// Builds the data set through the public API; signals in random order, values within half a
/// thousandth of the model.
pub fn to_rinex(g: &mut Gen, f: &ObsFile, jitter: bool) -> Rinex {
    use rinex::observation::{EpochFlag, HeaderFields, LliFlags, ObsKey, Observations, SignalObservation, SNR};
    use rinex::prelude::Record;
    use std::str::FromStr;
    let mut fields = HeaderFields::default();
    for (c, list) in &f.codes {
        fields.codes.insert(constellation(*c), list.iter().map(|s| Observable::from_str(s).expect("library: observable")).collect());
    }
    if !f.ts_text.is_empty() {
        fields.timeof_first_obs = Some(f.epochs.first().map(|e| e.t.epoch(f.ts)).unwrap_or(Epoch::from_gregorian(2020, 1, 1, 0, 0, 0, 0, f.ts)));
    }
    let header = Header::basic_obs()
        .with_version(Version::new(f.major, f.minor))
        .with_constellation(constellation(f.system))
        .with_observation_fields(fields);
    let mut rec = rinex::observation::Record::new();
    for e in &f.epochs {
        let t = e.t.epoch(f.ts);
        let mut o = Observations::default();
        if let Some(c) = e.clock {
            o = o.with_clock_offset_s(t, f.clock_seconds(c));
        }
        for s in &e.sats {
            let sv = SV::from_str(&s.name).expect("library: sv");
            for (ob, code) in s.obs.iter().zip(f.codes_of(&s.name)) {
                if let Some(ob) = ob {
                    let j = if jitter { g.range(-490, 490) as f64 * 1e-6 } else { 0.0 };
                    o.signals.push(SignalObservation {
                        sv,
                        observable: Observable::from_str(code).unwrap(),
                        value: ob.value() + j,
                        lli: ob.lli.map(LliFlags::from_bits_truncate),
                        snr: ob.ssi.map(|s| SNR::from_str(&s.to_string()).unwrap()),
                    });
                }
            }
        }
        if g.bool() {
            g.shuffle(&mut o.signals);
        }
        rec.insert(ObsKey { epoch: t, flag: EpochFlag::from_str(&e.flag.to_string()).unwrap() }, o);
    }
    Rinex::new(header, Record::ObsRecord(rec))
}
