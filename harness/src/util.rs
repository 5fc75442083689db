//! Text and calendar helpers shared by the reference writers.
use crate::gen::Gen;
use rinex::prelude::*;

/// header line: 60 columns of content, then the label
pub fn hline(content: &str, label: &str) -> String {
    format!("{:<60}{:<20}", content, label)
}

/// m * 10^-decimals as exact decimal text, right aligned on `width` (Fortran Fw.d)
pub fn fixed(m: i64, decimals: usize, width: usize) -> String {
    let a = m.unsigned_abs();
    let p = 10u64.pow(decimals as u32);
    let s = format!("{}{}.{:0d$}", if m < 0 { "-" } else { "" }, a / p, a % p, d = decimals);
    assert!(s.len() <= width, "harness: {} does not fit F{}.{}", s, width, decimals);
    format!("{:>w$}", s, w = width)
}

/// nearest f64 to m * 10^-decimals
pub fn dec(m: i64, decimals: usize) -> f64 {
    fixed(m, decimals, 40).trim().parse().unwrap()
}

/// Civil date in whatever timescale is in force; t100 counts 100 ns ticks since midnight's second count
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Civil {
    pub y: i32,
    pub mo: u8,
    pub d: u8,
    pub h: u8,
    pub mi: u8,
    /// seconds, in 100 ns ticks
    pub t100: u32,
}

pub fn is_leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn month_days(y: i32, m: u8) -> u8 {
    match m {
        2 => 28 + is_leap(y) as u8,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

/// days since 1970-01-01 (proleptic Gregorian)
pub fn days_from_civil(y: i32, m: u8, d: u8) -> i64 {
    let y = if m <= 2 { y as i64 - 1 } else { y as i64 };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let mp = (m as i64 + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d as i64 - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
pub fn civil_from_days(z: i64) -> (i32, u8, u8) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u8;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u8;
    ((yoe + era * 400 + (m <= 2) as i64) as i32, m, d)
}

impl Civil {
    pub fn gen(g: &mut Gen, years: (i32, i32), fine: bool) -> Self {
        let y = if g.bool() { g.range(years.0 as i64, years.1 as i64) } else { g.range(2000.max(years.0) as i64, 2030.min(years.1) as i64) } as i32;
        let (mo, d) = match g.below(5) {
            0 => (12, 31),
            1 => (1, 1),
            2 => (2, month_days(y, 2)),
            _ => {
                let m = g.range(1, 12) as u8;
                (m, g.range(1, month_days(y, m) as i64) as u8)
            },
        };
        let (h, mi, s) = match g.below(4) {
            0 => (0, 0, 0),
            1 => (23, 59, 59),
            _ => (g.range(0, 23) as u8, g.range(0, 59) as u8, g.range(0, 59) as u32),
        };
        let frac = if fine {
            match g.below(4) {
                0 => g.range(0, 9_999_999) as u32,
                1 => g.pickc(&[9_999_999u32, 1, 10, 123, 5_000_000, 9_999_990]),
                _ => 0,
            }
        } else {
            0
        };
        Civil { y, mo, d, h, mi, t100: s * 10_000_000 + frac }
    }
    pub fn sec(&self) -> u32 {
        self.t100 / 10_000_000
    }
    pub fn frac(&self) -> u32 {
        self.t100 % 10_000_000
    }
    pub fn ns(&self) -> u32 {
        self.frac() * 100
    }
    /// seconds as Fw.7
    pub fn sec7(&self, w: usize, zero: bool) -> String {
        let s = if zero { format!("{:02}.{:07}", self.sec(), self.frac()) } else { format!("{}.{:07}", self.sec(), self.frac()) };
        format!("{:>w$}", s, w = w)
    }
    /// 100 ns ticks since 1970-01-01, every day 86400 s long
    pub fn ticks(&self) -> i128 {
        (days_from_civil(self.y, self.mo, self.d) as i128 * 86400 + self.h as i128 * 3600 + self.mi as i128 * 60) * 10_000_000
            + self.t100 as i128
    }
    pub fn from_ticks(t: i128) -> Self {
        let day = 86400i128 * 10_000_000;
        let (y, mo, d) = civil_from_days(t.div_euclid(day) as i64);
        let r = t.rem_euclid(day);
        let h = (r / 36_000_000_000) as u8;
        let mi = ((r / 600_000_000) % 60) as u8;
        Civil { y, mo, d, h, mi, t100: (r % 600_000_000) as u32 }
    }
    pub fn add(&self, ticks: i64) -> Self {
        Self::from_ticks(self.ticks() + ticks as i128)
    }
    pub fn epoch(&self, ts: TimeScale) -> Epoch {
        Epoch::maybe_from_gregorian(self.y, self.mo, self.d, self.h, self.mi, self.sec() as u8, self.ns(), ts)
            .expect("harness: bad date")
    }
}

/// same timescale and same instant, to the nanosecond
pub fn same_epoch(a: Epoch, b: Epoch) -> bool {
    a.time_scale == b.time_scale && a.duration == b.duration
}

pub fn parse_text(s: &str) -> Result<Rinex, rinex::prelude::ParsingError> {
    let mut r = std::io::BufReader::new(s.as_bytes());
    Rinex::parse(&mut r)
}

pub fn format_text(r: &Rinex) -> Result<String, String> {
    let mut w = std::io::BufWriter::new(Vec::<u8>::new());
    r.format(&mut w).map_err(|e| format!("{:?}", e))?;
    let v = w.into_inner().map_err(|e| e.to_string())?;
    String::from_utf8(v).map_err(|e| e.to_string())
}
