//! IONEX data model, generator and reference writer.
use crate::gen::*;
use crate::util::*;
use std::collections::BTreeMap;
use std::fmt::Write;

/// start, number of points, spacing, in tenths
#[derive(Clone, Copy, Debug)]
pub struct Axis {
    pub start: i64,
    pub n: usize,
    pub step: i64,
}

impl Axis {
    pub fn at(&self, i: usize) -> i64 {
        self.start + self.step * i as i64
    }
    pub fn end(&self) -> i64 {
        self.at(self.n - 1)
    }
    fn text(&self) -> String {
        let f = |v: i64| fixed(v, 1, 6);
        format!("  {}{}{}", f(self.start), f(self.end()), f(if self.n == 1 { 0 } else { self.step }))
    }
}

#[derive(Clone, Debug)]
pub struct Map {
    pub rms: bool,
    pub t: Civil,
    /// exponent stated in this map
    pub exponent: Option<i64>,
    /// values per height, latitude, longitude; None: 9999
    pub values: Vec<Vec<Vec<Option<i64>>>>,
}

#[derive(Clone, Debug)]
pub struct InxFile {
    /// minor revision of the format
    pub minor: u8,
    /// seconds, 0 when it varies
    pub interval: i64,
    pub system: &'static str,
    pub lat: Axis,
    pub lon: Axis,
    pub hgt: Axis,
    pub exponent: Option<i64>,
    pub mapping: &'static str,
    pub cutoff: i64,
    pub radius: i64,
    pub stations: Option<i64>,
    pub satellites: Option<i64>,
    pub observables: String,
    pub description: Vec<String>,
    pub maps: Vec<Map>,
}

fn axis(g: &mut Gen, lo: i64, hi: i64, steps: &[i64], max: usize) -> Axis {
    let step = g.pickc(steps);
    let n = g.usize(1, max).min(((hi - lo) / step) as usize + 1);
    let len = step * (n as i64 - 1);
    let start = if g.bool() {
        // on the spacing
        let k = (hi - lo - len) / step;
        lo + step * g.range(0, k)
    } else {
        lo + g.range(0, hi - lo - len)
    };
    let a = Axis { start, n, step };
    if g.bool() {
        Axis { start: a.end(), n, step: -step }
    } else {
        a
    }
}

fn value(g: &mut Gen, wide: bool) -> Option<i64> {
    let v = match g.below(8) {
        0 => return None,
        1 => g.range(-9998, 9998),
        2 if wide => g.range(10_000, 99_999),
        3 => 0,
        _ => g.range(1, 999),
    };
    Some(v)
}

pub fn inx_file(g: &mut Gen, max_maps: usize) -> InxFile {
    let large = g.below(300) == 299;
    g.label_if(large, "large grid");
    let lat = axis(g, -900, 900, &[25, 25, 50, 10, 5, 1, 100], if large { 90 } else { 5 });
    let lon = if g.chance(1, 6) {
        axis(g, 0, 3600, &[50, 25, 100], 73)
    } else {
        axis(g, -1800, 1800, &[50, 50, 25, 100, 10, 5, 3], if large { 145 } else { 34 })
    };
    let hgt = if g.chance(2, 3) {
        Axis { start: g.pickc(&[4500i64, 3500, 5067, 2000, 4005]), n: 1, step: 0 }
    } else {
        axis(g, 600, 20000, &[500, 1000, 25, 50], 3)
    };
    let exponent = if g.chance(1, 4) { None } else { Some(g.pickc(&[-1i64, -1, -2, -3, 0, 1])) };
    let n = g.usize(1, max_maps);
    let mut t = Civil::gen(g, (1995, 2060), false);
    let step = g.pickc(&[72_000_000_000i64, 36_000_000_000, 9_000_000_000, 10_000_000]);
    let mut times = vec![];
    for _ in 0..n {
        times.push(t);
        t = t.add(step);
    }
    let wide = g.chance(1, 3);
    let rms_maps = g.chance(1, 2);
    let restate = g.chance(1, 3);
    let make = |g: &mut Gen, rms: bool, t: Civil| -> Map {
        let empty = g.chance(1, 12);
        let values = (0..hgt.n)
            .map(|_| {
                (0..lat.n)
                    .map(|_| (0..lon.n).map(|_| if empty { None } else { value(g, wide) }).collect())
                    .collect()
            })
            .collect();
        let exponent = if restate && g.bool() { Some(g.pickc(&[-1i64, -2, -3, 0, 1])) } else { None };
        Map { rms, t, exponent, values }
    };
    let mut maps = vec![];
    if rms_maps && g.chance(1, 4) {
        for t in &times {
            maps.push(make(g, false, *t));
            if g.chance(3, 4) {
                maps.push(make(g, true, *t));
            }
        }
    } else {
        for t in &times {
            maps.push(make(g, false, *t));
        }
        if rms_maps {
            for t in &times {
                maps.push(make(g, true, *t));
            }
        }
    }
    let words = |g: &mut Gen| g.string(b"abcdefgh ijkl ()-.0123", 1, 59).trim().to_string();
    InxFile {
        minor: g.pickc(&[0u8, 0, 1]),
        interval: g.pickc(&[3600i64, 7200, 900, 1, 0, 86400]),
        system: g.pickc(&["GNSS", "GPS", "GPS", "MIX", "IRI", "BEN", "ENV", "NNS", "TOP", "GLO"]),
        lat,
        lon,
        hgt,
        exponent,
        mapping: g.pickc(&["NONE", "COSZ", "QFAC"]),
        cutoff: g.range(0, 300),
        radius: g.pickc(&[63_710i64, 63_712, 63_780]),
        stations: if g.bool() { Some(g.range(1, 999)) } else { None },
        satellites: if g.bool() { Some(g.range(1, 99)) } else { None },
        observables: words(g),
        description: (0..g.below(3)).map(|_| words(g)).filter(|s| !s.is_empty()).collect(),
        maps,
    }
}

pub fn epoch_text(t: &Civil) -> String {
    format!("{:6}{:6}{:6}{:6}{:6}{:6}", t.y, t.mo, t.d, t.h, t.mi, t.sec())
}

impl InxFile {
    pub fn is_2d(&self) -> bool {
        self.hgt.n == 1
    }
    pub fn text(&self, g: &mut Gen) -> String {
        let mut o = String::new();
        let mut l = |c: &str, m: &str| o.push_str(&line(c, m));
        l(&format!("{:>8}{:12}{:<20}{:<20}", format!("1.{}", self.minor), "", "IONOSPHERE MAPS", self.system), "IONEX VERSION / TYPE");
        l("BIMINX V5.3         AIUB                07-JAN-22 07:51", "PGM / RUN BY / DATE");
        for d in &self.description {
            l(d, "DESCRIPTION");
        }
        let (t0, t1) = (self.maps[0].t, self.maps.iter().map(|m| m.t).max_by_key(|t| t.ticks()).unwrap());
        l(&epoch_text(&t0), "EPOCH OF FIRST MAP");
        l(&epoch_text(&t1), "EPOCH OF LAST MAP");
        l(&format!("{:6}", self.interval), "INTERVAL");
        l(&format!("{:6}", self.tec_maps()), "# OF MAPS IN FILE");
        l(&format!("  {}", self.mapping), "MAPPING FUNCTION");
        l(&fixed(self.cutoff, 1, 8), "ELEVATION CUTOFF");
        l(&self.observables, "OBSERVABLES USED");
        if let Some(n) = self.stations {
            l(&format!("{:6}", n), "# OF STATIONS");
        }
        if let Some(n) = self.satellites {
            l(&format!("{:6}", n), "# OF SATELLITES");
        }
        l(&fixed(self.radius, 1, 8), "BASE RADIUS");
        l(&format!("{:6}", if self.is_2d() { 2 } else { 3 }), "MAP DIMENSION");
        l(&self.hgt.text(), "HGT1 / HGT2 / DHGT");
        l(&self.lat.text(), "LAT1 / LAT2 / DLAT");
        l(&self.lon.text(), "LON1 / LON2 / DLON");
        if let Some(e) = self.exponent {
            l(&format!("{:6}", e), "EXPONENT");
        }
        if g.chance(1, 3) {
            l("TEC/RMS values in 0.1 TECU; 9999, if no value available", "COMMENT");
            l("DIFFERENTIAL CODE BIASES", "START OF AUX DATA");
            l("    01    -7.516     0.007", "PRN / BIAS / RMS");
            l("    AJAC  10002M006         9.150     0.004", "STATION / BIAS / RMS");
            l("DIFFERENTIAL CODE BIASES", "END OF AUX DATA");
        }
        l("", "END OF HEADER");
        let (mut nt, mut nr) = (0, 0);
        for m in &self.maps {
            let (kind, n) = if m.rms {
                nr += 1;
                ("RMS", nr)
            } else {
                nt += 1;
                ("TEC", nt)
            };
            o.push_str(&line(&format!("{:6}", n), &format!("START OF {} MAP", kind)));
            let first = g.bool();
            let e = m.exponent.map(|e| line(&format!("{:6}", e), "EXPONENT"));
            if let (Some(e), true) = (&e, first) {
                o.push_str(e);
            }
            o.push_str(&line(&epoch_text(&m.t), "EPOCH OF CURRENT MAP"));
            if let (Some(e), false) = (&e, first) {
                o.push_str(e);
            }
            for h in 0..self.hgt.n {
                for la in 0..self.lat.n {
                    let f = |v: i64| fixed(v, 1, 6);
                    o.push_str(&line(
                        &format!(
                            "  {}{}{}{}{}",
                            f(self.lat.at(la)),
                            f(self.lon.start),
                            f(self.lon.end()),
                            f(if self.lon.n == 1 { 0 } else { self.lon.step }),
                            f(self.hgt.at(h))
                        ),
                        "LAT/LON1/LON2/DLON/H",
                    ));
                    for chunk in m.values[h][la].chunks(16) {
                        for v in chunk {
                            write!(o, "{:5}", v.unwrap_or(9999)).unwrap();
                        }
                        o.push('\n');
                    }
                    if g.chance(1, 24) {
                        o.push_str(&line("a comment in the body", "COMMENT"));
                    }
                }
            }
            o.push_str(&line(&format!("{:6}", n), &format!("END OF {} MAP", kind)));
        }
        if g.chance(3, 4) {
            o.push_str(&line("", "END OF FILE"));
        }
        o
    }
    pub fn tec_maps(&self) -> usize {
        self.maps.iter().filter(|m| !m.rms).count()
    }
    /// exponent in force in each map
    pub fn exponents(&self) -> Vec<i64> {
        let mut e = self.exponent.unwrap_or(-1);
        self.maps
            .iter()
            .map(|m| {
                e = m.exponent.unwrap_or(e);
                e
            })
            .collect()
    }
    /// TEC (and RMS) expected at each (time, latitude, longitude, height) node: index of the TEC
    /// map, value, rms; each value as (integer, exponent)
    pub fn expected(&self) -> BTreeMap<(i128, i64, i64, i64), (usize, (i64, i64), Option<(i64, i64)>)> {
        let e = self.exponents();
        let mut out = BTreeMap::new();
        for pass in [false, true] {
            for (i, m) in self.maps.iter().enumerate() {
                if m.rms != pass {
                    continue;
                }
                for h in 0..self.hgt.n {
                    for la in 0..self.lat.n {
                        for lo in 0..self.lon.n {
                            if let Some(v) = m.values[h][la][lo] {
                                let k = (m.t.ticks(), self.lat.at(la), self.lon.at(lo), self.hgt.at(h));
                                if !m.rms {
                                    out.insert(k, (i, (v, e[i]), None));
                                } else if let Some(x) = out.get_mut(&k) {
                                    x.2 = Some((v, e[i]));
                                }
                            }
                        }
                    }
                }
            }
        }
        out
    }
}

fn line(c: &str, m: &str) -> String {
    hline(c, m) + "\n"
}
