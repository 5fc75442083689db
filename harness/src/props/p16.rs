//! P16: DORIS files.
use crate::ensure;
use crate::gen::*;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::prelude::*;
use std::collections::BTreeMap;
use std::str::FromStr;

const OBS: [&str; 16] = ["L1", "L2", "C1", "C2", "W1", "W2", "F", "P", "T", "H", "D1", "D2", "S1", "S2", "L1C", "C2W"];

#[derive(Clone)]
struct Sta {
    key: u16,
    label: String,
    site: String,
    domes: String,
    gen: u8,
    k: i8,
}

/// value in 1e-3 units and the two flags
type Meas = (i64, Option<u8>, Option<u8>);

#[derive(Clone)]
struct Ep {
    t: Civil,
    /// nanoseconds below the 100 ns ticks
    ns: u32,
    flag: u8,
    clock: Option<i64>,
    extrap: bool,
    /// station (index in the list), one slot per observable
    sats: Vec<(usize, Vec<Option<Meas>>)>,
}

#[derive(Clone)]
pub struct DorFile {
    sat: String,
    cospar: String,
    /// observer, agency, receiver number, type and version, antenna number and type
    id: Vec<String>,
    obs: Vec<String>,
    first: Option<Civil>,
    last: Option<Civil>,
    scale: Vec<(u16, Vec<String>)>,
    dt_ns: Option<i64>,
    stations: Vec<Sta>,
    eps: Vec<Ep>,
}

fn domes(g: &mut Gen) -> String {
    format!("{:05}{}{:03}", if g.chance(1, 8) { g.range(1, 9999) } else { g.range(10000, 99999) }, g.pickc(&["S", "M"]), g.range(1, 999))
}

pub fn dor_file(g: &mut Gen) -> DorFile {
    let n = if g.bool() { 10 } else { g.usize(1, OBS.len()) };
    let obs: Vec<String> = if n == 10 { OBS[..10].iter().map(|s| s.to_string()).collect() } else { g.subset(&OBS, n, false).iter().map(|s| s.to_string()).collect() };
    let large = g.below(100) == 99;
    g.label_if(large, "large file");
    let ns = if large { g.usize(9, 70) } else { g.usize(1, 8) };
    let mut keys: Vec<u16> = if g.bool() { (1..=ns as u16).collect() } else { g.subset(&(1..=99u16).collect::<Vec<_>>(), ns, true) };
    if g.chance(1, 4) {
        g.shuffle(&mut keys);
    }
    let stations: Vec<Sta> = keys
        .iter()
        .enumerate()
        .map(|(i, key)| Sta {
            key: *key,
            label: format!("{}{}{}", (b'A' + (i % 26) as u8) as char, (b'A' + (i / 26) as u8) as char, g.string(UPPER, 2, 2)),
            site: {
                let a = g.string(UPPER, 1, 14);
                if g.chance(1, 3) {
                    format!("{} {}", a, g.string(UPPER, 1, 14))
                } else {
                    a
                }
            },
            domes: domes(g),
            gen: g.range(1, 9) as u8,
            k: if g.bool() { g.range(-99, 127) as i8 } else { g.range(-20, 20) as i8 },
        })
        .collect();
    // factors of some observables, over several lines, or of all of them
    let mut scale = vec![];
    if g.bool() {
        if g.chance(1, 8) {
            scale.push((g.range(1, 9999) as u16, vec![]));
        } else {
            let mut rest = obs.clone();
            for _ in 0..g.usize(1, 3) {
                if !rest.is_empty() {
                    let k = if g.bool() { g.usize(1, 2.min(rest.len())) } else { g.usize(1, rest.len()) };
                    let names = g.subset(&rest, k, true);
                    rest.retain(|o| !names.contains(o));
                    scale.push((g.range(1, 9999) as u16, names));
                }
            }
        }
    }
    let mut t = Civil::gen(g, (1992, 2060), true);
    let mut eps = vec![];
    let first = if g.chance(5, 6) { Some(t) } else { None };
    for _ in 0..if large { g.usize(6, 40) } else { g.usize(1, 6) } {
        let mut sats = vec![];
        let n = g.usize(0, if large { 40 } else { 4 }.min(stations.len()));
        let idx: Vec<usize> = (0..stations.len()).collect();
        for s in g.subset(&idx, n, false) {
            let mut row = vec![];
            for _ in 0..obs.len() {
                row.push(if g.chance(1, 6) {
                    None
                } else {
                    let fl = |g: &mut Gen| if g.bool() { None } else { Some(g.range(0, 9) as u8) };
                    // F14.3
                    Some((if g.bool() { g.int_digits(12, true) } else { g.int_digits(13, false) }, fl(g), fl(g)))
                });
            }
            sats.push((s, row));
        }
        let flag = g.pickc(&[0, 0, 0, 0, 1, 1, 3, 4]);
        // F13.9
        let clock = if g.chance(1, 8) { None } else { Some(g.int_digits(11, true)) };
        eps.push(Ep { t, ns: if g.bool() { g.range(0, 99) as u32 } else { 0 }, flag, clock, extrap: g.chance(1, 3), sats });
        let dt = if g.bool() { g.pickc(&[3i64, 7, 10]) * 10_000_000 } else { 1 + g.int_digits(14, false) };
        t = t.add(dt);
    }
    let last = if g.bool() { Some(t) } else { None };
    if g.chance(1, 5) {
        g.shuffle(&mut eps);
    }
    let mut id = vec![];
    for w in [20, 40, 20, 20, 20, 20, 20] {
        let t = g.string(b"ABCDEFGHJKLMNPQRSTUVWXYZ abcdefg0123456789-_./#", 1, w);
        let t = t.trim();
        id.push(if t.is_empty() { "x".to_string() } else { t.to_string() });
    }
    DorFile {
        id,
        cospar: format!("{:04}-{:03}{}", g.range(1957, 2050), g.range(1, 999), g.string(b"ABCDEFGHJKLMNPQRSTUVWXYZ", 1, 3)),
        sat: if g.chance(1, 4) { format!("S{}", g.string(b"ABCDEFGHJKLMNPQRSTUVWXYZ-0123456789", 0, 59)) } else { g.pickc(&["CRYOSAT-2", "JASON-3", "SENTINEL-3A", "SARAL", "HY-2A", "ENVISAT"]).to_string() },
        obs,
        first,
        last,
        scale,
        dt_ns: if g.chance(3, 4) { Some(g.int_digits(8, true)) } else { None },
        stations,
        eps,
    }
}

impl Sta {
    fn line(&self) -> String {
        format!("D{:02}  {} {:<29} {}  {} {:>3}", self.key, self.label, self.site, self.domes, self.gen, self.k)
    }
}

impl DorFile {
    /// `trim`: 0 lines are padded, 1 trailing blanks removed
    pub fn text(&self, trim: bool, minor: u8) -> String {
        let mut h: Vec<String> = vec![];
        h.push(hline(&format!("     3.0{}           O                   D", minor), "RINEX VERSION / TYPE"));
        h.push(hline(&format!("{:<20}{:<20}20180614 090016 UTC", "Expert", "CNES"), "PGM / RUN BY / DATE"));
        h.push(hline(&self.sat, "SATELLITE NAME"));
        h.push(hline(&self.cospar, "COSPAR NUMBER"));
        h.push(hline(&format!("{:<20}{:<40}", self.id[0], self.id[1]), "OBSERVER / AGENCY"));
        h.push(hline(&format!("{:<20}{:<20}{:<20}", self.id[2], self.id[3], self.id[4]), "REC # / TYPE / VERS"));
        h.push(hline(&format!("{:<20}{:<20}", self.id[5], self.id[6]), "ANT # / TYPE"));
        for (i, c) in self.obs.chunks(13).enumerate() {
            let mut s = if i == 0 { format!("D  {:>3}", self.obs.len()) } else { " ".repeat(6) };
            for o in c {
                s.push_str(&if o.len() < 2 { format!("   {}", o) } else { format!(" {:>3}", o) });
            }
            h.push(hline(&s, "SYS / # / OBS TYPES"));
        }
        let tline = |t: &Civil| format!("  {:04}    {:02}    {:02}    {:02}    {:02}{}     DOR", t.y, t.mo, t.d, t.h, t.mi, format!("{:>5}.{:07}", t.t100 / 10_000_000, t.t100 % 10_000_000));
        if let Some(t) = &self.first {
            h.push(hline(&tline(t), "TIME OF FIRST OBS"));
        }
        if let Some(t) = &self.last {
            h.push(hline(&tline(t), "TIME OF LAST OBS"));
        }
        for (f, o) in &self.scale {
            let mut s = if o.is_empty() { format!("D {:>4}", f) } else { format!("D {:>4}  {:>2}", f, o.len()) };
            for (i, o) in o.iter().enumerate() {
                if i > 0 && i % 12 == 0 {
                    h.push(hline(&s, "SYS / SCALE FACTOR"));
                    s = " ".repeat(10);
                }
                s.push_str(&format!(" {:>3}", o));
            }
            h.push(hline(&s, "SYS / SCALE FACTOR"));
        }
        if let Some(ns) = self.dt_ns {
            h.push(hline(&format!("D  {}", fixed(ns, 3, 14)), "L2 / L1 DATE OFFSET"));
        }
        h.push(hline(&format!("{:>6}", self.stations.len()), "# OF STATIONS"));
        for s in &self.stations {
            h.push(hline(&s.line(), "STATION REFERENCE"));
        }
        h.push(hline("", "END OF HEADER"));
        for e in &self.eps {
            let ns = (e.t.t100 % 10_000_000) * 100 + e.ns;
            h.push(format!(
                "> {:04} {:02} {:02} {:02} {:02} {:>2}.{:09}  {}{:>3}      {} {} ",
                e.t.y,
                e.t.mo,
                e.t.d,
                e.t.h,
                e.t.mi,
                e.t.t100 / 10_000_000,
                ns,
                e.flag,
                e.sats.len(),
                e.clock.map(|c| fixed(c, 9, 13)).unwrap_or(" ".repeat(13)),
                if e.extrap { "1" } else if e.clock.is_none() { " " } else { "0" }
            ));
            for (s, row) in &e.sats {
                for (i, c) in row.chunks(5).enumerate() {
                    let mut l = if i == 0 { format!("D{:02}", self.stations[*s].key) } else { "   ".into() };
                    for m in c {
                        match m {
                            None => l.push_str(&" ".repeat(16)),
                            Some((v, a, b)) => {
                                let f = |x: &Option<u8>| x.map(|d| d.to_string()).unwrap_or(" ".into());
                                l.push_str(&format!("{}{}{}", fixed(*v, 3, 14), f(a), f(b)));
                            },
                        }
                    }
                    h.push(l);
                }
            }
        }
        let mut s = String::new();
        for l in h {
            // a blank line keeps its first columns: it stands for missing measurements
            let b = l.trim_end();
            s.push_str(if trim && !b.is_empty() { b } else { &l });
            s.push('\n');
        }
        s
    }

    /// (epoch ns key, flag) -> (clock, extrapolated, signals)
    #[allow(clippy::type_complexity)]
    fn expected(&self) -> BTreeMap<(i128, u32, u8), (f64, bool, BTreeMap<(u16, String), (f64, Option<u8>, Option<u8>)>)> {
        let mut m = BTreeMap::new();
        for e in &self.eps {
            let mut sig = BTreeMap::new();
            for (s, row) in &e.sats {
                for (o, v) in self.obs.iter().zip(row) {
                    if let Some((v, a, b)) = v {
                        let name = Observable::from_str(o).unwrap().to_string();
                        sig.insert((self.stations[*s].key, name), (dec(*v, 3), *a, *b));
                    }
                }
            }
            m.insert((e.t.ticks(), e.ns, e.flag), (e.clock.map(|c| dec(c, 9)).unwrap_or(0.0), e.extrap, sig));
        }
        m
    }
    /// drops, replaces or moves part of the content
    pub fn vary(&mut self, g: &mut Gen) {
        self.eps.retain(|_| !g.chance(1, 6));
        for e in &mut self.eps {
            if g.chance(1, 8) {
                e.t = e.t.add(1);
            }
            if g.chance(1, 8) {
                e.flag = 1;
            }
            e.sats.retain(|_| !g.chance(1, 5));
            for (_, row) in &mut e.sats {
                for m in row {
                    match g.below(5) {
                        0 => *m = None,
                        1 => *m = Some((g.int_digits(12, true), None, Some(1))),
                        2 => {
                            if let Some(m) = m {
                                m.0 /= 3;
                            }
                        },
                        _ => {},
                    }
                }
            }
        }
        if g.chance(1, 4) {
            self.stations.rotate_left(1);
        }
    }
    pub fn epochs(&self) -> Vec<Epoch> {
        self.eps.iter().map(|e| e.t.epoch(TimeScale::TAI) + Duration::from_nanoseconds(e.ns as f64)).collect()
    }
}

fn decode(g: &mut Gen) -> Res {
    let f = dor_file(g);
    let minor = g.below(3) as u8;
    g.text = f.text(g.bool(), minor);
    g.nontrivial = f.eps.iter().any(|e| e.sats.iter().any(|s| s.1.len() > 5));
    g.label_if(f.eps.iter().any(|e| e.extrap), "clock extrapolated");
    g.label_if(f.eps.iter().any(|e| e.clock.is_none()), "no clock offset");
    g.label_if(f.eps.iter().any(|e| e.sats.iter().any(|s| s.1.iter().any(|m| m.is_none()))), "missing measurement");
    g.label_if(f.stations.iter().enumerate().any(|(i, s)| s.key as usize != i + 1), "station numbers with gaps");
    let rnx = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    ensure!(rnx.is_doris(), "record-type", "not a DORIS file");
    let h = match &rnx.header.doris {
        Some(h) => h,
        None => return fail("header", "no DORIS header"),
    };
    ensure!(rnx.header.cospar.as_ref().map(|c| c.to_string()).as_ref() == Some(&f.cospar), "cospar", "{:?} instead of {}", rnx.header.cospar, f.cospar);
    let s = |s: &Option<String>| s.clone().unwrap_or_default();
    let (mut r, mut a) = (vec![String::new(); 3], vec![String::new(); 2]);
    if let Some(x) = &rnx.header.rcvr {
        r = vec![x.sn.clone(), x.model.clone(), x.firmware.clone()];
    }
    if let Some(x) = &rnx.header.rcvr_antenna {
        a = vec![x.sn.clone(), x.model.clone()];
    }
    let id: Vec<String> = [vec![s(&rnx.header.observer), s(&rnx.header.agency)], r, a].concat();
    ensure!(id == f.id, "identification", "{:?} instead of {:?}", id, f.id);
    ensure!(h.satellite == f.sat, "header", "satellite {:?}", h.satellite);
    let names: Vec<String> = f.obs.iter().map(|o| Observable::from_str(o).unwrap().to_string()).collect();
    let got: Vec<String> = h.observables.iter().map(|o| o.to_string()).collect();
    ensure!(names == got, "observables", "{:?} instead of {:?}", got, names);
    for (what, a, b) in [("first", h.timeof_first_obs, f.first), ("last", h.timeof_last_obs, f.last)] {
        let b = b.map(|b| b.epoch(TimeScale::TAI));
        let ok = match (a, b) {
            (None, None) => true,
            (Some(a), Some(b)) => same_epoch(a, b),
            _ => false,
        };
        ensure!(ok, "header-time", "time of {} measurement {:?} instead of {:?}", what, a, b);
    }
    let mut want: BTreeMap<String, u16> = BTreeMap::new();
    for (s, o) in &f.scale {
        for o in if o.is_empty() { &f.obs } else { o } {
            want.insert(Observable::from_str(o).unwrap().to_string(), *s);
        }
    }
    let got: BTreeMap<String, u16> = h.scaling.iter().map(|(a, b)| (a.to_string(), *b)).collect();
    ensure!(got == want, "scaling", "{:?} instead of {:?}", got, want);
    let dt = f.dt_ns.unwrap_or(0) as f64;
    ensure!((h.u2_s1_time_offset.to_seconds() * 1e9 - dt).abs() < 1.5, "date-offset", "{:?} instead of {} ns", h.u2_s1_time_offset, dt);

    // stations
    ensure!(h.stations.len() == f.stations.len(), "stations", "{} stations instead of {}", h.stations.len(), f.stations.len());
    let listed: Vec<_> = rnx.doris_ground_stations_iter().collect();
    for ((a, b), c) in h.stations.iter().zip(&f.stations).zip(&listed) {
        ensure!(
            *a == **c && a.label == b.label && a.site == b.site && a.domes.to_string() == b.domes && a.gen == b.gen && a.k_factor == b.k,
            "stations",
            "{:?} instead of {:?}",
            a,
            b.line()
        );
        ensure!(a.to_string() == b.line(), "station-format", "{:?} instead of {:?}", a.to_string(), b.line());
        let k = b.k as f64;
        let shift = 3.0 / 4.0 + 87.0 * k / (5.0 * 67108864.0);
        for (x, y) in [(a.s1_frequency_shift(), 543.0 * 5e6 * shift), (a.u2_frequency_shift(), 107.0 * 5e6 * shift)] {
            ensure!((x - y).abs() < 1e-6 * y.abs(), "beacon-frequency", "{} Hz instead of {} Hz, k={}", x, y, k);
            // one step of k moves S1 by 704 Hz: the tolerance has to be finer than that
            ensure!((x - y).abs() < 1e-3, "beacon-frequency", "{} Hz instead of {} Hz, k={}", x, y, k);
        }
    }

    // record
    let want = f.expected();
    let key_of = |label: &str| f.stations.iter().find(|s| s.label == label).map(|s| s.key).unwrap_or(0);
    let rec = match rnx.record.as_doris() {
        Some(r) => r,
        None => return fail("record-type", "not a DORIS record"),
    };
    ensure!(rec.len() == want.len(), "epochs", "{} epochs instead of {}", rec.len(), want.len());
    let origin = Epoch::from_gregorian(1970, 1, 1, 0, 0, 0, 0, TimeScale::TAI);
    let mut total = 0;
    for ((k, v), ((ticks, ns, flag), (clock, ext, sig))) in rec.iter().zip(want.iter()) {
        let t = Civil::from_ticks(*ticks).epoch(TimeScale::TAI) + Duration::from_nanoseconds(*ns as f64);
        ensure!(k.epoch == t && k.epoch.time_scale == TimeScale::TAI, "epochs", "{:?} instead of {:?} ({:?})", k.epoch, t, k.epoch - origin);
        ensure!(format!("{}", k.flag) == flag.to_string(), "epoch-flag", "{:?} instead of {}", k.flag, flag);
        ensure!(v.clock.offset_s == *clock, "clock-offset", "{} instead of {}", v.clock.offset_s, clock);
        ensure!(v.clock_extrapolated == *ext, "clock-extrapolated", "{} instead of {}", v.clock_extrapolated, ext);
        let got: BTreeMap<(u16, String), (f64, Option<u8>, Option<u8>)> = v.signals.iter().map(|(k, s)| ((key_of(&k.station.label), k.observable.to_string()), (s.value, s.m1, s.m2))).collect();
        if &got != sig {
            let d = got.iter().find(|(k, v)| sig.get(k) != Some(v));
            let e = sig.iter().find(|(k, v)| got.get(k) != Some(v));
            return fail("measurements", format!("{:?}: decoded {:?}, written {:?}", k.epoch, d, e));
        }
        for k in v.signals.keys() {
            ensure!(h.stations.contains(&k.station), "station-link", "{:?} is not one of the stations", k.station);
        }
        total += sig.len();
    }

    // iterators show the same content
    ensure!(rnx.doris_observation_keys().eq(rec.keys()) && rnx.doris_observation_iter().map(|(k, _)| k).eq(rec.keys()), "iterators", "keys");
    let clocks: Vec<_> = rnx.doris_satellite_clock_offset_iter().collect();
    ensure!(clocks.len() == rec.len() && clocks.iter().zip(rec.iter()).all(|((a, b), (k, v))| a == k && *b == v.clock), "iterators", "clock offsets {:?}", clocks);
    let sig: Vec<_> = rnx.doris_ground_station_signals_iter().collect();
    ensure!(sig.len() == total && sig.iter().all(|(k, s, v)| rec.get(k).and_then(|o| o.signals.get(s)) == Some(v)), "iterators", "{} signals instead of {}", sig.len(), total);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P16",
        parts: vec![Part { name: "decode", run: decode, quick: 150_000, thorough: 4_000_000 }],
        rule: "decode: DORIS files of an independent writer (1 to 16 observables in any order on one or two header lines, up to 8 stations numbered with or without gaps and in any order, epochs in any order down to the nanosecond, flags, extrapolated, measured and missing clock offsets, missing measurements, both flags blank or not, padded or trimmed lines) parsed and compared: header fields, stations and their beacon frequencies, every measurement under its station and observable, clock offsets, iterators. Non-trivial when a station's measurements take more than one line.",
        assumptions: &["stations carry distinct labels", "k factors fit I3, beacon generations one digit", "a line of measurements that are all missing keeps its first columns"],
    }
}
