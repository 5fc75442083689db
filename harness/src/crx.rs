//! Reference Hatanaka (CRINEX 1 / 3) encoder and decoder, after Y. Hatanaka's description of the
//! format. Shares nothing with the code under test.
use crate::gen::*;
use crate::obs::*;
use crate::util::*;
use std::collections::BTreeMap;

/// text difference
pub fn strdiff(old: &str, new: &str) -> String {
    let (o, n) = (old.as_bytes(), new.as_bytes());
    let mut s = String::new();
    for i in 0..o.len().max(n.len()) {
        let a = o.get(i).copied();
        let b = n.get(i).copied().unwrap_or(b' ');
        s.push(match a {
            Some(a) if a == b => ' ',
            None if b == b' ' => '&',
            _ if b == b' ' => '&',
            _ => b as char,
        });
    }
    s.trim_end().to_string()
}

pub fn strrepair(old: &str, diff: &str) -> String {
    let (o, d) = (old.as_bytes(), diff.as_bytes());
    let mut s = String::new();
    for i in 0..o.len().max(d.len()) {
        let a = o.get(i).copied().unwrap_or(b' ');
        s.push(match d.get(i).copied().unwrap_or(b' ') {
            b' ' => a as char,
            b'&' => ' ',
            c => c as char,
        });
    }
    s
}

/// arc of successive differences
#[derive(Clone, Debug)]
pub struct Arc {
    max: usize,
    /// last value, last difference, last difference of differences...
    d: Vec<i64>,
}

impl Arc {
    pub fn new(max: usize, v: i64) -> Self {
        Arc { max, d: vec![v] }
    }
    pub fn push(&mut self, v: i64) -> i64 {
        let mut new = vec![v];
        for k in 0..self.d.len().min(self.max) {
            let x = new[k] - self.d[k];
            new.push(x);
        }
        self.d = new;
        *self.d.last().unwrap()
    }
    pub fn pull(&mut self, x: i64) -> i64 {
        // x is the difference of the highest order available
        let k = self.d.len().min(self.max);
        let mut new = vec![0; k + 1];
        new[k] = x;
        for i in (0..k).rev() {
            new[i] = new[i + 1] + self.d[i];
        }
        self.d = new;
        self.d[0]
    }
}

pub struct CrxStyle {
    pub names: Style,
    /// largest differencing order used
    pub max_order: usize,
    /// chance (out of 100) of a spontaneous re-initialisation of an arc, of the epoch line
    pub reinit: u64,
    pub reinit_epoch: u64,
    pub trim: bool,
}

impl CrxStyle {
    pub fn gen(g: &mut Gen) -> Self {
        CrxStyle {
            names: Style { blanks: 1, ..Style::gen(g) },
            max_order: g.pickc(&[3usize, 3, 5, 1, 2, 4]),
            reinit: g.pickc(&[0u64, 10, 50]),
            reinit_epoch: g.pickc(&[0u64, 20]),
            trim: g.chance(3, 4),
        }
    }
}

fn arc(g: &mut Gen, st: &CrxStyle, slot: &mut Option<Arc>, v: i64) -> String {
    let reinit = st.reinit > 0 && g.chance(st.reinit, 100);
    match slot {
        Some(a) if !reinit => a.push(v).to_string(),
        _ => {
            let order = if g.chance(1, 4) { g.usize(1, st.max_order) } else { st.max_order };
            *slot = Some(Arc::new(order, v));
            format!("{}&{}", order, v)
        },
    }
}

/// keeps most of the satellites from one epoch to the next one, and some of their flags
pub fn evolve(g: &mut Gen, f: &mut ObsFile) {
    for i in 1..f.epochs.len() {
        if (2..=5).contains(&f.epochs[i].flag) || g.chance(1, 5) {
            continue;
        }
        let Some(prev) = f.epochs[..i].iter().rev().find(|e| !(2..=5).contains(&e.flag)).cloned() else {
            continue;
        };
        let mut sats = vec![];
        for s in &prev.sats {
            if g.chance(1, 8) {
                continue;
            }
            let mut s = s.clone();
            for o in s.obs.iter_mut() {
                match o {
                    Some(x) => {
                        if g.chance(1, 8) {
                            *o = None;
                        } else {
                            let y = ob(g);
                            if g.bool() {
                                x.milli = y.milli;
                            } else if x.milli.abs() < 9_999_000_000_00 {
                                x.milli += g.range(-2000, 2000);
                                if x.milli == 0 {
                                    x.milli = 7;
                                }
                            }
                            if g.chance(1, 3) {
                                x.lli = y.lli;
                                x.ssi = y.ssi;
                            }
                        }
                    },
                    None => {
                        if g.bool() {
                            *o = Some(ob(g));
                        }
                    },
                }
            }
            sats.push(s);
        }
        for s in &f.epochs[i].sats {
            if g.chance(1, 4) && !sats.iter().any(|x| x.name == s.name) {
                sats.push(s.clone());
            }
        }
        if !sats.is_empty() {
            f.epochs[i].sats = sats;
        }
    }
}

pub fn encode(g: &mut Gen, f: &ObsFile, st: &CrxStyle) -> String {
    let v1 = f.major == 2;
    let mut s = String::new();
    s.push_str(&hline(&format!("{:20}{:40}", if v1 { "1.0" } else { "3.0" }, "COMPACT RINEX FORMAT"), "CRINEX VERS   / TYPE"));
    s.push('\n');
    s.push_str(&hline(&format!("{:40}{}", "RNX2CRX ver.4.0.7", "28-Dec-21 00:17"), "CRINEX PROG / DATE"));
    s.push('\n');
    s.push_str(&f.header_text());
    let mut line: Option<String> = None;
    let mut clock: Option<Arc> = None;
    let mut sats: BTreeMap<String, (Vec<Option<Arc>>, String)> = BTreeMap::new();
    let push = |s: &mut String, l: &str| {
        s.push_str(if st.trim { l.trim_end() } else { l });
        s.push('\n');
    };
    for e in &f.epochs {
        let mut blank_clock = e.clone();
        blank_clock.clock = None;
        let rinex = f.epoch_text(&blank_clock, &st.names);
        let mut lines = rinex.lines();
        let first = lines.next().unwrap();
        if (2..=5).contains(&e.flag) {
            // events are not compressed
            push(&mut s, &format!("{}{}", if v1 { '&' } else { '>' }, &first[1..]));
            for l in &e.event {
                push(&mut s, l);
            }
            line = None;
            continue;
        }
        let mut desc = if v1 { first[1..32].to_string() } else { format!("{:40}", &first[1..]) };
        for x in &e.sats {
            // same spelling of the names as in the file
            let mut n = x.name.clone();
            if st.names.space_prn && n.as_bytes()[1] == b'0' {
                n.replace_range(1..2, " ");
            }
            if st.names.anonymous && v1 && f.system != 'M' && f.system != 'S' {
                n.replace_range(0..1, " ");
            }
            desc.push_str(&n);
        }
        let init = line.is_none() || (st.reinit_epoch > 0 && g.chance(st.reinit_epoch, 100));
        if init {
            sats.clear();
            clock = None;
            push(&mut s, &format!("{}{}", if v1 { '&' } else { '>' }, desc));
        } else {
            let d = strdiff(line.as_ref().unwrap(), &desc);
            push(&mut s, &format!(" {}", d));
        }
        line = Some(desc);
        match e.clock {
            Some(c) => {
                let t = arc(g, st, &mut clock, c);
                push(&mut s, &t);
            },
            None => {
                clock = None;
                s.push('\n');
            },
        }
        let mut now = BTreeMap::new();
        for x in &e.sats {
            let (mut arcs, old) = sats.remove(&x.name).unwrap_or((vec![None; x.obs.len()], String::new()));
            let mut l = String::new();
            let mut flags = String::new();
            for (o, a) in x.obs.iter().zip(arcs.iter_mut()) {
                match o {
                    Some(o) => {
                        l.push_str(&arc(g, st, a, o.milli));
                        flags.push_str(&o.text()[14..]);
                    },
                    None => {
                        *a = None;
                        flags.push_str("  ");
                    },
                }
                l.push(' ');
            }
            l.push_str(&strdiff(&old, &flags));
            push(&mut s, &l);
            now.insert(x.name.clone(), (arcs, flags));
        }
        sats = now;
    }
    s
}

/// Decodes the body of a CRINEX text into epochs (names with a letter, as the library writes them)
pub fn decode(text: &str, f: &ObsFile) -> Result<Vec<Epo>, String> {
    let v1 = f.major == 2;
    let mut lines = text.lines();
    for l in lines.by_ref() {
        if l.contains("END OF HEADER") {
            break;
        }
    }
    let mut out = vec![];
    let mut line: Option<String> = None;
    let mut clock: Option<Arc> = None;
    let mut sats: BTreeMap<String, (Vec<Option<Arc>>, String)> = BTreeMap::new();
    let pull = |slot: &mut Option<Arc>, t: &str| -> Result<i64, String> {
        if let Some((o, v)) = t.split_once('&') {
            let o: usize = o.parse().map_err(|_| format!("order in {:?}", t))?;
            if !(1..=5).contains(&o) {
                return Err(format!("order {}", o));
            }
            let v: i64 = v.parse().map_err(|_| format!("value in {:?}", t))?;
            *slot = Some(Arc::new(o, v));
            Ok(v)
        } else {
            let v: i64 = t.parse().map_err(|_| format!("difference {:?}", t))?;
            match slot {
                Some(a) => Ok(a.pull(v)),
                None => Err(format!("difference {:?} without initialisation", t)),
            }
        }
    };
    while let Some(l) = lines.next() {
        let desc = if l.starts_with(if v1 { '&' } else { '>' }) {
            sats.clear();
            clock = None;
            l[1..].to_string()
        } else {
            if !l.starts_with(' ') {
                return Err(format!("epoch line {:?}", l));
            }
            match &line {
                Some(old) => strrepair(old, &l[1..]),
                None => return Err(format!("first epoch line {:?}", l)),
            }
        };
        // epoch
        let num = |a: usize, b: usize| -> Result<i64, String> {
            desc.get(a..b).ok_or(format!("short {:?}", desc))?.trim().parse::<i64>().map_err(|_| format!("columns {}-{} of {:?}", a, b, desc))
        };
        let o = if v1 { 0 } else { 3 };
        let year = if v1 {
            let y = num(0, 2)? as i32;
            if y < 79 {
                2000 + y
            } else {
                1900 + y
            }
        } else {
            num(1, 5)? as i32
        };
        let sec = desc.get(14 + o..25 + o).ok_or("short")?.trim();
        let (a, b) = sec.split_once('.').ok_or(format!("seconds {:?}", sec))?;
        if b.len() != 7 {
            return Err(format!("seconds {:?}", sec));
        }
        let t100 = a.parse::<u32>().map_err(|e| e.to_string())? * 10_000_000 + b.parse::<u32>().map_err(|e| e.to_string())?;
        let t = Civil {
            y: year,
            mo: num(3 + o, 5 + o)? as u8,
            d: num(6 + o, 8 + o)? as u8,
            h: num(9 + o, 11 + o)? as u8,
            mi: num(12 + o, 14 + o)? as u8,
            t100,
        };
        let flag = num(25 + o, 28 + o)? as u8;
        let n = num(28 + o, 31 + o)? as usize;
        let start = if v1 { 31 } else { 40 };
        if !v1 && !desc.get(34..40.min(desc.len())).unwrap_or("").trim().is_empty() {
            return Err(format!("epoch {:?}", desc));
        }
        let mut names = vec![];
        for i in 0..n {
            names.push(desc.get(start + 3 * i..start + 3 * i + 3).ok_or(format!("satellites of {:?}", desc))?.to_string());
        }
        if desc.trim_end().len() > start + 3 * n {
            return Err(format!("leftovers in {:?}", desc));
        }
        line = Some(desc);
        let c = lines.next().ok_or("no clock line")?;
        let ck = if c.trim().is_empty() {
            clock = None;
            None
        } else {
            Some(pull(&mut clock, c.trim())?)
        };
        let mut now = BTreeMap::new();
        let mut e = Epo { t, flag, clock: ck, sats: vec![], event: vec![] };
        for name in names {
            let l = lines.next().ok_or("no data line")?;
            let nobs = f.codes_of(&name).len();
            let (mut arcs, old) = sats.remove(&name).unwrap_or((vec![None; nobs], String::new()));
            let mut rest = l;
            let mut vals = vec![];
            for a in arcs.iter_mut() {
                let (tok, tail) = rest.split_once(' ').unwrap_or((rest, ""));
                rest = tail;
                if tok.is_empty() {
                    *a = None;
                    vals.push(None);
                } else {
                    vals.push(Some(pull(a, tok)?));
                }
            }
            let flags = strrepair(&old, rest);
            if flags.trim_end().len() > 2 * nobs {
                return Err(format!("flags {:?} of {}", flags, name));
            }
            let digit = |i: usize| match flags.as_bytes().get(i) {
                Some(c) if c.is_ascii_digit() => Some(c - b'0'),
                _ => None,
            };
            let mut obs = vec![];
            for (i, v) in vals.into_iter().enumerate() {
                obs.push(v.map(|milli| Ob { milli, lli: digit(2 * i), ssi: digit(2 * i + 1) }));
            }
            e.sats.push(Sat { name: name.clone(), obs });
            now.insert(name, (arcs, flags));
        }
        sats = now;
        out.push(e);
    }
    Ok(out)
}
