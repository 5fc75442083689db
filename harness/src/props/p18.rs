//! P18: dates of every kind of file, through text.
use crate::clk::*;
use crate::ensure;
use crate::gen::*;
use crate::inx::{epoch_text, inx_file};
use crate::nav::*;
use crate::obs::{min_prn, max_prn};
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::observation::{EpochFlag, ObsKey, Observations};
use rinex::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

/// days where calendars and timescales do something
const DAYS: &[(i32, u8, u8)] = &[
    (1980, 1, 1),
    (1980, 1, 6), // GPS time begins
    (1981, 6, 30),
    (1982, 6, 30),
    (1990, 12, 31),
    (1998, 12, 31),
    (1999, 8, 21),
    (1999, 8, 22), // Galileo time begins
    (1999, 12, 31),
    (2000, 1, 1),
    (2000, 2, 29),
    (2005, 12, 31),
    (2006, 1, 1), // BeiDou time begins
    (2008, 12, 31),
    (2012, 6, 30),
    (2015, 6, 30),
    (2016, 12, 31), // last leap second
    (2017, 1, 1),
    (2019, 4, 6), // GPS week roll over
    (2019, 4, 7),
    (2024, 2, 29),
    (2038, 1, 19),
    (2038, 11, 20),
    (2079, 12, 31),
];

/// a date between 1980 and 2079; `res`: resolution of the text in 100 ns ticks
fn date(g: &mut Gen, res: u32) -> Civil {
    let (y, mo, d) = match g.below(4) {
        0 => g.pickc(DAYS),
        1 => {
            // turn of a month
            let y = g.range(1980, 2079) as i32;
            let m = g.range(1, 12) as u8;
            (y, m, if g.bool() { 1 } else { month_days(y, m) })
        },
        _ => {
            let y = g.range(1980, 2079) as i32;
            let m = g.range(1, 12) as u8;
            (y, m, g.range(1, month_days(y, m) as i64) as u8)
        },
    };
    let (h, mi, s) = match g.below(4) {
        0 => (0, 0, 0),
        1 => (23, 59, 59),
        _ => (g.range(0, 23) as u8, g.range(0, 59) as u8, g.range(0, 59) as u32),
    };
    let f = match g.below(4) {
        0 => 0,
        1 => g.pickc(&[9_999_999u32, 1, 10, 9, 99, 1_000_000, 9_000_000, 5_000_000, 9_999_990, 2_500_000]),
        _ => g.range(0, 9_999_999) as u32,
    };
    Civil { y, mo, d, h, mi, t100: s * 10_000_000 + f / res * res }
}

/// distinct dates, in order
fn dates(g: &mut Gen, max: usize, res: u32) -> Vec<Civil> {
    let n = g.usize(1, max);
    let mut v: Vec<Civil> = vec![];
    for _ in 0..n {
        if !v.is_empty() && g.chance(1, 3) {
            // shortly after another one
            let p = *g.pick(&v);
            let q = p.add(g.pickc(&[1i64, 10_000_000, 300_000_000, 36_000_000_000, 864_000_000_000]).max(res as i64));
            if q.y < 2080 {
                v.push(q);
            }
        } else {
            v.push(date(g, res));
        }
    }
    let mut m: BTreeMap<i128, Civil> = BTreeMap::new();
    for c in v {
        m.insert(c.ticks(), c);
    }
    let v: Vec<Civil> = m.into_values().collect();
    g.label_if(v.iter().any(|c| c.frac() != 0), "sub-second dates");
    g.label_if(v.iter().any(|c| (c.mo, c.d) == (2, 29)), "leap days");
    g.label_if(v.iter().any(|c| c.y < 2000), "20th century");
    g.nontrivial = v.len() > 1 || v.iter().any(|c| c.frac() != 0);
    v
}

/// first day of the timescales that do not follow leap seconds
fn origin(ts: TimeScale) -> Option<i64> {
    Some(match ts {
        TimeScale::GPST | TimeScale::QZSST => days_from_civil(1980, 1, 6),
        TimeScale::GST => days_from_civil(1999, 8, 22),
        TimeScale::BDT => days_from_civil(2006, 1, 1),
        TimeScale::TAI => days_from_civil(1900, 1, 1),
        _ => return None,
    })
}

/// that instant in that timescale, as text said
fn is(e: Epoch, c: &Civil, ts: TimeScale, what: &str) -> Res {
    ensure!(e.time_scale == ts, "timescale", "{}: {} is in {} instead of {}", what, e, e.time_scale, ts);
    ensure!(e == c.epoch(ts) && same_epoch(e, c.epoch(ts)), "instant", "{}: {} instead of {}", what, e, c.epoch(ts));
    if let Some(o) = origin(ts) {
        // without the help of the calendar of the library
        let want = (c.ticks() - o as i128 * 86_400 * 10_000_000) * 100;
        let got = e.duration.total_nanoseconds();
        ensure!(got == want, "instant", "{}: {} is {} ns after the origin instead of {}", what, e, got, want);
    }
    Ok(())
}

fn set(what: &'static str, got: BTreeSet<Epoch>, want: &[Civil], ts: TimeScale) -> Res {
    ensure!(
        got.len() == want.len(),
        "dates",
        "{}: {} dates instead of {}; read {:?}, written {:?}",
        what,
        got.len(),
        want.len(),
        got,
        want
    );
    for (e, c) in got.iter().zip(want) {
        is(*e, c, ts, what)?;
    }
    Ok(())
}

/// time systems of observation files: (text, timescale, system of a single system file)
const SYSTEMS_OBS: &[(&str, TimeScale, char)] = &[
    ("GPS", TimeScale::GPST, 'G'),
    ("GLO", TimeScale::UTC, 'R'),
    ("GAL", TimeScale::GST, 'E'),
    ("BDT", TimeScale::BDT, 'C'),
    ("QZS", TimeScale::QZSST, 'J'),
    ("UTC", TimeScale::UTC, 'M'),
    ("IRN", TimeScale::GPST, 'I'),
];

fn obs_line(c: &Civil, major: u8, pad: bool, n: usize) -> String {
    if major < 3 {
        if pad {
            format!(" {:02} {:02} {:02} {:02} {:02}{}  0{:3}", c.y % 100, c.mo, c.d, c.h, c.mi, c.sec7(11, true), n)
        } else {
            format!(" {:02} {:>2} {:>2} {:>2} {:>2}{}  0{:3}", c.y % 100, c.mo, c.d, c.h, c.mi, c.sec7(11, false), n)
        }
    } else {
        format!("> {:04} {:02} {:02} {:02} {:02}{}  0{:3}", c.y, c.mo, c.d, c.h, c.mi, c.sec7(11, pad), n)
    }
}

fn time_of(c: &Civil, two: bool, sys: &str, label: &str) -> String {
    let y = if two { c.y % 100 } else { c.y };
    hline(&format!("{:>6}{:>6}{:>6}{:>6}{:>6}{}     {}", y, c.mo, c.d, c.h, c.mi, c.sec7(13, false), sys), label)
}

struct ObsDoc {
    major: u8,
    sys: char,
    ts: TimeScale,
    /// header dates
    first: Option<Civil>,
    last: Option<Civil>,
    dates: Vec<Civil>,
    head: String,
}

fn obs_doc(g: &mut Gen) -> ObsDoc {
    let major = g.pickc(&[2u8, 3, 4]);
    let n = g.pickc(&[3usize, 12, 40]);
    let dates = dates(g, n, 1);
    let (text, ts, sys) = loop {
        let s = g.pickc(SYSTEMS_OBS);
        if major > 2 || "GREM".contains(s.2) {
            break s;
        }
    };
    // the time system may be left out of single system files
    let mixed = sys == 'M' || sys == 'I' || g.bool();
    let named = mixed || g.bool();
    let sys = if sys == 'M' { 'G' } else { sys };
    let mut head = String::new();
    let vers = format!("{:>6}.{:02}", major, if major == 2 { 11 } else { 0 });
    let h = if mixed { "M (MIXED)".to_string() } else { sys.to_string() };
    let mut l = |s: String| {
        head.push_str(&s);
        head.push('\n');
    };
    l(hline(&format!("{:<20}{:<20}{:<20}", vers, "OBSERVATION DATA", h), "RINEX VERSION / TYPE"));
    l(hline("vh                  verif               20240102 030405 UTC", "PGM / RUN BY / DATE"));
    if major < 3 {
        l(hline("     1    C1", "# / TYPES OF OBSERV"));
    } else {
        let code = match sys {
            'C' => "C2I",
            'I' => "C5A",
            _ => "C1C",
        };
        l(hline(&format!("{}    1 {}", sys, code), "SYS / # / OBS TYPES"));
    }
    let two = major < 3 && g.chance(1, 4);
    let mut first = None;
    let mut last = None;
    if named || g.bool() {
        let c = if g.bool() { dates[0] } else { date(g, 1) };
        l(time_of(&c, two, if named { text } else { "" }, "TIME OF FIRST OBS"));
        first = Some(c);
        if g.bool() {
            let c = if g.bool() { dates[dates.len() - 1] } else { date(g, 1) };
            l(time_of(&c, two, if named { text } else { "" }, "TIME OF LAST OBS"));
            last = Some(c);
        }
    }
    l(hline("", "END OF HEADER"));
    g.label(text);
    ObsDoc { major, sys, ts, first, last, dates, head }
}

fn obs_dates(r: &Rinex) -> BTreeSet<Epoch> {
    r.record.as_obs().map(|o| o.keys().map(|k| k.epoch).collect()).unwrap_or_default()
}

fn observation(g: &mut Gen) -> Res {
    let d = obs_doc(g);
    let mut text = d.head.clone();
    let pad = g.bool();
    let prn = g.range(min_prn(d.sys), max_prn(d.sys));
    for c in &d.dates {
        let l = obs_line(c, d.major, pad, 1);
        if d.major < 3 {
            writeln!(text, "{}{}{:02}", l, d.sys, prn).unwrap();
            writeln!(text, "  21000000.000").unwrap();
        } else {
            writeln!(text, "{}", l).unwrap();
            writeln!(text, "{}{:02}  21000000.000", d.sys, prn).unwrap();
        }
    }
    g.text = text;
    let r = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    let header = |r: &Rinex| -> Res {
        let Some(h) = &r.header.obs else { return fail("header", "no observation header") };
        for (e, c, n) in [(h.timeof_first_obs, d.first, "TIME OF FIRST OBS"), (h.timeof_last_obs, d.last, "TIME OF LAST OBS")] {
            match (e, c) {
                (Some(e), Some(c)) => is(e, &c, d.ts, n)?,
                (None, None) => {},
                (e, c) => return fail("header-date", format!("{}: {:?} instead of {:?}", n, e, c)),
            }
        }
        Ok(())
    };
    header(&r)?;
    set("observation file", obs_dates(&r), &d.dates, d.ts)?;
    // written
    let out = match format_text(&r) {
        Ok(o) => o,
        Err(e) => return fail("format", e),
    };
    let mut it = d.dates.iter();
    let body = out.split("END OF HEADER").nth(1).unwrap_or("").lines().skip(1);
    for l in body.filter(|l| if d.major < 3 { l.len() > 28 && l[26..29].trim() == "0" } else { l.starts_with('>') }) {
        let Some(c) = it.next() else { return fail("written", "more dates than read".to_string()) };
        let f: Vec<&str> = l.trim_start_matches('>').split_ascii_whitespace().collect();
        let y = if d.major < 3 { c.y % 100 } else { c.y };
        let num = |i: usize| f.get(i).and_then(|s| s.parse::<i32>().ok());
        let date = (num(0), num(1), num(2), num(3), num(4));
        let want = (Some(y), Some(c.mo as i32), Some(c.d as i32), Some(c.h as i32), Some(c.mi as i32));
        ensure!(date == want, "written", "{:?} written {:?}", c, l);
        let s = format!("{}.{:07}", c.sec(), c.frac());
        let got = f.get(5).map(|s| if s.len() > 1 && s.starts_with('0') && !s.starts_with("0.") { &s[1..] } else { s }).unwrap_or("");
        ensure!(got == s, "written", "{:?} written {:?}", c, l);
    }
    ensure!(it.next().is_none(), "written", "dates missing from\n{}", out);
    let back = match parse_text(&out) {
        Ok(r) => r,
        Err(e) => return fail("written", format!("does not read back: {:?}", e)),
    };
    header(&back)?;
    set("observation file read back", obs_dates(&back), &d.dates, d.ts)
}

/// epochs of the library, finer than the text, within its resolution
fn built(g: &mut Gen) -> Res {
    let d = obs_doc(g);
    let mut text = d.head.clone();
    text.push_str(&obs_line(&d.dates[0], d.major, true, 1));
    text.push_str(&if d.major < 3 { format!("{}07\n  21000000.000\n", d.sys) } else { format!("\n{}07  21000000.000\n", d.sys) });
    g.text = text;
    let mut r = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    let rec = r.record.as_mut_obs().unwrap();
    let Some(o) = rec.values().next().cloned() else { return fail("dates", "observation lost".to_string()) };
    rec.clear();
    let mut want = vec![];
    for c in &d.dates {
        let ns = g.range(0, 99);
        let e = c.epoch(d.ts) + Duration::from_total_nanoseconds(ns as i128);
        rec.insert(ObsKey { epoch: e, flag: EpochFlag::Ok }, Observations { clock: None, signals: o.signals.clone() });
        want.push((e, ns));
        writeln!(g.text, "{} {} +{} ns", e, d.ts, ns).unwrap();
    }
    g.label_if(want.iter().any(|w| w.1 != 0), "below the resolution of the text");
    let out = match format_text(&r) {
        Ok(o) => o,
        Err(e) => return fail("format", e),
    };
    let back = match parse_text(&out) {
        Ok(r) => r,
        Err(e) => return fail("written", format!("does not read back: {:?}", e)),
    };
    let got: Vec<Epoch> = obs_dates(&back).into_iter().collect();
    ensure!(got.len() == want.len(), "dates", "{} dates instead of {}: {:?}", got.len(), want.len(), got);
    for (a, (b, ns)) in got.iter().zip(&want) {
        ensure!(a.time_scale == d.ts, "timescale", "{} instead of {}", a, b);
        let diff = (*a - *b).total_nanoseconds().abs();
        ensure!(diff < 100 && (*ns != 0 || diff == 0), "instant", "{} read back as {} ({} ns)", b, a, diff);
    }
    Ok(())
}

fn meteo(g: &mut Gen) -> Res {
    let major = g.pickc(&[2u8, 3, 4]);
    let n = g.pickc(&[3usize, 12, 40]);
    let dates = dates(g, n, 10_000_000);
    let mut t = String::new();
    let vers = format!("{:>6}.{:02}", major, if major == 2 { 11 } else { 0 });
    for s in [
        hline(&format!("{:<20}{:<20}", vers, "METEOROLOGICAL DATA"), "RINEX VERSION / TYPE"),
        hline("vh                  verif               20240102 030405 UTC", "PGM / RUN BY / DATE"),
        hline("     1    PR", "# / TYPES OF OBSERV"),
        hline("", "END OF HEADER"),
    ] {
        writeln!(t, "{}", s).unwrap();
    }
    let pad = g.bool();
    for c in &dates {
        let y = if major < 3 { format!("{:02}", c.y % 100) } else { c.y.to_string() };
        if pad {
            writeln!(t, " {} {:02} {:02} {:02} {:02} {:02}{}", y, c.mo, c.d, c.h, c.mi, c.sec(), "  993.4").unwrap();
        } else {
            writeln!(t, " {} {:>2} {:>2} {:>2} {:>2} {:>2}{}", y, c.mo, c.d, c.h, c.mi, c.sec(), "  993.4").unwrap();
        }
    }
    g.text = t;
    let get = |r: &Rinex| -> BTreeSet<Epoch> { r.record.as_meteo().map(|m| m.keys().map(|k| k.epoch).collect()).unwrap_or_default() };
    let r = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    set("meteo file", get(&r), &dates, TimeScale::UTC)?;
    let out = match format_text(&r) {
        Ok(o) => o,
        Err(e) => return fail("format", e),
    };
    let back = match parse_text(&out) {
        Ok(r) => r,
        Err(e) => return fail("written", format!("does not read back: {:?}", e)),
    };
    set("meteo file read back", get(&back), &dates, TimeScale::UTC)
}

fn navigation(g: &mut Gen) -> Res {
    let major = g.pickc(&[2u8, 3, 4]);
    let n = g.pickc(&[2usize, 6, 16]);
    let dates = dates(g, n, if major == 2 { 1_000_000 } else { 10_000_000 });
    let st = NumStyle::gen(g, major);
    let system = if major == 2 { g.pickc(&['G', 'R']) } else { 'M' };
    let mut frames = vec![];
    for c in &dates {
        let mut f = if major > 3 && g.bool() {
            super::p05::sys_frame(g, st)
        } else {
            let sys = if major == 2 { system } else { g.pickc(SYSTEMS) };
            eph_frame(g, major, sys, st)
        };
        f.toc = *c;
        frames.push(f);
    }
    let file = NavFile { major, minor: 0, system, frames, extra: vec![] };
    g.text = file.text(g);
    let r = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    let Some(rec) = r.record.as_nav() else { return fail("record-type", "not a navigation record".to_string()) };
    ensure!(rec.len() == file.frames.len(), "dates", "{} frames instead of {}", rec.len(), file.frames.len());
    for f in &file.frames {
        let want = super::p04::key(f);
        let Some((k, _)) = rec.iter().find(|(k, _)| k.sv == want.sv && k.frmtype == want.frmtype && k.epoch == want.epoch) else {
            return fail("instant", format!("{:?} of {}: {:?}", f.toc, want.sv, rec.keys().map(|k| k.epoch).collect::<Vec<_>>()));
        };
        is(k.epoch, &f.toc, timescale(f.sys), "navigation file")?;
    }
    Ok(())
}

fn clock(g: &mut Gen) -> Res {
    let mut f = clk_file(g, 6);
    let n = g.pickc(&[2usize, 8, 24]);
    let dates = dates(g, n, 10);
    let model = f.lines[0].clone();
    f.lines = dates.iter().map(|c| ClkLine { t: *c, ..model.clone() }).collect();
    if g.bool() {
        g.shuffle(&mut f.lines);
    }
    g.text = f.text(g);
    let r = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    let Some(rec) = r.record.as_clock() else { return fail("record-type", "not a clock record".to_string()) };
    set("clock file", rec.keys().copied().collect(), &dates, f.timescale())
}

fn ionex(g: &mut Gen) -> Res {
    let mut f = inx_file(g, 1);
    let n = g.pickc(&[3usize, 6]);
    let dates = dates(g, n, 10_000_000);
    let model = f.maps[0].clone();
    f.maps = dates
        .iter()
        .map(|c| {
            let mut m = model.clone();
            m.rms = false;
            m.t = *c;
            m.values[0][0][0] = Some(17);
            m
        })
        .collect();
    g.text = f.text(g);
    assert!(g.text.contains(&epoch_text(&dates[0])), "harness: no date");
    let r = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    let Some(rec) = r.record.as_ionex() else { return fail("record-type", "not a TEC record".to_string()) };
    let got: BTreeSet<Epoch> = rec.keys().map(|k| k.epoch).collect();
    // the last map of a file is lost (pinned; see P13)
    let want = if got.len() < dates.len() { &dates[..dates.len() - 1] } else { &dates[..] };
    set("TEC maps", got, want, TimeScale::UTC)
}

fn doris(g: &mut Gen) -> Res {
    let n = g.pickc(&[3usize, 12, 40]);
    let dates = dates(g, n, 1);
    let mut t = String::new();
    let (first, last) = (date(g, 1), date(g, 1));
    for s in [
        hline("     3.00           O                   D", "RINEX VERSION / TYPE"),
        hline("vh                  verif               20240102 030405 UTC", "PGM / RUN BY / DATE"),
        hline("JASON-3", "SATELLITE NAME"),
        hline("D    1 C1", "SYS / # / OBS TYPES"),
        time_of(&first, false, "DOR", "TIME OF FIRST OBS"),
        time_of(&last, false, "DOR", "TIME OF LAST OBS"),
        hline("     1", "# OF STATIONS"),
        hline("D01  THUB THULE                         43001S005  3   0", "STATION REFERENCE"),
        hline("", "END OF HEADER"),
    ] {
        writeln!(t, "{}", s).unwrap();
    }
    let mut below: Vec<i64> = vec![];
    for c in &dates {
        let ns = if g.bool() { 0 } else { g.range(0, 99) };
        // F13.9
        writeln!(t, "> {:04} {:02} {:02} {:02} {:02} {:>12}  0  1       {:13.9} 0 ", c.y, c.mo, c.d, c.h, c.mi, format!("{}.{:07}{:02}", c.sec(), c.frac(), ns), -4.5).unwrap();
        writeln!(t, "D01  -3237877.052  1").unwrap();
        // the resolution of the text is a nanosecond here
        below.push(ns);
    }
    let ns = below;
    g.text = t;
    let r = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    let Some(h) = &r.header.doris else { return fail("header", "no DORIS header".to_string()) };
    for (e, c, n) in [(h.timeof_first_obs, first, "TIME OF FIRST OBS"), (h.timeof_last_obs, last, "TIME OF LAST OBS")] {
        match e {
            Some(e) => is(e, &c, TimeScale::TAI, n)?,
            None => return fail("header-date", format!("{} lost", n)),
        }
    }
    let Some(rec) = r.record.as_doris() else { return fail("record-type", "not a DORIS record".to_string()) };
    let got: BTreeSet<Epoch> = rec.keys().map(|k| k.epoch).collect();
    ensure!(got.len() == dates.len(), "dates", "{} dates instead of {}", got.len(), dates.len());
    for ((e, c), ns) in got.iter().zip(&dates).zip(&ns) {
        is(*e - Duration::from_total_nanoseconds(*ns as i128), c, TimeScale::TAI, "DORIS file")?;
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P18",
        parts: vec![
            Part { name: "observation", run: observation, quick: 200_000, thorough: 1_000_000 },
            Part { name: "built", run: built, quick: 120_000, thorough: 500_000 },
            Part { name: "meteo", run: meteo, quick: 120_000, thorough: 500_000 },
            Part { name: "navigation", run: navigation, quick: 120_000, thorough: 500_000 },
            Part { name: "clock", run: clock, quick: 120_000, thorough: 500_000 },
            Part { name: "ionex", run: ionex, quick: 60_000, thorough: 300_000 },
            Part { name: "doris", run: doris, quick: 120_000, thorough: 500_000 },
        ],
        rule: "at least two distinct dates, or a date with a fraction of a second",
        assumptions: &[
            "the 61st second of a minute (leap second itself) is not generated",
            "the IRNSS timescale does not exist in hifitime; it is synchronous with GPST and represented by it",
        ],
    }
}
