//! P14: clock files.
use crate::clk::*;
use crate::ensure;
use crate::gen::Gen;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::prelude::clock::*;
use rinex::prelude::*;

pub fn compare(rnx: &Rinex, f: &ClkFile) -> Res {
    let h = match &rnx.header.clock {
        Some(h) => h,
        None => return fail("header", "no clock header"),
    };
    ensure!(rnx.header.version == Version::new(f.major, f.minor), "header", "version {:?}", rnx.header.version);
    let prog = (rnx.header.program.clone().unwrap_or_default(), rnx.header.run_by.clone().unwrap_or_default());
    ensure!(prog == f.prog && rnx.header.date.as_deref() == Some("20170312 052227 UTC"), "header", "program, run by {:?} {:?}, written {:?}", prog, rnx.header.date, f.prog);
    let got: Vec<String> = h.codes.iter().map(|c| c.to_string()).collect();
    ensure!(got == f.codes, "header", "types of data {:?}, written {:?}", got, f.codes);
    let ts = f.ts.map(|_| f.timescale());
    ensure!(h.timescale == ts, "header", "timescale {:?}, written {:?}", h.timescale, f.ts);
    ensure!(h.site == f.site.as_ref().map(|s| s.0.clone()), "header", "site {:?}, written {:?}", h.site, f.site);
    let d = f.site.as_ref().and_then(|s| s.1.as_ref().map(domes_value));
    ensure!(h.domes == d, "header", "site number {:?}, written {:?}", h.domes, f.site);
    ensure!(h.ref_clock == f.clkref, "header", "reference clock {:?}, written {:?}", h.ref_clock, f.clkref);
    let c = f.center.clone();
    ensure!(h.igs == c.as_ref().map(|c| c.0.clone()) && h.full_name == c.as_ref().map(|c| c.1.clone()), "header", "center {:?} {:?}, written {:?}", h.igs, h.full_name, c);
    ensure!(h.work_clock.len() == f.refs.len(), "header", "{} reference clocks", h.work_clock.len());
    for (a, b) in h.work_clock.iter().zip(&f.refs) {
        let w = WorkClock {
            name: b.name.clone(),
            domes: b.domes.as_ref().map(domes_value),
            constraint: b.constraint.as_ref().map(|n| n.val),
        };
        ensure!(*a == w, "header", "reference clock {:?}, written {:?}", a, w);
    }
    let want = f.expected();
    let rec = match rnx.record.as_clock() {
        Some(r) => r,
        None => return fail("record-type", "not a clock record"),
    };
    for ((t, m), (wt, wm)) in rec.iter().zip(&want) {
        ensure!(same_epoch(*t, *wt), "epoch", "found {:?}, written {:?}", t, wt);
        for ((k, p), (wk, wp)) in m.iter().zip(wm) {
            ensure!(k == wk, "key", "found {:?}, written {:?} at {:?}", k, wk, t);
            ensure!(p == wp, "profile", "found {:?}, written {:?} for {:?} at {:?}", p, wp, k, t);
        }
        ensure!(m.len() == wm.len(), "key", "{} profiles instead of {} at {:?}", m.len(), wm.len(), t);
    }
    ensure!(rec.len() == want.len(), "epoch", "{} epochs instead of {}", rec.len(), want.len());
    Ok(())
}

fn decode(g: &mut Gen) -> Res {
    let max = if g.below(200) == 199 { 300 } else { 12 };
    let f = clk_file(g, max);
    g.text = f.text(g);
    g.nontrivial = f.lines.len() > 1;
    g.label_if(f.modern(), "wide-columns");
    g.label_if(f.lines.iter().any(|l| l.values.len() > 2), "continued");
    g.label_if(!f.refs.is_empty(), "reference-clocks");
    let rnx = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    compare(&rnx, &f)?;
    // projections
    let mut sv = vec![];
    let mut st = vec![];
    for (t, m) in f.expected() {
        for (k, p) in m {
            match k.clock_type {
                ClockType::SV(s) => sv.push((t, s, k.profile_type, p)),
                ClockType::Station(s) => st.push((t, s, k.profile_type, p)),
            }
        }
    }
    let got: Vec<_> = rnx.precise_sv_clock().collect();
    ensure!(got == sv, "satellite-clocks", "{:?} instead of {:?}", got, sv);
    let got: Vec<_> = rnx.precise_station_clock().collect();
    ensure!(got == st, "station-clocks", "{:?} instead of {:?}", got, st);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P14",
        parts: vec![Part { name: "decode", run: decode, quick: 300_000, thorough: 8_000_000 }],
        rule: "decode: clock files of an independent writer (revisions 2.00 to 4.00, with the 60 and 65 column header layouts; AR, AS, CR, DR and MS lines of 1 to 6 values over one or two lines; satellites of all systems and station names of 1 to 9 characters, some that look like satellites; every time system, whole and fractional seconds; lines out of order; reference clocks, site, analysis center). Compared: header fields, every profile under its epoch, clock and type, and the satellite and station iterators. Non-trivial when more than one profile is present.",
        assumptions: &["a (epoch, type, name) triple appears once", "values are numbers of the format E19.12"],
    }
}
