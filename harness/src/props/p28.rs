//! P28: comments and line ends.
use crate::corpus::*;
use crate::crx::*;
use crate::ensure;
use crate::gen::*;
use crate::mutate::LABELS;
use crate::obs::*;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::prelude::*;
use std::collections::BTreeMap;

/// content (no trailing blank) of one comment line
fn content(g: &mut Gen, width: usize) -> String {
    let c = match g.below(6) {
        0 => String::new(),
        1 => g.pickc(LABELS).to_string(),
        2 => " 24 01 01 00 00 00.0  0  2G01G02".into(),
        3 => "> 2024 01 01 00 00 00.0000000  0  1".into(),
        4 => g.pickc(&["END OF FILE", "     1 START OF TEC MAP", "    -1 EXPONENT", "EPOCH OF CURRENT MAP", "COMMENT", "&24 01 01", "AR G01 2024 01 01", "> EPH G01 LNAV"]).to_string(),
        _ => g.string(b"abcXYZ 0123456789.,-+/()#&_:=>!", 0, width),
    };
    c[..c.len().min(width)].trim_end().to_string()
}

fn line(g: &mut Gen, c: &str, width: usize) -> String {
    let s = format!("{:<1$}COMMENT             ", c, width);
    if g.bool() {
        s.trim_end().to_string()
    } else {
        s
    }
}

fn neutral(g: &mut Gen) -> Res {
    let d = doc_cfg(g, &KINDS, 4, false);
    let want = match parse_text(&d.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    let crlf = g.chance(1, 3);
    // blanks are data of CRINEX
    let blanks = d.kind != 'X' && g.chance(1, 3);
    let freq = g.pickc(&[0u64, 1, 2, 6]);
    let (mut head, mut body): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let mut text = String::new();
    let mut in_body = false;
    // recent clock files have wider lines
    let width = if d.text.lines().next().unwrap().find("RINEX VERSION") == Some(65) { 65 } else { 60 };
    let eol = if crlf { "\r\n" } else { "\n" };
    for (i, l) in d.text.lines().enumerate() {
        // the lines that identify the format come first
        let n = if i < 4 && !in_body { 0 } else { g.below(freq + 1).saturating_sub(g.below(4)) };
        for _ in 0..n {
            let c = content(g, width);
            text.push_str(&line(g, &c, width));
            text.push_str(eol);
            if in_body {
                body.push(c);
            } else {
                head.push(c.trim().to_string());
            }
        }
        if l.trim_end().ends_with("COMMENT") && l.len() > 60 {
            if in_body {
                body.push(l[..width].trim_end().to_string());
            } else {
                head.push(l[..width].trim().to_string());
            }
        }
        text.push_str(l);
        if blanks && g.chance(1, 4) {
            text.push_str(&" ".repeat(g.usize(1, 8)));
        }
        text.push_str(eol);
        in_body |= l.trim_end().ends_with("END OF HEADER");
    }
    if g.chance(1, 3) {
        // last line
        let c = content(g, width);
        text.push_str(&line(g, &c, width));
        if g.bool() {
            text.push_str(eol);
        }
        body.push(c);
    }
    g.label_if(crlf, "CR LF");
    g.label_if(blanks, "trailing blanks");
    g.label_if(!body.is_empty(), "comments in the body");
    g.label_if(!head.is_empty(), "comments in the header");
    g.nontrivial = !body.is_empty() || crlf || blanks;
    g.text = text;
    let got = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("neutral-rejected", format!("rejected with the comments: {:?}", e)),
    };
    ensure!(got.record == want.record, "neutral-record", "{:?} instead of {:?}", got.record, want.record);
    ensure!(got.header.comments == head, "header-comments", "{:?} instead of {:?}", got.header.comments, head);
    let (mut a, mut b) = (got.header, want.header);
    a.comments.clear();
    b.comments.clear();
    ensure!(a == b, "neutral-header", "{:?} instead of {:?}", a, b);
    let mut all: Vec<String> = got.comments.values().flatten().cloned().collect();
    all.sort();
    body.sort();
    ensure!(all == body, "body-comments", "{:?} instead of {:?}", all, body);
    Ok(())
}

/// comments are filed under the epoch they follow
fn filed(g: &mut Gen) -> Res {
    let mut cfg = DEFAULT_CFG;
    cfg.events = false;
    cfg.max_epochs = 6;
    cfg.large = false;
    cfg.max_sats = 5;
    cfg.max_codes = 6;
    let mut f = obs_file(g, &cfg);
    let crinex = g.chance(1, 3);
    let mut want: BTreeMap<Epoch, Vec<String>> = BTreeMap::new();
    let ts = parse_epochs(&f);
    g.text = if crinex {
        g.label("CRINEX");
        evolve(g, &mut f);
        let ts = parse_epochs(&f);
        let mut st = CrxStyle::gen(g);
        st.trim = g.bool();
        let crx = encode(g, &f, &st);
        let mut out = crx;
        // after the last line: the last epoch
        for _ in 0..g.usize(1, 3) {
            let c = content(g, 60);
            out.push_str(&line(g, &c, 60));
            out.push('\n');
            if let Some(t) = ts.last() {
                want.entry(*t).or_default().push(c);
            }
        }
        out
    } else {
        let st = Style::gen(g);
        let mut out = f.header_text();
        for (e, t) in f.epochs.iter().zip(ts.iter()) {
            for l in f.epoch_text(e, &st).lines() {
                out.push_str(l);
                out.push('\n');
                for _ in 0..g.below(3).saturating_sub(g.below(3)) {
                    let c = content(g, 60);
                    out.push_str(&line(g, &c, 60));
                    out.push('\n');
                    want.entry(*t).or_default().push(c);
                }
            }
        }
        out
    };
    g.nontrivial = want.values().map(|v| v.len()).sum::<usize>() > 1;
    let got = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    ensure!(got.comments == want, "filed", "{:?} instead of {:?}", got.comments, want);
    Ok(())
}

/// the same for the other files that are sorted by epoch
fn filed_others(g: &mut Gen) -> Res {
    // the lines of the body, with the epoch that begins there
    let mut width = 60;
    let (head, body): (String, Vec<(String, Option<Epoch>)>) = match g.below(5) {
        0 => {
            g.label("navigation");
            let f = nav_file(g, 4);
            let (trim, pad) = (g.bool(), g.bool());
            let mut body = vec![];
            for x in &f.frames {
                for (i, l) in x.text(f.major, trim, pad).lines().enumerate() {
                    body.push((l.to_string(), if i == 0 { Some(x.epoch()) } else { None }));
                }
            }
            (f.header_text(g), body)
        },
        1 => {
            g.label("meteo");
            let mut f = crate::met::met_file(g, 5);
            for (_, v) in &mut f.epochs {
                // an epoch without reading leaves nothing to be filed under
                if v.iter().all(|x| x.is_none()) {
                    v[0] = Some(10);
                }
            }
            let text = f.text(g.below(3), g.bool(), true);
            let per = if f.codes.len() > 8 { 2 } else { 1 };
            let head = text.lines().count() - f.epochs.len() * per;
            let h: String = text.lines().take(head).map(|l| format!("{}\n", l)).collect();
            let body = text
                .lines()
                .skip(head)
                .enumerate()
                .map(|(i, l)| (l.to_string(), if i % per == 0 { Some(f.epochs[i / per].0.epoch(TimeScale::UTC)) } else { None }))
                .collect();
            (h, body)
        },
        2 => {
            g.label("clock");
            let f = crate::clk::clk_file(g, 6);
            if f.modern() {
                width = 65;
            }
            let text = f.text(g);
            let mut h = String::new();
            let mut body = vec![];
            let mut n = 0;
            let mut inside = false;
            for l in text.lines() {
                if !inside {
                    h.push_str(l);
                    h.push('\n');
                } else if !l.trim_end().ends_with("COMMENT") {
                    let starts = ["AR ", "AS ", "CR ", "DR ", "MS "].iter().any(|k| l.starts_with(k));
                    body.push((l.to_string(), if starts { Some(f.lines[n].t.epoch(f.timescale())) } else { None }));
                    n += starts as usize;
                }
                inside |= l.trim_end().ends_with("END OF HEADER");
            }
            (h, body)
        },
        3 => {
            g.label("ionosphere maps");
            let f = crate::inx::inx_file(g, 3);
            let text = f.text(g);
            let mut h = String::new();
            let mut body = vec![];
            let mut n = 0;
            let mut inside = false;
            for l in text.lines() {
                let label = l.get(60..).unwrap_or("").trim_end();
                if !inside {
                    h.push_str(l);
                    h.push('\n');
                } else if label != "COMMENT" {
                    let starts = label.starts_with("START OF ");
                    body.push((l.to_string(), if starts { Some(f.maps[n].t.epoch(TimeScale::UTC)) } else { None }));
                    n += starts as usize;
                }
                inside |= label == "END OF HEADER";
            }
            (h, body)
        },
        _ => {
            g.label("DORIS");
            let f = crate::props::p16::dor_file(g);
            let text = f.text(g.bool(), g.below(3) as u8);
            let ts = f.epochs();
            let mut h = String::new();
            let mut body = vec![];
            let mut n = 0;
            let mut inside = false;
            for l in text.lines() {
                if !inside {
                    h.push_str(l);
                    h.push('\n');
                } else {
                    let starts = l.starts_with('>');
                    body.push((l.to_string(), if starts { Some(ts[n]) } else { None }));
                    n += starts as usize;
                }
                inside |= l.trim_end().ends_with("END OF HEADER");
            }
            (h, body)
        },
    };
    let mut want: BTreeMap<Epoch, Vec<String>> = BTreeMap::new();
    let mut text = head;
    let mut t = None;
    for (l, e) in body {
        t = e.or(t);
        text.push_str(&l);
        text.push('\n');
        for _ in 0..g.below(3).saturating_sub(g.below(3)) {
            let c = content(g, width);
            text.push_str(&line(g, &c, width));
            text.push('\n');
            if let Some(t) = t {
                want.entry(t).or_default().push(c);
            }
        }
    }
    g.text = text;
    g.nontrivial = want.values().map(|v| v.len()).sum::<usize>() > 1;
    let got = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    ensure!(got.comments == want, "filed", "{:?} instead of {:?}", got.comments, want);
    Ok(())
}

fn parse_epochs(f: &ObsFile) -> Vec<Epoch> {
    f.epochs.iter().map(|e| e.t.epoch(f.ts)).collect()
}

pub fn prop() -> Prop {
    Prop {
        id: "P28",
        parts: vec![
            Part { name: "neutral", run: neutral, quick: 120_000, thorough: 3_000_000 },
            Part { name: "filed", run: filed, quick: 60_000, thorough: 1_500_000 },
            Part { name: "others", run: filed_others, quick: 100_000, thorough: 2_000_000 },
        ],
        rule: "neutral: files of every type, with comment lines (free text, text of data lines, labels) inserted between any two lines of the header and of the body, CR LF ends and trailing blanks: header and record are those of the file without them, and all the comments are kept; filed: observation files (plain and CRINEX) where each comment must be filed under the epoch it follows, in order; others: the same in navigation, meteo, clock, IONEX and DORIS files. Non-trivial when a comment, a CR LF end or a trailing blank was added.",
        assumptions: &[
            "comments follow the lines that identify the format",
            "no comment within the special records announced by an event line",
            "trailing blanks are not added to CRINEX, where they are data",
        ],
    }
}
