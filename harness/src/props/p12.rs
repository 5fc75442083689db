//! P12: layout of every header line.
use crate::ensure;
use crate::gen::Gen;
use crate::hdr::*;
use crate::obs::*;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;

/// labels of RINEX 2.11 to 4.00 and CRINEX headers this library may write
const LABELS: [&str; 28] = [
    "CRINEX VERS   / TYPE",
    "CRINEX PROG / DATE",
    "RINEX VERSION / TYPE",
    "PGM / RUN BY / DATE",
    "OBSERVER / AGENCY",
    "COMMENT",
    "REC # / TYPE / VERS",
    "ANT # / TYPE",
    "ANTENNA: DELTA X/Y/Z",
    "ANTENNA: DELTA H/E/N",
    "MARKER NAME",
    "MARKER NUMBER",
    "MARKER TYPE",
    "APPROX POSITION XYZ",
    "INTERVAL",
    "LEAP SECONDS",
    "GLONASS SLOT / FRQ #",
    "# / TYPES OF OBSERV",
    "SYS / # / OBS TYPES",
    "TIME OF FIRST OBS",
    "TIME OF LAST OBS",
    "SENSOR MOD/TYPE/ACC",
    "SENSOR POS XYZ/H",
    "RCV CLOCK OFFS APPL",
    "SYS / SCALE FACTOR",
    "SIGNAL STRENGTH UNIT",
    "SYS / PHASE SHIFT",
    "END OF HEADER",
];

pub fn layout(text: &str, f: &Hdr) -> Res {
    let mut lines = vec![];
    for l in text.lines() {
        lines.push(l);
        if l.len() > 60 && l.is_char_boundary(60) && l[60..].trim() == "END OF HEADER" {
            break;
        }
    }
    let mut got_comments: Vec<&str> = vec![];
    for (i, l) in lines.iter().enumerate() {
        ensure!(l.is_ascii(), "ascii", "line {}: {:?}", i, l);
        ensure!(l.len() > 60 && l.len() <= 80, "width", "line {} has {} columns: {:?}", i, l.len(), l);
        let label = l[60..].trim_end();
        ensure!(LABELS.contains(&label), "label", "line {}: no known label from column 61 on: {:?}", i, l);
        let content = &l[..60];
        ensure!(
            label == "COMMENT" || label == "MARKER NAME" || !LABELS.iter().any(|x| x.len() > 10 && content.contains(x)),
            "label",
            "line {}: {:?}",
            i,
            l
        );
        if label == "COMMENT" {
            got_comments.push(content);
        }
    }
    let first = if f.crinex.is_some() {
        ensure!(lines.len() > 3, "order", "{:?}", lines);
        ensure!(lines[0][60..].starts_with("CRINEX VERS"), "order", "first line {:?}", lines[0]);
        ensure!(lines[1][60..].starts_with("CRINEX PROG"), "order", "second line {:?}", lines[1]);
        2
    } else {
        0
    };
    ensure!(lines[first][60..].starts_with("RINEX VERSION / TYPE"), "order", "line {} is {:?}", first, lines[first]);
    ensure!(
        lines.iter().filter(|l| l[60..].starts_with("RINEX VERSION")).count() == 1,
        "order",
        "several version lines"
    );
    let v = lines[first];
    ensure!(v[..9].trim() == format!("{}.{:02}", f.major, f.minor), "version-line", "{:?}", v);
    let t = match f.kind {
        'O' => 'O',
        'M' => 'M',
        _ => {
            if f.system == 'R' {
                'G'
            } else {
                'N'
            }
        },
    };
    ensure!(v[20..21].starts_with(t), "version-line", "type {:?}", v);
    if f.kind == 'O' || (f.kind == 'N' && f.system != 'R') {
        ensure!(v[40..41].starts_with(f.system), "version-line", "system {:?}", v);
    }
    ensure!(lines.last().unwrap()[60..].trim_end() == "END OF HEADER", "order", "last line {:?}", lines.last());
    ensure!(text.lines().count() >= lines.len(), "order", "no end of header");
    // comments: nothing lost, altered or reordered, no more lines than needed
    let mut it = got_comments.into_iter();
    for c in &f.comments {
        let n = c.len().div_ceil(60).max(1);
        let mut s = String::new();
        for _ in 0..n {
            match it.next() {
                Some(x) => s.push_str(x),
                None => return fail("comments", format!("comment {:?} is cut", c)),
            }
        }
        ensure!(s.starts_with(c.as_str()) && s[c.len()..].trim().is_empty(), "comments", "comment {:?} written {:?}", c, s);
    }
    ensure!(it.next().is_none(), "comments", "more comment lines than needed");
    Ok(())
}

fn headers(g: &mut Gen) -> Res {
    let f = header(g, &['O', 'O', 'M', 'N'], 300);
    f.classify(g);
    g.text = match super::p11::write(&f.to_header()) {
        Ok(t) => t,
        Err(e) => return fail("format-error", e),
    };
    layout(&g.text, &f)
}

/// whole files: what the reader of an existing file writes
fn files(g: &mut Gen) -> Res {
    let o = obs_file(g, &DEFAULT_CFG);
    let mut f = Hdr { kind: 'O', major: o.major, minor: o.minor, system: o.system, ..Default::default() };
    f.comments = vec![];
    o.classify(g);
    let mut rnx = match parse_text(&o.text(&Style::plain())) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("{:?}", e)),
    };
    rnx.header.comments = (0..g.usize(0, 3)).map(|_| comment(g, 200)).collect();
    f.comments = rnx.header.comments.clone();
    if g.bool() {
        rnx.rnx2crnx_mut();
        f.crinex = Some((3, String::new(), Civil::gen(g, (2000, 2001), false)));
    }
    g.text = match format_text(&rnx) {
        Ok(t) => t,
        Err(e) => return fail("format-error", e),
    };
    layout(&g.text, &f)?;
    if f.crinex.is_none() {
        // observation records: epoch lines and observation lines
        let body: Vec<&str> = g.text.lines().skip_while(|l| !l.contains("END OF HEADER")).skip(1).collect();
        for l in body {
            ensure!(l.is_ascii(), "body", "{:?}", l);
            if o.major == 2 {
                ensure!(l.len() <= 80, "body", "line of {} columns: {:?}", l.len(), l);
            }
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P12",
        parts: vec![
            Part { name: "headers", run: headers, quick: 300_000, thorough: 8_000_000 },
            Part { name: "files", run: files, quick: 40_000, thorough: 800_000 },
        ],
        rule: "headers: observation, CRINEX, meteo and navigation headers with any subset of the fields and comments of 0 to 300 characters, formatted, then every line checked for its label on column 61, at most 80 columns, the order of the first and last lines and the integrity of the comments; files: the same on whole observation and CRINEX files. Non-trivial when it has comments or observables.",
        assumptions: &[
            "text is ASCII and each field fits its columns",
            "clock, IONEX, ANTEX and DORIS writers, documented as under construction, are out of scope",
        ],
    }
}
