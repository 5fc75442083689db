//! P20: malformed content.
use crate::corpus::*;
use crate::gen::*;
use crate::mutate::*;
use crate::runner::{Part, Prop, Res};
use rinex::prelude::*;
use std::io::{BufReader, BufWriter, Read};
use std::str::FromStr;

fn damaged(g: &mut Gen, kinds: &[char]) -> Vec<u8> {
    let d = doc(g, kinds, 4);
    let mut lines = split(&d.text);
    let other = if g.chance(1, 3) { split(&doc(g, &KINDS, 2).text) } else { lines.clone() };
    for _ in 0..g.usize(1, 4) {
        fault(g, &mut lines, &other);
    }
    let data = join(g, &lines);
    g.text = String::from_utf8_lossy(&data).to_string();
    data
}

fn documents(g: &mut Gen) -> Res {
    let data = damaged(g, &KINDS);
    let mut r = BufReader::new(&data[..]);
    match Rinex::parse(&mut r) {
        Ok(rnx) => {
            g.label("read");
            g.nontrivial = true;
            // whatever was understood can be browsed and written
            let _ = (rnx.first_epoch(), rnx.last_epoch(), rnx.epoch_iter().count(), rnx.sv_iter().count(), rnx.constellations_iter().count());
            if rnx.is_observation_rinex() || rnx.is_meteo_rinex() {
                let _ = rnx.format(&mut BufWriter::new(std::io::sink()));
                if rnx.is_observation_rinex() && !rnx.header.is_crinex() {
                    let _ = rnx.rnx2crnx().format(&mut BufWriter::new(std::io::sink()));
                }
            }
        },
        Err(e) => {
            g.label("rejected");
            g.nontrivial = true;
            let _ = e.to_string();
        },
    }
    Ok(())
}

fn crinex_stream(g: &mut Gen) -> Res {
    let data = damaged(g, &['X']);
    g.nontrivial = true;
    let mut d = DecompressorIO::from_read(&data[..]);
    let mut out = vec![];
    let mut buf = [0u8; 1000];
    // an error is not the end
    let mut errors = 0;
    loop {
        match d.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(_) => {
                errors += 1;
                if errors > 50 {
                    break;
                }
            },
        }
    }
    g.label_if(errors > 0, "errors");
    Ok(())
}

fn noise(g: &mut Gen) -> Res {
    let mut data = vec![];
    if g.bool() {
        let k = g.pickc(&["N: GNSS NAV DATA", "OBSERVATION DATA", "METEOROLOGICAL DATA", "C", "O                   D"]);
        let v = g.pickc(&["     2.11", "     3.04", "     4.00", "     1.00", "     3.00"]);
        let s = g.pickc(&["M", "G", "R", "S", "", "D"]);
        data.extend_from_slice(format!("{:<20}{:<20}{:<20}RINEX VERSION / TYPE\n", v, k, s).as_bytes());
    }
    for _ in 0..g.usize(0, 12) {
        let n = g.usize(0, 90);
        let mut l: Vec<u8> = (0..n).map(|_| if g.chance(1, 20) { g.below(256) as u8 } else { g.pickc(b"  0123456789.-GRECS>&AL") }).collect();
        if g.chance(2, 3) {
            l.resize(60, b' ');
            l.extend_from_slice(g.pickc(LABELS).as_bytes());
        }
        data.extend(l);
        data.push(b'\n');
    }
    g.text = String::from_utf8_lossy(&data).to_string();
    g.nontrivial = data.len() > 100;
    let _ = Rinex::parse(&mut BufReader::new(&data[..]));
    Ok(())
}

fn word(g: &mut Gen) -> String {
    let seed = g.pickc(&[
        "", "G01", "L1C", "C1", "3.04", "ESBC00DNK_R_20201770000_01D_30S_MO.crx.gz", "AJAC3550.21O", "CKMG0020.22I", "15M", "01D", "GPS", "2 0", "13502M004",
        "ROBOT", "A                   TYPE                                     2.0    PR SENSOR MOD/TYPE/ACC", "D01  OWFC OWENGA                        50253S002  3   0",
        "    18    18  2185     7", "CRINEX", "NON_GEODETIC", "ENVISAT", "IGS 1.0", "+2", "LNAV", "EPH", "2018-034B",
    ]);
    let mut s: Vec<char> = seed.chars().collect();
    for _ in 0..g.usize(0, 3) {
        let i = g.usize(0, s.len());
        match g.below(4) {
            0 if i < s.len() => {
                s.remove(i);
            },
            1 if i < s.len() => s[i] = g.pickc(&['é', '0', '9', ' ', 'Z', 'g', '-', '.', '_', '\u{0}', '𝛑', '/']),
            2 => s.truncate(i),
            _ => s.insert(i, g.pickc(&['é', '0', '9', ' ', 'Z', 'g', '-', '.', '_', '\u{0}', '𝛑', '/'])),
        }
    }
    s.into_iter().collect()
}

fn words(g: &mut Gen) -> Res {
    let s = word(g);
    g.text = s.clone();
    g.nontrivial = s.len() > 1;
    fn t<T: FromStr>(s: &str) {
        let _ = T::from_str(s);
    }
    t::<ProductionAttributes>(&s);
    t::<rinex::prod::PPU>(&s);
    t::<rinex::prod::FFU>(&s);
    t::<rinex::prod::DataSource>(&s);
    t::<Observable>(&s);
    t::<rinex::prelude::obs::Carrier>(&s);
    t::<Version>(&s);
    t::<RinexType>(&s);
    t::<rinex::prelude::obs::EpochFlag>(&s);
    t::<rinex::prelude::obs::SNR>(&s);
    t::<MarkerType>(&s);
    t::<Leap>(&s);
    t::<CRINEX>(&s);
    t::<Station>(&s);
    t::<rinex::meteo::Sensor>(&s);
    t::<rinex::prelude::clock::ClockProfileType>(&s);
    t::<rinex::hardware::Receiver>(&s);
    t::<rinex::ionex::MappingFunction>(&s);
    t::<rinex::ionex::RefSystem>(&s);
    t::<rinex::navigation::NavMessageType>(&s);
    t::<rinex::navigation::NavFrameType>(&s);
    t::<rinex::antex::CalibrationMethod>(&s);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P20",
        parts: vec![
            Part { name: "documents", run: documents, quick: 400_000, thorough: 12_000_000 },
            Part { name: "crinex-stream", run: crinex_stream, quick: 60_000, thorough: 2_000_000 },
            Part { name: "noise", run: noise, quick: 200_000, thorough: 5_000_000 },
            Part { name: "words", run: words, quick: 400_000, thorough: 5_000_000 },
        ],
        rule: "documents: well-formed files of every type (observation, CRINEX, meteo, navigation, clock, IONEX, ANTEX, DORIS) in which 1 to 4 faults are injected (lines removed, duplicated, swapped, replaced by or mixed with lines of another file, truncated at any column, columns removed or inserted, characters replaced by separators, control or multi-byte characters or bytes that are not UTF-8, words replaced by extreme numbers, labels exchanged, end of file anywhere): parsing must return data or an error, and what was read must browse, format and compress without panicking; crinex-stream: damaged CRINEX through the decompressing reader, reading on after errors; noise: lines of random columns under random labels; words: damaged identifiers and file names through every public FromStr. Non-trivial when parsing ended (documents, crinex-stream), with more than 100 bytes (noise), with more than one byte (words).",
        assumptions: &["a hang is reported as the absence of an answer, not as a violation", "files of at most a few hundred lines"],
    }
}
