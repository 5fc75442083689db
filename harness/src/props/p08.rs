//! P08: CRINEX decompression against an independent compressor.
use crate::crx::*;
use crate::ensure;
use crate::gen::Gen;
use crate::obs::*;
use crate::props::p01::compare;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::prelude::*;
use std::io::Read;
use std::str::FromStr;

pub const CFG: ObsCfg = ObsCfg { max_epochs: 7, max_sats: 8, max_codes: 12, ..DEFAULT_CFG };

fn classify(g: &mut Gen, f: &ObsFile, st: &CrxStyle) {
    f.classify(g);
    g.label_if(st.max_order > 3, "order above 3");
    g.label_if(st.reinit > 0, "arcs re-initialised");
    let back = f.epochs.iter().enumerate().any(|(i, e)| {
        i > 1
            && e.sats.iter().any(|s| {
                !f.epochs[i - 1].sats.iter().any(|x| x.name == s.name)
                    && f.epochs[..i - 1].iter().any(|e| e.sats.iter().any(|x| x.name == s.name))
            })
    });
    g.label_if(back, "satellite back after a gap");
    g.label_if(f.epochs.windows(2).any(|w| w[0].clock.is_some() && w[1].clock.is_some()), "clock differences");
    g.nontrivial &= f.epochs.len() > 1;
}

fn decode_all(g: &mut Gen) -> Res {
    let mut f = obs_file(g, &CFG);
    evolve(g, &mut f);
    let st = CrxStyle::gen(g);
    classify(g, &f, &st);
    g.text = encode(g, &f, &st);
    let rnx = match parse_text(&g.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("valid CRINEX rejected: {:?}", e)),
    };
    ensure!(rnx.header.is_crinex(), "header", "not identified as CRINEX");
    compare(&rnx, &f, 0.0)
}

/// delivers the stream by chunks of the given sizes
pub struct Chunks<'a> {
    pub data: &'a [u8],
    pub sizes: Vec<usize>,
    pub i: usize,
}
impl Read for Chunks<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.sizes[self.i % self.sizes.len()].min(buf.len()).min(self.data.len());
        self.i += 1;
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

fn stream(g: &mut Gen) -> Res {
    let mut f = obs_file(g, &CFG);
    evolve(g, &mut f);
    let st = CrxStyle::gen(g);
    classify(g, &f, &st);
    let crx = encode(g, &f, &st);
    g.text = crx.clone();
    let body_only = f.major > 2 && g.chance(1, 4);
    let (input, want) = if body_only {
        g.label("stream without header");
        let mut body: Vec<&str> = crx.lines().skip_while(|l| !l.contains("END OF HEADER")).skip(1).collect();
        body.push("");
        (body.join("\n"), f.epochs.iter().map(|e| f.epoch_text(e, &st.names)).collect::<String>())
    } else {
        (crx, f.text(&st.names))
    };
    let sizes: Vec<usize> = (0..g.usize(1, 4)).map(|_| g.pickc(&[1usize, 3, 17, 64, 100, 1000, 8192])).collect();
    let chunks = Chunks { data: input.as_bytes(), sizes: sizes.clone(), i: 0 };
    let mut dec = DecompressorIO::from_read(chunks);
    if body_only {
        for (c, l) in &f.codes {
            dec.with_observables(constellation(*c), l.iter().map(|c| Observable::from_str(c).unwrap()).collect());
        }
    }
    let mut got = vec![];
    let reads: Vec<usize> = (0..g.usize(1, 3)).map(|_| g.pickc(&[1usize, 2, 10, 79, 80, 81, 500, 8192])).collect();
    let mut i = 0;
    loop {
        let mut buf = vec![0u8; reads[i % reads.len()]];
        i += 1;
        match dec.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => got.extend_from_slice(&buf[..n]),
            Err(e) => return fail("stream-error", format!("reads of {:?} bytes: {}", reads, e)),
        }
    }
    let got = match String::from_utf8(got) {
        Ok(s) => s,
        Err(e) => return fail("stream-utf8", e.to_string()),
    };
    let (a, b): (Vec<&str>, Vec<&str>) = (got.lines().map(|l| l.trim_end()).collect(), want.lines().map(|l| l.trim_end()).collect());
    for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
        ensure!(x == y, "stream", "reads of {:?} bytes: line {} is {:?} instead of {:?}", reads, i, x, y);
    }
    ensure!(a.len() == b.len(), "stream", "reads of {:?} bytes: {} lines instead of {}", reads, a.len(), b.len());
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P08",
        parts: vec![
            Part { name: "decode", run: decode_all, quick: 120_000, thorough: 3_000_000 },
            Part { name: "stream", run: stream, quick: 60_000, thorough: 1_500_000 },
        ],
        rule: "observation histories (satellites and observables coming and going, flags kept or changed, clock offsets, events) compressed by an independent implementation of the CRINEX format with random orders 1 to 5 and random re-initialisations of arcs and epoch lines; decode: the library parses the CRINEX and the data set must equal the model; stream: the decompressing reader, fed and read by chunks of random sizes, must give the original text (trailing blanks aside). Non-trivial when it has at least two epochs and two observations.",
        assumptions: &[
            "blank observations carry no flags",
            "every arc is initialised before it is differenced, as the format demands",
        ],
    }
}
