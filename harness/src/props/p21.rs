//! P21: entry points.
use crate::corpus::*;
use crate::ensure;
use crate::gen::*;
use crate::props::p08::Chunks;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use rinex::prelude::*;
use std::io::{BufReader, BufWriter, Read, Write};
use std::path::PathBuf;

/// scratch directory, removed on drop
pub struct Scratch(PathBuf);
impl Scratch {
    pub fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let name = format!("vh-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed));
        // in memory when possible: many short-lived files are created
        let shm = std::path::Path::new("/dev/shm").join(&name);
        if std::fs::create_dir(&shm).is_ok() {
            return Scratch(shm);
        }
        let d = std::env::temp_dir().join(&name);
        std::fs::create_dir_all(&d).expect("harness: scratch directory");
        Scratch(d)
    }
    fn write(&self, name: &str, data: &[u8]) -> PathBuf {
        let p = self.0.join(name);
        std::fs::write(&p, data).expect("harness: scratch file");
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn same(got: &Rinex, want: &Rinex, how: &str) -> Res {
    ensure!(got.header == want.header, "header", "{}: header {:?} instead of {:?}", how, got.header, want.header);
    ensure!(got.record == want.record, "record", "{}: record {:?} instead of {:?}", how, got.record, want.record);
    ensure!(got.comments == want.comments, "comments", "{}: comments {:?} instead of {:?}", how, got.comments, want.comments);
    Ok(())
}

/// a name that follows (or not) the conventions
fn file_name(g: &mut Gen) -> String {
    match g.below(4) {
        0 => "data.txt".into(),
        1 => format!("{}{:03}{}.{:02}{}", ["ESBC", "abmf", "Wtzr"][g.usize(0, 2)], g.range(1, 366), g.pickc(&['0', 'a', 'x']), g.range(0, 99), g.pickc(&["O", "D", "N", "M", "I"])),
        2 => format!("ESBC00DNK_R_{:04}{:03}{:02}{:02}_01D_30S_MO.{}", g.range(2000, 2078), g.range(1, 366), g.range(0, 23), g.range(0, 59), g.pickc(&["rnx", "crx"])),
        _ => format!("CKMG{:03}0.{:02}I", g.range(1, 366), g.range(0, 99)),
    }
}

fn gz(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(data).expect("harness: gz");
    e.finish().expect("harness: gz")
}

fn chunks(g: &mut Gen) -> Vec<usize> {
    let n = g.usize(1, 4);
    (0..n).map(|_| g.pickc(&[1usize, 2, 7, 60, 80, 81, 512, 4096])).collect()
}

fn read(g: &mut Gen) -> Res {
    let doc = doc(g, &KINDS, 5);
    g.text = doc.text.clone();
    g.nontrivial = doc.text.lines().count() > 12;
    let data = doc.text.as_bytes();
    let want = match parse_text(&doc.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    // any delivery of the bytes
    let (cap, sizes) = (g.pickc(&[1usize, 3, 16, 80, 1000, 8192]), chunks(g));
    let how = format!("buffer of {} bytes, reads of {:?} bytes", cap, sizes);
    let mut r = BufReader::with_capacity(cap, Chunks { data, sizes: sizes.clone(), i: 0 });
    match Rinex::parse(&mut r) {
        Ok(r) => same(&r, &want, &how)?,
        Err(e) => return fail("stream", format!("{}: {:?}", how, e)),
    }
    // through a gzip stream
    let z = gz(data, g.below(10) as u32);
    let mut r = BufReader::with_capacity(cap, flate2::read::GzDecoder::new(Chunks { data: &z, sizes, i: 0 }));
    match Rinex::parse(&mut r) {
        Ok(r) => same(&r, &want, "gzip stream")?,
        Err(e) => return fail("stream", format!("gzip stream: {:?}", e)),
    }
    // files
    let dir = Scratch::new();
    let name = file_name(g);
    let plain = match Rinex::from_file(dir.write(&name, data)) {
        Ok(r) => r,
        Err(e) => return fail("file", format!("{}: {:?}", name, e)),
    };
    same(&plain, &want, "plain file")?;
    // a gzip file is a sequence of members
    let z = if g.chance(1, 3) {
        g.label("several gzip members");
        let n = g.usize(0, data.len());
        let (a, b) = data.split_at(n);
        let mut z = gz(a, 6);
        z.extend(gz(b, 9));
        z
    } else {
        z
    };
    let gname = format!("{}.gz", name);
    let zip = match Rinex::from_gzip_file(dir.write(&gname, &z)) {
        Ok(r) => r,
        Err(e) => return fail("file", format!("{}: {:?}", gname, e)),
    };
    same(&zip, &want, "gzip file")?;
    ensure!(
        plain.production == zip.production || name.starts_with("data"),
        "attributes",
        "{}: {:?}, compressed {:?}",
        name,
        plain.production,
        zip.production
    );
    Ok(())
}

fn write(g: &mut Gen) -> Res {
    let doc = doc(g, &['O', 'X', 'M'], 5);
    g.text = doc.text.clone();
    g.nontrivial = doc.text.lines().count() > 12;
    let rnx = match parse_text(&doc.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    let text = match format_text(&rnx) {
        Ok(t) => t,
        Err(e) => return fail("format", e),
    };
    // any buffer
    let mut out = vec![];
    {
        let mut w = BufWriter::with_capacity(g.pickc(&[1usize, 17, 80, 8192]), Slow { out: &mut out, sizes: chunks(g), i: 0 });
        if let Err(e) = rnx.format(&mut w) {
            return fail("format", format!("{:?}", e));
        }
    }
    ensure!(stamp(&out) == stamp(text.as_bytes()), "buffer", "the text depends on the buffer: {:?}", String::from_utf8_lossy(&out));
    let dir = Scratch::new();
    let name = file_name(g);
    let gname = format!("{}.gz", name);
    if g.bool() {
        // overwrites longer content
        let junk: Vec<u8> = b"leftover\n".iter().cycle().take(out.len() * 2).cloned().collect();
        dir.write(&name, &junk);
        dir.write(&gname, &junk);
    }
    let (p, z) = (dir.0.join(&name), dir.0.join(&gname));
    if let Err(e) = rnx.to_file(&p) {
        return fail("to-file", format!("{:?}", e));
    }
    if let Err(e) = rnx.to_gzip_file(&z) {
        return fail("to-gzip-file", format!("{:?}", e));
    }
    let a = std::fs::read(&p).expect("harness: read");
    ensure!(stamp(&a) == stamp(&out), "to-file", "file holds {:?}", String::from_utf8_lossy(&a));
    let mut b = vec![];
    if let Err(e) = flate2::read::MultiGzDecoder::new(std::fs::File::open(&z).expect("harness: open")).read_to_end(&mut b) {
        return fail("to-gzip-file", format!("not a gzip file: {}", e));
    }
    ensure!(stamp(&b) == stamp(&out), "to-gzip-file", "file holds {:?}", String::from_utf8_lossy(&b));
    match (Rinex::from_file(&p), Rinex::from_gzip_file(&z), parse_text(&text)) {
        (Ok(a), Ok(b), Ok(want)) => {
            ensure!(a.record == want.record, "reread", "{:?} instead of {:?}", a.record, want.record);
            ensure!(b.record == want.record, "reread", "gzip: {:?} instead of {:?}", b.record, want.record);
            Ok(())
        },
        (a, b, c) => fail("reread", format!("{:?} {:?} {:?}", a.err(), b.err(), c.err())),
    }
}

/// delivers some bytes, then fails; may also be interrupted, which is not a failure
struct Broken<'a> {
    data: &'a [u8],
    fails: bool,
    every: usize,
    i: usize,
}
impl Read for Broken<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.i += 1;
        if self.every > 0 && self.i % self.every == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.data.is_empty() && self.fails {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "broken stream"));
        }
        let n = self.data.len().min(buf.len()).min(100);
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

/// accepts some bytes, then fails
struct Full {
    left: usize,
}
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "no space left"));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn failures(g: &mut Gen) -> Res {
    let d = doc(g, &KINDS, 4);
    g.text = d.text.clone();
    g.nontrivial = true;
    let data = d.text.as_bytes();
    let want = match parse_text(&d.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    let cap = g.pickc(&[1usize, 3, 16, 80, 1000, 8192]);
    let cut = g.usize(0, data.len());
    match g.below(5) {
        0 => {
            g.label("stream fails");
            if let Ok(r) = Rinex::parse(&mut BufReader::with_capacity(cap, Broken { data: &data[..cut], fails: true, every: 0, i: 0 })) {
                return fail("failure", format!("stream that fails after {} of {} bytes read as {:?}", cut, data.len(), r.record));
            }
        },
        1 => {
            g.label("interrupted stream");
            let every = g.usize(2, 5);
            match Rinex::parse(&mut BufReader::with_capacity(cap, Broken { data, fails: false, every, i: 0 })) {
                Ok(r) => same(&r, &want, "interrupted stream")?,
                Err(e) => return fail("stream", format!("interrupted stream: {:?}", e)),
            }
        },
        2 => {
            g.label("gzip stream cut");
            let z = gz(data, g.below(10) as u32);
            let cut = g.usize(0, z.len() - 1);
            if let Ok(r) = Rinex::parse(&mut BufReader::with_capacity(cap, flate2::read::GzDecoder::new(&z[..cut]))) {
                return fail("failure", format!("gzip stream of {} of {} bytes read as {:?}", cut, z.len(), r.record));
            }
        },
        3 => {
            g.label("gzip file cut");
            let z = gz(data, g.below(10) as u32);
            let cut = g.usize(1, z.len() - 1);
            let dir = Scratch::new();
            let p = dir.write("cut.gz", &z[..cut]);
            if let Ok(r) = Rinex::from_gzip_file(&p) {
                return fail("failure", format!("gzip file of {} of {} bytes read as {:?}", cut, z.len(), r.record));
            }
        },
        _ => {
            if !matches!(d.kind, 'O' | 'X' | 'M') {
                g.label("no writer");
                return Ok(());
            }
            g.label("no space left");
            let text = match format_text(&want) {
                Ok(t) => t,
                Err(e) => return fail("format", e),
            };
            let left = g.usize(0, text.len() - 1);
            let mut w = BufWriter::with_capacity(cap, Full { left });
            if want.format(&mut w).is_ok() && w.flush().is_ok() {
                return fail("write-failure", format!("{} of {} bytes written without an error", left, text.len()));
            }
            if std::path::Path::new("/dev/full").exists() {
                if want.to_file("/dev/full").is_ok() {
                    return fail("write-failure", "to_file on a full device succeeds");
                }
                if want.to_gzip_file("/dev/full").is_ok() {
                    return fail("write-failure", "to_gzip_file on a full device succeeds");
                }
            }
        },
    }
    Ok(())
}

/// accepts a few bytes at once
struct Slow<'a> {
    out: &'a mut Vec<u8>,
    sizes: Vec<usize>,
    i: usize,
}
impl Write for Slow<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.sizes[self.i % self.sizes.len()].min(b.len());
        self.i += 1;
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// text less the lines that hold the time of the run
fn stamp(t: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(t).lines().filter(|l| !l.contains("CRINEX PROG / DATE") && !l.contains("PGM / RUN BY / DATE")).map(|l| l.to_string()).collect()
}

pub fn prop() -> Prop {
    Prop {
        id: "P21",
        parts: vec![
            Part { name: "read", run: read, quick: 60_000, thorough: 1_500_000 },
            Part { name: "write", run: write, quick: 40_000, thorough: 1_000_000 },
            Part { name: "failures", run: failures, quick: 120_000, thorough: 3_000_000 },
        ],
        rule: "well-formed files of every type (observation, CRINEX, meteo, navigation, clock, IONEX, ANTEX, DORIS); read: parsed from memory, through readers of any buffer capacity delivering any sequence of short reads, through a gzip stream, from a plain file and from a gzip file (one or two members, any level) under conventional and free names: header, record and comments must be the same, and so must the attributes read from the file name; write: the text formatted through any buffer and any short writes, to_file and (decompressed) to_gzip_file over absent or longer files must agree, and both files must read back as the same record; failures: streams that fail after any number of bytes, gzip streams and gzip files cut anywhere must give an error, interrupted reads must not matter, writers with too little room and a full device must give an error. Non-trivial when the file has more than 12 lines.",
        assumptions: &[
            "the lines that hold the time of the run are not compared",
            "writers are only implemented for observation, CRINEX and meteo records",
        ],
    }
}
