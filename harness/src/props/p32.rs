//! P32: the serialised form of a data set.
use crate::corpus::*;
use crate::ensure;
use crate::gen::*;
use crate::runner::{fail, Part, Prop, Res};
use crate::util::*;
use ciborium::value::Value;
use rinex::prelude::*;
use serde::{de::DeserializeOwned, Serialize};
use std::cmp::Ordering;
use std::collections::BTreeMap;

/// maps in a canonical order
fn canonical(v: Value) -> Value {
    match v {
        Value::Map(m) => {
            let mut m: Vec<(Value, Value)> = m.into_iter().map(|(k, v)| (canonical(k), canonical(v))).collect();
            m.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(Ordering::Equal));
            Value::Map(m)
        },
        Value::Array(a) => Value::Array(a.into_iter().map(canonical).collect()),
        Value::Tag(t, v) => Value::Tag(t, Box::new(canonical(*v))),
        v => v,
    }
}

fn ser<T: Serialize>(what: &str, v: &T) -> Result<Vec<u8>, crate::runner::Fail> {
    let mut out = vec![];
    match ciborium::into_writer(v, &mut out) {
        Ok(()) => Ok(out),
        Err(e) => fail("not-serialised", format!("{}: {:?}", what, e)),
    }
}

fn tree<T: Serialize>(what: &str, v: &T) -> Result<Value, crate::runner::Fail> {
    let b = ser(what, v)?;
    match ciborium::from_reader::<Value, _>(&b[..]) {
        Ok(v) => Ok(canonical(v)),
        Err(e) => fail("not-serialised", format!("{}: {:?}", what, e)),
    }
}

/// serialised and read back, `v` is the same
fn back<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(what: &str, v: &T) -> Res {
    let b = ser(what, v)?;
    match ciborium::from_reader::<T, _>(&b[..]) {
        Ok(r) => ensure!(&r == v, "changed", "{}: {:?} comes back as {:?}", what, v, r),
        Err(e) => return fail("not-read-back", format!("{}: {:?} ({:?})", what, e, v)),
    }
    Ok(())
}

/// what differs first between two trees
fn first(a: &Value, b: &Value) -> String {
    match (a, b) {
        (Value::Map(x), Value::Map(y)) if x.len() == y.len() => {
            for ((k, v), (l, w)) in x.iter().zip(y) {
                if k != l {
                    return format!("{:?} / {:?}", k, l);
                }
                if v != w {
                    return format!("{:?}: {}", k, first(v, w));
                }
            }
            String::new()
        },
        (a, b) => format!("{:.200?} / {:.200?}", a, b),
    }
}

fn header(h: &Header) -> Res {
    back("version", &h.version)?;
    back("type", &h.rinex_type)?;
    if let Some(x) = &h.geodetic_marker {
        back("marker", x)?;
    }
    if let Some(x) = &h.leap {
        back("leap", x)?;
    }
    if let Some(x) = &h.rcvr {
        back("receiver", x)?;
    }
    if let Some(x) = &h.rcvr_antenna {
        back("antenna", x)?;
    }
    if let Some(x) = &h.sv_antenna {
        back("satellite antenna", x)?;
    }
    back("DCBs", &h.dcb_compensations)?;
    back("PCVs", &h.pcv_compensations)?;
    if let Some(x) = &h.obs {
        back("observation header", x)?;
    }
    if let Some(x) = &h.meteo {
        back("meteo header", x)?;
    }
    if let Some(x) = &h.clock {
        back("clock header", x)?;
    }
    if let Some(x) = &h.antex {
        back("ANTEX header", x)?;
    }
    if let Some(x) = &h.ionex {
        back("IONEX header", x)?;
    }
    if let Some(x) = &h.doris {
        back("DORIS header", x)?;
    }
    Ok(())
}

fn record(r: &Record) -> Res {
    match r {
        Record::ObsRecord(r) => back("observation record", r),
        Record::MeteoRecord(r) => back("meteo record", r),
        Record::IonexRecord(r) => back("IONEX record", r),
        Record::DorisRecord(r) => back("DORIS record", r),
        Record::NavRecord(r) => r.keys().try_for_each(|k| back("navigation key", k)),
        Record::ClockRecord(r) => r.values().flat_map(|v| v.keys()).try_for_each(|k| back("clock key", k)),
        Record::AntexRecord(_) => Ok(()),
    }
}

fn size(r: &Record) -> usize {
    match r {
        Record::ObsRecord(r) => r.len(),
        Record::MeteoRecord(r) => r.len(),
        Record::IonexRecord(r) => r.len(),
        Record::DorisRecord(r) => r.len(),
        Record::NavRecord(r) => r.len(),
        Record::ClockRecord(r) => r.len(),
        Record::AntexRecord(r) => r.len(),
    }
}

fn restored(g: &mut Gen) -> Res {
    let d = doc_cfg(g, &KINDS, 4, true);
    g.text = d.text.clone();
    let rnx = match parse_text(&d.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    g.nontrivial = size(&rnx.record) > 1;
    header(&rnx.header)?;
    record(&rnx.record)
}

/// two data sets have the same serialised form only if they are the same
fn told(g: &mut Gen) -> Res {
    let d = doc_cfg(g, &KINDS, 3, false);
    let a = match parse_text(&d.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    // one digit, letter or blank differs
    let mut bytes = d.text.clone().into_bytes();
    let at: Vec<usize> = (0..bytes.len()).filter(|i| bytes[*i].is_ascii_alphanumeric() || bytes[*i] == b'-').collect();
    let i = g.pickc(&at);
    bytes[i] = match bytes[i] {
        b'0'..=b'9' => b'0' + (bytes[i] - b'0' + 1 + g.below(9) as u8) % 10,
        b'-' => b' ',
        c => b'A' + ((c.to_ascii_uppercase() - b'A') + 1 + g.below(25) as u8) % 26,
    };
    let text = String::from_utf8(bytes).unwrap();
    g.text = text.clone();
    let b = match parse_text(&text) {
        Ok(r) => r,
        Err(_) => return Ok(()),
    };
    let (ha, hb) = (tree("header", &a.header)?, tree("header", &b.header)?);
    let (ra, rb) = (tree("record", &a.record)?, tree("record", &b.record)?);
    let (heads, records) = (a.header == b.header, a.record == b.record);
    g.nontrivial = !heads || !records;
    g.label_if(!heads, "headers differ");
    g.label_if(!records, "records differ");
    ensure!(heads || ha != hb, "header-lost", "headers that differ have the same serialised form");
    ensure!(records || ra != rb, "record-lost", "records that differ have the same serialised form");
    if text == d.text || (heads && ha == hb && records && ra == rb) {
        return Ok(());
    }
    // and the same content gives the same form
    let c = parse_text(&text).unwrap();
    let (hc, rc) = (tree("header", &c.header)?, tree("record", &c.record)?);
    // (the current date stands for an unreadable CRINEX PROG / DATE)
    let same = c.header == b.header && c.record == b.record;
    ensure!(!same || hc == hb && rc == rb, "unstable", "{} {}", first(&hc, &hb), first(&rc, &rb));
    Ok(())
}

/// the serialised form of any record tells its kind, and holds the record of that kind
fn members(g: &mut Gen) -> Res {
    let d = doc_cfg(g, &['O', 'M', 'D', 'I'], 4, false);
    g.text = d.text.clone();
    let rnx = match parse_text(&d.text) {
        Ok(r) => r,
        Err(e) => return fail("rejected", format!("well-formed file rejected: {:?}", e)),
    };
    g.nontrivial = size(&rnx.record) > 1;
    // the record as an enumeration member holds the record itself
    let whole = ser("record", &rnx.record)?;
    let name = match &rnx.record {
        Record::ObsRecord(_) => "ObsRecord",
        Record::MeteoRecord(_) => "MeteoRecord",
        Record::DorisRecord(_) => "DorisRecord",
        _ => "IonexRecord",
    };
    macro_rules! member {
        ($t:ty, $r:expr) => {
            match ciborium::from_reader::<BTreeMap<String, $t>, _>(&whole[..]) {
                Ok(m) => {
                    ensure!(m.len() == 1 && m.get(name) == Some($r), "changed", "{:?} instead of {:?}", m, $r);
                },
                Err(e) => return fail("not-read-back", format!("{:?}", e)),
            }
        };
    }
    match &rnx.record {
        Record::ObsRecord(r) => member!(rinex::observation::Record, r),
        Record::MeteoRecord(r) => member!(rinex::meteo::Record, r),
        Record::DorisRecord(r) => member!(rinex::doris::Record, r),
        Record::IonexRecord(r) => member!(rinex::ionex::Record, r),
        _ => {},
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "P32",
        parts: vec![
            Part { name: "restored", run: restored, quick: 30_000, thorough: 1_000_000 },
            Part { name: "told", run: told, quick: 60_000, thorough: 2_000_000 },
            Part { name: "members", run: members, quick: 15_000, thorough: 500_000 },
        ],
        rule: "restored, members: files of any kind parsed, their records and header sections serialised to CBOR and read back; told: two files that differ by one character parsed, the canonical serialised forms compared. Non-trivial when the record has more than one entry (restored, members) or the two data sets differ (told).",
        assumptions: &["the serialised form is taken through CBOR (JSON cannot hold maps whose keys are not text)"],
    }
}
