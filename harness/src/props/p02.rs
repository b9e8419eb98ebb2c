//! P02 Structural consistency

use crate::engine::*;
use crate::model::apply_meta;
use crate::props::p01;
use crate::{ensure, zipparse};

fn check(c: &p01::Case, cov: &mut Cov) -> Res {
    let (names, contents, out) = p01::produce(c)?;
    let p = zipparse::parse_mem(&out)?;
    ensure!(p.entries.len() == names.len(), "{} entries in central directory, {} were added", p.entries.len(), names.len());
    for (i, e) in p.entries.iter().enumerate() {
        ensure!(e.name == names[i].as_bytes(), "entry {i}: wrong name");
        ensure!(e.size == contents[i].len() as u64, "entry {i}: size {}, true size {}", e.size, contents[i].len());
        ensure!(e.crc == crc32fast::hash(&contents[i]), "entry {i}: CRC {:08x}", e.crc);
        ensure!(
            out[e.data_off as usize..e.desc_off as usize] == contents[i][..],
            "entry {i}: data are not at the recorded place"
        );
    }
    // Metadata have no influence on the structure
    let mut b: zippity::Builder<Vec<u8>> = zippity::Builder::new();
    for (n, d) in names.iter().zip(&contents) {
        b.add_entry(n.clone(), d.clone()).map_err(|e| e.to_string())?;
    }
    let plain = zipparse::parse_mem(&crate::exec::plain_archive(b)?)?;
    ensure!(plain.boundaries == p.boundaries, "record boundaries depend on metadata or schedule");
    cov.nontrivial(names.len() > 1);
    cov.label_if(c.has_meta(), "with metadata");
    cov.add("entries", names.len() as u64);
    let _ = apply_meta::<Vec<u8>>;
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P02",
        rule: "Case = entry table (all classes of names, contents, metadata, source schedules, buffer sizes), complete read, parsed by the strict \
parser of the harness. Non-trivial: at least two entries.",
        assumptions: &["The strict parser in harness/src/zipparse.rs implements APPNOTE 6.3.9 for stored entries"],
        parts: vec![Box::new(Part { name: "structure", quick: 80_000, thorough: 8_000_000, strat: p01::strat, check })],
    }
}
