//! Class files produced by javac, committed under /verif/corpus.
use std::fs;
use std::path::Path;

/// (name, bytes), in the order of their names, those up to `max` bytes.
pub fn files(max: usize) -> Vec<(String, Vec<u8>)> {
    let dir = Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().join("corpus");
    let mut v = Vec::new();
    for e in fs::read_dir(dir).expect("harness: corpus") {
        let p = e.expect("harness: corpus").path();
        if p.extension().map_or(false, |x| x == "class") {
            let b = fs::read(&p).expect("harness: corpus");
            if b.len() <= max {
                v.push((p.file_name().unwrap().to_string_lossy().into_owned(), b));
            }
        }
    }
    v.sort();
    assert!(!v.is_empty(), "harness: empty corpus");
    v
}
