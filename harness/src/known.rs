//! The list of defects found and not repaired, /verif/known-findings.txt. Lines read
//! `known: property=<id> key=<key> <what fails>`; only what a check recognises by its key
//! is affected.

use std::sync::OnceLock;

static LIST: OnceLock<Vec<(String, String, String)>> = OnceLock::new();

pub fn load(text: &str) {
    let v = text
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (id, l) = l.split_once(" key=")?;
            let (key, what) = l.split_once(' ')?;
            Some((id.to_string(), key.to_string(), what.to_string()))
        })
        .collect();
    let _ = LIST.set(v);
}

/// What fails, if this is listed.
pub fn listed(id: &str, key: &str) -> Option<String> {
    LIST.get()?.iter().find(|x| x.0 == id && x.1 == key).map(|x| x.2.clone())
}
