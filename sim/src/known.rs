//! Genuine defects that are recorded and not repaired: each is pinned to one input,
//! which is tried on every run of the check it belongs to.

use crate::run::guarded;
use postscript::compact1::Encoding;
use postscript::tape::Read as _;

pub struct Known {
    pub property: String,
    pub id: String,
    pub text: String,
}

/// The lines `known: property=<property> id=<id> <what fails>` of the file.
pub fn list(property: &str) -> Vec<Known> {
    let Ok(text) = std::fs::read_to_string("known_findings.txt") else { return vec![] };
    text.lines()
        .filter_map(|line| {
            let mut words = line.strip_prefix("known: ")?.splitn(3, ' ');
            let entry = Known {
                property: words.next()?.strip_prefix("property=")?.into(),
                id: words.next()?.strip_prefix("id=")?.into(),
                text: words.next()?.into(),
            };
            (entry.property == property).then_some(entry)
        })
        .collect()
}

/// Exit code 0: the finding is there; 1: it is gone.
pub fn child(id: &str) -> i32 {
    match id {
        "supplemental-encoding" => {
            // Format 0 with the supplement bit: two codes, then one supplement.
            let bytes: &[u8] = &[0x80, 2, 7, 9, 1, 65, 1, 44];
            let read = guarded(|| std::io::Cursor::new(bytes).take::<Encoding>());
            let right = match read {
                Some(Ok(Encoding::FormatSupplemental(e))) => {
                    e.supplements.len() == 1 && e.supplements[0].code == 65 && e.supplements[0].glyph == 300
                }
                _ => false,
            };
            right as i32
        }
        _ => 2,
    }
}
