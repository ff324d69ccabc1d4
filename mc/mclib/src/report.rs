use crate::engine::Choice;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn arr(items: &[String]) -> String {
    format!("[{}]", items.join(","))
}

pub fn root() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| std::env::current_dir().unwrap())
}

pub struct Known {
    entries: Vec<(String, String, String)>,
}

impl Known {
    /// known_findings.txt: `known: property=<id> sig=<signature> :: <what fails>`
    pub fn load() -> Self {
        let mut entries = vec![];
        let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
        for line in text.lines() {
            let Some(rest) = line.strip_prefix("known: property=") else { continue };
            let Some((prop, rest)) = rest.split_once(" sig=") else { continue };
            let Some((sig, what)) = rest.split_once(" :: ") else { continue };
            entries.push((prop.trim().to_string(), sig.trim().to_string(), what.trim().to_string()));
        }
        Known { entries }
    }
    pub fn has(&self, property: &str, sig: &str) -> bool {
        self.entries.iter().any(|(p, s, _)| p == property && s == sig)
    }
    pub fn print(&self, property: &str) {
        for (p, _, what) in &self.entries {
            if p == property {
                println!("KNOWN-FINDING: property={p} {what}");
            }
        }
    }
}

pub fn choices_text(c: &[Choice]) -> String {
    c.iter().map(|(n, p)| format!("{p}/{n}")).collect::<Vec<_>>().join(" ")
}

pub fn parse_choices(s: &str) -> Vec<Choice> {
    s.split_whitespace()
        .filter_map(|t| {
            let (p, n) = t.split_once('/')?;
            Some((n.parse().ok()?, p.parse().ok()?))
        })
        .collect()
}

#[allow(clippy::too_many_arguments)]
pub fn write_replay(
    property: &str,
    tier: &str,
    scenario: &str,
    sig: &str,
    msg: &str,
    choices: &[Choice],
    notes: &[String],
) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{property}-{tier}.txt"));
    let mut t = String::new();
    let _ = writeln!(t, "property: {property}");
    let _ = writeln!(t, "tier: {tier}");
    let _ = writeln!(t, "scenario: {scenario}");
    let _ = writeln!(t, "signature: {sig}");
    let _ = writeln!(t, "choices: {}", choices_text(choices));
    let _ = writeln!(t, "message: {}", msg.replace('\n', "\n  "));
    let _ = writeln!(t, "trace:");
    for n in notes {
        let _ = writeln!(t, "  {}", n.replace('\n', "\n    "));
    }
    let _ = std::fs::write(&path, t);
    path
}

pub struct Replay {
    pub property: String,
    pub tier: String,
    pub scenario: String,
    pub choices: Vec<Choice>,
}

pub fn read_replay(path: &Path) -> Option<Replay> {
    let text = std::fs::read_to_string(path).ok()?;
    let get = |k: &str| {
        text.lines().find_map(|l| l.strip_prefix(k).map(|v| v.trim().to_string())).unwrap_or_default()
    };
    Some(Replay {
        property: get("property:"),
        tier: get("tier:"),
        scenario: get("scenario:"),
        choices: parse_choices(&get("choices:")),
    })
}
