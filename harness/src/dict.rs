//! Words and numbers found in the sources of the code under test. They steer the workload towards
//! thresholds and special cases written there; verdicts never depend on them.
use std::path::Path;

#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<i64>,
    pub strings: Vec<String>,
    /// as they are written
    pub floats: Vec<String>,
    /// the strings that are words
    pub words: Vec<String>,
}

impl Dict {
    /// For the arguments of a child process
    pub fn encode(&self) -> String {
        let hex = |s: &String| s.bytes().map(|b| format!("{b:02x}")).collect::<String>();
        let mut v: Vec<String> = self.ints.iter().map(|i| format!("i{i}")).collect();
        v.extend(self.floats.iter().map(|s| format!("f{}", hex(s))));
        v.extend(self.strings.iter().map(|s| format!("s{}", hex(s))));
        v.extend(self.words.iter().map(|s| format!("w{}", hex(s))));
        format!("-{}", v.join(","))
    }
    pub fn decode(s: &str) -> Dict {
        let text = |h: &str| -> String {
            let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(h.get(2 * i..2 * i + 2)?, 16).ok()).collect();
            String::from_utf8(b).unwrap_or_default()
        };
        let mut d = Dict::default();
        for x in s.trim_start_matches('-').split(',') {
            match (x.get(..1), x.get(1..)) {
                (Some("i"), Some(v)) => d.ints.extend(v.parse::<i64>().ok()),
                (Some("f"), Some(v)) => d.floats.push(text(v)),
                (Some("s"), Some(v)) => d.strings.push(text(v)),
                (Some("w"), Some(v)) => d.words.push(text(v)),
                _ => {}
            }
        }
        d
    }
}

pub fn mine(root: &Path) -> Dict {
    let mut d = Dict::default();
    let mut dirs = vec![root.to_path_buf()];
    while let Some(dir) = dirs.pop() {
        let Ok(entries) = std::fs::read_dir(&dir) else {
            continue;
        };
        let mut paths: Vec<_> = entries.flatten().map(|e| e.path()).collect();
        paths.sort();
        for p in paths {
            if p.is_dir() {
                dirs.push(p);
            } else if p.extension().map_or(false, |e| e == "rs")
                && p.file_name().map_or(false, |n| n != "tests.rs" && n != "verif_hooks.rs")
            {
                if let Ok(s) = std::fs::read_to_string(&p) {
                    mine_source(&s, &mut d);
                }
            }
        }
    }
    // what has long been there needs no steering to
    d.ints.retain(|i| !(0..4).contains(i));
    d.strings.retain(|s| !USUAL.contains(&s.as_str()));
    d.ints.sort();
    d.ints.dedup();
    d.floats.sort();
    d.floats.dedup();
    d.strings.sort();
    d.strings.dedup();
    d.words = d
        .strings
        .iter()
        .filter(|s| crate::gen::is_word(s))
        .cloned()
        .collect();
    d
}

const USUAL: &[&str] = &[
    "\t", "\n", "\r", " ", "!", "\"", "'Z", "(L{}, C{})", "({}, {})", "+", ",", "-", ".", "...", "0", "9", ":", "?", "_", "{:?} -> {:?}",
    "Proc macro IterableEnum can only be implemented to enums", "Proc macro ToStringSlice can only be implemented to enums",
    "{:?}{:?}", "\u{2026}", "({} C {})", "{} {}",
];

const LIMITS: &[(&str, i64)] = &[
    ("u8::MAX", 255), ("i8::MAX", 127), ("u16::MAX", 65535), ("i16::MAX", 32767), ("i32::MAX", i32::MAX as i64), ("i32::MIN", i32::MIN as i64),
    ("as u8", 256), ("as i8", 128), ("as u16", 65536), ("as i16", 32768),
];

/// What comes behind a backslash: the character, and how long its spelling is
fn escape(cs: &[char]) -> Option<(char, usize)> {
    match cs.first()? {
        'n' => Some(('\n', 1)),
        't' => Some(('\t', 1)),
        'r' => Some(('\r', 1)),
        '0' => Some(('\0', 1)),
        'x' => {
            let h: String = cs.iter().skip(1).take(2).collect();
            Some((u8::from_str_radix(&h, 16).ok()? as char, 3))
        }
        'u' => {
            let h: String = cs.iter().skip(2).take_while(|c| **c != '}').collect();
            Some((char::from_u32(u32::from_str_radix(&h, 16).ok()?)?, h.len() + 3))
        }
        c => Some((*c, 1)),
    }
}

fn mine_source(s: &str, d: &mut Dict) {
    // leave the unit tests out
    let mut lines = s.lines();
    while let Some(line) = lines.next() {
        if line.trim() == "#[cfg(test)]" {
            let indent = &line[..line.len() - line.trim_start().len()];
            let mut item = false;
            for l in lines.by_ref() {
                let t = l.trim_end();
                item |= !t.trim_start().starts_with("#[") && !t.trim_start().starts_with("//");
                if item && (t.ends_with(';') || t.ends_with("{}")) && t.starts_with(indent) && !t[indent.len()..].starts_with(' ')
                    || t == format!("{indent}}}")
                {
                    break;
                }
            }
            continue;
        }
        let line = line.trim();
        if line.starts_with("//") {
            continue;
        }
        let cs: Vec<char> = line.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            if cs[i] == '"' {
                let mut t = String::new();
                let mut j = i + 1;
                while j < cs.len() && cs[j] != '"' {
                    if cs[j] == '\\' && j + 1 < cs.len() {
                        j += 1;
                        if let Some((c, n)) = escape(&cs[j..]) {
                            t.push(c);
                            j += n - 1;
                        }
                    } else {
                        t.push(cs[j]);
                    }
                    j += 1;
                }
                if !t.is_empty() && t.len() < 80 {
                    d.strings.push(t);
                }
                i = j + 1;
            } else if cs[i] == '\'' && cs.get(i + 1) == Some(&'\\') {
                match escape(&cs[i + 2..]) {
                    Some((c, n)) => {
                        d.strings.push(c.to_string());
                        i += 2 + n;
                    }
                    None => i += 2,
                }
            } else if cs[i] == '\'' && cs.get(i + 2) == Some(&'\'') {
                d.strings.push(cs[i + 1].to_string());
                i += 3;
            } else if let Some((name, v)) = LIMITS.iter().find(|l| cs[i..].starts_with(&l.0.chars().collect::<Vec<_>>())) {
                d.ints.push(*v);
                i += name.len();
            } else if cs[i].is_ascii_digit()
                && (i == 0 || !(cs[i - 1].is_alphanumeric() || cs[i - 1] == '_'))
            {
                let mut j = i;
                let mut t = String::new();
                let hex = cs[i] == '0' && cs.get(i + 1) == Some(&'x');
                if hex {
                    j += 2;
                }
                while j < cs.len() && (cs[j].is_ascii_hexdigit() && hex || cs[j].is_ascii_digit() || cs[j] == '_') {
                    if cs[j] != '_' {
                        t.push(cs[j]);
                    }
                    j += 1;
                }
                if let Ok(v) = i64::from_str_radix(&t, if hex { 16 } else { 10 }) {
                    d.ints.push(v);
                    // 1 << 12, 4 * 1024
                    let rest: String = cs[j..].iter().collect();
                    let number = |s: &str| s.trim_start().chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<i64>().ok();
                    let rest = rest.trim_start();
                    if let Some(n) = rest.strip_prefix("<<").and_then(number) {
                        d.ints.extend(v.checked_shl(n as u32));
                    } else if let Some(n) = rest.strip_prefix('*').and_then(number) {
                        d.ints.extend(v.checked_mul(n));
                    }
                    // 3.25
                    if !hex && cs.get(j) == Some(&'.') && cs.get(j + 1).map_or(false, |c| c.is_ascii_digit()) {
                        let mut k = j + 1;
                        while k < cs.len() && (cs[k].is_ascii_digit() || cs[k] == '_') {
                            k += 1;
                        }
                        d.floats.push(cs[i..k].iter().filter(|c| **c != '_').collect());
                        j = k;
                    }
                }
                i = j.max(i + 1);
            } else {
                i += 1;
            }
        }
    }
}
