//! Answers "hex(pattern) hex(text)" lines with the matches the regular expression engine finds from every position.
//! Positions are counted in characters: "s,e;s,e;-|..." per position, "-" for no match, "!" for an engine error.
use std::collections::HashMap;
use std::io::{BufRead, Write};

fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect();
    String::from_utf8(b).unwrap()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    let mut cache: HashMap<String, Option<fancy_regex::Regex>> = HashMap::new();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let (p, t) = line.split_once(' ').unwrap();
        let re = cache
            .entry(p.to_string())
            .or_insert_with(|| fancy_regex::Regex::new(&unhex(p)).ok());
        let text = unhex(t);
        let re = match re {
            Some(re) => re,
            None => {
                writeln!(out, "E").unwrap();
                out.flush().unwrap();
                continue;
            }
        };
        let mut nth = vec![0; text.len() + 1];
        let mut n = 0;
        let mut starts = vec![];
        for (i, _) in text.char_indices() {
            nth[i] = n;
            starts.push(i);
            n += 1;
        }
        nth[text.len()] = n;
        starts.push(text.len());
        let res: Vec<String> = starts
            .iter()
            .map(|pos| match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| re.captures_from_pos(&text, *pos))) {
                Err(_) | Ok(Err(_)) => "!".to_string(),
                Ok(Ok(None)) => "-".to_string(),
                Ok(Ok(Some(c))) => (0..c.len())
                    .map(|i| match c.get(i) {
                        Some(m) => format!("{},{}", nth[m.start()], nth[m.end()]),
                        None => "-".to_string(),
                    })
                    .collect::<Vec<_>>()
                    .join(";"),
            })
            .collect();
        writeln!(out, "{}", res.join("|")).unwrap();
        out.flush().unwrap();
        if cache.len() > 20000 {
            cache.clear();
        }
    }
}
