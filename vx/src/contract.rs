//! Parser of the side-car contract files (contracts/*.vc).
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub key: String,
    /// options: ret=<name> inst=P:Point3 as=<method|trait:T|free:NAME> rename=NAME attr=... external
    pub opts: BTreeMap<String, Vec<String>>,
    pub spec: String,
    pub loops: BTreeMap<String, String>,
    pub ghost: BTreeMap<String, String>,
}
impl FnContract {
    pub fn opt(&self, k: &str) -> Option<&str> {
        self.opts.get(k).and_then(|v| v.first()).map(|s| s.as_str())
    }
    pub fn opts_all(&self, k: &str) -> Vec<String> {
        self.opts.get(k).cloned().unwrap_or_default()
    }
}

#[derive(Clone, Debug)]
pub enum Section {
    Raw(String),
    Struct { name: String, opts: BTreeMap<String, Vec<String>> },
    Fn(FnContract),
}

#[derive(Default, Debug)]
pub struct Unit {
    pub includes: Vec<String>,
    pub sections: Vec<Section>,
    pub opts: BTreeMap<String, Vec<String>>,
}

fn parse_opts(words: &[&str]) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for w in words {
        match w.split_once('=') {
            Some((k, v)) => m.entry(k.to_string()).or_default().push(v.to_string()),
            None => m.entry(w.to_string()).or_default().push(String::new()),
        }
    }
    m
}

impl Unit {
    pub fn parse(text: &str) -> Result<Unit, String> {
        let mut u = Unit::default();
        enum Cur {
            None,
            Raw,
            Spec,
            Loop(String),
            Ghost(String),
        }
        let mut cur = Cur::None;
        let mut buf = String::new();
        let mut curfn: Option<FnContract> = None;
        fn flush(u: &mut Unit, cur: &Cur, buf: &mut String, f: &mut Option<FnContract>) {
            let t = std::mem::take(buf);
            match cur {
                Cur::None => {}
                Cur::Raw => u.sections.push(Section::Raw(t)),
                Cur::Spec => f.as_mut().unwrap().spec.push_str(&t),
                Cur::Loop(k) => {
                    f.as_mut().unwrap().loops.insert(k.clone(), t);
                }
                Cur::Ghost(k) => {
                    f.as_mut().unwrap().ghost.insert(k.clone(), t);
                }
            }
        }
        for (ln, line) in text.lines().enumerate() {
            if let Some(d) = line.strip_prefix("//@") {
                flush(&mut u, &cur, &mut buf, &mut curfn);
                let words: Vec<&str> = d.split_whitespace().collect();
                match words.first().copied() {
                    Some("include") => {
                        for w in &words[1..] {
                            if !u.includes.iter().any(|x| x == w) {
                                u.includes.push(w.to_string());
                            }
                        }
                        cur = Cur::None;
                    }
                    Some("set") => {
                        for (k, v) in parse_opts(&words[1..]) {
                            u.opts.entry(k).or_default().extend(v);
                        }
                        cur = Cur::None;
                    }
                    Some("raw") => {
                        if let Some(f) = curfn.take() {
                            u.sections.push(Section::Fn(f));
                        }
                        cur = Cur::Raw;
                    }
                    Some("struct") => {
                        if let Some(f) = curfn.take() {
                            u.sections.push(Section::Fn(f));
                        }
                        u.sections.push(Section::Struct {
                            name: words[1].to_string(),
                            opts: parse_opts(&words[2..]),
                        });
                        cur = Cur::None;
                    }
                    Some("fn") => {
                        if let Some(f) = curfn.take() {
                            u.sections.push(Section::Fn(f));
                        }
                        let key = words[1].replace('~', " ");
                        curfn = Some(FnContract {
                            key,
                            opts: parse_opts(&words[2..]),
                            ..Default::default()
                        });
                        cur = Cur::Spec;
                    }
                    Some("loop") => cur = Cur::Loop(words[1].to_string()),
                    Some("ghost") => cur = Cur::Ghost(words[1].to_string()),
                    Some("end") | Some("#") => {
                        cur = Cur::None;
                    }
                    other => return Err(format!("line {}: unknown directive {:?}", ln + 1, other)),
                }
            } else {
                buf.push_str(line);
                buf.push('\n');
            }
        }
        flush(&mut u, &cur, &mut buf, &mut curfn);
        if let Some(f) = curfn.take() {
            u.sections.push(Section::Fn(f));
        }
        Ok(u)
    }
}
