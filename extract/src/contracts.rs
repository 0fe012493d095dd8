//! Reader for the contract files (proof/*.vc).
//!
//! A contract file is line based.  `#directive` lines start a section, `:clause` lines a clause of
//! the current `#fn` section; every other line continues the clause (or text block) before it.
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Clause {
    pub props: Vec<String>,
    pub text: String,
    /// loop invariant that need not hold where the loop is left by `break`
    pub xb: bool,
}

#[derive(Clone, Debug, Default)]
pub struct LoopC {
    pub inv: Vec<Clause>,
    pub ens: Vec<Clause>,
    pub dec: Option<String>,
    pub start: String,
    pub end: String,
    pub before: String,
    pub after: String,
}

#[derive(Clone, Debug, Default)]
pub struct FnC {
    pub ret: String,
    pub props: Vec<String>,
    pub req: Vec<Clause>,
    pub ens: Vec<Clause>,
    pub dec: Option<String>,
    pub attrs: Vec<String>,
    pub start: String,
    pub rets: String,
    pub loops: BTreeMap<usize, LoopC>,
    pub nloops: Option<usize>,
    pub trusted: Option<String>,
    pub hints: BTreeMap<String, String>,
    /// Proof text placed after the k-th statement containing a call of the named function.
    pub after_call: Vec<(String, usize, String)>,
    pub before_call: Vec<(String, usize, String)>,
    pub sig: Option<String>,
    pub nodecr: bool,
    pub tail_of: Vec<(String, usize, String)>,
}

#[derive(Clone, Debug, Default)]
pub struct FileC {
    pub path: String,
    pub module: String,
    pub head: String,
    pub tail: String,
    pub drops: Vec<(String, String)>,
    pub fns: BTreeMap<String, FnC>,
    pub generics: Vec<(String, String, String)>, // type, generic name, bound
    pub trait_extra: BTreeMap<String, String>,
    pub impl_extra: BTreeMap<String, String>,
    pub derives: BTreeMap<String, Vec<String>>,
    pub rename_items: BTreeMap<String, String>,
    /// identifiers renamed throughout the file (types of the same name in several files)
    pub idents: BTreeMap<String, String>,
}

#[derive(Clone, Debug, Default)]
pub struct Common {
    pub method_rename: BTreeMap<String, String>,
    pub path_rename: BTreeMap<String, String>,
    pub type_rename: BTreeMap<String, String>,
    pub effects: Vec<String>,
    pub pure: Vec<String>,
    pub option_methods: Vec<String>,
    pub result_methods: Vec<String>,
    pub moving: Vec<String>,
    pub droppable: Vec<String>,
    pub devirt: Vec<(String, String)>,
}

fn tags(s: &str) -> (Vec<String>, String) {
    let t = s.trim_start();
    if let Some(r) = t.strip_prefix('[') {
        if let Some(i) = r.find(']') {
            let inner = &r[..i];
            let ok = !inner.is_empty()
                && inner
                    .split(',')
                    .all(|x| x.trim().len() == 3 && x.trim().starts_with('C'));
            if ok {
                return (
                    inner.split(',').map(|x| x.trim().to_string()).collect(),
                    r[i + 1..].to_string(),
                );
            }
        }
    }
    (vec![], s.to_string())
}

/// Replace `b"..."` in contract text by `seq![..]`.
pub fn bytes_lits(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'b' && i + 1 < b.len() && b[i + 1] == b'"' && (i == 0 || !(b[i - 1] as char).is_alphanumeric() && b[i - 1] != b'_') {
            let mut j = i + 2;
            let mut v = vec![];
            while b[j] != b'"' {
                if b[j] == b'\\' {
                    j += 1;
                    v.push(match b[j] {
                        b'n' => b'\n',
                        b'0' => 0,
                        b'r' => b'\r',
                        x => x,
                    });
                } else {
                    v.push(b[j]);
                }
                j += 1;
            }
            if v.is_empty() {
                out.push_str("(Seq::<u8>::empty())");
            } else {
                let items: Vec<String> = v.iter().map(|x| format!("{}u8", x)).collect();
                out.push_str(&format!("(seq![{}])", items.join(", ")));
            }
            i = j + 1;
        } else {
            let c = s[i..].chars().next().unwrap();
            out.push(c);
            i += c.len_utf8();
        }
    }
    out
}

pub fn parse(text: &str, common: &mut Common) -> Vec<FileC> {
    let mut files: Vec<FileC> = vec![];
    let mut curfn: Option<String> = None;
    let mut curloop: Option<usize> = None;
    // where continuation lines go
    enum Slot {
        None,
        Head,
        Tail,
        TraitExtra(String),
        ImplExtra(String),
        Clause(String, Option<usize>, usize), // kind, loop, index
    }
    let mut slot = Slot::None;
    let mut in_text = false;
    for (ln, line) in text.lines().enumerate() {
        let line = line.trim_end();
        if in_text {
            if line == "#end" {
                in_text = false;
                slot = Slot::None;
                continue;
            }
        } else if line.starts_with("//") || line.is_empty() {
            continue;
        }
        if !in_text && line.starts_with('#') {
            let mut it = line[1..].splitn(2, ' ');
            let d = it.next().unwrap();
            let rest = it.next().unwrap_or("").trim();
            let words: Vec<&str> = rest.split_whitespace().collect();
            match d {
                "file" => {
                    files.push(FileC {
                        path: words[0].into(),
                        module: words[1].into(),
                        ..Default::default()
                    });
                    slot = Slot::None;
                    curfn = None;
                }
                "text" => {
                    in_text = true;
                    slot = Slot::Head;
                }
                "tailtext" => {
                    in_text = true;
                    slot = Slot::Tail;
                }
                "trait_extra" => {
                    in_text = true;
                    slot = Slot::TraitExtra(rest.into());
                }
                "impl_extra" => {
                    in_text = true;
                    slot = Slot::ImplExtra(rest.into());
                }
                "drop" => {
                    let (a, b) = rest.split_once(" : ").unwrap_or((rest, ""));
                    files.last_mut().unwrap().drops.push((a.trim().into(), b.into()));
                }
                "generic" => {
                    let f = files.last_mut().unwrap();
                    f.generics.push((words[0].into(), words[1].into(), words[2..].join(" ")));
                }
                "derive" => {
                    files
                        .last_mut()
                        .unwrap()
                        .derives
                        .insert(words[0].into(), words[1..].iter().map(|x| x.to_string()).collect());
                }
                "fn" => {
                    files.last_mut().unwrap().fns.entry(rest.into()).or_default();
                    curfn = Some(rest.into());
                    curloop = None;
                    slot = Slot::None;
                }
                "method" => {
                    common.method_rename.insert(words[0].into(), words[1].into());
                }
                "path" => {
                    common.path_rename.insert(words[0].into(), words[1].into());
                }
                "type" => {
                    let (a, b) = rest.split_once(" => ").expect("type rename");
                    common.type_rename.insert(a.trim().into(), b.trim().into());
                }
                "pure" => common.pure.extend(words.iter().map(|x| x.to_string())),
                "effect" => common.effects.extend(words.iter().map(|x| x.to_string())),
                "option" => common.option_methods.extend(words.iter().map(|x| x.to_string())),
                "result" => common.result_methods.extend(words.iter().map(|x| x.to_string())),
                "ident" => {
                    files.last_mut().unwrap().idents.insert(words[0].into(), words[1].into());
                }
                "droppable" => common.droppable.extend(words.iter().map(|x| x.to_string())),
                "devirt" => common.devirt.push((words[0].into(), words[1].into())),
                "ftype" => {
                    let (a, b) = rest.split_once(" => ").expect("type rename");
                    files.last_mut().unwrap().rename_items.insert(a.trim().into(), b.trim().into());
                }
                "fmethod" => {
                    files.last_mut().unwrap().rename_items.insert(format!(".{}", words[0]), words[1].into());
                }
                "moving" => common.moving.extend(words.iter().map(|x| x.to_string())),
                _ => panic!("line {}: unknown directive {}", ln + 1, line),
            }
            continue;
        }
        if !in_text && line.starts_with(':') {
            let mut it = line[1..].splitn(2, ' ');
            let d = it.next().unwrap();
            let rest = it.next().unwrap_or("");
            let name = curfn.clone().unwrap_or_else(|| panic!("line {}: clause outside fn", ln + 1));
            let f = files.last_mut().unwrap().fns.get_mut(&name).unwrap();
            let (props, body) = tags(rest);
            let words: Vec<&str> = rest.split_whitespace().collect();
            match d {
                "ret" => f.ret = rest.trim().into(),
                "props" => f.props = words.iter().map(|x| x.to_string()).collect(),
                "attr" => f.attrs.push(rest.into()),
                "trusted" => f.trusted = Some(rest.into()),
                "nodecr" => f.nodecr = true,
                "sig" => {
                    f.sig = Some(rest.into());
                }
                "opt" => {
                    for w in &words {
                        f.hints.insert(w.to_string(), "option".into());
                    }
                }
                "res" => {
                    for w in &words {
                        f.hints.insert(w.to_string(), "result".into());
                    }
                }
                "nloops" => f.nloops = Some(words[0].parse().unwrap()),
                "loop" => {
                    let k: usize = words[0].parse().unwrap();
                    f.loops.entry(k).or_default();
                    curloop = Some(k);
                }
                "req" => {
                    f.req.push(Clause { props, text: body, xb: d == "invx" });
                    slot = Slot::Clause("req".into(), None, f.req.len() - 1);
                }
                "ens" => {
                    f.ens.push(Clause { props, text: body, xb: d == "invx" });
                    slot = Slot::Clause("ens".into(), None, f.ens.len() - 1);
                }
                "dec" => {
                    if let Some(k) = curloop {
                        f.loops.get_mut(&k).unwrap().dec = Some(rest.into());
                    } else {
                        f.dec = Some(rest.into());
                    }
                    slot = Slot::None;
                }
                "inv" | "invx" => {
                    let k = curloop.expect("inv outside loop");
                    let l = f.loops.get_mut(&k).unwrap();
                    l.inv.push(Clause { props, text: body, xb: d == "invx" });
                    slot = Slot::Clause("inv".into(), Some(k), l.inv.len() - 1);
                }
                "lens" => {
                    let k = curloop.expect("lens outside loop");
                    let l = f.loops.get_mut(&k).unwrap();
                    l.ens.push(Clause { props, text: body, xb: d == "invx" });
                    slot = Slot::Clause("lens".into(), Some(k), l.ens.len() - 1);
                }
                "start" => {
                    f.start.push_str(rest);
                    slot = Slot::Clause("start".into(), None, 0);
                }
                "rets" => {
                    f.rets.push_str(rest);
                    slot = Slot::Clause("rets".into(), None, 0);
                }
                "lstart" | "lend" | "lbefore" | "lafter" => {
                    let k = curloop.expect("outside loop");
                    slot = Slot::Clause(d.into(), Some(k), 0);
                    let l = f.loops.get_mut(&k).unwrap();
                    let t = match d {
                        "lstart" => &mut l.start,
                        "lend" => &mut l.end,
                        "lbefore" => &mut l.before,
                        _ => &mut l.after,
                    };
                    t.push_str(rest);
                    t.push('\n');
                }
                "after" | "before" | "tailof" => {
                    let (n, k) = match words[0].split_once('#') {
                        Some((a, b)) => (a.to_string(), b.parse().unwrap()),
                        None => (words[0].to_string(), 0usize),
                    };
                    let t = rest[words[0].len() + rest.find(words[0]).unwrap()..].to_string();
                    let v = match d { "after" => &mut f.after_call, "before" => &mut f.before_call, _ => &mut f.tail_of };
                    v.push((n, k, t));
                    let idx = v.len() - 1;
                    slot = Slot::Clause(d.into(), None, idx);
                }
                _ => panic!("line {}: unknown clause {}", ln + 1, line),
            }
            continue;
        }
        // continuation
        match &slot {
            Slot::None => panic!("line {}: stray text: {}", ln + 1, line),
            Slot::Head => {
                let f = files.last_mut().unwrap();
                f.head.push_str(line);
                f.head.push('\n');
            }
            Slot::Tail => {
                let f = files.last_mut().unwrap();
                f.tail.push_str(line);
                f.tail.push('\n');
            }
            Slot::TraitExtra(n) => {
                let e = files.last_mut().unwrap().trait_extra.entry(n.clone()).or_default();
                e.push_str(line);
                e.push('\n');
            }
            Slot::ImplExtra(n) => {
                let e = files.last_mut().unwrap().impl_extra.entry(n.clone()).or_default();
                e.push_str(line);
                e.push('\n');
            }
            Slot::Clause(kind, lp, idx) => {
                let f = files
                    .last_mut()
                    .unwrap()
                    .fns
                    .get_mut(curfn.as_ref().unwrap())
                    .unwrap();
                let t: &mut String = match (kind.as_str(), lp) {
                    ("req", _) => &mut f.req[*idx].text,
                    ("ens", _) => &mut f.ens[*idx].text,
                    ("start", _) => &mut f.start,
                    ("rets", _) => &mut f.rets,
                    ("after", _) => &mut f.after_call[*idx].2,
                    ("before", _) => &mut f.before_call[*idx].2,
                    ("tailof", _) => &mut f.tail_of[*idx].2,
                    ("inv", Some(k)) => &mut f.loops.get_mut(k).unwrap().inv[*idx].text,
                    ("lens", Some(k)) => &mut f.loops.get_mut(k).unwrap().ens[*idx].text,
                    ("lstart", Some(k)) => &mut f.loops.get_mut(k).unwrap().start,
                    ("lend", Some(k)) => &mut f.loops.get_mut(k).unwrap().end,
                    ("lbefore", Some(k)) => &mut f.loops.get_mut(k).unwrap().before,
                    ("lafter", Some(k)) => &mut f.loops.get_mut(k).unwrap().after,
                    _ => unreachable!(),
                };
                t.push('\n');
                t.push_str(line);
            }
        }
    }
    files
}
