//! Contract files.
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Clause {
    pub tags: Vec<String>,
    pub text: String,
    pub line: usize,
    pub file: String,
}

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub ret: Option<String>,
    pub sem: Vec<String>,
    pub requires: Vec<Clause>,
    pub ensures: Vec<Clause>,
    pub decreases: Option<String>,
    pub attrs: Vec<String>,
    pub entry: String,
    pub exit: String,
    pub exitvar: Option<String>,
    pub loops: BTreeMap<usize, LoopSpec>,
    pub at: Vec<(String, String)>,
    pub lits: BTreeMap<String, String>,
    pub inline: bool,
    pub props: Vec<String>,
    pub closures: BTreeMap<usize, String>,
    pub sorted: BTreeMap<usize, String>,
    pub params: Option<Vec<String>>,
    pub skip: Option<String>,
    pub trusted: Option<String>,
    pub used: bool,
}

#[derive(Clone, Debug, Default)]
pub struct LoopSpec {
    pub kind: String,
    pub spec: String,
    pub pre: String,
    pub head: String,
    pub some: String,
    pub none: String,
    pub post: String,
}

#[derive(Clone, Debug, Default)]
pub struct Db {
    pub fns: BTreeMap<String, FnSpec>,
    /// text put at the start of a module
    pub raw: BTreeMap<String, String>,
    /// text appended to an impl/trait: key "module::impl header key"
    pub imp: BTreeMap<String, (String, bool)>,
    /// type attributes: key "module::Type"
    pub attrs: BTreeMap<String, Vec<String>>,
    /// extra struct fields
    pub fields: BTreeMap<String, Vec<String>>,
    /// values of the extra fields in struct literals: type -> (field, ghost expression)
    pub lits: BTreeMap<String, Vec<(String, String)>>,
    /// items to drop, with reason
    pub drop: BTreeMap<String, String>,
    /// `impl Iterator for X` turned into an inherent impl
    pub inherent: BTreeMap<String, String>,
    /// traits whose default methods move to an extension trait
    pub ext: BTreeMap<String, String>,
    /// path rewrites: module -> (from, to)
    pub paths: Vec<(String, String, String)>,
    /// lemmas instantiated automatically in a module
    pub broadcast: BTreeMap<String, Vec<String>>,
    /// (function, loop) -> what the body assigns in the code the invariant was written for
    pub loopsets: BTreeMap<(String, usize), Vec<String>>,
    /// parameter names the contracts are written in
    pub params: BTreeMap<String, Vec<String>>,
}

impl Db {
    pub fn load(dir: &str) -> Db {
        let mut db = Db::default();
        let mut files: Vec<_> = std::fs::read_dir(dir)
            .unwrap()
            .map(|x| x.unwrap().path())
            .filter(|p| p.extension().map(|e| e == "vspec").unwrap_or(false))
            .collect();
        files.sort();
        for f in files {
            let name = f.file_name().unwrap().to_string_lossy().to_string();
            let t = std::fs::read_to_string(&f).unwrap();
            db.parse(&name, &t);
        }
        if let Ok(t) = std::fs::read_to_string(format!("{dir}/params.txt")) {
            for l in t.lines() {
                if let Some((k, v)) = l.split_once('\t') {
                    db.params.insert(k.into(), v.split_whitespace().map(|x| x.to_string()).collect());
                }
            }
        }
        if let Ok(t) = std::fs::read_to_string(format!("{dir}/loops.txt")) {
            for l in t.lines() {
                let mut f = l.split('\t');
                if let (Some(k), Some(Ok(n)), Some(v)) = (f.next(), f.next().map(|x| x.parse::<usize>()), f.next()) {
                    db.loopsets.insert((k.into(), n), v.split_whitespace().map(|x| x.to_string()).collect());
                }
            }
        }
        db
    }

    fn parse(&mut self, file: &str, text: &str) {
        let mut module = String::new();
        #[derive(Clone)]
        enum Ctx {
            None,
            Raw,
            Impl(String),
            Fn(String),
        }
        let mut ctx = Ctx::None;
        // current @-section of a fn
        let mut sec: Option<(String, String, usize)> = None; // (header, body, line)
        let mut flush = |db: &mut Db, ctx: &Ctx, sec: &mut Option<(String, String, usize)>| {
            if let (Ctx::Fn(path), Some((h, b, line))) = (ctx, sec.take()) {
                let e = db.fns.get_mut(path).unwrap();
                add_section(e, file, &h, &b, line);
            }
        };
        for (n, l) in text.lines().enumerate() {
            if l.trim_start().starts_with("##") {
                continue;
            }
            if let Some(rest) = l.strip_prefix('%') {
                flush(self, &ctx, &mut sec);
                let (cmd, arg) = rest.split_once(' ').unwrap_or((rest, ""));
                let arg = arg.trim();
                match cmd {
                    "mod" => {
                        module = arg.to_string();
                        ctx = Ctx::None;
                    }
                    "raw" => ctx = Ctx::Raw,
                    "impl" => {
                        let arg = if arg.starts_with('=') { arg.split_whitespace().collect::<String>() } else { arg.to_string() };
                        let k = format!("{module}::{arg}");
                        self.imp.entry(k.clone()).or_default();
                        ctx = Ctx::Impl(k);
                    }
                    "fn" => {
                        let k = format!("{module}::{arg}");
                        self.fns.entry(k.clone()).or_default();
                        ctx = Ctx::Fn(k);
                    }
                    "attr" => {
                        let (ty, at) = arg.split_once(' ').unwrap();
                        self.attrs.entry(format!("{module}::{ty}")).or_default().push(at.into());
                    }
                    "field" => {
                        let (ty, at) = arg.split_once(' ').unwrap();
                        self.fields.entry(format!("{module}::{ty}")).or_default().push(at.into());
                    }
                    "lit" => {
                        let (ty, at) = arg.split_once(' ').unwrap();
                        let (f, e) = at.split_once(" = ").unwrap();
                        self.lits.entry(format!("{module}::{ty}")).or_default().push((f.trim().into(), e.trim().into()));
                    }
                    "drop" => {
                        let (ty, why) = arg.split_once(" -- ").unwrap_or((arg, ""));
                        self.drop.insert(format!("{module}::{ty}"), why.into());
                    }
                    "inherent" => {
                        self.inherent.insert(format!("{module}::{arg}"), String::new());
                    }
                    "ext" => {
                        self.ext.insert(format!("{module}::{arg}"), String::new());
                    }
                    "path" => {
                        let (a, b) = arg.split_once(" => ").unwrap();
                        self.paths.push((module.clone(), a.trim().into(), b.trim().into()));
                    }
                    "broadcast" => self.broadcast.entry(module.clone()).or_default().push(arg.into()),
                    "end" => ctx = Ctx::None,
                    _ => panic!("{file}:{}: unknown directive %{cmd}", n + 1),
                }
                continue;
            }
            match &ctx {
                Ctx::None => {
                    if !l.trim().is_empty() {
                        panic!("{file}:{}: stray text {l}", n + 1);
                    }
                }
                Ctx::Raw => {
                    let e = self.raw.entry(module.clone()).or_default();
                    e.push_str(l);
                    e.push('\n');
                }
                Ctx::Impl(k) => {
                    let e = self.imp.get_mut(k).unwrap();
                    e.0.push_str(l);
                    e.0.push('\n');
                }
                Ctx::Fn(_) => {
                    if let Some(rest) = l.trim_start().strip_prefix('@') {
                        flush(self, &ctx, &mut sec);
                        // header up to ':' or end
                        let (h, b) = match rest.split_once(':') {
                            Some((h, b)) if !h.contains('(') => (h.trim().to_string(), b.to_string()),
                            _ => (rest.trim().to_string(), String::new()),
                        };
                        sec = Some((h, b, n + 1));
                    } else if let Some(s) = &mut sec {
                        s.1.push('\n');
                        s.1.push_str(l);
                    } else if !l.trim().is_empty() {
                        panic!("{file}:{}: stray text in fn section: {l}", n + 1);
                    }
                }
            }
        }
        flush(self, &ctx, &mut sec);
    }
}

fn add_section(e: &mut FnSpec, file: &str, h: &str, b: &str, line: usize) {
    let words: Vec<&str> = h.split_whitespace().collect();
    let tags = |w: Option<&&str>| -> Vec<String> {
        w.map(|s| s.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect())
            .unwrap_or_default()
    };
    let cl = |b: &str| Clause {
        tags: tags(words.get(1)),
        text: b.trim().trim_end_matches(',').to_string(),
        line,
        file: file.to_string(),
    };
    match words[0] {
        "ret" => e.ret = Some(b.trim().to_string()),
        "sem" => e.sem = b.split(';').map(|x| x.split_whitespace().collect::<String>()).filter(|x| !x.is_empty()).collect(),
        "requires" => e.requires.push(cl(b)),
        "ensures" => e.ensures.push(cl(b)),
        "decreases" => e.decreases = Some(b.trim().to_string()),
        "attr" => e.attrs.push(b.trim().to_string()),
        "entry" => e.entry.push_str(b),
        "exit" => {
            e.exitvar = words.get(1).map(|s| s.to_string());
            e.exit.push_str(b)
        }
        "inline" => e.inline = true,
        "props" => e.props = b.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect(),
        "closure" => {
            e.closures.insert(words[1].parse().unwrap(), b.trim().to_string());
        }
        "sorted" => {
            e.sorted.insert(words[1].parse().unwrap(), b.trim().to_string());
        }
        "params" => e.params = Some(b.split_whitespace().map(|x| x.to_string()).collect()),
        "skip" => e.skip = Some(b.trim().to_string()),
        "trusted" => e.trusted = Some(b.trim().to_string()),
        "lit" => {
            e.lits.insert(words[1].to_string(), b.trim().to_string());
        }
        "loop" => {
            let n: usize = words[1].parse().unwrap();
            let l = e.loops.entry(n).or_default();
            l.kind = words.get(2).unwrap_or(&"").to_string();
            l.spec = b.to_string();
        }
        "looppre" => e.loops.entry(words[1].parse().unwrap()).or_default().pre = b.to_string(),
        "loophead" => e.loops.entry(words[1].parse().unwrap()).or_default().head = b.to_string(),
        "loopsome" => e.loops.entry(words[1].parse().unwrap()).or_default().some = b.to_string(),
        "loopnone" => e.loops.entry(words[1].parse().unwrap()).or_default().none = b.to_string(),
        "looppost" => e.loops.entry(words[1].parse().unwrap()).or_default().post = b.to_string(),
        x => panic!("{file}:{line}: unknown section @{x}"),
    }
}
