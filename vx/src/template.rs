use std::collections::HashSet;
use std::path::Path;

#[derive(Debug, Clone, Default)]
pub struct FnDir {
    pub file: String,
    pub path: String,
    pub optional: bool,
    pub noasync: bool,
    pub novac: bool,
    pub rename: Option<String>,
    pub ret: String,
    pub spec: String,
    pub entry: String,
    /// ghost declarations put in front of the body
    pub ghost: String,
    pub loops: Vec<(usize, String)>,
    pub closures: Vec<(usize, String)>,
    pub asyncs: Vec<(usize, String)>,
    /// token-level substitutions, applied to the printed text
    pub subst: Vec<(String, String)>,
    /// replaced signature (for fragments)
    pub sig: Option<String>,
    pub header: String,
    /// statements to cut: text prefix patterns
    pub drop: Vec<String>,
    /// methods `X.m(|v| BODY)` whose argument is called exactly once with `X.vx_m()`
    pub inline: Vec<String>,
    /// parameter names the contract uses, in order
    pub args: Vec<String>,
}

#[derive(Debug)]
pub enum Part {
    Text(String),
    Item { file: String, kind: String, name: String },
    Fn(Box<FnDir>),
}

pub struct Template {
    pub parts: Vec<Part>,
    pub known: HashSet<String>,
    pub strip: Vec<String>,
    /// substitutions on every extracted text (types standing for dependency types)
    pub global: Vec<(String, String)>,
    pub arcclone: bool,
}

fn load(p: &Path, depth: usize) -> Result<Vec<String>, String> {
    if depth > 8 {
        return Err("include depth".into());
    }
    let s = std::fs::read_to_string(p).map_err(|e| format!("{}: {e}", p.display()))?;
    let mut v = vec![];
    for l in s.lines() {
        if let Some(inc) = l.trim().strip_prefix("//@include ") {
            let q = p.parent().unwrap().join(inc.trim());
            v.extend(load(&q, depth + 1)?);
        } else {
            v.push(l.to_string());
        }
    }
    Ok(v)
}

pub fn parse(p: &Path) -> Result<Template, String> {
    let lines = load(p, 0)?;
    let mut parts = vec![];
    let mut text = String::new();
    let mut known = HashSet::new();
    let mut strip = vec![];
    let mut global = vec![];
    let mut arcclone = false;
    let mut i = 0;
    while i < lines.len() {
        let l = &lines[i];
        let t = l.trim();
        if let Some(rest) = t.strip_prefix("//@fn ") {
            parts.push(Part::Text(std::mem::take(&mut text)));
            let mut w = rest.split_whitespace();
            let mut d = FnDir { file: w.next().unwrap_or("").into(), path: w.next().unwrap_or("").into(), ret: "r".into(), ..Default::default() };
            while let Some(x) = w.next() {
                match x {
                    "opt" => d.optional = true,
                    "noasync" => d.noasync = true,
                    "novac" => d.novac = true,
                    "as" => d.rename = w.next().map(|s| s.to_string()),
                    _ => return Err(format!("bad fn flag {x}")),
                }
            }
            i += 1;
            let mut section = String::new();
            let mut arg = 0usize;
            let mut buf = String::new();
            macro_rules! flush { () => {{
                let b = std::mem::take(&mut buf);
                match section.as_str() {
                    "" => {},
                    "ret" => d.ret = b.trim().to_string(),
                    "spec" => d.spec = b,
                    "entry" => d.entry = b,
                    "ghost" => d.ghost = b,
                    "loop" => d.loops.push((arg, b)),
                    "closure" => d.closures.push((arg, b)),
                    "async" => d.asyncs.push((arg, b)),
                    "sig" => d.sig = Some(b.trim().to_string()),
                    "header" => d.header = b.trim().to_string(),
                    "args" => d.args = b.split_whitespace().map(|s| s.trim_end_matches(',').to_string()).collect(),
                    "inline" => d.inline.extend(b.split_whitespace().map(|s| s.to_string())),
                    "drop" => d.drop.push(b.trim().to_string()),
                    "subst" => {
                        let (a, c) = b.split_once("=>").ok_or("bad subst")?;
                        d.subst.push((a.trim().to_string(), c.trim().to_string()));
                    }
                    s => return Err(format!("bad section {s}")),
                }
            }}}
            loop {
                if i >= lines.len() { return Err(format!("unterminated //@fn {}", d.path)); }
                let t = lines[i].trim();
                if t == "//@end" { flush!(); break; }
                let Some(c) = t.strip_prefix("//@") else { return Err(format!("bad line in //@fn {}: {t}", d.path)) };
                let c = c.strip_prefix(' ').unwrap_or(c);
                let kw = ["ret:", "spec:", "entry:", "loop ", "closure ", "async ", "subst:", "sig:", "header:", "drop:", "args:", "ghost:", "inline:"].iter().find(|k| c.starts_with(**k));
                if let Some(k) = kw {
                    flush!();
                    section = k.trim_end_matches([':', ' ']).to_string();
                    let mut rest = c[k.len()..].to_string();
                    if k.ends_with(' ') {
                        let (n, r) = rest.split_once(':').ok_or(format!("bad section line {c}"))?;
                        arg = n.trim().parse().map_err(|_| format!("bad index {n}"))?;
                        rest = r.to_string();
                    }
                    buf.push_str(&rest);
                    buf.push('\n');
                } else {
                    buf.push_str(c);
                    buf.push('\n');
                }
                i += 1;
            }
            let base = d.rename.clone().unwrap_or_else(|| last_seg(&d.path));
            known.insert(base);
            parts.push(Part::Fn(Box::new(d)));
        } else if let Some((kind, rest)) = ["struct", "enum", "const", "type", "tags"].iter().find_map(|k| t.strip_prefix(&format!("//@{k} ")).map(|r| (*k, r))) {
            parts.push(Part::Text(std::mem::take(&mut text)));
            let mut w = rest.split_whitespace();
            parts.push(Part::Item { file: w.next().unwrap_or("").into(), kind: kind.to_string(), name: w.collect::<Vec<_>>().join(" ") });
        } else if let Some(rest) = t.strip_prefix("//@strip ") {
            strip.extend(rest.split_whitespace().map(|s| s.trim_end_matches(',').to_string()));
        } else if let Some(rest) = t.strip_prefix("//@type_is ") {
            let (a, b) = rest.split_once("=>").ok_or("bad type_is")?;
            global.push((a.trim().to_string(), b.trim().to_string()));
        } else if t == "//@arcclone" {
            arcclone = true;
        } else {
            // collect fn names declared in the template
            let mut s = l.as_str();
            while let Some(ix) = s.find("fn ") {
                let before_ok = ix == 0 || !s.as_bytes()[ix - 1].is_ascii_alphanumeric() && s.as_bytes()[ix - 1] != b'_';
                let r = &s[ix + 3..];
                if before_ok {
                    let n: String = r.trim_start().chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    if !n.is_empty() { known.insert(n); }
                }
                s = r;
            }
            text.push_str(l);
            text.push('\n');
        }
        i += 1;
    }
    parts.push(Part::Text(text));
    Ok(Template { parts, known, strip, global, arcclone })
}

pub fn last_seg(p: &str) -> String {
    let p = p.split('#').next().unwrap();
    let p = p.split('@').next().unwrap();
    let p = p.rsplit('/').next().unwrap();
    p.rsplit("::").next().unwrap().to_string()
}
