//! vx - mechanical extraction of functions from the Rust sources of the repository into a
//! Verus file, with the contracts of a template injected.  See DESIGN.md, "The extractor".
mod inline;
mod norm;
mod source;
mod template;

use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.len() < 4 {
        eprintln!("usage: vx <repo> <template> <out.rs> <meta.json> [verify|vacuity|plain]");
        std::process::exit(64);
    }
    let repo = PathBuf::from(&args[0]);
    let mode = args.get(4).map(|s| s.as_str()).unwrap_or("verify").to_string();
    match run(&repo, Path::new(&args[1]), &mode) {
        Ok((out, meta)) => {
            std::fs::write(&args[2], out).unwrap();
            std::fs::write(&args[3], serde_json::to_string_pretty(&meta).unwrap()).unwrap();
        }
        Err(e) => {
            eprintln!("vx: {e}");
            let meta = serde_json::json!({"error": e});
            let _ = std::fs::write(&args[3], serde_json::to_string_pretty(&meta).unwrap());
            std::process::exit(3);
        }
    }
}

pub struct Ctx {
    pub repo: PathBuf,
    pub files: BTreeMap<String, syn::File>,
    pub known: HashSet<String>,
    pub strip: Vec<String>,
    pub plain: bool,
    pub global: Vec<(String, String)>,
    pub arcclone: bool,
}

impl Ctx {
    pub fn file(&mut self, rel: &str) -> Result<&syn::File, String> {
        if !self.files.contains_key(rel) {
            let p = self.repo.join(rel);
            let s = std::fs::read_to_string(&p).map_err(|e| format!("lost-anchor: {rel}: {e}"))?;
            let f = syn::parse_file(&s).map_err(|e| format!("parse error in {rel}: {e}"))?;
            self.files.insert(rel.to_string(), f);
        }
        Ok(&self.files[rel])
    }
}

fn run(repo: &Path, tpl: &Path, mode: &str) -> Result<(String, serde_json::Value), String> {
    let t = template::parse(tpl)?;
    let mut ctx = Ctx {
        repo: repo.to_path_buf(),
        files: BTreeMap::new(),
        known: t.known.clone(),
        strip: t.strip.clone(),
        plain: mode == "plain",
        global: t.global.clone(),
        arcclone: t.arcclone,
    };
    let mut out = String::new();
    let mut metas = vec![];
    let mut lost = vec![];
    for part in &t.parts {
        match part {
            template::Part::Text(s) => {
                out.push_str(s);
                out.push('\n');
            }
            template::Part::Item { file, kind, name } => {
                let f = ctx.file(file)?.clone();
                let hit = if kind == "tags" { name.split_once(' ').and_then(|(a, b)| source::find_tags(&f, a, b.trim())) } else { source::find_item(&f, kind, name) };
                match hit {
                    Some(s) => {
                        let mut s = norm::strip_paths_text(&s, &ctx.strip);
                        for (a, b) in &ctx.global { s = norm::loose_replace(&s, a, b).0; }
                        out.push_str(&s);
                        out.push('\n')
                    }
                    None => lost.push(format!("{kind} {name} in {file}")),
                }
            }
            template::Part::Fn(d) => {
                let f = ctx.file(&d.file)?.clone();
                let found = source::find_fn(&f, &d.path);
                let Some(mut found) = found else {
                    if !d.optional {
                        lost.push(format!("fn {} in {}", d.path, d.file));
                    }
                    continue;
                };
                syn::visit_mut::VisitMut::visit_block_mut(&mut source::DefaultFeatures, &mut found.block);
                syn::visit_mut::VisitMut::visit_block_mut(&mut source::Selects, &mut found.block);
                let start = out.lines().count() + 1;
                let m = norm::emit(&mut ctx, d, &found, mode, &mut out)?;
                let end = out.lines().count();
                metas.push(serde_json::json!({
                    "fn": d.path, "file": d.file, "name": m.name, "line": found.line,
                    "out_start": start, "out_end": end,
                    "loops_found": m.loops, "loops_spec": d.loops.len(),
                    "closures_found": m.closures, "closures_spec": d.closures.len(),
                    "asyncs_found": m.asyncs, "asyncs_spec": d.asyncs.len(),
                    "shape_ok": m.shape_ok, "shape_notes": m.notes,
                    "inlined": m.inlined, "dropped": m.dropped, "digest": m.digest,
                    "vac": m.vac,
                }));
            }
        }
    }
    if !lost.is_empty() {
        return Err(format!("lost-anchor: {}", lost.join("; ")));
    }
    Ok((out, serde_json::json!({"functions": metas, "strip": t.strip})))
}
