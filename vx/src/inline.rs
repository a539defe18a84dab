//! Inlining of helper functions that have no contract (filled in by `run`).
use crate::source::Found;
use crate::template::FnDir;
use crate::Ctx;

pub fn run(_ctx: &mut Ctx, _d: &FnDir, _f: &Found, _b: &mut syn::Block) -> Result<Vec<String>, String> {
    Ok(vec![])
}
