//! Mechanical extraction of the functions under contract from /repo's current source into one
//! Verus file.  See /verif/DESIGN.md ("What the extraction drops") for the exact list of
//! normalisations; every one of them is a purely syntactic rewrite done here, on every run.
mod norm;
mod spec;

use quote::{ToTokens, quote};
use serde_json::json;
use spec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;
use syn::*;

/// A function definition found in the crate (not in #[cfg(test)] code)
#[derive(Clone)]
pub struct Def {
    pub file: String,
    pub line: usize,
    pub ty: Option<String>,
    pub tr: Option<String>,
    pub generics: Generics, // impl generics
    pub self_ty: Option<Type>,
    pub vis_sig: Signature,
    pub block: Block,
}

pub struct Index {
    pub fns: Vec<Def>,
    pub types: BTreeMap<String, Item>,
    pub consts: BTreeMap<String, ItemConst>,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string();
        s.contains("cfg") && s.contains("test") && !s.contains("not")
            && !s.contains("feature")
    })
}

fn last_seg(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Type::Reference(r) => last_seg(&r.elem).map(|s| format!("&{s}")),
        _ => None,
    }
}

fn index_items(items: &[Item], file: &str, ix: &mut Index) {
    for it in items {
        match it {
            Item::Mod(m) if !is_test(&m.attrs) && m.ident != "tests" && m.ident != "test" => {
                if let Some((_, its)) = &m.content {
                    index_items(its, file, ix)
                }
            }
            Item::Fn(f) if !is_test(&f.attrs) => ix.fns.push(Def {
                file: file.into(),
                line: f.sig.ident.span().start().line,
                ty: None,
                tr: None,
                generics: Generics::default(),
                self_ty: None,
                vis_sig: f.sig.clone(),
                block: (*f.block).clone(),
            }),
            Item::Impl(im) if !is_test(&im.attrs) => {
                let ty = last_seg(&im.self_ty);
                let tr = im.trait_.as_ref().and_then(|t| t.1.segments.last().map(|s| s.ident.to_string()));
                for ii in &im.items {
                    match ii {
                        ImplItem::Fn(f) if !is_test(&f.attrs) => ix.fns.push(Def {
                            file: file.into(),
                            line: f.sig.ident.span().start().line,
                            ty: ty.clone(),
                            tr: tr.clone(),
                            generics: im.generics.clone(),
                            self_ty: Some((*im.self_ty).clone()),
                            vis_sig: f.sig.clone(),
                            block: f.block.clone(),
                        }),
                        ImplItem::Const(c) => {
                            // associated constant: as a const item with the qualified name
                            let (id, cty, ex) = (&c.ident, &c.ty, &c.expr);
                            let b: Block = match ex {
                                Expr::Const(k) => k.block.clone(),
                                ex => parse_quote!({ #ex }),
                            };
                            ix.fns.push(Def {
                                file: file.into(),
                                line: c.ident.span().start().line,
                                ty: ty.clone(),
                                tr: tr.clone(),
                                generics: im.generics.clone(),
                                self_ty: Some((*im.self_ty).clone()),
                                vis_sig: parse_quote!(fn #id() -> #cty),
                                block: b,
                            });
                            if let Some(t) = &ty {
                                let ident = &c.ident;
                                let (cty, ex) = (&c.ty, &c.expr);
                                let ic: ItemConst = parse_quote!(const #ident: #cty = #ex;);
                                ix.consts.insert(format!("{t}::{ident}"), ic);
                            }
                        }
                        _ => {}
                    }
                }
            }
            Item::Trait(t) => {
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        if let Some(b) = &f.default {
                            ix.fns.push(Def {
                                file: file.into(),
                                line: f.sig.ident.span().start().line,
                                ty: Some(t.ident.to_string()),
                                tr: None,
                                generics: Generics::default(),
                                self_ty: None,
                                vis_sig: f.sig.clone(),
                                block: b.clone(),
                            })
                        }
                    }
                }
            }
            Item::Struct(s) if !is_test(&s.attrs) => {
                ix.types.insert(s.ident.to_string(), it.clone());
            }
            Item::Enum(s) if !is_test(&s.attrs) => {
                ix.types.insert(s.ident.to_string(), it.clone());
            }
            Item::Const(c) => {
                ix.consts.insert(c.ident.to_string(), c.clone());
            }
            _ => {}
        }
    }
}

fn build_index(src: &Path) -> std::result::Result<Index, String> {
    let mut ix = Index { fns: vec![], types: BTreeMap::new(), consts: BTreeMap::new() };
    let mut files: Vec<PathBuf> = vec![];
    fn walk(d: &Path, out: &mut Vec<PathBuf>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    walk(&p, out)
                } else if p.extension().is_some_and(|x| x == "rs") {
                    out.push(p)
                }
            }
        }
    }
    walk(src, &mut files);
    files.sort();
    for f in files {
        let name = f.strip_prefix(src).unwrap().display().to_string();
        if name == "test_utils.rs" {
            continue;
        }
        let text = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
        let file = syn::parse_file(&text).map_err(|e| format!("{name}: {e}"))?;
        index_items(&file.items, &name, &mut ix);
    }
    Ok(ix)
}

/// Evaluate a constant integer expression made of literals, bit operators and other constants
pub fn const_eval(e: &Expr, ix: &Index, depth: u32) -> Option<u128> {
    if depth > 8 {
        return None;
    }
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => i.base10_parse().ok(),
            _ => None,
        },
        Expr::Paren(p) => const_eval(&p.expr, ix, depth + 1),
        Expr::Group(p) => const_eval(&p.expr, ix, depth + 1),
        Expr::Path(p) => {
            let n = p.path.segments.last()?.ident.to_string();
            let c = ix.consts.get(&n)?;
            const_eval(&c.expr, ix, depth + 1)
        }
        Expr::Binary(b) => {
            let (x, y) = (const_eval(&b.left, ix, depth + 1)?, const_eval(&b.right, ix, depth + 1)?);
            Some(match b.op {
                BinOp::BitOr(_) => x | y,
                BinOp::BitAnd(_) => x & y,
                BinOp::BitXor(_) => x ^ y,
                BinOp::Add(_) => x.checked_add(y)?,
                BinOp::Sub(_) => x.checked_sub(y)?,
                BinOp::Mul(_) => x.checked_mul(y)?,
                BinOp::Shl(_) => x.checked_shl(y as u32)?,
                BinOp::Shr(_) => x.checked_shr(y as u32)?,
                _ => return None,
            })
        }
        _ => None,
    }
}

fn hash(s: &str) -> String {
    // FNV-1a 64
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

struct Renamer {
    from: String,
    to: String,
}
impl VisitMut for Renamer {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if *i == self.from {
            *i = Ident::new(&self.to, i.span());
        }
    }
}

struct Args {
    repo: PathBuf,
    specs: Vec<PathBuf>,
    out: PathBuf,
    report: PathBuf,
    external: BTreeSet<String>,
    anchors: Option<PathBuf>,
    record: bool,
    probe: Option<String>,
}

fn main() {
    let mut a = Args {
        repo: "/repo/crates/cfg-noodle/src".into(),
        specs: vec![],
        out: "gen.rs".into(),
        report: "report.json".into(),
        external: BTreeSet::new(),
        anchors: None,
        record: false,
        probe: None,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--repo" => a.repo = it.next().unwrap().into(),
            "--spec" => a.specs.push(it.next().unwrap().into()),
            "--out" => a.out = it.next().unwrap().into(),
            "--report" => a.report = it.next().unwrap().into(),
            "--external" => a.external = it.next().unwrap().split(',').filter(|s| !s.is_empty()).map(String::from).collect(),
            "--anchors" => a.anchors = Some(it.next().unwrap().into()),
            "--record" => a.record = true,
            "--probe" => a.probe = it.next(),
            _ => panic!("unknown arg {x}"),
        }
    }
    let mut sp = Spec::default();
    let mut prelude = String::new();
    for s in &a.specs {
        let t = std::fs::read_to_string(s).unwrap_or_else(|e| panic!("{}: {e}", s.display()));
        if s.extension().is_some_and(|e| e == "rs") {
            prelude.push_str(&t);
        } else {
            spec::parse(&t, &mut sp);
        }
    }
    // must-fail probes: `assert(false)` at one kind of program point of every function
    if let Some(k) = &a.probe {
        for f in sp.fns.iter_mut().filter(|f| !f.trusted) {
            if k == "loop" && !f.async_end.is_empty() {
                f.async_end = format!("{}\n    proof {{ assert(false); }} // PROBE\n", f.async_end);
            }
            let pts: Vec<String> = match k.as_str() {
                "loop" => f.loops.keys().filter(|n| **n != usize::MAX).map(|n| format!("loop{n}.start")).collect(),
                x => vec![x.to_string()],
            };
            for p in pts {
                let o = f.proofs.entry(p).or_default();
                *o = format!("    assert(false); // PROBE\n{o}");
            }
        }
    }
    let mut ix = match build_index(&a.repo) {
        Ok(ix) => ix,
        Err(e) => {
            eprintln!("EXTRACT-ERROR cannot parse the crate: {e}");
            std::process::exit(3);
        }
    };
    let anchors: serde_json::Value = a
        .anchors
        .as_ref()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or(json!({}));
    let mut new_anchors = serde_json::Map::new();
    // a private function that was merely renamed: same type, same signature, no other candidate
    let sigkey = |d: &Def| {
        let mut s = d.vis_sig.clone();
        s.ident = Ident::new("x", proc_macro2::Span::call_site());
        s.to_token_stream().to_string()
    };
    let bodykey = |d: &Def| hash(&d.block.to_token_stream().to_string());
    let mut renamed = vec![];
    for fs in &sp.fns {
        if ix.fns.iter().any(|d| d.vis_sig.ident == fs.name && d.ty == fs.ty) {
            continue;
        }
        let Some(an) = anchors.get(fs.id()) else { continue };
        let free: Vec<&Def> = ix
            .fns
            .iter()
            .filter(|d| d.ty == fs.ty && d.tr == fs.tr && !sp.fns.iter().any(|f| d.vis_sig.ident == f.name && f.ty == d.ty))
            .collect();
        let by_body: Vec<_> = free.iter().filter(|d| an.get("body").and_then(|x| x.as_str()) == Some(&bodykey(d))).collect();
        let by_sig: Vec<_> = free.iter().filter(|d| an.get("sig").and_then(|x| x.as_str()) == Some(&sigkey(d))).collect();
        let d = if by_body.len() == 1 { by_body[0] } else if by_sig.len() == 1 { by_sig[0] } else { continue };
        renamed.push((d.vis_sig.ident.to_string(), fs.name.clone()));
    }
    for (new, old) in &renamed {
        if ix.fns.iter().filter(|d| d.vis_sig.ident == new).count() != 1 {
            continue;
        }
        let mut r = Renamer { from: new.clone(), to: old.clone() };
        for d in ix.fns.iter_mut() {
            if d.vis_sig.ident == new {
                d.vis_sig.ident = Ident::new(old, d.vis_sig.ident.span());
            }
            r.visit_block_mut(&mut d.block);
        }
    }

    // --- types and constants
    let mut body = String::new(); // plain Rust with markers, to be formatted
    let mut lost: Vec<serde_json::Value> = vec![];
    let mut type_report = vec![];
    for t in &sp.types {
        let Some(item) = ix.types.get(&t.name) else {
            lost.push(json!({"fn": format!("type {}", t.name), "why": "type not found"}));
            continue;
        };
        let mut item = item.clone();
        norm::StripAttrs.visit_item_mut(&mut item);
        norm::publish(&mut item);
        let mut s = item.to_token_stream().to_string();
        type_report.push(json!({"type": t.name, "hash": hash(&s)}));
        for (x, y) in &t.subst {
            s = s.replace(x.as_str(), y);
        }
        if !t.derives.is_empty() {
            body.push_str(&format!("#[derive({})]\n", t.derives));
        }
        body.push_str(&s);
        body.push('\n');
    }
    for c in &sp.consts {
        let Some(ic) = ix.consts.get(c) else {
            lost.push(json!({"fn": format!("const {c}"), "why": "constant not found"}));
            continue;
        };
        let (id, ty) = (&ic.ident, &ic.ty);
        match const_eval(&ic.expr, &ix, 0) {
            Some(v) => body.push_str(&format!("pub const {}: {} = {};\n", id, ty.to_token_stream(), v)),
            None => lost.push(json!({"fn": format!("const {c}"), "why": "constant not evaluable"})),
        }
    }

    // --- functions
    let contracted: BTreeSet<String> = sp.fns.iter().map(|f| f.name.clone()).collect();
    let world_fns: BTreeSet<String> =
        sp.fns.iter().filter(|f| f.world).map(|f| f.rename.clone().unwrap_or(f.name.clone())).collect();
    let mut fn_report = vec![];
    let mut pieces: Vec<norm::Piece> = vec![];
    let mut markers = norm::Markers::default();
    for fs in &sp.fns {
        let cands: Vec<&Def> = ix
            .fns
            .iter()
            .filter(|d| {
                d.vis_sig.ident == fs.name
                    && (fs.ty.is_none() && d.ty.is_none() || fs.ty.is_some() && d.ty == fs.ty)
                    && match &fs.tr {
                        Some(t) => d.tr.as_ref() == Some(t),
                        None => d.tr.is_none(),
                    }
            })
            .collect();
        if cands.len() != 1 {
            lost.push(json!({"fn": fs.id(), "why": format!("{} definitions found", cands.len())}));
            continue;
        }
        let d = cands[0];
        let raw = {
            let (s, b) = (&d.vis_sig, &d.block);
            quote!(#s #b).to_string()
        };
        let ext = a.external.contains(&fs.id());
        match norm::extract_fn(d, fs, &sp, &ix, &contracted, &world_fns, &mut markers, ext, &anchors) {
            Ok(p) => {
                fn_report.push(json!({
                    "fn": fs.id(), "file": d.file, "line": d.line, "hash": hash(&raw),
                    "external": ext || fs.trusted, "props": fs.props, "awaits": p.awaits, "loops": p.loops,
                    "closures": p.closures, "inlined": p.inlined, "dropped": p.dropped,
                    "weak": p.weak,
                }));
                if a.record {
                    new_anchors.insert(fs.id(), json!({"hash": hash(&raw), "body": bodykey(d), "sig": sigkey(d), "locals": p.locals, "loops": p.loops, "closures": p.closures, "closure_texts": p.closure_texts}));
                }
                pieces.push(p);
            }
            Err(e) => lost.push(json!({"fn": fs.id(), "why": e, "file": d.file, "line": d.line, "hash": hash(&raw)})),
        }
    }
    // methods of one trait implementation go into one impl block
    let mut done = BTreeSet::new();
    for p in &pieces {
        match &p.group {
            None => body.push_str(&p.text),
            Some(h) => {
                if !done.insert(h.clone()) {
                    continue;
                }
                body.push_str(&format!("{h} {{\n"));
                for q in pieces.iter().filter(|q| q.group.as_ref() == Some(h)) {
                    body.push_str(&q.text);
                    body.push('\n');
                }
                body.push_str("}");
            }
        }
        body.push('\n');
    }
    if a.record {
        std::fs::write(a.anchors.as_ref().unwrap(), serde_json::to_string_pretty(&new_anchors).unwrap()).unwrap();
    }
    // --- format
    let formatted = rustfmt(&body);
    let (text, ranges) = norm::finish(&formatted, &markers);
    let mut full = prelude;
    let marker = "/*@@GENERATED@@*/";
    let pos = full.find(marker).expect("prelude lacks the generated marker");
    let line0 = full[..pos].lines().count();
    full.replace_range(pos..pos + marker.len(), &text);
    std::fs::write(&a.out, &full).unwrap();
    let ranges: Vec<_> = ranges
        .into_iter()
        .map(|(id, s, e)| json!({"fn": id, "start": s + line0 , "end": e + line0 }))
        .collect();
    let rep = json!({"fns": fn_report, "lost": lost, "types": type_report, "ranges": ranges, "renamed": renamed});
    std::fs::write(&a.report, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}

fn rustfmt(s: &str) -> String {
    let mut ch = std::process::Command::new("rustfmt")
        .args(["--edition", "2024", "--config", "max_width=110"])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .expect("rustfmt");
    let mut stdin = ch.stdin.take().unwrap();
    let owned = s.to_string();
    let h = std::thread::spawn(move || stdin.write_all(owned.as_bytes()));
    let o = ch.wait_with_output().unwrap();
    let _ = h.join();
    if !o.status.success() {
        std::fs::write("/tmp/extract-unformatted.rs", s).ok();
        eprintln!("EXTRACT-ERROR rustfmt: {}", String::from_utf8_lossy(&o.stderr));
        std::process::exit(3);
    }
    String::from_utf8(o.stdout).unwrap()
}
