//! Parser for the specification side files (/verif/specs/*.spec).
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Debug, Clone)]
pub struct LoopSpec {
    pub text: String,
}
#[derive(Default, Debug, Clone)]
pub struct ClosureSpec {
    pub ret: String,
    pub text: String,
}
#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub ty: Option<String>,
    pub tr: Option<String>,
    pub name: String,
    pub world: bool,
    pub impl_header: Option<String>,
    pub generics: Option<String>,
    pub where_: Option<String>,
    pub rename: Option<String>,
    pub attrs: Vec<String>,
    pub contract: String,
    pub loops: BTreeMap<usize, LoopSpec>,
    pub closures: BTreeMap<usize, ClosureSpec>,
    pub proofs: BTreeMap<String, String>,
    pub hide: Vec<String>,
    pub cancel: Option<String>,
    pub subst: Vec<(String, String)>,
    pub props: Vec<String>,
    pub selfty: Option<String>,
    pub params: Vec<(String, String)>,
    pub ret: Option<String>,
    pub trusted: bool,
    pub assoc: String,
    pub async_end: String,
    /// desugar match guards, the scrutinee borrowed
    pub guards_ref: bool,
}
impl FnSpec {
    pub fn id(&self) -> String {
        match &self.ty {
            Some(t) => format!("{}::{}", t, self.name),
            None => self.name.clone(),
        }
    }
}
#[derive(Default, Debug, Clone)]
pub struct TypeSpec {
    pub name: String,
    pub derives: String,
    pub subst: Vec<(String, String)>,
    pub generics: Option<String>,
}
#[derive(Default, Debug)]
pub struct Spec {
    pub prims: BTreeSet<String>,
    pub fnptrs: BTreeSet<String>,
    pub rename_method: BTreeMap<String, String>,
    pub rename_path: BTreeMap<String, String>,
    pub rename_type: BTreeMap<String, String>,
    pub lock_methods: BTreeSet<String>,
    pub wait_methods: BTreeSet<String>,
    pub rawptr: bool,
    pub guards: bool,
    pub const_call: BTreeMap<String, String>,
    pub types: Vec<TypeSpec>,
    pub consts: Vec<String>,
    pub fns: Vec<FnSpec>,
}

fn subst(l: &str) -> (String, String) {
    let (a, b) = l.split_once("=>").expect("subst needs =>");
    (a.trim().to_string(), b.trim().to_string())
}

pub fn parse(text: &str, sp: &mut Spec) {
    let mut cur: Option<FnSpec> = None;
    // where free text goes
    enum Sink {
        None,
        Contract,
        Loop(usize),
        Closure(usize),
        Proof(String),
        Cancel,
        Assoc,
    Async,
    }
    let mut sink = Sink::None;
    for line in text.lines() {
        if line.starts_with('#') && !line.starts_with("#[") {
            continue;
        }
        if let Some(d) = line.strip_prefix('@') {
            let (k, rest) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
            let rest = rest.trim();
            match k {
                "prim" => sp.prims.extend(rest.split_whitespace().map(String::from)),
                "fnptr" => sp.fnptrs.extend(rest.split_whitespace().map(String::from)),
                "lockm" => sp.lock_methods.extend(rest.split_whitespace().map(String::from)),
                "waitm" => sp.wait_methods.extend(rest.split_whitespace().map(String::from)),
                "rawptr" => sp.rawptr = true,
                "guards" => sp.guards = true,
                "rename_method" => {
                    let (a, b) = rest.split_once(' ').unwrap();
                    sp.rename_method.insert(a.into(), b.trim().into());
                }
                "rename_path" => {
                    let (a, b) = rest.split_once(' ').unwrap();
                    sp.rename_path.insert(a.into(), b.trim().into());
                }
                "const_call" => {
                    let (a, b) = rest.split_once(' ').unwrap();
                    sp.const_call.insert(a.into(), b.trim().into());
                }
                "rename_type" => {
                    let (a, b) = subst(rest);
                    sp.rename_type.insert(a, b);
                }
                "type" => {
                    let mut it = rest.splitn(2, ' ');
                    sp.types.push(TypeSpec {
                        name: it.next().unwrap().into(),
                        derives: it.next().unwrap_or("").into(),
                        ..Default::default()
                    });
                }
                "type_generics" => sp.types.last_mut().unwrap().generics = Some(rest.into()),
                "type_subst" => sp.types.last_mut().unwrap().subst.push(subst(rest)),
                "const" => sp.consts.push(rest.into()),
                "fn" => {
                    assert!(cur.is_none(), "missing @endfn before {rest}");
                    let parts: Vec<&str> = rest.split_whitespace().collect();
                    let mut f = FnSpec::default();
                    let path = parts[0];
                    if let Some((t, n)) = path.rsplit_once("::") {
                        f.ty = Some(t.into());
                        f.name = n.into();
                    } else {
                        f.name = path.into();
                    }
                    for o in &parts[1..] {
                        if *o == "world" {
                            f.world = true
                        } else if *o == "trusted" {
                            f.trusted = true
                        } else if let Some(t) = o.strip_prefix("trait=") {
                            f.tr = Some(t.into())
                        } else if let Some(t) = o.strip_prefix("rename=") {
                            f.rename = Some(t.into())
                        } else if let Some(t) = o.strip_prefix("props=") {
                            f.props = t.split(',').map(String::from).collect()
                        } else {
                            panic!("unknown fn option {o}")
                        }
                    }
                    cur = Some(f);
                    sink = Sink::None;
                }
                "endfn" => {
                    sp.fns.push(cur.take().expect("endfn"));
                    sink = Sink::None;
                }
                _ => {
                    let f = cur.as_mut().unwrap_or_else(|| panic!("directive {k} outside fn"));
                    match k {
                        "impl" => f.impl_header = Some(rest.into()),
                        "generics" => f.generics = Some(rest.into()),
                        "where" => f.where_ = Some(rest.into()),
                        "guards_ref" => f.guards_ref = true,
                        "hide" => f.hide.extend(rest.split_whitespace().map(String::from)),
                        "attr" => f.attrs.push(rest.into()),
                        "self" => f.selfty = Some(rest.into()),
                        "param" => f.params.push(subst(rest)),
                        "ret" => f.ret = Some(rest.into()),
                        "subst" => f.subst.push(subst(rest)),
                        "async" => sink = Sink::Async,
                        "assoc" => sink = Sink::Assoc,
                        "contract" => sink = Sink::Contract,
                        "cancel" => {
                            f.cancel = Some(String::new());
                            sink = Sink::Cancel
                        }
                        "loop" => {
                            let n: usize = if rest == "*" { usize::MAX } else { rest.parse().unwrap() };
                            f.loops.insert(n, LoopSpec::default());
                            sink = Sink::Loop(n);
                        }
                        "closure" => {
                            let (n, r) = rest.split_once(' ').unwrap_or((rest, ""));
                            let n: usize = n.parse().unwrap();
                            f.closures.insert(n, ClosureSpec { ret: r.trim().into(), text: String::new() });
                            sink = Sink::Closure(n);
                        }
                        "proof" => {
                            f.proofs.insert(rest.into(), String::new());
                            sink = Sink::Proof(rest.into());
                        }
                        _ => panic!("unknown directive @{k}"),
                    }
                }
            }
            continue;
        }
        let Some(f) = cur.as_mut() else { continue };
        let dst = match &sink {
            Sink::None => continue,
            Sink::Contract => &mut f.contract,
            Sink::Loop(n) => &mut f.loops.get_mut(n).unwrap().text,
            Sink::Closure(n) => &mut f.closures.get_mut(n).unwrap().text,
            Sink::Proof(k) => f.proofs.get_mut(k).unwrap(),
            Sink::Cancel => f.cancel.as_mut().unwrap(),
            Sink::Assoc => &mut f.assoc,
            Sink::Async => &mut f.async_end,
        };
        dst.push_str(line);
        dst.push('\n');
    }
    assert!(cur.is_none(), "unterminated @fn");
}
