//! The normalisations applied to an extracted function (all syntactic), and the placement of
//! contract text.
use crate::spec::*;
use crate::{Def, Index};
use proc_macro2::{Span, TokenStream};
use quote::{ToTokens, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
pub struct Piece {
    pub id: String,
    pub text: String,
    pub group: Option<String>,
    pub awaits: usize,
    pub loops: usize,
    pub closures: usize,
    pub closure_texts: Vec<String>,
    pub inlined: Vec<String>,
    pub dropped: BTreeMap<String, usize>,
    pub weak: Vec<String>,
    pub locals: Vec<(String, String)>,
}

/// Text to be substituted for the numbered markers after formatting
#[derive(Default)]
pub struct Markers {
    pub fns: Vec<(String, String, String)>, // id, contract, return name
    pub loops: Vec<String>,
    pub closures: Vec<(String, String)>,
    pub proofs: Vec<String>,
    pub assoc: Vec<String>,
}

pub struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

pub fn publish(item: &mut Item) {
    let pv: Visibility = parse_quote!(pub);
    match item {
        Item::Struct(s) => {
            s.vis = pv.clone();
            for f in s.fields.iter_mut() {
                f.vis = pv.clone();
            }
        }
        Item::Enum(e) => e.vis = pv,
        _ => {}
    }
}

const LOG: &[&str] = &["debug", "info", "warn", "error", "trace"];

fn tracked() -> Expr {
    parse_quote!(Tracked(w))
}

struct Norm<'a> {
    sp: &'a Spec,
    ix: &'a Index,
    contracted: &'a BTreeSet<String>,
    world_fns: &'a BTreeSet<String>,
    world: bool,
    dropped: BTreeMap<String, usize>,
    awaits: usize,
    errors: Vec<String>,
    tmp: usize,
    tmps: BTreeMap<String, usize>,
    inlined: Vec<String>,
    depth: usize,
    self_ty: Option<String>,
    in_closure: usize,
    async_depth: usize,
    guards_ref: bool,
}

fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

fn flatten_and(e: &Expr, out: &mut Vec<Expr>) {
    match e {
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
            flatten_and(&b.left, out);
            flatten_and(&b.right, out);
        }
        _ => out.push(e.clone()),
    }
}
fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) => has_let(&b.left) || has_let(&b.right),
        _ => false,
    }
}

fn place_root(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => place_root(&f.base),
        _ => None,
    }
}
/// is `self` used other than to reach a field or a method?
fn bare_self(b: &Block) -> bool {
    struct V(bool);
    impl<'b> syn::visit::Visit<'b> for V {
        fn visit_expr(&mut self, e: &'b Expr) {
            let is_self = |x: &Expr| matches!(x, Expr::Path(p) if p.path.is_ident("self"));
            match e {
                Expr::Field(f) if is_self(&f.base) => {}
                Expr::MethodCall(m) if is_self(&m.receiver) => m.args.iter().for_each(|a| self.visit_expr(a)),
                e if is_self(e) => self.0 = true,
                e => syn::visit::visit_expr(self, e),
            }
        }
        fn visit_macro(&mut self, m: &'b Macro) {
            if !m.path.segments.last().is_some_and(|x| LOG.contains(&x.ident.to_string().as_str())) && m.tokens.to_string().split(' ').any(|t| t == "self") {
                self.0 = true;
            }
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

impl<'a> Norm<'a> {
    fn drop_(&mut self, what: &str) {
        *self.dropped.entry(what.to_string()).or_default() += 1;
    }
    fn fresh(&mut self, base: &str) -> Ident {
        let k = self.tmps.entry(base.to_string()).or_default();
        *k += 1;
        Ident::new(&format!("__{base}{k}"), Span::call_site())
    }

    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        if LOG.contains(&name.as_str()) {
            self.drop_("logging macro");
            return Some(parse_quote!({}));
        }
        match name.as_str() {
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e: Expr = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = syn::parse2(m.tokens.clone()).ok()?;
                Some(match g {
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                    None => parse_quote!(match #e { #p => true, _ => false }),
                })
            }
            "debug_assert" | "assert" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let c = args.first()?;
                Some(parse_quote!(vp_assert(#c)))
            }
            "debug_assert_eq" | "assert_eq" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let (a, b) = (args.get(0)?, args.get(1)?);
                Some(parse_quote!(vp_assert(#a == #b)))
            }
            "debug_assert_ne" | "assert_ne" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let (a, b) = (args.get(0)?, args.get(1)?);
                Some(parse_quote!(vp_assert(#a != #b)))
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => Some(parse_quote!(vp_unreachable())),
            "addr_of" => {
                let e: Expr = syn::parse2(m.tokens.clone()).ok()?;
                Some(parse_quote!(&#e))
            }
            "addr_of_mut" => {
                let e: Expr = syn::parse2(m.tokens.clone()).ok()?;
                Some(parse_quote!(&mut #e))
            }
            _ => None,
        }
    }

    fn takes_world(&self, name: &str) -> bool {
        self.world && (self.sp.prims.contains(name) || self.world_fns.contains(name))
    }

    /// find a unique non-contracted helper of that name in the crate
    fn helper(&self, name: &str, ty: Option<&str>, method: bool) -> Option<Def> {
        if self.contracted.contains(name) || self.sp.prims.contains(name) {
            return None;
        }
        let c: Vec<&Def> = self
            .ix
            .fns
            .iter()
            .filter(|d| {
                d.vis_sig.ident == name
                    && d.tr.is_none()
                    && (d.vis_sig.receiver().is_some() == method)
                    && (ty.is_none() || d.ty.as_deref() == ty)
                    && (method || ty.is_some() || d.ty.is_none())
            })
            .collect();
        if c.len() == 1 { Some(c[0].clone()) } else { None }
    }

    fn inline(&mut self, d: &Def, args: Vec<Expr>) -> Option<Expr> {
        if self.depth >= 4 {
            return None;
        }
        self.tmp += 1;
        let n = self.tmp;
        let res = Ident::new(&format!("__inl_r{n}"), Span::call_site());
        let lab = Lifetime::new(&format!("'inl_{n}"), Span::call_site());
        let mut body = d.block.clone();
        struct Early(bool);
        impl<'b> syn::visit::Visit<'b> for Early {
            fn visit_expr_closure(&mut self, _: &'b ExprClosure) {}
            fn visit_expr_return(&mut self, _: &'b ExprReturn) {
                self.0 = true;
            }
            fn visit_expr_try(&mut self, _: &'b ExprTry) {
                self.0 = true;
            }
        }
        let mut ev = Early(false);
        syn::visit::Visit::visit_block(&mut ev, &body);
        let early = ev.0;
        struct Names(BTreeSet<String>);
        impl<'b> syn::visit::Visit<'b> for Names {
            fn visit_pat_ident(&mut self, p: &'b PatIdent) {
                self.0.insert(p.ident.to_string());
                syn::visit::visit_pat_ident(self, p);
            }
        }
        let mut nv = Names(BTreeSet::new());
        syn::visit::Visit::visit_block(&mut nv, &body);
        for p in d.vis_sig.inputs.iter() {
            syn::visit::Visit::visit_fn_arg(&mut nv, p);
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut ren: Vec<(String, Ident)> = vec![];
        let mut muts: Vec<String> = vec![];
        let mut direct: Option<Expr> = None;
        let mut bound = Names(BTreeSet::new());
        syn::visit::Visit::visit_block(&mut bound, &body);
        let params: Vec<String> = d
            .vis_sig
            .inputs
            .iter()
            .filter_map(|p| match p {
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(i) => Some(i.ident.to_string()),
                    _ => None,
                },
                _ => None,
            })
            .collect();
        let mut shared: Vec<(String, Expr)> = vec![];
        let mut ai = args.into_iter();
        for p in d.vis_sig.inputs.iter() {
            let a = ai.next()?;
            match p {
                FnArg::Receiver(r) => {
                    let id = Ident::new(&format!("__self{n}"), Span::call_site());
                    if r.reference.is_some() && place_root(&a).is_some_and(|x| !nv.0.contains(&x)) && !bare_self(&body) {
                        // the receiver itself stands for `self`
                        direct = Some(a);
                        continue;
                    }
                    if r.reference.is_some() {
                        if r.mutability.is_some() {
                            lets.push(parse_quote!(let #id = &mut #a;));
                            muts.push(format!("*{id}"));
                        } else {
                            lets.push(parse_quote!(let #id = &#a;));
                        }
                    } else {
                        lets.push(parse_quote!(let #id = #a;));
                    }
                    ren.push(("self".into(), id));
                }
                FnArg::Typed(t) => {
                    let pat = &t.pat;
                    // a shared reference passed on by name: the name itself
                    if let (Pat::Ident(pi), Type::Reference(r), Expr::Path(ap)) = (&**pat, &*t.ty, &a) {
                        if let (None, Some(an)) = (&r.mutability, ap.path.get_ident().map(|x| x.to_string())) {
                            let pn = pi.ident.to_string();
                            if pi.mutability.is_none() && !bound.0.contains(&an) && !bound.0.contains(&pn) && (an == pn || !params.contains(&an)) {
                                if an != pn {
                                    shared.push((pn, a));
                                }
                                continue;
                            }
                        }
                    }
                    if let Pat::Ident(pi) = &**pat {
                        match &*t.ty {
                            Type::Reference(r) if r.mutability.is_some() => muts.push(format!("*{}", pi.ident)),
                            _ if pi.mutability.is_some() => muts.push(pi.ident.to_string()),
                            _ => {}
                        }
                    }
                    let ty: Option<Type> = match &*t.ty {
                        Type::Reference(r) => {
                            let m = &r.mutability;
                            Some(parse_quote!(& #m _))
                        }
                        _ => None,
                    };
                    match ty {
                        Some(ty) => lets.push(parse_quote!(let #pat: #ty = #a;)),
                        None => lets.push(parse_quote!(let #pat = #a;)),
                    }
                }
            }
        }
        struct Ren(Vec<(String, Ident)>);
        impl VisitMut for Ren {
            fn visit_ident_mut(&mut self, i: &mut Ident) {
                for (a, b) in &self.0 {
                    if i == a {
                        *i = b.clone();
                    }
                }
            }
        }
        Ren(ren).visit_block_mut(&mut body);
        if let Some(a) = &direct {
            shared.push(("self".into(), a.clone()));
        }
        for (n, a) in &shared {
            struct Sub<'c>(&'c str, &'c Expr);
            impl VisitMut for Sub<'_> {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    if matches!(e, Expr::Path(p) if p.path.is_ident(self.0)) {
                        *e = self.1.clone();
                    } else {
                        visit_mut::visit_expr_mut(self, e);
                    }
                }
            }
            Sub(n, a).visit_block_mut(&mut body);
        }
        let is_opt = matches!(&d.vis_sig.output, ReturnType::Type(_, t) if super::last_seg(t).as_deref() == Some("Option"));
        struct Ret {
            res: Ident,
            lab: Lifetime,
            opt: bool,
        }
        impl VisitMut for Ret {
            fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                let (res, lab) = (&self.res, &self.lab);
                match e {
                    Expr::Return(r) => {
                        let v: Expr = r.expr.as_deref().cloned().unwrap_or(parse_quote!(()));
                        *e = parse_quote!({ #res = #v; break #lab; });
                    }
                    Expr::Try(t) => {
                        let x = &t.expr;
                        *e = if self.opt {
                            parse_quote!(match #x { Some(__v) => __v, None => { #res = None; break #lab; } })
                        } else {
                            parse_quote!(match #x { Ok(__v) => __v, Err(__e) => { #res = Err(__e); break #lab; } })
                        };
                    }
                    _ => {}
                }
            }
        }
        Ret { res: res.clone(), lab: lab.clone(), opt: is_opt }.visit_block_mut(&mut body);
        self.depth += 1;
        self.visit_block_mut(&mut body);
        self.depth -= 1;
        self.inlined.push(d.vis_sig.ident.to_string());
        // tail
        let mut stmts = body.stmts;
        let tail: Expr = match stmts.last() {
            Some(Stmt::Expr(_, None)) => match stmts.pop() {
                Some(Stmt::Expr(x, None)) => x,
                _ => unreachable!(),
            },
            _ => parse_quote!(()),
        };
        if !early {
            return Some(parse_quote!({ #(#lets)* #(#stmts)* #tail }));
        }
        // the loop runs once: everything is as it was before it
        let (mut ghosts, mut inv) = (vec![], vec![]);
        if let (Some(a), true) = (&direct, d.vis_sig.receiver().is_some_and(|r| r.mutability.is_some())) {
            // a plain name is taken for a reference (self, a lock guard)
            let star = if matches!(a, Expr::Path(_)) { "*" } else { "" };
            muts.push(format!("{star}{}", a.to_token_stream()));
        }
        if self.world {
            muts.push("*w".into());
        }
        for (i, m) in muts.iter().enumerate() {
            let g = format!("let ghost __inl_g{n}_{i} = {m};");
            let st: Stmt = parse_quote!(__RAW!(#g););
            ghosts.push(st);
            inv.push(format!("{m} == __inl_g{n}_{i}"));
        }
        let inv = if inv.is_empty() { String::new() } else { format!("invariant_except_break {},", inv.join(", ")) };
        Some(parse_quote!({
            let #res;
            #(#lets)*
            #(#ghosts)*
            #lab: loop { __INLSPEC!(#inv); #(#stmts)* #res = #tail; break #lab; }
            #res
        }))
    }

    /// a future that is not awaited here: it runs not at all or up to any point
    fn not_awaited(&mut self, b: Block) -> Expr {
        self.drop_("future run to any point where it is made");
        struct Early(bool);
        impl<'b> syn::visit::Visit<'b> for Early {
            fn visit_expr_closure(&mut self, _: &'b ExprClosure) {}
            fn visit_expr_return(&mut self, _: &'b ExprReturn) {
                self.0 = true;
            }
            fn visit_expr_try(&mut self, _: &'b ExprTry) {
                self.0 = true;
            }
        }
        let mut ev = Early(false);
        syn::visit::Visit::visit_block(&mut ev, &b);
        if ev.0 {
            self.errors.push("early exit in an async block".into());
        }
        let value = matches!(b.stmts.last(), Some(Stmt::Expr(e, None)) if !is_unit_like(e));
        let run: Expr = if value { parse_quote!(if x_started() { let _ = #b; }) } else { parse_quote!(if x_started() #b) };
        let end: Vec<Stmt> = if self.async_depth == 0 { vec![parse_quote!(__ASYNCEND!();)] } else { vec![] };
        parse_quote!({ #run #(#end)* x_future() })
    }

    fn inline_call(&mut self, d: &Def, args: Vec<Expr>, awaited: bool) -> Option<Expr> {
        if d.vis_sig.asyncness.is_none() || awaited {
            return self.inline(d, args);
        }
        self.async_depth += 1;
        let x = self.inline(d, args);
        self.async_depth -= 1;
        let x = x?;
        let b: Block = parse_quote!({ #x });
        Some(self.not_awaited(b))
    }

    /// a match with guards as matches without (Verus loses the final value of mutable references
    /// across guarded arms)
    fn guarded_match(&mut self, mut m: ExprMatch) -> Expr {
        self.drop_("match guard desugared to if");
        // bound names are references where the scrutinee is borrowed
        struct Deref(BTreeSet<String>);
        impl<'b> syn::visit::Visit<'b> for Deref {
            fn visit_pat_ident(&mut self, p: &'b PatIdent) {
                self.0.insert(p.ident.to_string());
                syn::visit::visit_pat_ident(self, p);
            }
        }
        impl VisitMut for Deref {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if matches!(e, Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.0.contains(&i.to_string()))) {
                    *e = parse_quote!((*#e));
                } else {
                    visit_mut::visit_expr_mut(self, e);
                }
            }
        }
        fn build(nm: &mut Norm, x: &Expr, arms: &[Arm], copy: bool) -> Expr {
            match arms.iter().position(|a| a.guard.is_some()) {
                None if arms.last().is_some_and(|a| matches!(a.pat, Pat::Wild(_) | Pat::Ident(_))) => parse_quote!(match #x { #(#arms)* }),
                None => parse_quote!(match #x { #(#arms)* _ => { vp_never() } }),
                Some(0) => {
                    let mut a = arms[0].clone();
                    let (_, mut g) = a.guard.take().unwrap();
                    let mut sx = x.clone();
                    struct Mm<'c, 'd>(&'c mut Norm<'d>);
                    impl VisitMut for Mm<'_, '_> {
                        fn visit_expr_mut(&mut self, e: &mut Expr) {
                            if let Expr::Macro(m) = e {
                                if let Some(x) = self.0.macro_expr(&m.mac) {
                                    *e = x;
                                }
                            }
                            visit_mut::visit_expr_mut(self, e);
                        }
                    }
                    Mm(nm).visit_expr_mut(&mut g);
                    if !copy {
                        let mut dr = Deref(BTreeSet::new());
                        syn::visit::Visit::visit_pat(&mut dr, &a.pat);
                        dr.visit_expr_mut(&mut g);
                        sx = parse_quote!(&#x);
                    }
                    a.comma = Some(Default::default());
                    let p = &a.pat;
                    let rest = build(nm, x, &arms[1..], copy);
                    parse_quote!(if match #sx { #p => #g, _ => false } { match #x { #a _ => { vp_never() } } } else { #rest })
                }
                Some(k) => {
                    let mut first = arms[..k].to_vec();
                    for a in &mut first {
                        a.comma = Some(Default::default());
                    }
                    let rest = build(nm, x, &arms[k..], copy);
                    parse_quote!(match #x { #(#first)* _ => #rest })
                }
            }
        }
        let mut pre: Vec<Stmt> = vec![];
        if !matches!(&*m.expr, Expr::Path(_)) {
            let t = self.fresh("mg");
            let x = &m.expr;
            pre.push(parse_quote!(let #t = #x;));
            m.expr = Box::new(parse_quote!(#t));
        }
        for a in &mut m.arms {
            a.comma = Some(Default::default());
        }
        let r = build(self, &m.expr, &m.arms, self.sp.guards);
        if pre.is_empty() { r } else { parse_quote!({ #(#pre)* #r }) }
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Expr {
        let label = &f.label;
        let pat = &f.pat;
        let body = &f.body.stmts;
        let mut it_e: &Expr = &f.expr;
        while let Expr::Paren(p) = it_e {
            it_e = &p.expr;
        }
        self.drop_("for desugared to loop");
        if let Expr::Range(r) = it_e {
            if let (RangeLimits::HalfOpen(_), Some(end)) = (&r.limits, &r.end) {
                let st: Expr = r.start.as_deref().cloned().unwrap_or(parse_quote!(0));
                let i = self.fresh("it");
                let n = self.fresh("end");
                return parse_quote!({
                    let mut #i = #st;
                    let #n = #end;
                    #label loop {
                        if !(#i < #n) { break; }
                        let #pat = #i;
                        #i += 1;
                        #(#body)*
                    }
                });
            }
        }
        let i = self.fresh("it");
        let nx: Expr = parse_quote!(#i.next());
        parse_quote!({
            let mut #i = #it_e;
            #label loop {
                let #pat = match #nx { Some(__x) => __x, None => break };
                #(#body)*
            }
        })
    }

    fn if_chain(&mut self, i: &ExprIf) -> Option<Expr> {
        let mut conj = vec![];
        flatten_and(&i.cond, &mut conj);
        if conj.len() < 2 || !has_let(&i.cond) {
            return None;
        }
        self.drop_("let-chain desugared");
        let then = &i.then_branch;
        match &i.else_branch {
            None => {
                let mut e: Expr = parse_quote!(#then);
                let mut first = true;
                for c in conj.iter().rev() {
                    e = if first { parse_quote!(if #c #then) } else { parse_quote!(if #c { #e }) };
                    first = false;
                }
                Some(e)
            }
            Some((_, el)) => {
                // first must be the only let
                let Expr::Let(l) = &conj[0] else { return None };
                if conj[1..].iter().any(has_let) {
                    return None;
                }
                let (p, s) = (&l.pat, &l.expr);
                let rest = &conj[1..];
                Some(parse_quote!(match #s { #p if #(#rest)&&* => #then, _ => #el }))
            }
        }
    }
}

fn strip_mod(p: &mut Path) {
    while p.segments.len() > 1 {
        let f = p.segments[0].ident.to_string();
        if matches!(f.as_str(), "crate" | "consts" | "super" | "self" | "error" | "flash" | "storage_node" | "storage_list") {
            p.segments = p.segments.iter().skip(1).cloned().collect();
        } else {
            break;
        }
    }
}

/// `map_err(|e| ..)`, `ok_or_else(|| ..)` and the like as a match
fn desugar_adapter(m: &ExprMethodCall) -> Option<Expr> {
    let name = m.method.to_string();
    let x = &m.receiver;
    if name == "then_some" && m.args.len() == 1 {
        let v = &m.args[0];
        return Some(parse_quote!(match (#x, #v) { (true, __v) => Some(__v), _ => None }));
    }
    let [Expr::Closure(c)] = m.args.iter().collect::<Vec<_>>()[..] else { return None };
    struct Early(bool);
    impl<'b> syn::visit::Visit<'b> for Early {
        fn visit_expr_return(&mut self, _: &'b ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'b ExprTry) {
            self.0 = true;
        }
        fn visit_macro(&mut self, m: &'b Macro) {
            if m.path.is_ident("__CL_RAW") {
                self.0 = true;
            }
        }
    }
    let mut ev = Early(false);
    syn::visit::Visit::visit_expr(&mut ev, &c.body);
    if ev.0 {
        return None;
    }
    let b = &c.body;
    let mut p = c.inputs.first().cloned();
    if let Some(Pat::Type(t)) = p {
        p = Some(*t.pat);
    }
    Some(match (name.as_str(), c.inputs.len()) {
        ("map_err", 1) => parse_quote!(match #x { Ok(__v) => Ok(__v), Err(#p) => Err(#b) }),
        ("ok_or_else", 0) => parse_quote!(match #x { Some(__v) => Ok(__v), None => Err(#b) }),
        ("unwrap_or_else", 0) => parse_quote!(match #x { Some(__v) => __v, None => #b }),
        ("unwrap_or_else", 1) => parse_quote!(match #x { Ok(__v) => __v, Err(#p) => #b }),
        ("is_some_and", 1) => parse_quote!(match #x { Some(#p) => #b, None => false }),
        ("is_none_or", 1) => parse_quote!(match #x { Some(#p) => #b, None => true }),
        ("is_ok_and", 1) => parse_quote!(match #x { Ok(#p) => #b, Err(_) => false }),
        ("is_err_and", 1) => parse_quote!(match #x { Err(#p) => #b, Ok(_) => false }),
        ("then", 0) => parse_quote!(if #x { Some(#b) } else { None }),
        _ => return None,
    })
}

fn ctor_closure(p: &Path) -> Option<Expr> {
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    if segs.len() < 2 || !segs.last()?.chars().next()?.is_uppercase() {
        return None;
    }
    let en = &segs[segs.len() - 2];
    let ty = if en == "LoadStoreError" { "LoadStoreError<_>".to_string() } else { en.clone() };
    let ps = segs.join("::");
    let txt = format!("-> (r: {ty}) ensures r == {ps}(__e)");
    Some(parse_quote!(|__e| { __CL_RAW!(#txt); #p(__e) }))
}

impl<'a> VisitMut for Norm<'a> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.retain(|x| x.path().is_ident("verifier"));
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let mut guards: Vec<String> = vec![]; // live lock guards of this block
        let stmts = std::mem::take(&mut b.stmts);
        for mut s in stmts {
            match &mut s {
                Stmt::Macro(m) => {
                    if let Some(mut e) = self.macro_expr(&m.mac) {
                        let logging = m.mac.path.segments.last().is_some_and(|x| LOG.contains(&x.ident.to_string().as_str()));
                        if logging {
                            continue;
                        }
                        self.visit_expr_mut(&mut e);
                        out.push(Stmt::Expr(e, Some(Default::default())));
                        continue;
                    }
                    self.errors.push(format!("macro {}", path_str(&m.mac.path)));
                    continue;
                }
                Stmt::Item(Item::Fn(_)) => {
                    self.errors.push("nested fn".into());
                }
                Stmt::Item(_) => {
                    self.drop_("nested item");
                    continue;
                }
                Stmt::Local(l) => {
                    if let Some(i) = &l.init {
                        if matches!(&*i.expr, Expr::Const(_)) && matches!(&l.pat, Pat::Type(_) | Pat::Wild(_)) {
                            self.drop_("const assertion block");
                            continue;
                        }
                    }
                }
                _ => {}
            }
            // guard bookkeeping
            let mut unlock_after = false;
            if self.world {
                if let Stmt::Local(l) = &s {
                    if let Some(init) = &l.init {
                        if is_lock(&init.expr, self.sp) {
                            match &l.pat {
                                Pat::Ident(i) => guards.push(i.ident.to_string()),
                                Pat::Wild(_) => unlock_after = true,
                                _ => {}
                            }
                        }
                    }
                }
                if let Stmt::Expr(e, Some(_)) = &s {
                    if is_lock(e, self.sp) {
                        unlock_after = true;
                    }
                    if let Some(g) = dropped_ident(e) {
                        if let Some(p) = guards.iter().position(|x| *x == g) {
                            guards.remove(p);
                            out.push(parse_quote!(vp_unlock(Tracked(w));));
                            continue;
                        }
                    }
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
            if unlock_after {
                out.push(parse_quote!(vp_unlock(Tracked(w));));
            }
        }
        if !guards.is_empty() {
            match out.last() {
                Some(Stmt::Expr(e, None)) if !is_unit_like(e) => {
                    let Some(Stmt::Expr(e, None)) = out.pop() else { unreachable!() };
                    let t = self.fresh("tail");
                    out.push(parse_quote!(let #t = #e;));
                    out.push(parse_quote!(vp_unlock(Tracked(w));));
                    out.push(Stmt::Expr(parse_quote!(#t), None));
                }
                Some(Stmt::Expr(Expr::Return(_), _)) => {}
                _ => out.push(parse_quote!(vp_unlock(Tracked(w));)),
            }
        }
        b.stmts = out;
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if self.sp.rawptr {
            if let Type::Ptr(p) = t {
                let e = &p.elem;
                *t = parse_quote!(XPtr<#e>);
                self.drop_("raw pointer type");
            }
        }
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        // a declared raw pointer type coerces its initialiser
        let coerce = self.sp.rawptr && matches!(&l.pat, Pat::Type(t) if matches!(&*t.ty, Type::Ptr(_)));
        visit_mut::visit_local_mut(self, l);
        if coerce {
            if let Some(i) = &mut l.init {
                let e = &i.expr;
                *i.expr = parse_quote!(x_ptr(#e));
            }
        }
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        // named constants of the crate in patterns: their value
        let name = match p {
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() => Some(i.ident.to_string()),
            Pat::Path(x) => x.path.segments.last().map(|s| s.ident.to_string()),
            _ => None,
        };
        if let Some(c) = name.and_then(|n| self.ix.consts.get(&n)) {
            if let Some(v) = crate::const_eval(&c.expr, self.ix, 0) {
                let l = proc_macro2::Literal::u128_unsuffixed(v);
                *p = Pat::Lit(parse_quote!(#l));
                self.drop_("constant pattern folded");
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---- pre-order
        let flag: Attribute = parse_quote!(#[__awaited]);
        let mut awaited = false;
        match e {
            Expr::Await(a) => match &mut *a.base {
                Expr::Call(c) => c.attrs.push(flag),
                Expr::MethodCall(c) => c.attrs.push(flag),
                Expr::Async(c) => c.attrs.push(flag),
                _ => {}
            },
            Expr::Call(ExprCall { attrs, .. }) | Expr::MethodCall(ExprMethodCall { attrs, .. }) | Expr::Async(ExprAsync { attrs, .. }) => {
                awaited = attrs.contains(&flag);
                attrs.retain(|x| *x != flag);
            }
            _ => {}
        }
        if let Expr::Path(p) = e {
            let last = p.path.segments.last().unwrap().ident.to_string();
            if let Some(f) = self.sp.const_call.get(&last) {
                p.path.segments.last_mut().unwrap().ident = Ident::new(f, Span::call_site());
                *e = parse_quote!(#p());
                return;
            }
            // a constant of the crate that the contracts do not know by name: its value
            if last.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_')
                && p.qself.is_none()
                && !p.path.segments.iter().any(|s| s.ident == "Self")
                && !self.sp.consts.contains(&last)
            {
                if let Some(c) = self.ix.consts.get(&last) {
                    if let (Some(v), Type::Path(t)) = (crate::const_eval(&c.expr, self.ix, 0), &*c.ty) {
                        let txt = format!("{v}{}", t.to_token_stream());
                        if let Ok(l) = syn::parse_str::<Lit>(&txt) {
                            *e = parse_quote!(#l);
                            self.drop_("constant folded");
                            return;
                        }
                    }
                    if matches!(&*c.expr, Expr::Call(_)) {
                        *e = (*c.expr).clone();
                        self.drop_("constant replaced by its definition");
                    }
                }
            }
        }
        if let Expr::Macro(m) = e {
            match self.macro_expr(&m.mac) {
                Some(x) => *e = x,
                None => {
                    self.errors.push(format!("macro {}", path_str(&m.mac.path)));
                    return;
                }
            }
        }
        if let Expr::If(i) = e {
            if let Some(x) = self.if_chain(i) {
                *e = x;
            } else if has_let(&i.cond) && !matches!(&*i.cond, Expr::Let(_)) {
                self.errors.push("let-chain with else".into());
            }
        }
        if let Expr::ForLoop(f) = e {
            let f = f.clone();
            *e = self.for_loop(&f);
        }
        if let Expr::Match(m) = e {
            struct Aw(bool);
            impl<'b> syn::visit::Visit<'b> for Aw {
                fn visit_expr_await(&mut self, _: &'b ExprAwait) {
                    self.0 = true;
                }
            }
            let mut aw = Aw(false);
            m.arms.iter().for_each(|a| syn::visit::Visit::visit_arm(&mut aw, a));
            if m.arms.iter().any(|a| a.guard.is_some()) && (self.sp.guards || self.guards_ref || aw.0) {
                *e = self.guarded_match(m.clone());
            }
        }
        if let Expr::While(wl) = e {
            self.drop_("while desugared to loop");
            let label = &wl.label;
            let body = &wl.body.stmts;
            let cond = &wl.cond;
            if let Expr::Let(l) = &**cond {
                let (p, s) = (&l.pat, &l.expr);
                *e = parse_quote!(#label loop { match #s { #p => { #(#body)* } _ => { break; } } });
            } else if has_let(cond) {
                self.errors.push("while let chain".into());
            } else {
                *e = parse_quote!(#label loop { if !(#cond) { break; } #(#body)* });
            }
        }
        if let Expr::Repeat(r) = e {
            if let Expr::Const(c) = &*r.expr {
                let s = c.block.to_token_stream().to_string();
                if s == "{ None }" {
                    *e = parse_quote!(x_array_none());
                }
            }
        }
        // constant expressions over the crate's own constants
        if matches!(e, Expr::Binary(_)) {
            if let Some(v) = crate::const_eval(e, self.ix, 0) {
                let l = proc_macro2::Literal::u128_unsuffixed(v);
                *e = parse_quote!(#l);
                self.drop_("constant folded");
            }
        }
        if self.sp.rawptr {
            let mut dr = |x: &Expr, m: bool| -> Option<Expr> {
                let mut x = x;
                while let Expr::Paren(p) = x {
                    x = &p.expr;
                }
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = x {
                    self.drop_("raw pointer dereference through helper");
                    Some(if m { parse_quote!(x_deref_mut(#expr)) } else { parse_quote!(x_deref(#expr)) })
                } else {
                    None
                }
            };
            let n = match e {
                Expr::Reference(r) => dr(&r.expr, r.mutability.is_some()),
                Expr::Unary(_) => dr(e, false),
                _ => None,
            };
            if let Some(n) = n {
                *e = n;
            }
            if let Expr::Cast(c) = e {
                if c.ty.to_token_stream().to_string() == "usize" {
                    let x = &c.expr;
                    *e = parse_quote!(x_as_usize(#x));
                }
            }
        }
        // waiting for a value: the documented loop of the wait queue
        if let Expr::MethodCall(m) = e {
            if self.sp.wait_methods.contains(&m.method.to_string()) && m.args.len() == 1 && self.in_closure == 0 {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.is_empty() {
                        let (q, body) = (&m.receiver, &c.body);
                        let v = self.fresh("wv");
                        let some = self.fresh("wsome");
                        let n: Expr = parse_quote!({
                            let #v;
                            loop {
                                x_wait(&#q, Tracked(w));
                                let #some = #body;
                                match #some {
                                    Some(__x) => {
                                        #v = __x;
                                        break;
                                    }
                                    None => {}
                                }
                            }
                            Ok::<_, XClosed>(#v)
                        });
                        *e = n;
                        self.drop_("wait for value expanded to its loop");
                    }
                }
            }
        }
        // bit operations on bool / integers, through a trait (the verifier has none for bool)
        if let Expr::Binary(b) = e {
            let (l, r) = (&b.left, &b.right);
            let n: Option<Expr> = match b.op {
                BinOp::BitOr(_) => Some(parse_quote!(XBits::x_or(#l, #r))),
                BinOp::BitAnd(_) => Some(parse_quote!(XBits::x_and(#l, #r))),
                BinOp::BitXor(_) => Some(parse_quote!(XBits::x_xor(#l, #r))),
                BinOp::BitOrAssign(_) => Some(parse_quote!(#l = XBits::x_or(#l, #r))),
                BinOp::BitAndAssign(_) => Some(parse_quote!(#l = XBits::x_and(#l, #r))),
                BinOp::BitXorAssign(_) => Some(parse_quote!(#l = XBits::x_xor(#l, #r))),
                _ => None,
            };
            if let Some(n) = n {
                *e = n;
                self.drop_("bit operation through helper");
            }
        }
        // module prefixes of this crate
        if let Expr::Path(p) = e {
            strip_mod(&mut p.path);
        }
        if let Expr::Struct(p) = e {
            strip_mod(&mut p.path);
        }
        let closure = matches!(e, Expr::Closure(_));
        if closure {
            self.in_closure += 1;
        }
        let asy = matches!(e, Expr::Async(_)) && !awaited;
        if asy {
            self.async_depth += 1;
        }
        visit_mut::visit_expr_mut(self, e);
        if asy {
            self.async_depth -= 1;
        }
        if closure {
            self.in_closure -= 1;
        }
        // ---- post-order
        match e {
            Expr::Unsafe(u) => {
                *self.dropped.entry("unsafe block unwrapped".into()).or_default() += 1;
                let b = &u.block;
                if b.stmts.len() == 1 {
                    if let Stmt::Expr(x, None) = &b.stmts[0] {
                        let x = x.clone();
                        *e = parse_quote!((#x));
                        if let Expr::Paren(p) = e {
                            if matches!(&*p.expr, Expr::Path(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Reference(_) | Expr::Try(_) | Expr::Field(_)) {
                                *e = (*p.expr).clone();
                            }
                        }
                        return;
                    }
                }
                *e = parse_quote!(#b);
            }
            Expr::Const(c) => {
                let b = &c.block;
                *e = parse_quote!(#b);
            }
            Expr::Await(a) => {
                self.awaits += 1;
                let inner = &a.base;
                *e = parse_quote!(__AWAIT!(#inner));
                // kept as a macro until marking
                if let Expr::Macro(_) = e {}
            }
            Expr::Async(a) => {
                let b = a.block.clone();
                if awaited {
                    self.drop_("async block run in place");
                    *e = parse_quote!(#b);
                } else {
                    *e = self.not_awaited(b);
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                // map_err(Ctor)
                if name == "map_err" || name == "map" {
                    if let Some(Expr::Path(p)) = m.args.first() {
                        if let Some(c) = ctor_closure(&p.path) {
                            m.args[0] = c;
                        }
                    } else if let Some(Expr::Closure(c)) = m.args.first() {
                        if c.inputs.len() == 1 {
                            if let (Pat::Ident(pi), Expr::Call(call)) = (&c.inputs[0], &*c.body) {
                                if let (Expr::Path(fp), Some(Expr::Path(ap))) = (&*call.func, call.args.first()) {
                                    if ap.path.is_ident(&pi.ident) && call.args.len() == 1 {
                                        if let Some(c) = ctor_closure(&fp.path) {
                                            m.args[0] = c;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                if let Some(x) = desugar_adapter(m) {
                    self.drop_("closure adapter desugared to match");
                    *e = x;
                    return;
                }
                if name == "filter_map" && m.args.first().is_some_and(|a| a.to_token_stream().to_string() == "Option :: as_ref") {
                    m.method = Ident::new("x_filter_map_as_ref", Span::call_site());
                    m.args.clear();
                    return;
                }
                if let Some(n) = self.sp.rename_method.get(&name) {
                    m.method = Ident::new(n, Span::call_site());
                }
                if self.takes_world(&name) && self.in_closure == 0 {
                    m.args.insert(0, tracked());
                } else if let Some(d) = self.helper(&name, None, true) {
                    let mut args = vec![(*m.receiver).clone()];
                    args.extend(m.args.iter().cloned());
                    if let Some(x) = self.inline_call(&d, args, awaited) {
                        *e = x;
                    }
                }
            }
            Expr::Call(c) => {
                // (a.f)(args): call through a function pointer field
                if let Expr::Paren(p) = &*c.func {
                    if let Expr::Field(f) = &*p.expr {
                        if let Member::Named(n) = &f.member {
                            let n = Ident::new(&format!("call_{n}"), Span::call_site());
                            let (b, args) = (&f.base, &c.args);
                            *e = parse_quote!(#b.#n(Tracked(w), #args));
                            return;
                        }
                    }
                }
                if let Expr::Path(p) = &mut *c.func {
                    let ps = path_str(&p.path);
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    if let Some(n) = self.sp.rename_path.get(&ps) {
                        let mut np: Path = syn::parse_str(n.trim_end_matches("<>")).unwrap();
                        // explicit type arguments stay if the target takes them
                        let args = p.path.segments.last().unwrap().arguments.clone();
                        let nl = np.segments.last_mut().unwrap();
                        if n.ends_with("<>") { nl.arguments = args; }
                        p.path = np;
                    }
                    if self.takes_world(&last) && self.in_closure == 0 {
                        // UFCS method calls keep the receiver first
                        let pos = if p.path.segments.len() > 1 && !p.path.segments[0].ident.to_string().starts_with("Self") { 1 } else { 0 };
                        let pos = pos.min(c.args.len());
                        c.args.insert(if self.sp.rename_path.contains_key(&ps) || p.path.segments.len() == 1 { 0 } else { pos }, tracked());
                        return;
                    }
                    let ty = if p.path.segments.len() == 2 {
                        let t = p.path.segments[0].ident.to_string();
                        if t == "Self" { self.self_ty.clone() } else { Some(t) }
                    } else {
                        None
                    };
                    if p.path.segments.len() <= 2 && !last.chars().next().unwrap().is_uppercase() {
                        let recv = self.helper(&last, ty.as_deref(), false).or_else(|| self.helper(&last, ty.as_deref(), true));
                        if let Some(d) = recv {
                            let args: Vec<Expr> = c.args.iter().cloned().collect();
                            let args = if d.vis_sig.receiver().is_some() {
                                // Type::method(recv, ..): strip a leading & / &mut
                                let mut a = args;
                                if let Some(Expr::Reference(r)) = a.first().cloned() {
                                    a[0] = (*r.expr).clone();
                                }
                                a
                            } else {
                                args
                            };
                            if let Some(x) = self.inline_call(&d, args, awaited) {
                                *e = x;
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

fn is_unit_like(e: &Expr) -> bool {
    matches!(e, Expr::Return(_) | Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_))
}

fn is_lock(e: &Expr, sp: &Spec) -> bool {
    match e {
        Expr::Await(a) => is_lock(&a.base, sp),
        Expr::MethodCall(m) => sp.lock_methods.contains(&m.method.to_string()),
        _ => false,
    }
}
fn dropped_ident(e: &Expr) -> Option<String> {
    let Expr::Call(c) = e else { return None };
    let Expr::Path(p) = &*c.func else { return None };
    if p.path.segments.last()?.ident != "drop" || c.args.len() != 1 {
        return None;
    }
    let Expr::Path(a) = &c.args[0] else { return None };
    a.path.get_ident().map(|i| i.to_string())
}

// ---------------------------------------------------------------------------------------------

/// collects `let`-bound locals with a fingerprint of their initialiser
struct Locals {
    out: Vec<(String, String)>,
    names: BTreeSet<String>,
}
impl<'ast> syn::visit::Visit<'ast> for Locals {
    fn visit_local(&mut self, l: &'ast Local) {
        let mut pat = &l.pat;
        if let Pat::Type(t) = pat {
            pat = &t.pat;
        }
        if let Pat::Ident(i) = pat {
            let n = i.ident.to_string();
            self.names.insert(n.clone());
            let ty = if let Pat::Type(t) = &l.pat { t.ty.to_token_stream().to_string() } else { String::new() };
            let fp = l.init.as_ref().map(|x| x.expr.to_token_stream().to_string()).unwrap_or_default();
            self.out.push((n, format!("{ty}|{fp}")));
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        self.names.insert(p.ident.to_string());
    }
}

fn canon(fp: &str, names: &BTreeSet<String>) -> String {
    fp.split(' ').map(|t| if names.contains(t) { "_" } else { t }).collect::<Vec<_>>().join(" ")
}

/// the closures in order of appearance, outer ones first
struct Closures(Vec<String>);
impl<'b> syn::visit::Visit<'b> for Closures {
    fn visit_expr_closure(&mut self, c: &'b ExprClosure) {
        if let Expr::Block(b) = &*c.body {
            if matches!(b.block.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__CL_RAW")) {
                return;
            }
        }
        self.0.push(c.to_token_stream().to_string());
        syn::visit::visit_expr_closure(self, c);
    }
}

struct Mark<'a> {
    fs: &'a FnSpec,
    mk: &'a mut Markers,
    nloop: usize,
    nclosure: usize,
    clmap: Vec<Option<usize>>,
    stack: Vec<(Option<String>, Option<usize>)>, // label, loop no
    sub: &'a dyn Fn(&str) -> std::result::Result<String, String>,
    err: Vec<String>,
    used: BTreeSet<String>,
    calls: BTreeMap<String, usize>,
}

fn proof_stmt(mk: &mut Markers, text: String) -> Stmt {
    let k = mk.proofs.len();
    mk.proofs.push(text);
    let k = proc_macro2::Literal::usize_unsuffixed(k);
    parse_quote!(__PROOF!(#k);)
}

impl<'a> Mark<'a> {
    fn text(&mut self, t: &str) -> String {
        match (self.sub)(t) {
            Ok(s) => s,
            Err(e) => {
                self.err.push(e);
                String::new()
            }
        }
    }
    fn proof(&mut self, key: &str) -> Option<Stmt> {
        let t = self.fs.proofs.get(key)?.clone();
        self.used.insert(key.into());
        let t = self.text(&t);
        Some(proof_stmt(self.mk, t))
    }
}

struct Calls<'a>(&'a BTreeSet<String>, Vec<String>);
impl<'a, 'ast> syn::visit::Visit<'ast> for Calls<'a> {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, m);
        let n = m.method.to_string();
        if self.0.contains(&n) {
            self.1.push(n)
        }
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        syn::visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func {
            let n = p.path.segments.last().unwrap().ident.to_string();
            if self.0.contains(&n) {
                self.1.push(n)
            }
        }
    }
    fn visit_expr_macro(&mut self, m: &'ast ExprMacro) {
        if m.mac.path.is_ident("__AWAIT") {
            if let Ok(e) = syn::parse2::<Expr>(m.mac.tokens.clone()) {
                let e = Box::leak(Box::new(e));
                self.visit_expr(e);
            }
        }
    }
    // only calls made by the statement itself, not by nested blocks of control flow
    fn visit_block(&mut self, _: &'ast Block) {}
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}

impl<'a> VisitMut for Mark<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let hooks: BTreeSet<String> = self
            .fs
            .proofs
            .keys()
            .filter_map(|k| k.strip_prefix("after:").or(k.strip_prefix("before:")))
            .filter_map(|k| k.split('#').next())
            .map(String::from)
            .collect();
        let stmts = std::mem::take(&mut b.stmts);
        let mut out = vec![];
        for mut s in stmts {
            let mut post = vec![];
            if !hooks.is_empty() {
                let mut c = Calls(&hooks, vec![]);
                syn::visit::Visit::visit_stmt(&mut c, &s);
                for n in c.1 {
                    let k = self.calls.entry(n.clone()).or_default();
                    let key = format!("{n}#{k}");
                    *k += 1;
                    if let Some(p) = self.proof(&format!("before:{key}")) {
                        out.push(p);
                    }
                    if let Some(p) = self.proof(&format!("after:{key}")) {
                        post.push(p);
                    }
                }
            }
            let l0 = self.nloop;
            let was_loop = matches!(&s, Stmt::Expr(Expr::Loop(_), _));
            self.visit_stmt_mut(&mut s);
            let is_tail = matches!(&s, Stmt::Expr(_, None));
            if is_tail && !post.is_empty() && !was_loop {
                if let Stmt::Expr(e, None) = s {
                    out.push(parse_quote!(let __tl = #e;));
                    out.extend(post);
                    out.push(Stmt::Expr(parse_quote!(__tl), None));
                }
                continue;
            }
            out.push(s);
            out.extend(post);
            if was_loop && self.nloop > l0 {
                if let Some(p) = self.proof(&format!("loop{l0}.exit")) {
                    out.push(p);
                }
            }
        }
        b.stmts = out;
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if m.mac.path.is_ident("__AWAIT") {
                let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                *s = Stmt::Expr(e, Some(Default::default()));
                return self.visit_stmt_mut(s);
            }
            if m.mac.path.is_ident("__ASYNCEND") {
                let t = self.fs.async_end.clone();
                if t.is_empty() {
                    self.err.push("lost anchor: async block, contract written for none".into());
                }
                let t = self.text(&t).trim().to_string();
                *s = parse_quote!(__RAW!(#t););
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("__AWAIT") {
                let mut inner: Expr = syn::parse2(m.mac.tokens.clone()).unwrap();
                self.visit_expr_mut(&mut inner);
                if let Some(c) = self.fs.cancel.clone() {
                    let t = self.text(&c);
                    let p1 = proof_stmt(self.mk, t.clone());
                    let p2 = proof_stmt(self.mk, t);
                    *e = parse_quote!({ #p1 let __aw = #inner; #p2 __aw });
                } else {
                    *e = inner;
                }
                return;
            }
        }
        match e {
            Expr::Loop(l) => {
                let lab = l.label.as_ref().map(|x| x.name.to_string());
                let inl = lab.as_ref().is_some_and(|x| x.starts_with("'inl_"));
                if inl {
                    self.stack.push((lab, None));
                    visit_mut::visit_expr_loop_mut(self, l);
                    self.stack.pop();
                    let k = self.mk.loops.len();
                    let mut inv = String::new();
                    if let Some(Stmt::Macro(m)) = l.body.stmts.first() {
                        if m.mac.path.is_ident("__INLSPEC") {
                            inv = m.mac.parse_body::<LitStr>().map(|x| x.value()).unwrap_or_default();
                            l.body.stmts.remove(0);
                        }
                    }
                    self.mk.loops.push(format!("{inv} decreases 0int"));
                    let k = proc_macro2::Literal::usize_unsuffixed(k);
                    l.body.stmts.insert(0, parse_quote!(__LOOP_SPEC!(#k);));
                } else {
                    let n = self.nloop;
                    self.nloop += 1;
                    self.stack.push((lab, Some(n)));
                    visit_mut::visit_expr_loop_mut(self, l);
                    self.stack.pop();
                    let t = match self.fs.loops.get(&n).or(self.fs.loops.get(&usize::MAX)) {
                        Some(ls) => {
                            let t = ls.text.clone();
                            self.text(&t)
                        }
                        None => String::new(),
                    };
                    let k = self.mk.loops.len();
                    self.mk.loops.push(t);
                    let k = proc_macro2::Literal::usize_unsuffixed(k);
                    if let Some(p) = self.proof(&format!("loop{n}.start")) {
                        l.body.stmts.insert(0, p);
                    }
                    if let Some(p) = self.proof(&format!("loop{n}.end")) {
                        // a block-like tail expression becomes a statement
                        if let Some(Stmt::Expr(x, t @ None)) = l.body.stmts.last_mut() {
                            if !matches!(x, Expr::Break(_) | Expr::Continue(_) | Expr::Return(_)) {
                                *t = Some(Default::default());
                            }
                        }
                        if !matches!(l.body.stmts.last(), Some(Stmt::Expr(Expr::Break(_) | Expr::Continue(_) | Expr::Return(_), _))) {
                            l.body.stmts.push(p);
                        }
                    }
                    l.body.stmts.insert(0, parse_quote!(__LOOP_SPEC!(#k);));
                }
                l.attrs.push(parse_quote!(#[verifier::loop_isolation(false)]));
                if inl {
                    l.attrs.push(parse_quote!(#[verifier::allow_complex_invariants]));
                }
                return;
            }
            Expr::Closure(c) => {
                let raw = match &*c.body {
                    Expr::Block(b) => matches!(b.block.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__CL_RAW")),
                    _ => false,
                };
                if raw {
                    return;
                }
                let n = self.nclosure;
                self.nclosure += 1;
                visit_mut::visit_expr_closure_mut(self, c);
                let n = if self.clmap.is_empty() { n } else { self.clmap[n].unwrap_or(usize::MAX) };
                if let Some(cs) = self.fs.closures.get(&n).cloned() {
                    let mut t = cs.text.clone();
                    for (i, p) in c.inputs.iter().enumerate() {
                        let mut p = p;
                        if let Pat::Type(pt) = p {
                            p = &pt.pat;
                        }
                        if let Pat::Ident(pi) = p {
                            t = t.replace(&format!("$c{i}"), &pi.ident.to_string());
                        }
                    }
                    let t = self.text(&t);
                    let ret = self.text(&cs.ret);
                    let k = self.mk.closures.len();
                    self.mk.closures.push((ret, t));
                    let k = proc_macro2::Literal::usize_unsuffixed(k);
                    c.output = ReturnType::Default;
                    let b = &c.body;
                    *c.body = match &**b {
                        Expr::Block(x) if x.label.is_none() && x.attrs.is_empty() => {
                            let st = &x.block.stmts;
                            parse_quote!({ __CL_SPEC!(#k); #(#st)* })
                        }
                        b => parse_quote!({ __CL_SPEC!(#k); #b }),
                    };
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Continue(c) => {
                let lab = c.label.as_ref().map(|l| l.to_string());
                let n = target(&self.stack, lab.as_deref());
                if let Some(n) = n {
                    if let Some(p) = self.proof(&format!("loop{n}.end")) {
                        let c = c.clone();
                        *e = parse_quote!({ #p #c });
                    }
                }
            }
            Expr::Break(c) => {
                let lab = c.label.as_ref().map(|l| l.to_string());
                if let Some(n) = target(&self.stack, lab.as_deref()) {
                    if let Some(p) = self.proof(&format!("loop{n}.break")) {
                        let c = c.clone();
                        *e = parse_quote!({ #p #c });
                    }
                }
            }
            Expr::Return(r) => {
                if let Some(p) = self.proof("ret") {
                    *e = match r.expr.clone() {
                        Some(v) => parse_quote!({ let __ret = #v; #p return __ret; }),
                        None => parse_quote!({ #p return; }),
                    };
                }
            }
            _ => {}
        }
    }
}

fn target(stack: &[(Option<String>, Option<usize>)], lab: Option<&str>) -> Option<usize> {
    match lab {
        Some(l) => stack.iter().rev().find(|x| x.0.as_deref() == Some(l)).and_then(|x| x.1),
        None => stack.iter().rev().find(|x| !x.0.as_ref().is_some_and(|l| l.starts_with("'inl_"))).and_then(|x| x.1),
    }
}

#[allow(clippy::too_many_arguments)]
pub fn extract_fn(
    d: &Def,
    fs: &FnSpec,
    sp: &Spec,
    ix: &Index,
    contracted: &BTreeSet<String>,
    world_fns: &BTreeSet<String>,
    mk: &mut Markers,
    external: bool,
    anchors: &serde_json::Value,
) -> std::result::Result<Piece, String> {
    let mut pc = Piece { id: fs.id(), ..Default::default() };
    let mut sig = d.vis_sig.clone();
    let mut block = d.block.clone();
    let mut nm = Norm {
        sp,
        ix,
        contracted,
        world_fns,
        world: fs.world,
        dropped: BTreeMap::new(),
        awaits: 0,
        errors: vec![],
        tmp: 0,
        tmps: BTreeMap::new(),
        inlined: vec![],
        depth: 0,
        self_ty: d.ty.clone(),
        in_closure: 0,
        async_depth: 0,
        guards_ref: fs.guards_ref,
    };
    nm.visit_block_mut(&mut block);
    if !nm.errors.is_empty() && !external && !fs.trusted {
        return Err(format!("unsupported construct: {}", nm.errors.join(", ")));
    }
    pc.awaits = nm.awaits;
    pc.inlined = nm.inlined;
    pc.dropped = nm.dropped;
    // ---- signature
    if sig.asyncness.take().is_some() {
        *pc.dropped.entry("async fn made synchronous".into()).or_default() += 1;
    }
    sig.unsafety = None;
    sig.constness = None;
    if let Some(r) = &fs.rename {
        sig.ident = Ident::new(r, Span::call_site());
    }
    if let Some(g) = &fs.generics {
        sig.generics.params = parse_generics(g);
    }
    if let Some(wc) = &fs.where_ {
        sig.generics.where_clause = if wc == "-" { None } else { Some(syn::parse_str(&format!("where {wc}")).map_err(|e| e.to_string())?) };
    }
    let mut names = vec![];
    let mut has_self = false;
    for p in sig.inputs.iter_mut() {
        match p {
            FnArg::Receiver(r) => {
                has_self = true;
                if let Some(s) = &fs.selfty {
                    let f: FnArg = syn::parse_str(s).map_err(|e| format!("{s}: {e}"))?;
                    if let FnArg::Receiver(x) = f {
                        *r = x;
                    }
                }
            }
            FnArg::Typed(t) => {
                let mut pat = &*t.pat;
                while let Pat::Paren(x) = pat {
                    pat = &x.pat;
                }
                match pat {
                    Pat::Ident(i) => names.push(i.ident.to_string()),
                    _ => names.push("_".into()),
                }
            }
        }
    }
    for (k, ty) in &fs.params {
        let k: usize = k.parse().map_err(|_| "bad @param")?;
        let ty: Type = syn::parse_str(ty).map_err(|e| format!("{ty}: {e}"))?;
        let mut i = 0;
        for p in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = p {
                i += 1;
                if i == k {
                    *t.ty = ty.clone();
                }
            }
        }
    }
    if fs.world {
        let wp: FnArg = parse_quote!(Tracked(w): Tracked<&mut World>);
        sig.inputs.insert(if has_self { 1 } else { 0 }, wp);
    }
    if let Some(r) = &fs.ret {
        let t: Type = syn::parse_str(r).map_err(|e| format!("{r}: {e}"))?;
        sig.output = parse_quote!(-> #t);
    }
    // ---- locals
    let mut lc = Locals { out: vec![], names: BTreeSet::new() };
    syn::visit::Visit::visit_block(&mut lc, &block);
    let mut all_names = lc.names.clone();
    all_names.extend(names.iter().cloned());
    let cur: Vec<(String, String)> = lc.out.iter().map(|(n, f)| (n.clone(), canon(f, &all_names))).collect();
    pc.locals = cur.clone();
    let base: Vec<(String, String)> = anchors
        .get(fs.id())
        .and_then(|a| a.get("locals"))
        .and_then(|l| serde_json::from_value(l.clone()).ok())
        .unwrap_or_default();
    let base_names: BTreeSet<String> = base.iter().map(|x| x.0.clone()).collect();
    let lookup = |n: &str| -> std::result::Result<String, String> {
        if all_names.contains(n) {
            return Ok(n.into());
        }
        let Some(bi) = base.iter().position(|x| x.0 == n) else {
            return Err(format!("lost anchor: local `{n}`"));
        };
        let fresh: Vec<&(String, String)> = cur.iter().filter(|x| !base_names.contains(&x.0)).collect();
        let same: Vec<_> = fresh.iter().filter(|x| x.1 == base[bi].1).collect();
        if same.len() == 1 {
            return Ok(same[0].0.clone());
        }
        if cur.len() == base.len() && !base_names.contains(&cur[bi].0) {
            return Ok(cur[bi].0.clone());
        }
        Err(format!("lost anchor: local `{n}`"))
    };
    let names2 = names.clone();
    let sub = move |t: &str| -> std::result::Result<String, String> {
        let mut o = String::new();
        let mut r = t;
        while let Some(p) = r.find('$') {
            o.push_str(&r[..p]);
            r = &r[p + 1..];
            if let Some(x) = r.strip_prefix('{') {
                let e = x.find('}').ok_or("unterminated ${")?;
                o.push_str(&lookup(&x[..e])?);
                r = &x[e + 1..];
            } else {
                let n: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
                if n.is_empty() {
                    o.push('$');
                    continue;
                }
                let k: usize = n.parse().unwrap();
                o.push_str(names2.get(k - 1).ok_or(format!("lost anchor: parameter {k}"))?);
                r = &r[n.len()..];
            }
        }
        o.push_str(r);
        Ok(o)
    };
    // ---- closures: where their number changed, those whose text is known keep their contract
    let mut cv = Closures(vec![]);
    syn::visit::Visit::visit_block(&mut cv, &block);
    pc.closure_texts = cv.0.iter().map(|f| canon(f, &all_names)).collect();
    let mut clmap: Vec<Option<usize>> = vec![];
    if let Some(mx) = fs.closures.keys().max() {
        let base: Vec<String> = anchors
            .get(fs.id())
            .and_then(|a| a.get("closure_texts"))
            .and_then(|l| serde_json::from_value(l.clone()).ok())
            .unwrap_or_default();
        if base.len() == mx + 1 && pc.closure_texts.len() != base.len() {
            let mut used = BTreeSet::new();
            for t in &pc.closure_texts {
                let k = (0..base.len()).find(|k| !used.contains(k) && base[*k] == *t);
                if let Some(k) = k {
                    used.insert(k);
                }
                clmap.push(k);
            }
        }
    }
    // ---- marks
    let ext = external || fs.trusted;
    if ext {
        block = parse_quote!({ unimplemented!() });
    }
    let (nl, nc);
    {
        let mut m = Mark {
            fs,
            mk,
            nloop: 0,
            nclosure: 0,
            clmap: clmap.clone(),
            stack: vec![],
            sub: &sub,
            err: vec![],
            used: BTreeSet::new(),
            calls: BTreeMap::new(),
        };
        // tail expression hint
        if !ext && fs.proofs.contains_key("ret") {
            if let Some(Stmt::Expr(e, None)) = block.stmts.last().cloned() {
                if !is_unit_like(&e) {
                    block.stmts.pop();
                    block.stmts.push(parse_quote!(return #e;));
                }
            } else {
                block.stmts.push(parse_quote!(return;));
            }
        }
        m.visit_block_mut(&mut block);
        if !ext {
            if let Some(p) = m.proof("entry") {
                block.stmts.insert(0, p);
            }
            if !fs.hide.is_empty() {
                let t = fs.hide.iter().map(|h| format!("hide({h}); ")).collect::<String>();
                block.stmts.insert(0, proof_stmt(m.mk, format!("//raw {t}")));
            }
            for k in fs.proofs.keys() {
                if !m.used.contains(k) {
                    pc.weak.push(format!("hint {k} not placed"));
                }
            }
        }
        if !m.err.is_empty() && !ext {
            return Err(m.err.join("; "));
        }
        nl = m.nloop;
        nc = m.nclosure;
    }
    pc.loops = nl;
    pc.closures = nc;
    if !ext {
        if fs.loops.contains_key(&usize::MAX) {
        } else if let Some(mx) = fs.loops.keys().max() {
            if nl != mx + 1 {
                return Err(format!("lost anchor: {} loops, contract written for {}", nl, mx + 1));
            }
        } else if nl > 0 {
            return Err(format!("lost anchor: {nl} loops, contract written for none"));
        }
        if let Some(mx) = fs.closures.keys().max() {
            if nc != mx + 1 && (clmap.len() != nc || clmap.iter().any(|k| k.is_none())) {
                return Err(format!("lost anchor: {} closures, contract written for {}", nc, mx + 1));
            }
        } else if nc > 0 {
            return Err(format!("lost anchor: {nc} closures, contract written for none"));
        }
    }
    let k = mk.fns.len();
    let contract = sub(&fs.contract)?;
    mk.fns.push((fs.id(), contract, "ret".into()));
    let kl = proc_macro2::Literal::usize_unsuffixed(k);
    block.stmts.insert(0, parse_quote!(__FN_SPEC!(#kl);));
    // return type marker
    if let ReturnType::Type(_, t) = &sig.output {
        let t = t.clone();
        sig.output = parse_quote!(-> __R<#t>);
    }
    let mut f = quote!(pub #sig #block).to_string();
    if fs.impl_header.as_deref().is_some_and(|h| h.contains(" for ")) {
        f = format!("#[vp_trait] {f}");
    }
    let attrs: Vec<String> = fs.attrs.iter().map(|a| format!("#[{a}]\n")).collect();
    let extattr = if ext { "#[verifier::external_body]\n" } else { "" };
    f = format!("{}{}{}", attrs.join(""), extattr, f);
    for (a, b) in &fs.subst {
        f = f.replace(a.as_str(), b);
    }
    if !fs.assoc.is_empty() {
        mk.assoc.push(fs.assoc.clone());
        f = format!("const __ASSOC: usize = {}; {f}", mk.assoc.len() - 1);
    }
    pc.text = match (&fs.impl_header, &d.self_ty) {
        (Some(h), _) if h.contains(" for ") => {
            pc.group = Some(h.clone());
            f
        }
        (Some(h), _) if h == "-" => f,
        (Some(h), _) => format!("{h} {{ {f} }}"),
        (None, Some(t)) => {
            let (ig, _, wc) = d.generics.split_for_impl();
            format!("{} {{ {f} }}", quote!(impl #ig #t #wc))
        }
        (None, None) => f,
    };
    Ok(pc)
}

fn parse_generics(g: &str) -> punctuated::Punctuated<GenericParam, Token![,]> {
    let g: Generics = syn::parse_str(g).unwrap_or_else(|e| panic!("{g}: {e}"));
    g.params
}

#[allow(dead_code)]
fn ts(t: TokenStream) -> String {
    t.to_string()
}

// ---------------------------------------------------------------------------------------------

fn find_marker(s: &str, name: &str, from: usize) -> Option<(usize, usize, usize)> {
    // returns (start, end incl. ';', number)
    let pat = format!("{name}!(");
    let p = s[from..].find(&pat)? + from;
    let e = s[p..].find(");")? + p + 2;
    let n: usize = s[p + pat.len()..e - 2].trim().parse().ok()?;
    Some((p, e, n))
}

pub fn finish(src: &str, mk: &Markers) -> (String, Vec<(String, usize, usize)>) {
    let mut s = src.to_string();
    // loops
    while let Some((p, e, n)) = find_marker(&s, "__LOOP_SPEC", 0) {
        let brace = s[..p].rfind('{').unwrap();
        let t = format!("\n{}{{", mk.loops[n]);
        s.replace_range(brace..e, &t);
    }
    while let Some((p, e, n)) = find_marker(&s, "__CL_SPEC", 0) {
        let brace = s[..p].rfind('{').unwrap();
        let (r, t) = &mk.closures[n];
        let r = if r.is_empty() { String::new() } else { format!("-> ({r})") };
        s.replace_range(brace..e, &format!("{r} {t} {{"));
    }
    while let Some(p) = s.find("__CL_RAW!") {
        // the printer may break the line inside the parentheses
        let q = p + s[p..].find('"').unwrap() + 1;
        let e = s[q..].find('"').unwrap() + q;
        let t = s[q..e].to_string();
        let brace = s[..p].rfind('{').unwrap();
        let end = e + s[e..].find(';').map_or(1, |k| k + 1);
        s.replace_range(brace..end, &format!("{t} {{"));
    }
    while let Some(p) = s.find("__RAW!(\"") {
        let q = p + "__RAW!(\"".len();
        let e = s[q..].find("\");").unwrap() + q;
        let t = s[q..e].to_string();
        s.replace_range(p..e + 3, &t);
    }
    while let Some((p, e, n)) = find_marker(&s, "__PROOF", 0) {
        let t = match mk.proofs[n].strip_prefix("//raw ") {
            Some(t) => t.to_string(),
            None => format!("proof {{\n{}}}", mk.proofs[n]),
        };
        s.replace_range(p..e, &t);
    }
    for (n, t) in mk.assoc.iter().enumerate() {
        let pat = format!("const __ASSOC: usize = {n};");
        if let Some(p) = s.find(&pat) {
            s.replace_range(p..p + pat.len(), t);
        }
    }
    // function contracts; also remember the ranges
    let mut starts = vec![];
    let mut from = 0;
    while let Some((p, e, n)) = find_marker(&s, "__FN_SPEC", from) {
        let brace = s[..p].rfind('{').unwrap();
        let (id, t, rn) = &mk.fns[n];
        s.replace_range(brace..e, &format!("\n/*FN {id}*/\n{t}{{"));
        // return type
        let fnpos = s[..brace].rfind("pub fn ").unwrap();
        let mut brace2 = brace;
        if let Some(r) = s[fnpos..brace].find("-> __R<") {
            let a = fnpos + r;
            let q = a + "-> __R<".len();
            let mut depth = 1;
            let b = s.as_bytes();
            let mut i = q;
            while depth > 0 {
                match b[i] {
                    b'<' => depth += 1,
                    b'>' if b[i - 1] != b'-' => depth -= 1,
                    _ => {}
                }
                i += 1;
            }
            let ty = s[q..i - 1].trim().trim_end_matches(',').to_string();
            let rep = format!("-> ({rn}: {ty})");
            let delta = rep.len() as isize - (i - a) as isize;
            s.replace_range(a..i, &rep);
            brace2 = (brace as isize + delta) as usize;
        }
        starts.push((id.clone(), fnpos));
        from = brace2;
    }
    // no visibility in trait implementations (same length, so that offsets stay valid)
    while let Some(p) = s.find("#[vp_trait]") {
        let q = s[p..].find("pub fn").unwrap() + p;
        s.replace_range(p..p + 11, "           ");
        s.replace_range(q..q + 3, "   ");
    }
    let mut ranges = vec![];
    for (i, (id, p)) in starts.iter().enumerate() {
        let l0 = s[..*p].lines().count();
        let l1 = if i + 1 < starts.len() { s[..starts[i + 1].1].lines().count() - 1 } else { s.lines().count() };
        ranges.push((id.clone(), l0 + 1, l1));
    }
    (s, ranges)
}
