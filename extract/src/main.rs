//! rsdump: parses Rust source files with syn and writes their syntax trees as JSON.
//! Purely syntactic: nothing is interpreted, renamed or dropped except comments,
//! doc attributes and whitespace.
use quote::ToTokens;
use serde_json::{json, Value};
use syn::spanned::Spanned;
use syn::*;

fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn ln<T: Spanned>(t: &T) -> usize {
    t.span().start().line
}
fn attrs(a: &[Attribute]) -> Value {
    Value::Array(
        a.iter()
            .filter(|a| !a.path().is_ident("doc"))
            .map(|a| json!(toks(&a.meta)))
            .collect(),
    )
}
fn path(p: &Path) -> Value {
    Value::Array(p.segments.iter().map(|s| json!(s.ident.to_string())).collect())
}
fn pat(p: &Pat) -> Value {
    match p {
        Pat::Ident(i) => json!({"k":"ident","name":i.ident.to_string(),"mut":i.mutability.is_some(),"ref":i.by_ref.is_some(),
            "sub": i.subpat.as_ref().map(|(_,s)| pat(s))}),
        Pat::Type(t) => {
            let mut v = pat(&t.pat);
            v["ty"] = json!(toks(&t.ty));
            v
        }
        Pat::Wild(_) => json!({"k":"wild"}),
        Pat::Reference(r) => json!({"k":"refpat","p":pat(&r.pat)}),
        Pat::Tuple(t) => json!({"k":"tuple","ps":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Slice(t) => json!({"k":"slice","ps":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Lit(l) => json!({"k":"lit","e":expr(&Expr::Lit(l.clone()))}),
        Pat::Range(r) => json!({"k":"range","lo":r.start.as_ref().map(|e| expr(e)),"hi":r.end.as_ref().map(|e| expr(e)),
            "incl":matches!(r.limits,RangeLimits::Closed(_))}),
        Pat::Or(o) => json!({"k":"or","ps":o.cases.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Paren(p) => pat(&p.pat),
        Pat::Path(p) => json!({"k":"pathpat","path":path(&p.path)}),
        Pat::TupleStruct(t) => json!({"k":"tstruct","path":path(&t.path),"ps":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Struct(s) => json!({"k":"structpat","path":path(&s.path),"fields":s.fields.iter().map(|f| json!([member(&f.member), pat(&f.pat)])).collect::<Vec<_>>()}),
        other => json!({"k":"unsupported","src":toks(other)}),
    }
}
fn member(m: &Member) -> String {
    match m {
        Member::Named(i) => i.to_string(),
        Member::Unnamed(i) => i.index.to_string(),
    }
}
fn block(b: &Block) -> Value {
    Value::Array(b.stmts.iter().map(stmt).collect())
}
fn stmt(s: &Stmt) -> Value {
    match s {
        Stmt::Local(l) => json!({"k":"let","pat":pat(&l.pat),"init":l.init.as_ref().map(|i| expr(&i.expr)),
            "else":l.init.as_ref().and_then(|i| i.diverge.as_ref().map(|(_,e)| expr(e))),"line":ln(l),"attrs":attrs(&l.attrs)}),
        Stmt::Item(i) => json!({"k":"item","item":item(i),"line":ln(i)}),
        Stmt::Expr(e, semi) => json!({"k":"expr","e":expr(e),"semi":semi.is_some(),"line":ln(e)}),
        Stmt::Macro(m) => json!({"k":"expr","e":mac(&m.mac),"semi":m.semi_token.is_some(),"line":ln(m)}),
    }
}
fn mac(m: &Macro) -> Value {
    let name = m.path.segments.last().unwrap().ident.to_string();
    let args = m
        .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
        .ok()
        .map(|p| p.iter().map(expr).collect::<Vec<_>>());
    let rep = m
        .parse_body_with(|i: parse::ParseStream| {
            let a: Expr = i.parse()?;
            i.parse::<Token![;]>()?;
            let b: Expr = i.parse()?;
            Ok((a, b))
        })
        .ok()
        .map(|(a, b)| json!([expr(&a), expr(&b)]));
    json!({"k":"macro","name":name,"args":args,"rep":rep,"src":m.tokens.to_string()})
}
fn lit(l: &Lit) -> Value {
    match l {
        Lit::Float(f) => json!({"k":"float","v":f.base10_digits(),"suffix":f.suffix()}),
        Lit::Int(i) => json!({"k":"int","v":i.base10_digits(),"suffix":i.suffix()}),
        Lit::Bool(b) => json!({"k":"bool","v":b.value}),
        Lit::Str(s) => json!({"k":"str","v":s.value()}),
        other => json!({"k":"unsupported","src":toks(other)}),
    }
}
fn exprs<'a, I: Iterator<Item = &'a Expr>>(i: I) -> Value {
    Value::Array(i.map(expr).collect())
}
fn expr(e: &Expr) -> Value {
    let mut v = expr0(e);
    v["line"] = json!(ln(e));
    v
}
fn expr0(e: &Expr) -> Value {
    match e {
        Expr::Lit(l) => lit(&l.lit),
        Expr::Path(p) => json!({"k":"path","path":path(&p.path),"src":toks(p)}),
        Expr::Paren(p) => expr(&p.expr),
        Expr::Group(p) => expr(&p.expr),
        Expr::Binary(b) => json!({"k":"bin","op":toks(&b.op),"l":expr(&b.left),"r":expr(&b.right)}),
        Expr::Unary(u) => json!({"k":"un","op":toks(&u.op),"e":expr(&u.expr)}),
        Expr::Call(c) => json!({"k":"call","f":expr(&c.func),"args":exprs(c.args.iter())}),
        Expr::MethodCall(m) => json!({"k":"mcall","e":expr(&m.receiver),"m":m.method.to_string(),"args":exprs(m.args.iter()),
            "turbofish":m.turbofish.as_ref().map(|t| toks(t))}),
        Expr::Field(f) => json!({"k":"field","e":expr(&f.base),"m":member(&f.member)}),
        Expr::Index(i) => json!({"k":"index","e":expr(&i.expr),"i":expr(&i.index)}),
        Expr::Reference(r) => json!({"k":"ref","e":expr(&r.expr),"mut":r.mutability.is_some()}),
        Expr::Cast(c) => json!({"k":"cast","e":expr(&c.expr),"ty":toks(&c.ty)}),
        Expr::If(i) => json!({"k":"if","c":expr(&i.cond),"t":block(&i.then_branch),"f":i.else_branch.as_ref().map(|(_,e)| expr(e))}),
        Expr::Let(l) => json!({"k":"letcond","p":pat(&l.pat),"e":expr(&l.expr)}),
        Expr::Match(m) => json!({"k":"match","e":expr(&m.expr),"arms":m.arms.iter().map(|a| json!({
            "p":pat(&a.pat),"g":a.guard.as_ref().map(|(_,g)| expr(g)),"b":expr(&a.body)})).collect::<Vec<_>>()}),
        Expr::Block(b) => json!({"k":"block","b":block(&b.block),"label":b.label.as_ref().map(|l| l.name.to_string())}),
        Expr::Unsafe(b) => json!({"k":"block","b":block(&b.block),"unsafe":true}),
        Expr::Const(b) => json!({"k":"block","b":block(&b.block)}),
        Expr::Assign(a) => json!({"k":"assign","l":expr(&a.left),"r":expr(&a.right)}),
        Expr::While(w) => json!({"k":"while","c":expr(&w.cond),"b":block(&w.body),"label":w.label.as_ref().map(|l| l.name.to_string())}),
        Expr::Loop(w) => json!({"k":"loop","b":block(&w.body),"label":w.label.as_ref().map(|l| l.name.to_string())}),
        Expr::ForLoop(f) => json!({"k":"for","p":pat(&f.pat),"e":expr(&f.expr),"b":block(&f.body),"label":f.label.as_ref().map(|l| l.name.to_string())}),
        Expr::Break(b) => json!({"k":"break","e":b.expr.as_ref().map(|e| expr(e)),"label":b.label.as_ref().map(|l| l.to_string())}),
        Expr::Continue(b) => json!({"k":"continue","label":b.label.as_ref().map(|l| l.to_string())}),
        Expr::Return(r) => json!({"k":"return","e":r.expr.as_ref().map(|e| expr(e))}),
        Expr::Closure(c) => json!({"k":"closure","ps":c.inputs.iter().map(pat).collect::<Vec<_>>(),"b":expr(&c.body)}),
        Expr::Array(a) => json!({"k":"array","es":exprs(a.elems.iter())}),
        Expr::Repeat(r) => json!({"k":"repeat","e":expr(&r.expr),"n":expr(&r.len)}),
        Expr::Tuple(t) => json!({"k":"tuple","es":exprs(t.elems.iter())}),
        Expr::Struct(s) => json!({"k":"struct","path":path(&s.path),"fields":s.fields.iter().map(|f| json!([member(&f.member), expr(&f.expr)])).collect::<Vec<_>>(),
            "rest":s.rest.as_ref().map(|e| expr(e))}),
        Expr::Range(r) => json!({"k":"range","lo":r.start.as_ref().map(|e| expr(e)),"hi":r.end.as_ref().map(|e| expr(e)),
            "incl":matches!(r.limits,RangeLimits::Closed(_))}),
        Expr::Macro(m) => mac(&m.mac),
        Expr::Try(t) => json!({"k":"try","e":expr(&t.expr)}),
        other => json!({"k":"unsupported","src":toks(other)}),
    }
}
fn sig(s: &Signature) -> Value {
    let ps: Vec<Value> = s
        .inputs
        .iter()
        .map(|a| match a {
            FnArg::Receiver(r) => json!({"k":"self","ref":r.reference.is_some(),"mut":r.mutability.is_some()}),
            FnArg::Typed(t) => {
                let mut v = pat(&t.pat);
                v["ty"] = json!(toks(&t.ty));
                v
            }
        })
        .collect();
    json!({"name":s.ident.to_string(),"params":ps,"ret":match &s.output{ReturnType::Default=>json!(null),ReturnType::Type(_,t)=>json!(toks(t))},
      "abi":s.abi.as_ref().map(|a| toks(a)),"generics":toks(&s.generics),"where":s.generics.where_clause.as_ref().map(|w| toks(w)),"const":s.constness.is_some()})
}
fn vis(v: &Visibility) -> bool {
    !matches!(v, Visibility::Inherited)
}
fn item(i: &Item) -> Value {
    match i {
        Item::Fn(f) => json!({"k":"fn","pub":vis(&f.vis),"sig":sig(&f.sig),"body":block(&f.block),"attrs":attrs(&f.attrs),"line":ln(&f.sig)}),
        Item::Const(c) => json!({"k":"const","name":c.ident.to_string(),"ty":toks(&c.ty),"e":expr(&c.expr),"attrs":attrs(&c.attrs),"line":ln(c)}),
        Item::Static(c) => json!({"k":"const","name":c.ident.to_string(),"ty":toks(&c.ty),"e":expr(&c.expr),"attrs":attrs(&c.attrs),"static":true,
            "mut":!matches!(c.mutability,StaticMutability::None),"line":ln(c)}),
        Item::Mod(m) => json!({"k":"mod","name":m.ident.to_string(),"attrs":attrs(&m.attrs),
            "items":m.content.as_ref().map(|(_,c)| c.iter().map(item).collect::<Vec<_>>())}),
        Item::Use(u) => json!({"k":"use","tree":use_tree(&u.tree),"attrs":attrs(&u.attrs),"pub":vis(&u.vis)}),
        Item::Struct(s) => json!({"k":"structdef","name":s.ident.to_string(),"attrs":attrs(&s.attrs),
            "fields":s.fields.iter().enumerate().map(|(n,f)| json!([f.ident.as_ref().map(|i| i.to_string()).unwrap_or(n.to_string()), toks(&f.ty), vis(&f.vis), attrs(&f.attrs)])).collect::<Vec<_>>()}),
        Item::Impl(im) => json!({"k":"impl","trait":im.trait_.as_ref().map(|(_,p,_)| toks(p)),"ty":toks(&im.self_ty),"attrs":attrs(&im.attrs),"generics":toks(&im.generics),
            "items":im.items.iter().map(|it| match it{
                ImplItem::Fn(f)=>json!({"k":"fn","pub":vis(&f.vis),"sig":sig(&f.sig),"body":block(&f.block),"attrs":attrs(&f.attrs),"line":ln(&f.sig)}),
                ImplItem::Const(c)=>json!({"k":"const","name":c.ident.to_string(),"ty":toks(&c.ty),"e":expr(&c.expr)}),
                o=>json!({"k":"unsupported","src":toks(o)})}).collect::<Vec<_>>()}),
        Item::Macro(m) => json!({"k":"macroitem","name":m.ident.as_ref().map(|i| i.to_string()),"src":toks(&m.mac)}),
        Item::Type(t) => json!({"k":"typealias","name":t.ident.to_string(),"ty":toks(&t.ty)}),
        Item::Enum(t) => json!({"k":"enum","name":t.ident.to_string(),"src":toks(t)}),
        Item::Trait(t) => json!({"k":"trait","name":t.ident.to_string(),"src":toks(t)}),
        o => json!({"k":"unsupported","src":toks(o)}),
    }
}
fn use_tree(u: &UseTree) -> Value {
    match u {
        UseTree::Path(p) => json!({"k":"path","id":p.ident.to_string(),"t":use_tree(&p.tree)}),
        UseTree::Name(n) => json!({"k":"name","id":n.ident.to_string()}),
        UseTree::Rename(r) => json!({"k":"rename","id":r.ident.to_string(),"as":r.rename.to_string()}),
        UseTree::Glob(_) => json!({"k":"glob"}),
        UseTree::Group(g) => json!({"k":"group","ts":g.items.iter().map(use_tree).collect::<Vec<_>>()}),
    }
}
fn main() {
    let mut out = serde_json::Map::new();
    for f in std::env::args().skip(1) {
        let src = match std::fs::read_to_string(&f) {
            Ok(s) => s,
            Err(e) => {
                out.insert(f, json!({"error":e.to_string()}));
                continue;
            }
        };
        let v = match parse_file(&src) {
            Ok(file) => json!({"items":file.items.iter().map(item).collect::<Vec<_>>(),"attrs":attrs(&file.attrs)}),
            Err(e) => json!({"error":e.to_string()}),
        };
        out.insert(f, v);
    }
    serde_json::to_writer(std::io::stdout().lock(), &Value::Object(out)).unwrap();
}
