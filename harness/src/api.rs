//! Reads the public face of a generated module back out of its code: modules,
//! headers, structs with their fields and documentation, enums and variants.
use quote::ToTokens;
use serde_json::{json, Value};
use syn::{Attribute, Fields, Item};

fn doc(attrs: &[Attribute]) -> Vec<String> {
    attrs
        .iter()
        .filter(|a| a.path().is_ident("doc"))
        .filter_map(|a| match &a.meta {
            syn::Meta::NameValue(nv) => match &nv.value {
                syn::Expr::Lit(l) => match &l.lit {
                    syn::Lit::Str(s) => {
                        let v = s.value();
                        Some(v.strip_prefix(' ').map(|x| x.to_string()).unwrap_or(v))
                    }
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        })
        .flat_map(|v| v.split('\n').map(|l| l.to_string()).collect::<Vec<_>>())
        .collect()
}

fn public(v: &syn::Visibility) -> bool {
    matches!(v, syn::Visibility::Public(_))
}

fn tokens<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

fn module(name: &str, path: &[String], m: &syn::ItemMod, out: &mut Vec<Value>, lines: &[&str]) {
    let items = match &m.content {
        Some((_, items)) => items,
        None => return,
    };
    let mut structs = vec![];
    let mut enums = vec![];
    let mut subs = vec![];
    let mut fns = vec![];
    let mut first = usize::MAX;
    for item in items {
        use syn::spanned::Spanned;
        match item {
            Item::Struct(s) => {
                first = first.min(s.span().start().line);
                let fields = match &s.fields {
                    Fields::Named(n) => n
                        .named
                        .iter()
                        .map(|f| json!({
                            "name": f.ident.as_ref().unwrap().to_string(),
                            "typ": tokens(&f.ty),
                            "pub": public(&f.vis),
                        }))
                        .collect(),
                    Fields::Unit => vec![],
                    Fields::Unnamed(u) => u
                        .unnamed
                        .iter()
                        .enumerate()
                        .map(|(i, f)| json!({"name": i.to_string(), "typ": tokens(&f.ty), "pub": public(&f.vis)}))
                        .collect(),
                };
                structs.push(json!({
                    "name": s.ident.to_string(), "pub": public(&s.vis),
                    "fields": fields, "doc": doc(&s.attrs),
                }));
            }
            Item::Enum(e) => {
                enums.push(json!({
                    "name": e.ident.to_string(), "pub": public(&e.vis), "doc": doc(&e.attrs),
                    "variants": e.variants.iter().map(|v| json!({
                        "name": v.ident.to_string(),
                        "args": v.fields.iter().map(|f| tokens(&f.ty)).collect::<Vec<_>>(),
                    })).collect::<Vec<_>>(),
                }));
            }
            Item::Mod(sub) => {
                subs.push(sub.ident.to_string());
            }
            Item::Fn(f) => fns.push(f.sig.ident.to_string()),
            _ => {}
        }
    }
    use syn::spanned::Spanned;
    let start = m.span().start().line;
    let end = m.span().end().line;
    let _ = first;
    // the lines of the module that belong to none of its nested modules
    let mut own = vec![];
    let nested: Vec<(usize, usize)> = items
        .iter()
        .filter_map(|i| match i {
            Item::Mod(s) => Some((s.span().start().line, s.span().end().line)),
            _ => None,
        })
        .collect();
    for l in start + 1..end {
        if !nested.iter().any(|(a, b)| l >= *a && l <= *b) {
            own.push(lines[l - 1].trim().to_string());
        }
    }
    out.push(json!({
        "name": name, "path": path, "pub": public(&m.vis), "structs": structs, "enums": enums,
        "modules": subs, "fns": fns, "doc": doc(&m.attrs), "lines": own,
    }));
    for item in items {
        if let Item::Mod(sub) = item {
            let n = sub.ident.to_string();
            let mut p = path.to_vec();
            p.push(n.clone());
            module(&n, &p, sub, out, lines);
        }
    }
}

pub fn api(code: &str) -> Result<Value, String> {
    let file = syn::parse_file(code).map_err(|e| e.to_string())?;
    let lines: Vec<&str> = code.split('\n').collect();
    let mut out = vec![];
    for item in file.items.iter() {
        if let Item::Mod(m) = item {
            module(&m.ident.to_string(), &[], m, &mut out, &lines);
        }
    }
    Ok(json!({"top": file.items.len(), "modules": out}))
}
