//! Stand-ins for pyo3's attribute macros: the annotated items are kept as they are (minus the
//! helper attributes) and a table is generated through which the harness can call them the way
//! the interpreter would.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn attr_name(g: &Group) -> String {
    g.stream().into_iter().next().map(|t| t.to_string()).unwrap_or_default()
}
fn text(v: &[TokenTree]) -> String {
    v.iter().cloned().collect::<TokenStream>().to_string()
}
/// the value of `key = "..."` in an attribute
fn value_of(attr: TokenStream, key: &str) -> Option<String> {
    let v: Vec<TokenTree> = attr.into_iter().collect();
    v.windows(3).find(|w| w[0].to_string() == key && w[1].to_string() == "=").map(|w| w[2].to_string().trim_matches('"').to_string())
}
/// tokens split at top-level commas, angle brackets counted
fn split(args: TokenStream) -> Vec<Vec<TokenTree>> {
    let (mut out, mut cur, mut depth) = (vec![], vec![], 0i32);
    let mut prev = ' ';
    for t in args {
        if let TokenTree::Punct(p) = &t {
            match p.as_char() {
                '<' => depth += 1,
                '>' if prev != '-' => depth -= 1,
                ',' if depth == 0 => {
                    out.push(std::mem::take(&mut cur));
                    prev = ' ';
                    continue;
                }
                _ => {}
            }
            prev = p.as_char();
        } else {
            prev = ' ';
        }
        cur.push(t);
    }
    if !cur.is_empty() {
        out.push(cur)
    }
    out
}

#[proc_macro_attribute]
pub fn pyclass(attr: TokenStream, item: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = item.clone().into_iter().collect();
    let at = v.iter().position(|t| t.to_string() == "struct").expect("pyclass on a struct");
    let ty = v[at + 1].to_string();
    let name = value_of(attr, "name").unwrap_or_else(|| ty.clone());
    let extra: TokenStream = format!(
        "impl ::pyo3::PyClass for {ty} {{ const NAME: &'static str = \"{name}\"; }}
         impl ::pyo3::IntoPy<::pyo3::PyObject> for {ty} {{
             fn into_py(self, _py: ::pyo3::Python<'_>) -> ::pyo3::PyObject {{ ::pyo3::PyObject::instance(self) }}
         }}"
    )
    .parse()
    .unwrap();
    item.into_iter().chain(extra).collect()
}

#[proc_macro_attribute]
pub fn pymethods(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = item.into_iter().collect();
    let (body, head) = v.split_last().unwrap();
    let TokenTree::Group(body) = body else { panic!("pymethods on an impl block") };
    let ty = text(&head[head.iter().position(|t| t.to_string() == "impl").unwrap() + 1..]);
    let (mut kept, mut arms, mut attrs, mut it) = (vec![], String::new(), vec![], body.stream().into_iter().peekable());
    let mut attr_args: Vec<(String, Group)> = vec![];
    while let Some(t) = it.next() {
        match &t {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                let Some(TokenTree::Group(g)) = it.next() else { panic!("attribute") };
                let n = attr_name(&g);
                attrs.push(n.clone());
                attr_args.push((n.clone(), g.clone()));
                let own = ["new", "getter", "setter", "staticmethod", "classmethod", "classattr", "pyo3", "args", "call"];
                if !own.contains(&n.as_str()) {
                    kept.push(t);
                    kept.push(TokenTree::Group(g));
                }
            }
            TokenTree::Ident(i) if i.to_string() == "fn" => {
                kept.push(t.clone());
                let name = it.next().unwrap();
                kept.push(name.clone());
                let mut args = None;
                for t in it.by_ref() {
                    kept.push(t.clone());
                    if let TokenTree::Group(g) = &t {
                        match g.delimiter() {
                            Delimiter::Parenthesis if args.is_none() => args = Some(g.stream()),
                            Delimiter::Brace => break,
                            _ => {}
                        }
                    }
                }
                let mut pyname = name.to_string();
                for (n, g) in &attr_args {
                    if n == "pyo3" {
                        if let Some(TokenTree::Group(g)) = g.stream().into_iter().nth(1) {
                            if let Some(v) = value_of(g.stream(), "name") {
                                pyname = v
                            }
                        }
                    }
                }
                if attrs.iter().any(|a| a == "new") {
                    pyname = "__new__".into()
                }
                if attrs.iter().any(|a| a == "getter") {
                    pyname = format!("get {}", pyname)
                }
                let has_self = !attrs.iter().any(|a| a == "new" || a == "staticmethod" || a == "classmethod");
                let (mut pre, mut call, mut k, mut first) = (String::new(), String::new(), 0, true);
                for (j, a) in split(args.unwrap()).into_iter().enumerate() {
                    let s = text(&a);
                    if !s.contains(':') {
                        // a self receiver
                        first = false;
                        pre += "let slf: &::pyo3::PyCell<Self> = match slf.cell() { Some(v) => v, None => return ::pyo3::Outcome::BadArguments };\n";
                        call += "slf.get(), ";
                        continue;
                    }
                    let c = a.iter().position(|t| t.to_string() == ":").unwrap();
                    let t = text(&a[c + 1..]);
                    if t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "Python") {
                        call += "py, ";
                        continue;
                    }
                    if first && has_self {
                        first = false;
                        pre += &format!(
                            "let a{j}: {t} = match slf.cell::<Self>() {{ Some(v) => match <{t} as ::std::convert::TryFrom<&::pyo3::PyCell<Self>>>::try_from(v) {{ Ok(v) => v, Err(_) => return ::pyo3::Outcome::BadArguments }}, None => return ::pyo3::Outcome::BadArguments }};\n"
                        );
                    } else {
                        pre += &format!(
                            "let a{j}: {t} = match ::pyo3::FromPyObject::extract(args.get({k}).copied().unwrap_or(none)) {{ Ok(v) => v, Err(_) => return ::pyo3::Outcome::BadArguments }};\n"
                        );
                        k += 1;
                    }
                    call += &format!("a{j}, ");
                }
                arms += &format!(
                    "\"{pyname}\" => {{ if args.len() > {k} {{ return ::pyo3::Outcome::BadArguments }} {pre} ::pyo3::Outcome::Done(::pyo3::OkWrap::wrap(Self::{name}({call}), py)) }}\n"
                );
                attrs.clear();
                attr_args.clear();
            }
            _ => kept.push(t),
        }
    }
    let mut out: Vec<TokenTree> = head.to_vec();
    out.push(TokenTree::Group(Group::new(Delimiter::Brace, kept.into_iter().collect())));
    let extra: TokenStream = format!(
        "#[allow(unused_variables)] impl ::pyo3::PyMethods for {ty} {{
            fn call(name: &str, slf: &::pyo3::PyAny, args: &[&::pyo3::PyAny], py: ::pyo3::Python<'_>) -> ::pyo3::Outcome {{
                let none_object = ::pyo3::PyObject::none(); let none = none_object.any();
                match name {{ {arms} _ => ::pyo3::Outcome::NoMethod }}
            }}
        }}"
    )
    .parse()
    .unwrap();
    out.into_iter().chain(extra).collect()
}

#[proc_macro_attribute]
pub fn pymodule(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = item.clone().into_iter().collect();
    let at = v.iter().position(|t| t.to_string() == "fn").unwrap();
    let name = v[at + 1].to_string();
    let extra: TokenStream = format!(
        "/// what the interpreter does on `import {name}`
         pub fn __pyo3_import() -> ::pyo3::PyResult<::pyo3::PyModule> {{
             let m = ::pyo3::PyModule::default();
             {name}(::pyo3::Python::new(), &m)?;
             Ok(m)
         }}"
    )
    .parse()
    .unwrap();
    item.into_iter().chain(extra).collect()
}

#[proc_macro_attribute]
pub fn pyfunction(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}
