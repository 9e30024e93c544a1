//! What the kernels of the checks call, as plain data.
#![allow(dead_code, unused_imports)]
use super::*;

#[cfg(feature = "k05")]
pub fn style(style: &str, ident: &str) -> Option<String> {
    let id = if let Some(raw) = ident.strip_prefix("r#") {
        Ident::new_raw(raw, Span::call_site())
    } else {
        Ident::new(ident, Span::call_site())
    };
    Some(DisplayStyle::parse(style).ok()?.apply(&id))
}

#[cfg(feature = "k06")]
#[derive(PartialEq, Debug, Clone)]
pub enum Tok {
    Text(String),
    Var(String, String),
}
#[cfg(feature = "k06")]
pub fn split(s: &str) -> Option<Vec<Tok>> {
    let f = DisplayFormat::parse(s, Span::call_site()).ok()?;
    let mut v: Vec<Tok> = vec![];
    for p in f.parts {
        let t = match p {
            DisplayFormatPart::Str(s) => s,
            DisplayFormatPart::EscapedBeginBracket => "{".to_string(),
            DisplayFormatPart::EscapedEndBracket => "}".to_string(),
            DisplayFormatPart::Var { arg, format_spec } => {
                v.push(Tok::Var(arg, format_spec));
                continue;
            }
        };
        if let Some(Tok::Text(x)) = v.last_mut() {
            x.push_str(&t);
        } else {
            v.push(Tok::Text(t));
        }
    }
    Some(v)
}
#[cfg(feature = "k06")]
#[derive(PartialEq, Debug, Clone)]
pub enum Key {
    Index(usize),
    Name(String),
}
#[cfg(feature = "k06")]
pub fn path(s: &str) -> Vec<Key> {
    FieldKey::from_str_deep(s)
        .into_iter()
        .map(|k| match k {
            FieldKey::Unnamed(i) => Key::Index(i),
            FieldKey::Named(s) => Key::Name(s),
        })
        .collect()
}

#[cfg(feature = "k07")]
#[derive(PartialEq, Eq, Debug, Clone)]
pub enum Arg {
    Value(usize),
    Index(usize),
    Name(String),
    Input,
}
#[cfg(feature = "k07")]
#[derive(PartialEq, Eq, Debug, Clone, Default)]
pub struct Spec {
    pub fill: Option<char>,
    pub align: Option<char>,
    pub sign: Option<char>,
    pub alternate: bool,
    pub zero: bool,
    pub width: Option<Arg>,
    pub precision: Option<Arg>,
    /// the trait, and `x?` or `X?`
    pub ty: &'static str,
}
#[cfg(feature = "k07")]
pub fn spec(s: &str) -> Option<Spec> {
    let f = FormatSpec::parse(s).ok()?;
    fn arg<T: TryInto<usize>>(a: Option<SubArg<T>>) -> Option<Arg> {
        a.map(|a| match a {
            SubArg::Value(v) => Arg::Value(v.try_into().ok().unwrap()),
            SubArg::Index(v) => Arg::Index(v),
            SubArg::Name(v) => Arg::Name(v.to_string()),
            SubArg::Input => Arg::Input,
        })
    }
    let ty = match (f.format_type.trait_name(), &f.format_type) {
        ("Display", FormatType::Display) => "",
        ("Debug", FormatType::Debug) => "?",
        ("Debug", FormatType::DebugLowerHex) => "x?",
        ("Debug", FormatType::DebugUpperHex) => "X?",
        ("Octal", FormatType::Octal) => "o",
        ("LowerHex", FormatType::LowerHex) => "x",
        ("UpperHex", FormatType::UpperHex) => "X",
        ("Pointer", FormatType::Pointer) => "p",
        ("Binary", FormatType::Binary) => "b",
        ("LowerExp", FormatType::LowerExp) => "e",
        ("UpperExp", FormatType::UpperExp) => "E",
        _ => "the trait does not go with the type",
    };
    Some(Spec {
        fill: f.fill,
        align: f.align.map(|a| match a {
            Align::Left => '<',
            Align::Center => '^',
            Align::Right => '>',
        }),
        sign: f.sign.map(|s| match s {
            Sign::Plus => '+',
            Sign::Minus => '-',
        }),
        alternate: f.is_alternate,
        zero: f.is_zero,
        width: arg(f.width),
        precision: arg(f.precision),
        ty,
    })
}

/// The regular expression in the generated `from_str_regex` of a struct, or of the first variant of an enum,
/// and the fields its groups are for.
#[cfg(any(feature = "k02", feature = "k08"))]
pub fn pattern(item: &DeriveInput) -> Option<(String, Vec<(String, String)>)> {
    let h = HelperAttributes::from(&item.attrs, true).ok()?;
    let hv;
    let b = match &item.data {
        Data::Struct(d) => ParserBuilder::from_struct(&h, d).ok()?,
        Data::Enum(d) => {
            let v = &d.variants[0];
            hv = HelperAttributes::from(&v.attrs, true).ok()?;
            ParserBuilder::from_variant(&hv, &h, v).ok()?
        }
        _ => return None,
    };
    let body = b.build_from_str_regex_body().ok()?;
    Some((first_string(body).expect("a literal in from_str_regex"), b.verif_groups()))
}
#[cfg(any(feature = "k01", feature = "k02", feature = "k08"))]
fn first_string(ts: TokenStream) -> Option<String> {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => {
                if let Some(s) = first_string(g.stream()) {
                    return Some(s);
                }
            }
            proc_macro2::TokenTree::Literal(l) => {
                if let syn::Lit::Str(s) = syn::Lit::new(l) {
                    return Some(s.value());
                }
            }
            _ => {}
        }
    }
    None
}
#[cfg(any(feature = "k01", feature = "k02", feature = "k08"))]
pub fn item(src: &str) -> DeriveInput {
    parse_str(src).unwrap()
}
#[cfg(any(feature = "k01", feature = "k02", feature = "k08"))]
pub enum At {
    Type,
    Field(usize),
    Variant,
}
#[cfg(any(feature = "k01", feature = "k02", feature = "k08"))]
pub fn regex(item: &DeriveInput, at: At, text: &str) -> DeriveInput {
    let text = LitStr::new(text, Span::call_site());
    attr(item, at, parse_quote!(#[from_str(regex = #text)]))
}
#[cfg(any(feature = "k01", feature = "k02", feature = "k08"))]
pub fn format(item: &DeriveInput, at: At, text: &str) -> DeriveInput {
    let text = LitStr::new(text, Span::call_site());
    attr(item, at, parse_quote!(#[display(#text)]))
}
#[cfg(any(feature = "k01", feature = "k02", feature = "k08"))]
fn attr(item: &DeriveInput, at: At, attr: Attribute) -> DeriveInput {
    let mut item = item.clone();
    let attrs = match (&mut item.data, at) {
        (_, At::Type) => &mut item.attrs,
        (Data::Struct(d), At::Field(i)) => &mut d.fields.iter_mut().nth(i).unwrap().attrs,
        (Data::Enum(d), At::Field(i)) => &mut d.variants[0].fields.iter_mut().nth(i).unwrap().attrs,
        (Data::Enum(d), At::Variant) => &mut d.variants[0].attrs,
        _ => panic!(),
    };
    attrs.push(attr);
    item
}

/// What the generated `fmt` of a struct, or of the first variant of an enum, writes.
#[cfg(feature = "k01")]
#[derive(PartialEq, Debug)]
pub enum Written {
    Text(String),
    /// the format of `write!`, and the last identifier of every argument
    Format(String, Vec<String>),
    /// none of these
    Other,
}
#[cfg(feature = "k01")]
pub fn written(item: &DeriveInput) -> Option<Written> {
    let code = match &item.data {
        Data::Struct(d) => derive_display_for_struct(item, d).ok()?,
        Data::Enum(d) => derive_display_for_enum(item, d).ok()?,
        _ => return None,
    };
    Some(find_write(code).unwrap_or(Written::Other))
}
#[cfg(feature = "k01")]
fn find_write(code: TokenStream) -> Option<Written> {
    use proc_macro2::TokenTree as T;
    let ts: Vec<T> = code.into_iter().collect();
    for i in 0..ts.len() {
        match &ts[i..] {
            [T::Ident(f), T::Group(g), ..] if f == "write_str" => {
                let s: LitStr = syn::parse2(g.stream()).ok()?;
                return Some(Written::Text(s.value()));
            }
            [T::Ident(f), T::Punct(_), T::Group(g), ..] if f == "write" => {
                let mut args = vec![TokenStream::new()];
                for t in g.stream() {
                    match t {
                        T::Punct(p) if p.as_char() == ',' => args.push(TokenStream::new()),
                        t => args.last_mut().unwrap().extend([t]),
                    }
                }
                let s: LitStr = syn::parse2(args.get(1)?.clone()).ok()?;
                return Some(Written::Format(s.value(), args[2..].iter().map(|a| last_ident(a.clone())).collect()));
            }
            [T::Group(g), ..] => {
                if let Some(w) = find_write(g.stream()) {
                    return Some(w);
                }
            }
            _ => {}
        }
    }
    None
}
#[cfg(feature = "k01")]
fn last_ident(ts: TokenStream) -> String {
    let mut last = String::new();
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => {
                let s = last_ident(g.stream());
                if !s.is_empty() {
                    last = s
                }
            }
            proc_macro2::TokenTree::Ident(i) => last = i.unraw().to_string(),
            proc_macro2::TokenTree::Literal(l) => last = match syn::Lit::new(l) {
                syn::Lit::Str(s) => s.value(),
                _ => String::new(),
            },
            _ => {}
        }
    }
    last
}

/// All texts in the code generated for `FromStr` of an enum.
#[cfg(feature = "k02")]
pub fn literals(item: &DeriveInput) -> Option<Vec<String>> {
    let Data::Enum(d) = &item.data else { return None };
    let mut v = vec![];
    strings(derive_from_str_for_enum(item, d).ok()?, &mut v);
    Some(v)
}
#[cfg(feature = "k02")]
fn strings(ts: TokenStream, v: &mut Vec<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => strings(g.stream(), v),
            proc_macro2::TokenTree::Literal(l) => {
                if let syn::Lit::Str(s) = syn::Lit::new(l) {
                    v.push(s.value());
                }
            }
            _ => {}
        }
    }
}
