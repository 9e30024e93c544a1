//! The documented grammar of format strings.
#[derive(PartialEq, Debug, Clone)]
pub enum Part {
    Text(String),
    /// name and parameters
    Var(String, String),
}
pub fn split(s: &str) -> Option<Vec<Part>> {
    let mut v = vec![];
    let mut text = String::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if (c == b'{' || c == b'}') && i + 1 < b.len() && b[i + 1] == c {
            text.push(c as char);
            i += 2;
        } else if c == b'{' {
            let name = i + 1;
            let mut e = name;
            while e < b.len() && b[e] != b':' && b[e] != b'{' && b[e] != b'}' {
                e += 1;
            }
            if e == b.len() || b[e] == b'{' {
                return None;
            }
            let mut spec = e..e;
            let mut end = e;
            if b[e] == b':' {
                end = e + 1;
                while end < b.len() && b[end] != b'}' {
                    end += 1;
                }
                if end == b.len() {
                    return None;
                }
                spec = e + 1..end;
            }
            if !text.is_empty() {
                v.push(Part::Text(std::mem::take(&mut text)));
            }
            v.push(Part::Var(s[name..e].to_string(), s[spec].to_string()));
            i = end + 1;
        } else if c == b'}' {
            return None;
        } else {
            let from = i;
            while i < b.len() && b[i] != b'{' && b[i] != b'}' {
                i += 1;
            }
            text.push_str(&s[from..i]);
        }
    }
    if !text.is_empty() {
        v.push(Part::Text(text));
    }
    Some(v)
}
