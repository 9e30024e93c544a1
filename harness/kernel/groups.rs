
#[cfg(any(feature = "k02", feature = "k08"))]
impl ParserBuilder<'_> {
    /// (name, field) of every group
    pub(crate) fn verif_groups(&self) -> Vec<(String, String)> {
        let mut v = vec![];
        for (key, field) in &self.fields {
            if let Some(i) = field.capture {
                v.push((capture_name(i), key.to_string()));
            }
            for (keys, i) in &field.deep_captures {
                v.push((capture_name(*i), format!("{key}.{}", join(keys, "."))));
            }
        }
        v
    }
}
