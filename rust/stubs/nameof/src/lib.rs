//! Stand-in for nameof.
#[macro_export]
macro_rules! name_of_type {
    ($t:ty) => {{
        let full: &'static str = stringify!($t);
        let end = full.find('<').unwrap_or(full.len());
        let head = &full[..end];
        match head.rfind("::") {
            Some(index) => &head[index + 2..],
            None => head,
        }
    }};
}

#[macro_export]
macro_rules! name_of {
    ($i:ident) => {
        stringify!($i)
    };
}
