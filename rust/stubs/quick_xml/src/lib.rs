//! The backend names quick-xml 0.29; the crate cache has 0.38.  This adapter re-exports 0.38 and only restores the
//! error type of `Writer::write_event` which the backend stores in its own error type.
pub use qx::*;

pub struct Writer<W: std::io::Write> {
    inner: qx::Writer<W>,
}

impl<W: std::io::Write> Writer<W> {
    pub fn new(inner: W) -> Self {
        Self { inner: qx::Writer::new(inner) }
    }

    pub fn new_with_indent(inner: W, indent_char: u8, indent_size: usize) -> Self {
        Self { inner: qx::Writer::new_with_indent(inner, indent_char, indent_size) }
    }

    pub fn into_inner(self) -> W {
        self.inner.into_inner()
    }

    pub fn get_mut(&mut self) -> &mut W {
        self.inner.get_mut()
    }

    pub fn get_ref(&self) -> &W {
        self.inner.get_ref()
    }

    pub fn write_event<'a, E: Into<qx::events::Event<'a>>>(&mut self, event: E) -> std::result::Result<(), qx::Error> {
        self.inner.write_event(event).map_err(qx::Error::from)
    }
}
