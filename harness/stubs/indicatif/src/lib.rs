//! The part of indicatif the library uses: a progress bar that shows nothing.
pub struct ProgressBar;
pub struct ProgressStyle;
impl ProgressBar {
    pub fn new(_: u64) -> Self {
        ProgressBar
    }
    pub fn with_style(self, _: ProgressStyle) -> Self {
        self
    }
    pub fn set_style(&self, _: ProgressStyle) {}
    pub fn inc(&self, _: u64) {}
    pub fn new_spinner() -> Self {
        ProgressBar
    }
    pub fn hidden() -> Self {
        ProgressBar
    }
    pub fn set_length(&self, _: u64) {}
    pub fn tick(&self) {}
    pub fn wrap_read<R>(&self, r: R) -> R {
        r
    }
    pub fn set_position(&self, _: u64) {}
    pub fn finish(&self) {}
    pub fn finish_and_clear(&self) {}
}
impl ProgressStyle {
    pub fn default_bar() -> Self {
        ProgressStyle
    }
    pub fn default_spinner() -> Self {
        ProgressStyle
    }
    pub fn template(self, _: &str) -> Self {
        self
    }
    pub fn progress_chars(self, _: &str) -> Self {
        self
    }
}
