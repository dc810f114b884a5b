//! A stand-in for `colored`: colours on terminals only, unless NO_COLOR or CLICOLOR_FORCE say otherwise.
use std::fmt;
pub mod control {
    use std::sync::atomic::{AtomicU8, Ordering::SeqCst};
    static OVERRIDE: AtomicU8 = AtomicU8::new(0);
    pub fn set_override(on: bool) { OVERRIDE.store(1 + on as u8, SeqCst) }
    pub fn unset_override() { OVERRIDE.store(0, SeqCst) }
    pub struct ShouldColorize;
    pub static SHOULD_COLORIZE: ShouldColorize = ShouldColorize;
    impl ShouldColorize {
        pub fn should_colorize(&self) -> bool {
            use std::io::IsTerminal;
            match OVERRIDE.load(SeqCst) { 1 => return false, 2 => return true, _ => {} }
            let set = |v: &str| std::env::var(v).ok().filter(|v| v != "0").is_some();
            if set("CLICOLOR_FORCE") { return true; }
            if std::env::var_os("NO_COLOR").is_some() { return false; }
            std::env::var("CLICOLOR").map_or(true, |v| v != "0") && std::io::stdout().is_terminal()
        }
    }
    pub fn set_virtual_terminal(_: bool) -> Result<(), ()> { Ok(()) }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString { pub input: String, codes: Vec<u8> }
impl std::ops::Deref for ColoredString { type Target = str; fn deref(&self) -> &str { &self.input } }
impl fmt::Display for ColoredString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.codes.is_empty() || !control::SHOULD_COLORIZE.should_colorize() { return fmt::Display::fmt(&self.input, f); }
        write!(f, "\x1b[{}m", self.codes.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(";"))?;
        fmt::Display::fmt(&self.input, f)?;
        f.write_str("\x1b[0m")
    }
}
macro_rules! styles { ($($n:ident $c:literal),*) => {
    pub trait Colorize { fn code(self, c: u8) -> ColoredString where Self: Sized; $(fn $n(self) -> ColoredString where Self: Sized { self.code($c) })* }
} }
styles!(black 30, red 31, green 32, yellow 33, blue 34, magenta 35, purple 35, cyan 36, white 37, bright_black 90, bright_red 91, bright_green 92, bright_yellow 93, bright_blue 94, bright_cyan 96, bright_white 97, bold 1, dimmed 2, italic 3, underline 4, reversed 7, on_red 41, on_green 42);
impl Colorize for ColoredString { fn code(mut self, c: u8) -> ColoredString { if matches!(c, 30..=37 | 90..=97) { self.codes.retain(|c| !matches!(c, 30..=37 | 90..=97)); } self.codes.push(c); self } }
impl Colorize for &str { fn code(self, c: u8) -> ColoredString { ColoredString { input: self.to_string(), codes: vec![c] } } }
