//! Stand-in for the `colored` crate (whose sources are not available here).
use std::fmt;
pub mod control {
    pub fn set_override(on: bool) {
        super::FORCE.store(if on { 1 } else { 2 }, std::sync::atomic::Ordering::SeqCst);
    }
    pub fn unset_override() {
        super::FORCE.store(0, std::sync::atomic::Ordering::SeqCst);
    }
    pub fn set_virtual_terminal(_: bool) -> Result<(), ()> {
        Ok(())
    }
}
static FORCE: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
fn on() -> bool {
    match FORCE.load(std::sync::atomic::Ordering::SeqCst) {
        1 => true,
        2 => false,
        _ => {
            use std::io::IsTerminal;
            if std::env::var_os("NO_COLOR").is_some() {
                return false;
            }
            match std::env::var("CLICOLOR_FORCE") {
                Ok(v) if v != "0" => true,
                _ => std::io::stdout().is_terminal(),
            }
        }
    }
}
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct ColoredString {
    input: String,
    codes: Vec<&'static str>,
}
impl fmt::Display for ColoredString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.codes.is_empty() || !on() {
            return f.pad(&self.input);
        }
        write!(f, "\x1b[{}m", self.codes.join(";"))?;
        f.pad(&self.input)?;
        f.write_str("\x1b[0m")
    }
}
impl std::ops::Deref for ColoredString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.input
    }
}
impl From<&str> for ColoredString {
    fn from(s: &str) -> Self {
        ColoredString { input: s.into(), codes: vec![] }
    }
}
macro_rules! styles {
    ($($n:ident $c:literal),*) => {
        pub trait Colorize: Sized { fn cs(self) -> ColoredString; $(fn $n(self) -> ColoredString { let mut c = self.cs(); c.codes.push($c); c })*
          fn clear(self) -> ColoredString { let mut c = self.cs(); c.codes.clear(); c }
          fn normal(self) -> ColoredString { self.clear() } }
    };
}
styles!(black "30", red "31", green "32", yellow "33", blue "34", magenta "35", purple "35", cyan "36", white "37",
    bright_black "90", bright_red "91", bright_green "92", bright_yellow "93", bright_blue "94", bright_magenta "95", bright_cyan "96", bright_white "97",
    bold "1", dimmed "2", italic "3", underline "4", blink "5", reversed "7", hidden "8", strikethrough "9");
impl Colorize for ColoredString {
    fn cs(self) -> ColoredString {
        self
    }
}
impl Colorize for &str {
    fn cs(self) -> ColoredString {
        self.into()
    }
}
