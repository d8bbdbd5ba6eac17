//! Offline stand-in for colored: styling is dropped.
pub trait Colorize: Sized {
    fn paint(self) -> String;
    fn yellow(self) -> String { self.paint() }
    fn blue(self) -> String { self.paint() }
    fn green(self) -> String { self.paint() }
    fn red(self) -> String { self.paint() }
    fn bold(self) -> String { self.paint() }
}
impl Colorize for &str { fn paint(self) -> String { self.to_string() } }
impl Colorize for String { fn paint(self) -> String { self } }
