//! What a case reports about itself.

#[derive(Default)]
pub struct Ctx {
    /// Write a description of the case into `log`.
    pub verbose: bool,
    pub log: String,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// Ordered (left, right) operand types met by this case.
    pub pairs: Vec<(u8, u8)>,
}
impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
}
#[macro_export]
macro_rules! note {
    ($ctx:expr, $($a:tt)*) => {
        if $ctx.verbose {
            $ctx.log.push_str(&format!($($a)*));
            $ctx.log.push('\n');
        }
    };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}
pub type Res = Result<(), String>;
