//! getrandom, with a tap: what the operating system's generator hands out is counted, and can be replaced by a
//! given stream. Untouched, it reads /dev/urandom.
use std::num::NonZeroU32;
use std::sync::Mutex;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Error(NonZeroU32);
impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const UNSUPPORTED: Error = Error(unsafe { NonZeroU32::new_unchecked(1 << 31) });
    pub const fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "getrandom error {}", self.0)
    }
}
impl std::error::Error for Error {}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Error {
        Error(c)
    }
}
struct Tap {
    script: Vec<u8>,
    drawn: usize,
}
static TAP: Mutex<Option<Tap>> = Mutex::new(None);
/// from now on, in all threads, hand out these bytes (and the system's after them)
pub fn tap_script(script: Vec<u8>) {
    *TAP.lock().unwrap() = Some(Tap { script, drawn: 0 });
}
/// bytes handed out since then
pub fn tap_drawn() -> usize {
    TAP.lock().unwrap().as_ref().map_or(0, |t| t.drawn)
}
#[cfg(not(target_arch = "wasm32"))]
fn system(dest: &mut [u8]) -> Result<(), Error> {
    use std::io::Read;
    std::fs::File::open("/dev/urandom").and_then(|mut f| f.read_exact(dest)).map_err(|_| Error::UNSUPPORTED)
}
#[cfg(target_arch = "wasm32")]
fn system(dest: &mut [u8]) -> Result<(), Error> {
    #[link(wasm_import_module = "host")]
    extern "C" {
        fn random(p: *mut u8, n: usize);
    }
    unsafe { random(dest.as_mut_ptr(), dest.len()) };
    Ok(())
}
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    if dest.is_empty() {
        return Ok(());
    }
    system(dest)?;
    if let Some(t) = TAP.lock().unwrap().as_mut() {
        for d in dest {
            if let Some(b) = t.script.get(t.drawn) {
                *d = *b;
            }
            t.drawn += 1;
        }
    }
    Ok(())
}
pub fn getrandom_uninit(dest: &mut [std::mem::MaybeUninit<u8>]) -> Result<&mut [u8], Error> {
    for d in dest.iter_mut() {
        d.write(0);
    }
    let d = unsafe { &mut *(dest as *mut [std::mem::MaybeUninit<u8>] as *mut [u8]) };
    getrandom(d)?;
    Ok(d)
}
