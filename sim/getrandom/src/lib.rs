//! Stand-in for the `getrandom` crate: entropy comes from the simulator.
use std::{fmt, mem::MaybeUninit, num::NonZeroU32};

#[derive(Copy, Clone, Eq, PartialEq)]
pub struct Error(NonZeroU32);

impl Error {
    pub const UNSUPPORTED: Error = Error(match NonZeroU32::new(1 << 31) {
        Some(x) => x,
        None => panic!(),
    });
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);

    pub fn raw_os_error(self) -> Option<i32> {
        (self.0.get() < Self::INTERNAL_START).then_some(self.0.get() as i32)
    }

    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}

impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Error({})", self.0)
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "entropy source failed ({})", self.0)
    }
}

impl From<NonZeroU32> for Error {
    fn from(x: NonZeroU32) -> Self {
        Error(x)
    }
}

impl std::error::Error for Error {}

impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e)
    }
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    // EIO
    simrt::entropy::fill(dest).map_err(|_| Error(NonZeroU32::new(5).unwrap()))
}

pub fn getrandom_uninit(dest: &mut [MaybeUninit<u8>]) -> Result<&mut [u8], Error> {
    for b in dest.iter_mut() {
        b.write(0);
    }
    let d = unsafe { std::slice::from_raw_parts_mut(dest.as_mut_ptr() as *mut u8, dest.len()) };
    getrandom(d)?;
    Ok(d)
}
