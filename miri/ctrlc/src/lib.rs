//! Stands in for the ctrlc crate where signals cannot be delivered: a thread of its own, like the one of the real
//! crate, calls the handler after AM_INTERRUPT milliseconds (never, when it is not set).
use std::time::Duration;

#[derive(Debug)]
pub struct Error;

pub fn set_handler<F: FnMut() + 'static + Send>(mut handler: F) -> Result<(), Error> {
    let after = std::env::var("AM_INTERRUPT").ok().and_then(|ms| ms.parse().ok());
    std::thread::spawn(move || {
        if let Some(ms) = after {
            std::thread::sleep(Duration::from_millis(ms));
            handler();
        }
    });
    Ok(())
}
