//! Runs generated types: the programs that the monitors compile at check time call `serve`.
//! One request per line, `<type> <bytes in hex>`; one answer per line.
use serde::Serialize;
use serde::de::DeserializeOwned;
use std::fmt::Debug;
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

pub use serde_xdr::error::Error;

pub type Fun = fn(&[u8]) -> String;

thread_local! {
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}

fn hex(b: &[u8]) -> String {
    use std::fmt::Write;
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}

/// Decodes, shows and encodes again.
/// `P <panic>`: decoding panicked. `E <error>`: refused. `V <hex|E error|P panic>\t<debug text>`.
pub fn one<T: Serialize + DeserializeOwned + Debug>(b: &[u8]) -> String {
    match catch(|| serde_xdr::from_bytes::<T>(b)) {
        Err(p) => format!("P {}", esc(&p)),
        Ok(Err(e)) => format!("E {}", esc(&format!("{e:?}"))),
        Ok(Ok(v)) => {
            let d = catch(|| format!("{v:?}")).unwrap_or_else(|p| format!("panic: {p}"));
            let r = match catch(|| serde_xdr::to_bytes(&v)) {
                Err(p) => format!("P {}", esc(&p)),
                Ok(Err(e)) => format!("E {}", esc(&format!("{e:?}"))),
                Ok(Ok(b)) => hex(&b),
            };
            format!("V {r}\t{}", esc(&d))
        }
    }
}

/// Encodes and shows a value that the program made itself.
pub fn made<T: Serialize + Debug>(v: T) -> String {
    let d = catch(|| format!("{v:?}")).unwrap_or_else(|p| format!("panic: {p}"));
    let r = match catch(|| serde_xdr::to_bytes(&v)) {
        Err(p) => format!("P {}", esc(&p)),
        Ok(Err(e)) => format!("E {}", esc(&format!("{e:?}"))),
        Ok(Ok(b)) => hex(&b),
    };
    format!("V {r}\t{}", esc(&d))
}

/// Without bytes the default value; otherwise a clone of the value they mean, whose original is gone.
pub fn dflt<T: Default + Clone + Serialize + DeserializeOwned + Debug>(b: &[u8]) -> String {
    if b.is_empty() {
        return match catch(|| T::default()) {
            Ok(v) => made(v),
            Err(p) => format!("P {}", esc(&p)),
        };
    }
    match catch(|| serde_xdr::from_bytes::<T>(b).map(|v| v.clone())) {
        Err(p) => format!("P {}", esc(&p)),
        Ok(Err(e)) => format!("E {}", esc(&format!("{e:?}"))),
        Ok(Ok(v)) => made(v),
    }
}

/// Values of large types take large frames in unoptimised code: the stack is no part of what is judged.
pub fn serve(table: &[Fun]) {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, || answer(table)).unwrap();
    })
}

fn answer(table: &[Fun]) {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string());
        let m = m.or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{m} at {at}"));
    }));
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for l in stdin.lock().lines() {
        let Ok(l) = l else { break };
        let Some((i, h)) = l.split_once(' ') else { break };
        let i: usize = i.parse().unwrap();
        let b: Vec<u8> = (0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect();
        let a = catch(|| table[i](&b)).unwrap_or_else(|p| format!("P {}", esc(&p)));
        let _ = writeln!(out, "{a}");
        let _ = out.flush();
    }
}
