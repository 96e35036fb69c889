//! Generation modes: the command-line flags and what they select.
use rpcgen::gen_code::Config;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum EM {
    Complement,
    Std,
    Indexer,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum UM {
    Complement,
    Indexer,
    Union,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Mode {
    pub e: EM,
    pub u: UM,
    pub flags: [bool; 4],
    /// Typedefs stay as type aliases (the library can, the command cannot).
    pub keep: bool,
}

pub const FLAGS: [&str; 4] = ["--use-std-trait", "--use-extra-trait", "--use-indexer", "--use-union"];

/// The mode that the flags select.
pub fn mode(flags: [bool; 4]) -> Mode {
    let [std, extra, indexer, union] = flags;
    Mode {
        e: if std {
            EM::Std
        } else if indexer {
            EM::Indexer
        } else {
            EM::Complement
        },
        u: if union {
            UM::Union
        } else if extra || indexer {
            UM::Indexer
        } else {
            UM::Complement
        },
        flags,
        keep: false,
    }
}

/// All sixteen combinations of flags.
pub fn all_flags() -> Vec<Mode> {
    (0..16).map(|i| mode([i & 1 != 0, i & 2 != 0, i & 4 != 0, i & 8 != 0])).collect()
}

/// One combination of flags for each different mode.
pub fn distinct() -> Vec<Mode> {
    let mut v: Vec<Mode> = vec![];
    for m in all_flags() {
        if !v.iter().any(|x| x.e == m.e && x.u == m.u) {
            v.push(m);
        }
    }
    v
}

impl Mode {
    pub fn config(&self) -> Config {
        Config {
            remove_typedef: !self.keep,
            enum_impl_indexer: self.e == EM::Indexer,
            enum_impl_std_trait: self.e == EM::Std,
            union_impl_indexer: self.u == UM::Indexer,
            union_impl_union: self.u == UM::Union,
        }
    }
    pub fn name(&self) -> String {
        let s = format!("enum={:?},union={:?}", self.e, self.u).to_lowercase();
        if self.keep { s + ",typedefs" } else { s }
    }
    pub fn complement(&self) -> bool {
        self.e == EM::Complement || self.u == UM::Complement
    }
}

/// Every configuration the library accepts.
pub fn all_configs() -> Vec<Config> {
    (0..32)
        .map(|i| Config {
            remove_typedef: i & 1 != 0,
            enum_impl_indexer: i & 2 != 0,
            enum_impl_std_trait: i & 4 != 0,
            union_impl_indexer: i & 8 != 0,
            union_impl_union: i & 16 != 0,
        })
        .collect()
}

pub fn show(c: &Config) -> String {
    format!(
        "typedef={} enum_indexer={} enum_std={} union_indexer={} union_union={}",
        c.remove_typedef as u8, c.enum_impl_indexer as u8, c.enum_impl_std_trait as u8, c.union_impl_indexer as u8, c.union_impl_union as u8
    )
}
