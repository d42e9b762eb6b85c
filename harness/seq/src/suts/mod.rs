use crate::Factory;
use serde_json::Value as J;

pub mod cancel;
pub mod chan;
pub mod compose;
pub mod dynvec;
pub mod life;
pub mod maprefs;
pub mod mmap;
pub mod mutapi;
pub mod mvec;
pub mod observers;
pub mod asyncsig;
pub mod flatsig;
pub mod sig;
pub mod sigsrc;
pub mod vec;

pub struct SutInfo {
    pub name: &'static str,
    pub factory: Factory,
    pub configs: fn() -> Vec<J>,
    /// the specification itself says who is polled when
    pub manual: bool,
}

pub fn all() -> Vec<SutInfo> {
    vec![
        SutInfo { name: "vec", factory: vec::make, configs: vec::configs, manual: false },
        SutInfo { name: "dyn", factory: dynvec::make_dyn, configs: dynvec::configs_dyn, manual: false },
        SutInfo { name: "chain", factory: dynvec::make_chain, configs: dynvec::configs_chain, manual: false },
        SutInfo { name: "flat", factory: dynvec::make_flat, configs: dynvec::configs_flat, manual: false },
        SutInfo { name: "switch", factory: dynvec::make_switch, configs: dynvec::configs_switch, manual: false },
        SutInfo { name: "delay", factory: dynvec::make_delay, configs: dynvec::configs_delay, manual: false },
        SutInfo { name: "mvec", factory: mvec::make, configs: mvec::configs, manual: false },
        SutInfo { name: "mmap", factory: mmap::make, configs: mmap::configs, manual: false },
        SutInfo { name: "dynmap", factory: mmap::make_dyn, configs: mmap::configs_dyn, manual: false },
        SutInfo { name: "sig", factory: sig::make, configs: sig::configs, manual: false },
        SutInfo { name: "maprefs", factory: maprefs::make, configs: maprefs::configs, manual: false },
        SutInfo { name: "compose", factory: compose::make, configs: compose::configs, manual: false },
        SutInfo { name: "flatsig", factory: flatsig::make, configs: flatsig::configs, manual: false },
        SutInfo { name: "asyncmap", factory: asyncsig::make_map, configs: asyncsig::configs_map, manual: false },
        SutInfo { name: "asyncdelay", factory: asyncsig::make_delay, configs: asyncsig::configs_map, manual: false },
        SutInfo { name: "asyncstream", factory: asyncsig::make_stream, configs: asyncsig::configs_stream, manual: false },
        SutInfo { name: "mutapi", factory: mutapi::make, configs: mutapi::configs, manual: true },
        SutInfo { name: "life", factory: life::make, configs: life::configs, manual: true },
        SutInfo { name: "cancel", factory: cancel::make, configs: cancel::configs, manual: true },
        SutInfo { name: "chan", factory: chan::make, configs: chan::configs, manual: true },
        SutInfo { name: "observers", factory: observers::make, configs: observers::configs, manual: true },
    ]
}

pub fn find(name: &str) -> Option<SutInfo> {
    all().into_iter().find(|s| s.name == name)
}

/// Is this view selected by the configuration?
pub fn want(cfg: &J, name: &str) -> bool {
    match cfg["only"].as_array() {
        None => true,
        Some(a) => a.iter().any(|x| x == name),
    }
}
