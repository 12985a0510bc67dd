//! Which scenario families decide which property.
use crate::runner::Family;

pub struct Part {
    pub fam: Family,
    pub focus: &'static str,
    pub quick: u64,
    pub thorough: u64,
}
const fn part(fam: Family, focus: &'static str, quick: u64, thorough: u64) -> Part {
    Part { fam, focus, quick, thorough }
}
const fn prop(id: &'static str, parts: &'static [Part]) -> Prop {
    Prop { id, parts, assumptions: A }
}
pub struct Prop {
    pub id: &'static str,
    pub parts: &'static [Part],
    pub assumptions: &'static [&'static str],
}

pub const H1S: Family = Family {
    name: "h1s",
    f: crate::f_h1s::run_family,
    real: "hyper HTTP/1 server connection, httparse, http",
    stub: "client, transport, service, executor, clock",
};
pub const H1C: Family = Family {
    name: "h1c",
    f: crate::f_h1c::run_family,
    real: "hyper HTTP/1 client connection and handle, httparse, http",
    stub: "server, transport, callers, executor, clock",
};
pub const H2P: Family = Family {
    name: "h2p",
    f: crate::f_h2p::run_family,
    real: "hyper HTTP/2 client and server connections, h2, http",
    stub: "transport, callers, service, executor, timers, clock",
};
pub const UPG: Family = Family {
    name: "upg",
    f: crate::f_upg::run_family,
    real: "hyper HTTP/1 and HTTP/2 connections with upgrades, h2, httparse, http",
    stub: "raw peers, transport, tunnel ends, executor, timers, clock",
};
pub const TMO: Family = Family {
    name: "tmo",
    f: crate::f_tim::tmo,
    real: "hyper HTTP/1 server connection with its header timer, httparse, http",
    stub: "client, transport, service, timers, clock",
};
pub const DATE: Family = Family {
    name: "date",
    f: crate::f_tim::date,
    real: "hyper HTTP/1 and HTTP/2 server connections with the date cache, hyper HTTP/2 client, h2, httparse, http",
    stub: "HTTP/1 client, transport, service, executor, clock",
};
pub const KAL: Family = Family {
    name: "kal",
    f: crate::f_kal::run_family,
    real: "hyper HTTP/2 client and server connections with keep-alive and adaptive windows, h2, http",
    stub: "transport, callers, service, executor, timers, clock",
};
pub const SEG: Family = Family {
    name: "seg",
    f: crate::f_seg::run_family,
    real: "hyper HTTP/1 server and client connections, httparse, http",
    stub: "raw peers, transport, service, executor, clock",
};
pub const H2S: Family = Family {
    name: "h2s",
    f: crate::f_h2s::run_family,
    real: "hyper HTTP/2 server connection, h2, http",
    stub: "raw frame-level client, transport, service, executor, timers, clock",
};
pub const H2C: Family = Family {
    name: "h2c",
    f: crate::f_h2c::run_family,
    real: "hyper HTTP/2 client connection and handles, h2, http",
    stub: "raw frame-level server, transport, callers, executor, timers, clock",
};
pub const BDP: Family = Family {
    name: "bdp",
    f: crate::f_bdp::run_family,
    real: "hyper HTTP/2 client and server connections with adaptive windows, h2, http",
    stub: "transport, callers, service, executor, timers, clock",
};
pub const FAMILIES: &[Family] = &[H1S, H1C, H2P, UPG, TMO, DATE, KAL, SEG, H2S, H2C, BDP];
pub fn family(n: &str) -> Option<Family> {
    FAMILIES.iter().copied().find(|f| f.name == n)
}
pub fn is_fault(k: &str) -> bool {
    k.starts_with("fault_")
        || matches!(
            k,
            "short_reads" | "short_writes" | "read_not_ready" | "write_not_ready" | "write_blocked" | "flush_not_ready" | "shutdown_not_ready"
                | "delayed_segments" | "spurious_polls" | "preempt_runs" | "body_errors" | "service_failures" | "conn_dropped" | "rst_on_drop"
                | "graceful_calls" | "reader_pauses"
        )
}

const A: &[&str] = &[
    "single-threaded execution: tasks interleave at poll boundaries and at the guarded preemption points, not at every instruction",
    "sampling, not enumeration: a clean batch is evidence, not proof",
];

const M: u64 = 1_000_000;
pub const PROPS: &[Prop] = &[
    prop("C01", &[part(H1S, "C01", 160_000, 10 * M), part(SEG, "C01", 60_000, 4 * M)]),
    prop("C02", &[part(H1C, "C02", 160_000, 10 * M), part(SEG, "C02", 60_000, 4 * M)]),
    prop("C03", &[part(H1S, "C03", 200_000, 12 * M)]),
    prop("C04", &[part(H1C, "C04", 200_000, 12 * M)]),
    prop("C05", &[part(H1S, "C05", 120_000, 6 * M), part(H1C, "C05", 120_000, 6 * M), part(H2P, "C05", 60_000, 3 * M), part(H2S, "C05", 30_000, 3 * M), part(H2C, "C05", 30_000, 3 * M)]),
    prop("C06", &[part(H1S, "C06", 120_000, 6 * M), part(H1C, "C06", 120_000, 6 * M), part(H2P, "C06", 60_000, 3 * M), part(H2C, "C06", 40_000, 3 * M)]),
    prop("C07", &[part(H1C, "C07", 200_000, 12 * M), part(H2P, "C07", 60_000, 3 * M), part(H2C, "C07", 60_000, 4 * M)]),
    prop("C08", &[part(H1S, "C08", 120_000, 6 * M), part(H1C, "C08", 120_000, 6 * M)]),
    prop("C09", &[part(H1S, "C09", 120_000, 6 * M), part(H1C, "C09", 120_000, 6 * M), part(H2P, "C09", 60_000, 3 * M), part(UPG, "C09", 40_000, 2 * M), part(BDP, "C09", 10_000, M)]),
    prop("C10", &[part(H1S, "C10", 200_000, 12 * M), part(H2P, "C10", 60_000, 3 * M), part(H2S, "C10", 50_000, 5 * M)]),
    prop("C11", &[part(TMO, "C11", 100_000, 12 * M)]),
    prop("C12", &[part(KAL, "C12", 100_000, 12 * M), part(BDP, "C12", 16_000, 2 * M)]),
    prop("C13", &[part(UPG, "C13", 150_000, 10 * M)]),
    prop("C14", &[part(H1S, "C14", 120_000, 6 * M), part(H1C, "C14", 120_000, 6 * M)]),
    prop("C15", &[part(H2P, "C15", 100_000, 8 * M), part(H2S, "C15", 60_000, 5 * M), part(H2C, "C15", 50_000, 4 * M), part(BDP, "C15", 16_000, 2 * M)]),
    prop("C16", &[part(H1S, "C16", 20_000, M), part(H1C, "C16", 20_000, M), part(H2P, "C16", 40_000, M), part(H2S, "C16", 12_000, M), part(BDP, "C16", 6_000, M)]),
    prop("C17", &[part(SEG, "C17", 80_000, 6 * M), part(H2P, "C17", 30_000, 2 * M), part(H2S, "C17", 40_000, 3 * M), part(H2C, "C17", 20_000, 2 * M)]),
    prop("C18", &[part(H1S, "C18", 120_000, 6 * M), part(H1C, "C18", 120_000, 6 * M), part(H2P, "C18", 60_000, 3 * M), part(UPG, "C18", 40_000, 2 * M), part(SEG, "C18", 30_000, 2 * M), part(H2S, "C18", 60_000, 4 * M), part(H2C, "C18", 40_000, 3 * M)]),
    prop("C19", &[part(DATE, "C19", 150_000, 12 * M)]),
    prop("C20", &[part(H1S, "C20", 120_000, 6 * M), part(H1C, "C20", 120_000, 6 * M), part(H2P, "C20", 60_000, 3 * M)]),
    prop("C22", &[part(H1S, "C22", 120_000, 6 * M), part(H1C, "C22", 120_000, 6 * M), part(H2P, "C22", 60_000, 3 * M), part(H2S, "C22", 40_000, 3 * M), part(H2C, "C22", 40_000, 3 * M)]),
    prop("C23", &[part(H2P, "C23", 100_000, 8 * M), part(H2S, "C23", 60_000, 5 * M), part(H2C, "C23", 60_000, 5 * M)]),
];
