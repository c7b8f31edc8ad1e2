//! Deterministic simulation of PSBT workflows with fault injection, see /verif/DESIGN.md.

mod alloc;
mod ctx;
mod gen;
mod keys;
mod known;
mod model;
mod orch;
mod raw;
mod run;
mod scen_build;
mod scen_check;
mod scen_combine;
mod scen_damage;
mod scen_desc;
mod scen_dup;
mod scen_fee;
mod scen_flow;
mod scen_hop;
mod scen_msg;
mod scen_refuse;
mod scen_sign;
mod scen_storm;
mod scen_stream;
mod script;
mod sim;
mod tape;
mod typed;
mod wallet;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

/// One property's simulation.
pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut ctx::Ctx) -> ctx::R,
    /// Runs of the quick and the thorough tier.
    pub quick: u64,
    pub thorough: u64,
    /// How a run is made.
    pub rule: &'static str,
    /// Probes a healthy batch reaches.
    pub expect: &'static [&'static str],
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        run: scen_combine::run::<psbt_v2::v2::Psbt>,
        quick: 90_000,
        thorough: 9_000_000,
        rule: "2 to 5 parties hold copies of a random v2 PSBT, contribute random compatible records and gossip over a faulty network with faulty disks",
        expect: &[],
    },
    Prop {
        id: "C02",
        run: scen_combine::run::<psbt_v2::v0::Psbt>,
        quick: 90_000,
        thorough: 9_000_000,
        rule: "2 to 5 parties hold copies of a random v0 PSBT, contribute random compatible records and gossip over a faulty network with faulty disks",
        expect: &[],
    },
    Prop {
        id: "C03",
        run: |c| {
            if c.t.chance(1, 2) {
                scen_refuse::run::<psbt_v2::v0::Psbt>(c)
            } else {
                scen_refuse::run::<psbt_v2::v2::Psbt>(c)
            }
        },
        quick: 300_000,
        thorough: 30_000_000,
        rule: "parties of up to four sessions whose transactions differ in one aspect, and that may know irreconcilable origins of an xpub, exchange copies over a network that misdelivers",
        expect: &["net-misdelivery", "different-transaction-met", "xpub-conflict-met"],
    },
    Prop {
        id: "C04",
        run: scen_hop::run::<psbt_v2::v2::Psbt>,
        quick: 80_000,
        thorough: 8_000_000,
        rule: "a random v2 PSBT is relayed over 2 to 8 hops, each with its own wire and storage encoding, a faulty network, a faulty disk and crashes",
        expect: &["arrived-at-the-end", "torn-record-refused", "flags-left-out"],
    },
    Prop {
        id: "C05",
        run: scen_hop::run::<psbt_v2::v0::Psbt>,
        quick: 80_000,
        thorough: 8_000_000,
        rule: "a random v0 PSBT is relayed over 2 to 8 hops, each with its own wire and storage encoding, a faulty network, a faulty disk and crashes",
        expect: &["arrived-at-the-end", "torn-record-refused", "explicit-version-0"],
    },
    Prop {
        id: "C06",
        run: scen_damage::run,
        quick: 300_000,
        thorough: 30_000_000,
        rule: "copies of a random PSBT of either version reach both decoders damaged in one to four ways, until an undamaged one arrives; allocation is measured",
        expect: &["damaged-but-accepted", "truncated", "count-changed", "length-changed", "value-changed", "key-changed", "spliced", "text-damaged"],
    },
    Prop {
        id: "C07",
        run: scen_dup::run,
        quick: 300_000,
        thorough: 30_000_000,
        rule: "a foreign writer stores a random PSBT with its records in another order, with part of its journal replayed, or with a record left out, of the wrong version or with wrong key data",
        expect: &["records-reordered", "journal-replayed", "rule-broken"],
    },
    Prop {
        id: "C08",
        run: scen_build::run,
        quick: 200_000,
        thorough: 20_000_000,
        rule: "up to four parties build a v2 PSBT as creators, constructors, updaters, signers or with foreign software, handing on and keeping stale copies over a faulty network and disk",
        expect: &["constructor-refused", "completed", "combined"],
    },
    Prop {
        id: "C09",
        run: scen_build::run,
        quick: 240_000,
        thorough: 24_000_000,
        rule: "up to four parties build a v2 PSBT with required lock times as creators, constructors, updaters, signers or with foreign software over a faulty network and disk, and some finish it",
        expect: &["lock-time-undetermined", "lock-times-incompatible", "finalised-with-same-id", "completed", "combined"],
    },
    Prop {
        id: "C10",
        run: scen_sign::run::<psbt_v2::v2::Psbt>,
        quick: 120_000,
        thorough: 12_000_000,
        rule: "a v2 PSBT spending random scripts is handed between up to four signers whose key stores fail, refuse or change their answers, with crashes, stale and crippled copies",
        expect: &["signed-ecdsa", "signed-uncompressed", "collections-compared", "converged"],
    },
    Prop {
        id: "C11",
        run: scen_sign::run::<psbt_v2::v0::Psbt>,
        quick: 120_000,
        thorough: 12_000_000,
        rule: "a v0 PSBT spending random scripts is handed between up to four signers whose key stores fail, refuse or change their answers, with crashes, stale and crippled copies",
        expect: &["signed-ecdsa", "signed-uncompressed", "signed-taproot-key", "signed-taproot-script", "collections-compared", "converged"],
    },
    Prop {
        id: "C12",
        run: scen_flow::run::<psbt_v2::v2::Psbt>,
        quick: 60_000,
        thorough: 6_000_000,
        rule: "one to four parties, each with part of the records, keys and preimages of a v2 PSBT spending random scripts, sign, exchange copies, crash, finalise early or late and extract; scratch copies are tampered with",
        expect: &["finalised", "extracted", "enough-for-all", "not-enough", "finaliser-refused", "tampered-refused", "final-script-damaged"],
    },
    Prop {
        id: "C13",
        run: scen_flow::run::<psbt_v2::v0::Psbt>,
        quick: 60_000,
        thorough: 6_000_000,
        rule: "one to four parties, each with part of the records, keys and preimages of a v0 PSBT spending random scripts, sign, exchange copies, crash, finalise whole or input by input, early or late, and extract; scratch copies are tampered with",
        expect: &["finalised", "finalised-some", "finalised-non-malleably", "extracted", "enough-for-all", "not-enough", "finaliser-refused", "tampered-refused", "final-script-damaged"],
    },
    Prop {
        id: "C14",
        run: scen_stream::run,
        quick: 600_000,
        thorough: 60_000_000,
        rule: "a random proprietary key is written to and read from streams that move any number of bytes per call, interrupt, fail or end at any point, until an attempt succeeds",
        expect: &["stream-interrupted", "stream-failed", "stream-short", "stream-cut-short"],
    },
    Prop {
        id: "C15",
        run: scen_storm::run,
        quick: 150_000,
        thorough: 15_000_000,
        rule: "parties receive up to four PSBTs of either version, made up by an attacker, tampered with or damaged, and use what they could decode in up to 16 role operations in random order; allocation is measured",
        expect: &["hostile-finalised", "hostile-extracted", "sign", "combine", "finalise", "extract", "construct", "update", "interpret", "signer-checks", "sighash", "sighash-msg", "extract-limited"],
    },
    Prop {
        id: "C16",
        run: scen_check::run,
        quick: 90_000,
        thorough: 9_000_000,
        rule: "two to four parties exchange and sign copies of a v0 PSBT spending random scripts and check before they sign, while somebody on the way replaces UTXOs and scripts",
        expect: &["honest-copy", "complete", "tampered-refused", "consistent-accepted", "previous-transaction-replaced", "previous-witness-changed", "redeem-script-replaced", "witness-script-replaced", "witness-utxo-attached", "witness-utxo-replaced", "records-exchanged"],
    },
    Prop {
        id: "C17",
        run: scen_fee::run,
        quick: 500_000,
        thorough: 50_000_000,
        rule: "one to three parties collect spent outputs and final scripts of a PSBT of either version whose fee is around a limit, are lied to about amounts, and extract early and late under fee rate limits",
        expect: &["extracted", "extracted-at-the-limit", "missing-utxo-refused", "negative-refused", "overflow-refused", "too-high-refused", "unfinished-refused", "complete"],
    },
    Prop {
        id: "C18",
        run: scen_desc::run,
        quick: 50_000,
        thorough: 5_000_000,
        rule: "one to four parties update copies of a v0 PSBT from the descriptors of its inputs and outputs, in any order, before and after the spent outputs are known, with wrong descriptors, wrong places and replaced UTXOs, exchange copies and crash",
        expect: &["input-updated", "output-updated", "taproot-input-updated", "taproot-output-updated", "update-refused", "unchecked-update", "same-descriptor-elsewhere", "hardened-step", "converged", "previous-transaction-replaced", "witness-utxo-amount-changed", "witness-utxo-only", "utxo-missing"],
    },
    Prop {
        id: "C19",
        run: scen_msg::run,
        quick: 240_000,
        thorough: 24_000_000,
        rule: "one to four parties with part of the records of a PSBT of either version ask for the messages to sign for any input, leaf and signature type at any time, with long-lived caches, as copies are exchanged over a faulty network",
        expect: &["ecdsa-message", "key-path-message", "script-path-message", "legacy-message", "segwit-message", "not-enough-known", "no-such-message", "restart"],
    },
];

pub fn prop(id: &str) -> &'static Prop {
    match PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {}", id);
            std::process::exit(2);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => orch::check(&args[2..]),
        Some("worker") => run::worker(&args[2..]),
        Some("tape") => run::tape(&args[2..]),
        Some("one") => run::one(&args[2..]),
        Some("replay") => run::replay(&args[2..]),
        Some("selftest") => orch::selftest(&args[2..]),
        Some("list") => {
            for p in PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: psbt-sim run ID TIER SEED | one ID SEED INDEX | replay FILE | selftest");
            2
        }
    };
    std::process::exit(code);
}
