mod proc;
mod save;
mod tree;
use vengine::*;

fn check(prop: &str, tier: Tier) -> Option<Check> {
    Some(match prop {
        "C11" => Check {
            level: "model_checking",
            rule: "the items of ChunkProcessor equal those of a batch-free reference using exact set distances".into(),
            assumptions: vec!["the tokens of a line are those given by the real tokenizer (C05-C08)".into()],
            spaces: proc::spaces(proc::Aspect::Novel, tier).into_iter().chain(tree::groups(tier)).collect(),
        },
        "C12" => Check {
            level: "model_checking",
            rule: "before/after of every reported anomaly equal the adjacent lines of the log".into(),
            assumptions: vec![],
            spaces: proc::spaces(proc::Aspect::Context, tier),
        },
        "C13" => Check {
            level: "exploration",
            rule: "training and reporting on the same or included logs gives an empty report".into(),
            assumptions: vec![],
            spaces: tree::c13(tier),
        },
        "C14" => Check {
            level: "fault_enumeration",
            rule: "the report equals the one computed from the state given to each file, with injected open and read failures".into(),
            assumptions: vec!["failures are injected at the libc calls of the process".into()],
            spaces: tree::c14(tier),
        },
        "C15" => Check {
            level: "exploration",
            rule: "sources equal the regular files that were created and are not excluded".into(),
            assumptions: vec![],
            spaces: tree::c15(tier),
        },
        "C16" => Check {
            level: "exploration",
            rule: "index names of all variants are equal, of different names distinct".into(),
            assumptions: vec![],
            spaces: tree::c16(tier),
        },
        "C17" => Check {
            level: "fault_enumeration",
            rule: "compressed and plain files give equal lines and reports; every truncation is a read error".into(),
            assumptions: vec![],
            spaces: tree::c17(tier),
        },
        "C18" => Check {
            level: "model_checking",
            rule: "loaded values have the same fingerprint and behaviour as the saved ones, over all save/load sequences".into(),
            assumptions: vec!["values are compared by their derived Debug output (order of maps ignored) and by their reports".into()],
            spaces: save::c18(tier),
        },
        "C19" => Check {
            level: "fault_enumeration",
            rule: "a save that meets a failure is an error; every crash image loads as an error or as the complete value".into(),
            assumptions: vec!["failures are injected at the libc calls of the process".into(), "a crash keeps a prefix of the written bytes".into()],
            spaces: save::c19(tier),
        },
        _ => return None,
    })
}

fn main() {
    run_main(check)
}
