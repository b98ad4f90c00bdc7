//! C25, C26, C31: what is reached through urls, against a scripted server.
mod c25;
mod c26;
mod c31;
mod child;
use vengine::serde_json::{json, Value};
use vengine::*;

pub fn server(ctx: &mut Ctx) -> &'static httpsrv::Server {
    if ctx.any.is_none() {
        let s: &'static httpsrv::Server = Box::leak(Box::new(httpsrv::Server::start()));
        ctx.any = Some(Box::new(s));
    }
    *ctx.any.as_ref().unwrap().downcast_ref::<&'static httpsrv::Server>().unwrap()
}

pub fn build_json(id: &str, srv: &httpsrv::Server, edit: &[(&str, Value)]) -> Value {
    let mut v = json!({
        "uuid": id, "job_name": "the job", "result": "FAILURE", "start_time": "2022-10-13T12:57:20", "end_time": "2022-10-13T12:58:42", "duration": 82.0, "voting": true,
        "log_url": format!("{}/logs/{id}/", srv.base()), "artifacts": [], "project": "the/project", "branch": "main", "pipeline": "check", "change": 7, "patchset": "1", "ref": "refs/changes/07/7/1",
        "ref_url": format!("{}/ref/7", srv.base()), "event_id": "e", "final": true
    });
    for (k, x) in edit {
        v[*k] = x.clone();
    }
    v
}

fn main() {
    // the regexes of the tokenizer are compiled once, before any process is forked
    let _ = logreduce_tokenizer::process("warm up 2022-01-01");
    run_main(|p, tier| {
        Some(match p {
            "C25" => Check {
                level: "model_checking",
                rule: "the discovered baseline is a best one of the usable builds, by a reference score".into(),
                assumptions: vec!["the day does not change during a case (it is run again if it does)".into()],
                spaces: c25::spaces(tier),
            },
            "C26" => Check {
                level: "exploration",
                rule: "the content an input resolves to and the requests made equal those of a reference reading of the input".into(),
                assumptions: vec!["parsing of urls is that of the url crate".into()],
                spaces: c26::spaces(tier),
            },
            "C31" => Check {
                level: "model_checking",
                rule: "remote runs give the report of the local copies; requests seen by the server are those allowed".into(),
                assumptions: vec!["files do not change between the runs".into()],
                spaces: c31::spaces(tier),
            },
            _ => return None,
        })
    });
}
