//! C28, C29, C32: the command line program, as processes.
mod c28;
mod c29;
mod c32;
mod cli;
use vengine::*;

pub fn server(ctx: &mut Ctx) -> &'static httpsrv::Server {
    if ctx.any.is_none() {
        let s: &'static httpsrv::Server = Box::leak(Box::new(httpsrv::Server::start()));
        ctx.any = Some(Box::new(s));
    }
    *ctx.any.as_ref().unwrap().downcast_ref::<&'static httpsrv::Server>().unwrap()
}

fn main() {
    let _ = logreduce_tokenizer::process("warm up 2022-01-01");
    run_main(|p, tier| {
        Some(match p {
            "C28" => Check {
                level: "model_checking",
                rule: "output, exit status and files after every command equal those of a reference that uses the library".into(),
                assumptions: vec!["the library's training and inspection are those of C09-C18".into()],
                spaces: c28::spaces(tier),
            },
            "C29" => Check {
                level: "exploration",
                rule: "the exit status of the test command equals the comparison of the library's anomalies with the annotation".into(),
                assumptions: vec!["the library's training and inspection are those of C09-C14".into()],
                spaces: c29::spaces(tier),
            },
            "C32" => Check {
                level: "exploration",
                rule: "the output of every debug command equals what the library gives for that input".into(),
                assumptions: vec!["the library's functions are those of C01-C08, C15 and C16".into()],
                spaces: c32::spaces(tier),
            },
            _ => return None,
        })
    });
}
