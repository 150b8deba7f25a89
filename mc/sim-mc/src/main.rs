mod broker;
mod cl2;
mod client;
mod e2e;
mod ends;
mod explore;
mod grow;
mod model;
mod net;
mod sched;
mod robust;
mod setup;
mod stream;
mod tls;

#[global_allocator]
static ALLOC: grow::Counting = grow::Counting;

fn main() {
    mcbase::install_panic_hook();
    let a = mcbase::args();
    let mut ctx = mcbase::Ctx::new(&a.id, &a.tier, a.seed, a.verif.clone());
    if let Some(f) = &a.replay {
        ctx.replay = Some(mcbase::read_replay(f).1);
    }
    match a.id.as_str() {
        "S01" => stream::s01(&ctx),
        "S02" => stream::s02(&ctx),
        "S03" => stream::s03(&ctx),
        "S04" => stream::s04(&ctx),
        "B01" => broker::b01(&ctx),
        "B02" => broker::b02(&ctx),
        "B03" => broker::b03(&ctx),
        "B04" => broker::b04(&ctx),
        "B05" => sched::b05(&ctx),
        "B06" => sched::b06(&ctx),
        "B07" => ends::b07(&ctx),
        "B09" => ends::b09(&ctx),
        "B10" => ends::b10(&ctx),
        "B11" => ends::b11(&ctx),
        "B12" => robust::b12(&ctx),
        "B13" => robust::b13(&ctx),
        "B14" => robust::b14(&ctx),
        "B17" => robust::b17(&ctx),
        "B18" => setup::b18(&ctx),
        "B20" => setup::b20(&ctx),
        "B19" => grow::b19(&ctx),
        "L11" => grow::l11(&ctx),
        "E01" => e2e::e01(&ctx),
        "E02" => tls::e02(&ctx),
        "L01" => client::l01(&ctx),
        "L02" => client::l02(&ctx),
        "L03" => client::l03(&ctx),
        "L04" => client::l04(&ctx),
        "L05" => cl2::l05(&ctx),
        "L06" => cl2::l06(&ctx),
        "L07" => cl2::l07(&ctx),
        "L10" => cl2::l10(&ctx),
        "L08" => client::l08(&ctx),
        "L09" => client::l09(&ctx),
        "B08" => broker::b08(&ctx),
        "B15" => broker::b15(&ctx),
        "B16" => broker::b16(&ctx),
        x => {
            eprintln!("no check {x}");
            std::process::exit(2)
        }
    }
    std::process::exit(ctx.finish());
}
