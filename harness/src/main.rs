mod alloc;
mod checks;
mod dec;
mod enc;
mod engine;
mod obu;
#[path = "src.rs"]
mod src;

use engine::Tier;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn find(id: &str) -> &'static engine::Check {
  checks::ALL.iter().find(|c| c.id == id).copied().unwrap_or_else(|| {
    eprintln!("unknown property {id}");
    std::process::exit(3)
  })
}

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let code = match a.get(1).map(|s| s.as_str()) {
    Some("worker") => {
      engine::worker(find(&a[2]), a[3].parse().unwrap());
      0
    }
    Some("run") => {
      let tier =
        if a[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
      engine::run(find(&a[2]), tier, a[4].parse().unwrap_or(1))
    }
    Some("replay") => engine::replay(find(&a[2]), &a[3]),
    _ => {
      eprintln!("usage: rvh run ID quick|thorough SEED | replay ID FILE");
      3
    }
  };
  std::process::exit(code);
}
