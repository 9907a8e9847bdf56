//! Scheduling counters of threads of this process.

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Sample {
	pub sleeping: bool,
	pub cpu: (u64, u64),
	pub switches: (u64, u64),
}

pub fn gettid() -> u64 {
	// /proc/thread-self -> <pid>/task/<tid>
	std::fs::read_link("/proc/thread-self")
		.ok()
		.and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned()))
		.and_then(|s| s.parse().ok())
		.unwrap_or(0)
}

pub fn sample(tid: u64) -> Option<Sample> {
	let stat = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
	let rest = &stat[stat.rfind(')')? + 2..];
	let f: Vec<&str> = rest.split(' ').collect();
	let sleeping = f.first()? == &"S";
	let cpu = (f.get(11)?.parse().ok()?, f.get(12)?.parse().ok()?);
	let status = std::fs::read_to_string(format!("/proc/self/task/{tid}/status")).ok()?;
	let get = |k: &str| status.lines().find_map(|l| l.strip_prefix(k)).and_then(|v| v.trim().parse::<u64>().ok());
	Some(Sample {
		sleeping,
		cpu,
		switches: (get("voluntary_ctxt_switches:")?, get("nonvoluntary_ctxt_switches:")?),
	})
}
