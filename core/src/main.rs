mod any;
mod base;
mod combine;
mod dest;
mod exec;
mod ho;
mod ops;
mod recover;
mod share;
mod sources;
mod subjects;
mod subs;
mod sync;
mod adsr;
mod timed;
use pbt::{Family, Property};

fn main() {
	let rule = "at least two source notifications were fed and at least one was delivered";
	let chain = |id, title, name, f| Property { id, title, families: vec![Family::new(name, rule, 2_000_000, 30_000_000, f)], assumptions: &[] };
	let ho_rule = "at least two outer values, two inner subscriptions and one delivered notification";
	let ho = |id, title, name, f| Property {
		id,
		title,
		families: vec![Family::new(name, ho_rule, 1_000_000, 12_000_000, f)],
		assumptions: &[],
	};
	let comb = |id, title, name, f| Property {
		id,
		title,
		families: vec![Family::new(name, "at least two source notifications were fed and at least one combination was emitted", 1_000_000, 12_000_000, f)],
		assumptions: &["the two halves of a combination of one subject with itself are not driven, their order is unspecified"],
	};
	let timed = |id, title, name, f| Property {
		id,
		title,
		families: vec![Family::new(name, "the executor was ticked, something was delivered and, where there is a source, it emitted at least twice", 1_000_000, 12_000_000, f)],
		assumptions: &["ticks do not go back in time"],
	};
	pbt::main(vec![
		chain("O01", "transform", "transform_chains", ops::transform),
		chain("O02", "select", "select_chains", ops::select),
		chain("O03", "accumulate", "accumulate_chains", ops::accumulate),
		chain("O04", "errors", "error_chains", ops::errors),
		chain("O06", "effects", "effect_chains", ops::effects),
		Property {
			id: "O05",
			title: "catch and retry",
			families: vec![
				Family::new("catch_histories", "the source was replaced and something was delivered", 1_000_000, 12_000_000, recover::catch),
				Family::new("retry_histories", "the source was subscribed to again and something was delivered", 1_000_000, 12_000_000, recover::retry),
				Family::new("failed_source", "every case: a source that has failed before it is subscribed to", 40, 200, recover::failed_source),
				Family::new("retry_limit", "every case: a source that always fails", 60, 300, recover::retry_limit),
			],
			assumptions: &[],
		},
		Property {
			id: "P01",
			title: "plain sources",
			families: vec![Family::new("source_programs", "something was subscribed to and delivered at least one notification", 1_500_000, 20_000_000, sources::programs)],
			assumptions: &[],
		},
		Property {
			id: "D01",
			title: "wrapped destinations",
			families: vec![Family::new("destination_towers", "at least two layers and at least one delivered notification", 1_500_000, 20_000_000, dest::towers)],
			assumptions: &[],
		},
		Property {
			id: "U01",
			title: "publish subject",
			families: vec![
				Family::new("publish_histories", rule, 1_000_000, 12_000_000, subjects::publish),
				Family::new("concurrent_feeding", "more than two values were fed by at least two threads", 60_000, 1_500_000, subjects::threads).threaded(),
				Family::new("cross_thread_rounds", "every case: another thread feeds during notifications", 60, 300, subjects::cross_thread_rounds).threaded(),
			],
			assumptions: &[],
		},
		Property {
			id: "U02",
			title: "storing subjects",
			families: vec![
				Family::new("storing_histories", rule, 1_000_000, 12_000_000, subjects::storing),
				Family::new("provenance_histories", rule, 600_000, 8_000_000, subjects::provenance),
			],
			assumptions: &[],
		},
		Property {
			id: "U03",
			title: "re-entrancy",
			families: vec![Family::new("reentrant_histories", "the reacting observer fired and more than one notification was delivered", 1_000_000, 12_000_000, subjects::reentrant)],
			assumptions: &["reactions are bounded to five firings per case, below the recursion limit at which the subject panics by design"],
		},
		Property {
			id: "H01",
			title: "merge and concat",
			families: vec![
				Family::new("concurrent_inner_histories", ho_rule, 1_000_000, 12_000_000, ho::merge_operators),
				Family::new("merged_input_histories", ho_rule, 600_000, 8_000_000, ho::merge_inputs),
				Family::new("finished_outer", "every case: an outer observable that finishes", 400, 1000, ho::finished_outer),
			],
			assumptions: &["an outer observable that is already finished when subscribed to (just, iterators, a completed subject) is left to the family finished_outer, see the known findings"],
		},
		ho("H02", "switch", "switching_histories", ho::switch),
		comb("C01", "combine latest and changes", "combine_histories", combine::latest),
		comb("C02", "zip", "zip_histories", combine::zips),
		comb("C03", "join", "join_histories", combine::joins),
		comb("C04", "with latest from", "with_latest_from_histories", combine::with_latest),
		Property {
			id: "T01",
			title: "scheduler and executor",
			families: vec![
				Family::new("work_histories", "at least two works were scheduled and two executions happened", 1_000_000, 12_000_000, exec::executor),
				Family::new("concurrent_scheduling", "more than two works were scheduled", 40_000, 600_000, exec::threads).threaded(),
			],
			assumptions: &["ticks do not go back in time", "recursive scheduling stays below the limit at which the executor panics by design"],
		},
		timed("T02", "interval, timer and iterator on tick", "timed_source_histories", timed::sources),
		timed("T03", "delay, observe_on and subscribe_on", "delay_histories", timed::delays),
		Property {
			families: vec![
				Family::new("rate_limit_histories", "the executor was ticked, something was delivered and the source emitted at least twice", 1_000_000, 12_000_000, timed::limits),
				Family::new("idle_throttle", "every case: a window that opens after silence", 30, 200, timed::idle_throttle),
			],
			..timed("T04", "debounce and throttle", "", timed::limits)
		},
		Property {
			families: vec![
				Family::new("fallback_histories", "the executor was ticked, something was delivered and the source emitted at least twice", 800_000, 12_000_000, timed::fallback),
				Family::new("adsr_histories", "at least three ticks and two signals of an active envelope", 800_000, 12_000_000, adsr::adsr),
			],
			..timed("T05", "fallback_when_silent and adsr", "", timed::fallback)
		},
		Property {
			id: "S01",
			title: "signal grammar",
			families: vec![
				Family::new("any_pipeline", "the sources were fed or the executor ticked at least twice and something was delivered", 2_000_000, 20_000_000, any::grammar),
				Family::new("within_subscribe", "every case: an observer that subscribes again while it is being subscribed", 60, 120, any::within_subscribe).threaded(),
				Family::new("self_unsubscribe", "every case: an observer that unsubscribes from within a notification", 800, 2000, any::self_unsubscribe),
			],
			assumptions: &["ticks do not go back in time", "an operator's own callbacks do not complete downstream while their source goes on"],
		},
		Property {
			id: "S02",
			title: "teardowns",
			families: vec![
				Family::new("subscription_histories", "at least two teardowns were executed", 1_500_000, 20_000_000, subs::histories),
				Family::new("concurrent_unsubscribing", "a thread unsubscribed and more than one teardown was added", 40_000, 1_000_000, subs::threads).threaded(),
			],
			assumptions: &[],
		},
		Property {
			id: "S03",
			title: "release",
			families: vec![
				Family::new("released_pipelines", "the sources were fed or the executor ticked at least twice and something was delivered", 2_000_000, 20_000_000, any::release),
				Family::new("ended_stage", "every case: a stage is over while what it started goes on", 600, 2000, any::ended_stage),
			],
			assumptions: &["ticks do not go back in time", "what goes on behind a part that ended is left to the family ended_stage, see the known findings"],
		},
		Property {
			id: "S04",
			title: "independence and equivalence",
			families: vec![Family::new("twin_pipelines", "the sources were fed or the executor ticked at least twice and something was delivered", 2_000_000, 20_000_000, any::twins)],
			assumptions: &["ticks do not go back in time"],
		},
		Property {
			id: "K01",
			title: "connectable and share",
			families: vec![
				Family::new("shared_histories", "at least two source notifications were fed and at least one was delivered", 800_000, 12_000_000, share::shared),
				Family::new("while_connecting", "every case: an observer that uses the observable while its source is being subscribed to", 12, 24, share::while_connecting).threaded(),
			],
			assumptions: &[],
		},
		ho("H03", "exhaust", "exhausting_histories", ho::exhaust),
	]);
}
