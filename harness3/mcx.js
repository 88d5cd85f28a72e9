// One property's run: evidence, violations, replay (as harness/mcx does for the Rust checks).
"use strict";
const fs = require("fs");
const os = require("os");
const path = require("path");

const ROOT = process.env.VERIF_ROOT || path.dirname(__dirname);

class Check {
	constructor(prop, level) {
		this.prop = prop;
		this.level = level;
		const args = process.argv.slice(3);
		this.tier = args.includes("thorough") ? "thorough" : "quick";
		const at = args.indexOf("--replay");
		this.replay = at >= 0 ? JSON.parse(fs.readFileSync(args[at + 1], "utf8")).case : undefined;
		this.start = Date.now();
		this.n = { states: 0, transitions: 0, validated: 0, evaluations: 0, nontrivial: 0 };
		this.samples = [];
		this.extra = {};
		this.outcomes = {};
		this.assumptions = [];
		this.rule = "";
		this.found = [];
		this.total = 0;
		this.dir = fs.mkdtempSync(path.join(os.tmpdir(), "jarl-verif-ts-"));
		process.on("exit", () => fs.rmSync(this.dir, { recursive: true, force: true }));
	}
	thorough() {
		return this.tier === "thorough";
	}
	pick(quick, thorough) {
		return this.thorough() ? thorough : quick;
	}
	outcome(name) {
		this.outcomes[name] = (this.outcomes[name] ?? 0) + 1;
	}
	sample(v) {
		if (this.samples.length < 4) this.samples.push(v);
	}
	violation(signature, what, replay) {
		this.total++;
		// the smallest of each kind is kept
		const size = JSON.stringify(replay).length;
		const old = this.found.find((f) => f.signature === signature);
		if (!old) this.found.push({ signature, what, replay, size });
		else if (size < old.size) Object.assign(old, { what, replay, size });
	}
	finish() {
		let known = [];
		try {
			known = JSON.parse(fs.readFileSync(path.join(ROOT, "known-findings.json"), "utf8")).known.filter(
				(k) => k.property === this.prop,
			);
		} catch {}
		const unknown = this.found.filter((f) => !known.some((k) => k.signature === f.signature));
		unknown.sort((a, b) => a.size - b.size);
		const wall = (Date.now() - this.start) / 1000;
		const n = this.n;
		if (this.replay === undefined) {
			const coverage =
				this.level === "model_checking"
					? {
							states: n.states,
							transitions: n.transitions,
							traces_validated_against_impl: n.validated,
						}
					: { evaluations: n.evaluations, distinct_nontrivial: n.nontrivial };
			Object.assign(coverage, { rule: this.rule, samples: this.samples, exhaustive: true });
			if (Object.keys(this.outcomes).length) {
				coverage.distinct_outcomes = Object.keys(this.outcomes).length;
				coverage.outcomes = Object.fromEntries(Object.entries(this.outcomes).sort().slice(0, 60));
			}
			Object.assign(coverage, this.extra);
			fs.mkdirSync(path.join(ROOT, "evidence"), { recursive: true });
			fs.writeFileSync(
				path.join(ROOT, "evidence", this.prop + ".json"),
				JSON.stringify(
					{
						property: this.prop,
						tier: this.tier,
						seed: Number(process.env.VERIF_SEED ?? 1) || 0,
						level: this.level,
						coverage,
						assumptions: this.assumptions,
						wall_s: Math.round(wall * 100) / 100,
						violations: unknown.length,
					},
					null,
					2,
				) + "\n",
			);
		}
		for (const k of known)
			if (this.found.some((f) => f.signature === k.signature))
				console.log(`KNOWN-FINDING: property=${this.prop} ${k.what}`);
		console.log(
			`${this.prop}: states=${n.states} transitions=${n.transitions} evaluations=${n.evaluations} nontrivial=${n.nontrivial} wall=${wall.toFixed(1)}s`,
		);
		if (!unknown.length) {
			console.log(`${this.prop}: property held on everything explored`);
			process.exit(0);
		}
		fs.mkdirSync(path.join(ROOT, "replays"), { recursive: true });
		const file = path.join(ROOT, "replays", this.prop + ".json");
		if (this.replay === undefined)
			fs.writeFileSync(
				file,
				JSON.stringify(
					{
						property: this.prop,
						signature: unknown[0].signature,
						what: unknown[0].what,
						case: unknown[0].replay,
						total_violations: this.total,
						others: unknown.slice(1).map((f) => ({ signature: f.signature, what: f.what, case: f.replay })),
					},
					null,
					2,
				) + "\n",
			);
		for (const f of unknown.slice(0, 5)) console.log(`  ${f.signature}: ${f.what}`);
		console.log(`VIOLATION property=${this.prop} replay=${file}`);
		process.exit(1);
	}
}

/** Every combination of one value of each list. */
function* product(...lists) {
	if (!lists.length) {
		yield [];
		return;
	}
	for (const head of lists[0]) for (const rest of product(...lists.slice(1))) yield [head, ...rest];
}

/** Every word over the letters up to a length. */
function* words(letters, max) {
	for (let n = 0; n <= max; n++) yield* product(...Array(n).fill(letters));
}

module.exports = { Check, product, words, ROOT };
