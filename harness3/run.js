// V01 V02 V03: the VS Code extension.
"use strict";
const fs = require("fs");
const path = require("path");
const { Check, product, words } = require("./mcx");
const { build, Host, settle, declared, CODE, TOOLS } = require("./host");

process.on("unhandledRejection", () => {});
delete process.env.CI;

function executable(file, mode = 0o755) {
	fs.mkdirSync(path.dirname(file), { recursive: true });
	fs.writeFileSync(file, "#!/bin/sh\n", { mode });
	fs.chmodSync(file, mode);
}
const remove = (file) => fs.rmSync(file, { recursive: true, force: true });

// ---------------------------------------------------------------- V01
async function v01() {
	const c = new Check("V01", "exploration");
	c.rule =
		"for every combination of workspace trust, strategy, executable path setting and executables that exist (in the extension, at two places of PATH, at the path), in a window with and without a folder: the extension starts exactly the documented executable as `jarl server`, or none; not trivial: more than one executable exists";
	c.assumptions.push("a file exists when it is there; the search of PATH is that of the `which` package");
	const run = build(c.dir);
	const bundled = path.join(c.dir, "bundled", "bin", "jarl");
	const bin = [path.join(c.dir, "one"), path.join(c.dir, "two")];
	const custom = path.join(c.dir, "custom", "jarl-dev");
	const work = path.join(c.dir, "work");
	const old = process.env.PATH;
	const places = ["absent", "present", "not executable"];
	const cases = product(
		[true, false],
		[undefined, "bundled", "environment", "path"],
		[false, true],
		places,
		c.thorough() ? places : ["absent", "present"],
		[undefined, null, "", custom],
		[false, true],
		["none", "folder", "folder with jarl"],
		["user", "workspace"],
	);
	const wanted = c.replay ? [c.replay] : cases;
	const decl = declared();
	for (const v of wanted) {
		const [trusted, strategy, hasBundled, first, second, setting, hasCustom, window, level] = v;
		remove(bundled);
		bin.forEach((b) => remove(path.join(b, "jarl")));
		remove(custom);
		remove(work);
		bin.forEach((b) => fs.mkdirSync(b, { recursive: true }));
		fs.mkdirSync(work, { recursive: true });
		if (hasBundled) executable(bundled);
		[first, second].forEach((p, i) => p !== "absent" && executable(path.join(bin[i], "jarl"), p === "present" ? 0o755 : 0o644));
		if (hasCustom) executable(custom);
		if (window === "folder with jarl") {
			executable(path.join(work, "jarl"));
			executable(path.join(work, "bundled", "bin", "jarl"));
		}
		const settings = { "jarl.executableStrategy": { [level]: strategy }, "jarl.executablePath": { [level]: setting } };
		process.env.PATH = bin.join(":");
		const host = new Host(run, {
			root: c.dir,
			declared: decl,
			trusted,
			folders: window === "none" ? undefined : [work],
			settings,
		});
		host.activate();
		await settle();
		process.env.PATH = old;
		const env = [first, second].map((p, i) => p === "present" && path.join(bin[i], "jarl")).find((p) => p);
		const own = hasBundled ? bundled : undefined;
		const at = setting && hasCustom ? setting : undefined;
		const kind = strategy ?? "bundled";
		const want = !trusted ? own : kind === "bundled" ? (own ?? env) : kind === "environment" ? (env ?? own) : at;
		const got = host.clients.map((k) => JSON.stringify([k.server.command, k.server.args ?? []]));
		const exp = want === undefined ? [] : [JSON.stringify([want, ["server"]])];
		c.n.evaluations++;
		if ([own, env, at].filter((x) => x).length > 1) c.n.nontrivial++;
		c.outcome(want === undefined ? "none" : want === own ? "bundled" : want === at ? "path" : "PATH");
		if (c.n.evaluations % 977 === 0) c.sample({ case: v, started: got });
		if (JSON.stringify(got) !== JSON.stringify(exp))
			c.violation(
				!trusted ? "untrusted" : "strategy-" + kind,
				`${trusted ? "trusted" : "untrusted"}, strategy ${strategy}, path ${setting}, bundled ${hasBundled}, PATH [${first}, ${second}], at the path ${hasCustom}, window ${window}: started ${got.join(" ") || "nothing"}, expected ${exp.join(" ") || "nothing"}`.replaceAll(c.dir, ""),
				v,
			);
	}
	c.finish();
}

// ---------------------------------------------------------------- V02
/** What one history of operations and answers leads to, by the documented queue. */
class Model {
	constructor() {
		this.queue = []; // operations that wait: {kind, id}
		this.current = null; // {kind, id, phase: "start" | "stop"}
		this.running = null; // number of the client that runs
		this.started = 0; // clients so far
		this.results = []; // per operation: "pending" | "done" | "failed"
		this.missing = false; // there is no executable
		this.after = null; // an operation whose stopping has just failed
	}
	request(kind) {
		const id = this.results.push("pending") - 1;
		this.queue.push({ kind, id });
		this.advance();
	}
	end(result) {
		this.results[this.current.id] = result;
		this.current = null;
		this.advance();
	}
	begin() {
		if (this.missing) return this.end("failed");
		this.started++;
		this.current.phase = "start";
	}
	advance() {
		if (this.current || !this.queue.length) return;
		this.current = this.queue.shift();
		const { kind } = this.current;
		if (kind === "start" ? this.running !== null : kind === "stop" && this.running === null) return this.end("done");
		if (kind !== "start" && this.running !== null) {
			this.current.phase = "stop";
			return;
		}
		this.begin();
	}
	answer(ok) {
		if (this.current.phase === "start") {
			if (ok) this.running = this.started - 1;
			this.end(ok ? "done" : "failed");
		} else {
			this.running = null;
			if (this.current.kind === "stop") this.end(ok ? "done" : "failed");
			else if (ok) this.begin();
			else this.end("failed");
		}
	}
	/** What can be seen from outside. */
	view() {
		const clients = [];
		for (let i = 0; i < this.started; i++)
			if (i === this.running) clients.push([i, this.current?.phase === "stop" ? "stopping" : "running"]);
			else if (i === this.started - 1 && this.current?.phase === "start") clients.push([i, "starting"]);
		return { clients, results: [...this.results], client: this.running };
	}
}

async function v02() {
	const c = new Check("V02", "model_checking");
	c.rule =
		"every history, up to the bound, of starting, stopping and restarting the server (the first start by activation, the others in any number before earlier ones are answered), of the answers of the language client (starting and stopping succeed or fail) and of the executable appearing and disappearing; after every step of the real extension its clients and the results of its operations are those of the model";
	c.assumptions.push(
		"the language client and the queue package behave as documented; what the extension does between two events is not interrupted (JavaScript runs to completion)",
	);
	const run = build(c.dir);
	const exe = path.join(c.dir, "bundled", "bin", "jarl");
	const old = process.env.PATH;
	process.env.PATH = path.join(c.dir, "nothing");
	const decl = declared();
	const depth = c.pick(6, 8);
	const states = new Set();
	const OPS = ["start", "stop", "restart"];

	// replay `history` on a fresh instance; the check is done after its last event
	async function go(history) {
		executable(exe);
		const host = new Host(run, { root: c.dir, declared: decl, folders: ["/w"] });
		const model = new Model();
		const results = [];
		const watch = (p) => {
			const i = results.push("pending") - 1;
			Promise.resolve(p).then(
				() => (results[i] = "done"),
				() => (results[i] = "failed"),
			);
		};
		let lsp;
		for (const e of ["activate", ...history]) {
			c.n.transitions++;
			if (e === "activate") {
				lsp = host.activate().__private.ctx.lsp;
				// the result of this start is not handed out
				model.request("start");
				results.push(null);
			} else if (OPS.includes(e)) {
				model.request(e);
				watch(e === "restart" ? host.commands["jarl.restart"]() : e === "stop" && lsp.stop ? lsp.stop() : lsp.start());
			} else if (e === "missing" || e === "there") {
				model.missing = e === "missing";
				if (e === "missing") remove(exe);
				else executable(exe);
			} else {
				const waiting = host.clients.find((k) => k.waiting);
				if (!waiting) return { bad: "no client waits for an answer" };
				waiting.waiting(e === "ok");
				model.answer(e === "ok");
			}
			await settle();
		}
		const clients = host.clients.map((k, i) => [i, k.state]).filter(([, s]) => ["starting", "running", "stopping"].includes(s));
		let client = null;
		try {
			client = host.clients.indexOf(lsp.getClient());
		} catch {}
		const view = model.view();
		view.results[0] = null;
		const want = JSON.stringify([view.clients, view.results, view.client]);
		const got = JSON.stringify([clients, results, client]);
		let bad;
		if (clients.length > 1) bad = ["two-servers", `${clients.length} servers at a time`];
		else if (host.errors.length) bad = ["misuse", host.errors[0]];
		else if (want !== got) bad = ["state", `clients, results, current are ${got}, expected ${want}`];
		states.add(JSON.stringify([model.queue.map((q) => q.kind), model.current?.kind, model.current?.phase, model.running !== null, model.missing]));
		return { bad, waits: host.clients.some((k) => k.waiting), missing: model.missing };
	}
	if (c.replay) {
		const { bad } = await go(c.replay);
		if (bad) c.violation(bad[0], bad[1], c.replay);
		c.finish();
	}
	// depth first over the histories; a history that is wrong is not continued
	async function explore(history) {
		const { bad, waits, missing } = await go(history);
		c.n.validated++;
		if (bad) {
			c.violation(bad[0], `activate ${history.join(" ")}: ${bad[1]}`, history);
			return;
		}
		if (history.length === depth) return;
		if (history.length === 5 && c.n.validated % 501 === 0) c.sample(history);
		const next = [...(waits ? ["ok", "fail"] : []), ...OPS];
		// the executable matters for the next start only: no two changes in a row
		const last = history[history.length - 1];
		if (last !== "missing" && last !== "there") next.push(missing ? "there" : "missing");
		for (const e of next) await explore([...history, e]);
	}
	await explore([]);
	process.env.PATH = old;
	c.n.states = states.size;
	c.extra.depth = depth;
	c.extra["states are those of the model; histories run on the real extension"] = c.n.validated;
	c.finish();
}

// ---------------------------------------------------------------- V03
/** How VS Code decides whether a document is meant by a selector. */
function selected(selector, doc) {
	const picomatch = require(TOOLS + "picomatch");
	return [selector].flat().some((f) => {
		if (typeof f === "string") return f === "*" || f === doc.language;
		if (f.notebookType !== undefined) return false;
		if (f.scheme !== undefined && f.scheme !== "*" && f.scheme !== doc.scheme) return false;
		if (f.language !== undefined && f.language !== "*" && f.language !== doc.language) return false;
		if (f.pattern !== undefined) {
			const base = typeof f.pattern === "string" ? f.pattern : f.pattern.pattern;
			if (!picomatch(base, { dot: true })(doc.path)) return false;
		}
		return true;
	});
}

async function v03() {
	const c = new Check("V03", "exploration");
	c.rule =
		"every combination of values of the settings at user, workspace and folder level, and every list of up to three (thorough four) folders that exist or not: the server that is started gets the log settings of the user and is the one configured for the outermost folder; every document by language, scheme and name: R, R Markdown and Quarto files are served, other languages are not; not trivial: values at more than one level, or more than one folder";
	c.assumptions.push("settings are combined and selectors are matched as VS Code documents it");
	const run = build(c.dir);
	const bundled = path.join(c.dir, "bundled", "bin", "jarl");
	executable(bundled);
	const decl = declared();
	const old = process.env.PATH;
	process.env.PATH = path.join(c.dir, "nothing");
	const wanted = (part) => c.replay === undefined || c.replay[0] === part;
	const start = async (options) => {
		const host = new Host(run, { root: c.dir, declared: decl, ...options });
		host.activate();
		await settle();
		return host;
	};

	// log settings
	const levels = [undefined, "error", "trace"];
	const dep = [undefined, "", "a=info"];
	for (const v of c.replay?.[0] === "logs" ? [c.replay[1]] : wanted("logs") ? product(levels, levels, levels, dep, dep, dep) : []) {
		const [lu, lw, lf, du, dw, df] = v;
		const host = await start({
			folders: ["/w"],
			settings: {
				"jarl.logLevel": { user: lu, workspace: lw, folders: { "/w": lf } },
				"jarl.dependencyLogLevels": { user: du, workspace: dw, folders: { "/w": df } },
			},
		});
		c.n.evaluations++;
		if ([lu, lw, lf, du, dw, df].filter((x) => x !== undefined).length > 1) c.n.nontrivial++;
		const options = host.clients[0]?.options.initializationOptions;
		const got = JSON.stringify([options?.logLevel, options?.dependencyLogLevels]);
		const want = JSON.stringify([lu ?? "debug", du]);
		c.outcome("logs " + got);
		if (got !== want)
			c.violation("log-settings", `user ${lu} ${du}, workspace ${lw} ${dw}, folder ${lf} ${df}: the server got ${got}, expected ${want}`, ["logs", v]);
	}

	// the folder whose settings count
	const names = ["o", "o/inner", "pp", "pp/x", "long-name-of-a-folder"].map((n) => path.join(c.dir, "space", n));
	const exes = Object.fromEntries(names.map((n, i) => [n, path.join(c.dir, "exe", "jarl" + i)]));
	Object.values(exes).forEach((e) => executable(e));
	const shared = path.join(c.dir, "exe", "shared");
	executable(shared);
	const max = c.pick(3, 4);
	const lists = [];
	for (const w of words(names, max)) if (new Set(w).size === w.length) lists.push(w);
	const existing = [...words([true, false], names.length)].filter((w) => w.length === names.length);
	const folders = function* () {
		for (const list of lists)
			for (const there of existing) {
				// only the folders of the list matter; a folder inside another does not exist without it
				const on = (n) => there[names.indexOf(n)];
				if (names.some((n) => !list.includes(n) && on(n))) continue;
				if ((on(names[1]) && list.includes(names[0]) && !on(names[0])) || (on(names[3]) && list.includes(names[2]) && !on(names[2]))) continue;
				for (const level of ["folder", "workspace"]) yield [list.map((n) => names.indexOf(n)), list.map(on), level];
			}
	};
	for (const v of c.replay?.[0] === "folders" ? [c.replay[1]] : wanted("folders") ? folders() : []) {
		const [indexes, there, level] = v;
		const list = indexes.map((i) => names[i]);
		remove(path.join(c.dir, "space"));
		list.forEach((n, i) => there[i] && fs.mkdirSync(n, { recursive: true }));
		const per = {};
		list.forEach((n) => (per[n] = exes[n]));
		const host = await start({
			folders: list,
			settings: {
				"jarl.executableStrategy": { workspace: "path" },
				"jarl.executablePath": { workspace: shared, folders: level === "folder" ? per : {} },
			},
		});
		c.n.evaluations++;
		if (list.length > 1) c.n.nontrivial++;
		// the shortest path that exists, the first of these; the first if none does
		let best = list[0];
		const usable = list.filter((_, i) => there[i]);
		if (usable.length) best = usable.reduce((a, b) => (b.length < a.length ? b : a));
		const want = level === "folder" && list.length ? exes[best] : shared;
		const got = host.clients.map((k) => k.server.command);
		c.outcome("folder " + (want === shared ? "none" : names.indexOf(best)));
		if (got.length !== 1 || got[0] !== want)
			c.violation("root-folder", `folders ${list.map((n, i) => n.replace(c.dir, "") + (there[i] ? "" : " (missing)")).join(", ")}: started ${got}, expected ${want}`.replaceAll(c.dir, ""), ["folders", v]);
	}

	// documents
	if (wanted("documents")) {
		const host = await start({ folders: ["/w"], settings: {} });
		const selector = host.clients[0]?.options.documentSelector ?? [];
		const R = ["a.R", "a.r"];
		const MD = ["a.Rmd", "a.rmd", "a.qmd", "a.Qmd"];
		const others = ["a.py", "a.md", "a.Rproj", "aR", "a.R.bak", "a.rs", "a.txt", "R", "Rmd/a.md", "a.R/b.py"];
		const dirs = ["/w", "/w/R", "/w/.hidden", "/w/with space", "/"];
		const langs = ["r", "rmd", "quarto", "plaintext", "markdown", "python", "R"];
		const schemes = ["file", "untitled", "git", "vscode-notebook-cell"];
		for (const [dir, name, language, scheme] of product(dirs, [...R, ...MD, ...others], langs, schemes)) {
			const doc = { path: path.posix.join(dir, name), language, scheme };
			if (c.replay && JSON.stringify(c.replay[1]) !== JSON.stringify(doc)) continue;
			c.n.evaluations++;
			const kind = R.includes(name) ? "R" : MD.includes(name) ? "MD" : "other";
			const file = scheme === "file";
			const ours = ["r", "rmd", "quarto"].includes(language);
			// must: files that the editor knows as R, R Markdown or Quarto, and documents by
			// their names; must not: other files in other languages
			let want;
			if (file && ours) want = true;
			else if (file && kind === "MD") want = true;
			else if (kind === "other" && !ours) want = false;
			else if (!ours && language !== "plaintext" && kind === "R") want = false;
			if (want === undefined) continue;
			c.n.nontrivial++;
			const got = selected(selector, doc);
			c.outcome("document " + got);
			if (got !== want)
				c.violation("documents-" + kind, `${scheme}:${doc.path} in language ${language}: ${got ? "served" : "not served"}`, ["documents", doc]);
		}
	}
	process.env.PATH = old;
	c.finish();
}

const PROPS = { V01: v01, V02: v02, V03: v03 };
PROPS[process.argv[2]]().catch((e) => {
	console.log("check: " + (e.stack ?? e));
	process.exit(2);
});
