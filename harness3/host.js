// The extension's real sources, bundled, in a stand-in for the editor. Everything the
// extension can reach goes through the stand-ins: the `vscode` API, the language client
// (whose starting and stopping the caller decides), the queue and the file system of a
// scratch directory.
"use strict";
const fs = require("fs");
const path = require("path");
const vm = require("vm");

const TOOLS = "/opt/veriftools/node/node_modules/";
const REPO = process.env.VERIF_REPO || "/repo";
const CODE = path.join(REPO, "editors", "code");

/** Bundle the extension; returns a function that runs a fresh instance of it. */
function build(dir) {
	const esbuild = require(TOOLS + "esbuild");
	const out = path.join(dir, "dist", "extension.js");
	const stub = (name) => name;
	esbuild.buildSync({
		entryPoints: [path.join(CODE, "src", "extension.ts")],
		outfile: out,
		bundle: true,
		platform: "node",
		format: "cjs",
		target: "es2022",
		logLevel: "silent",
		external: ["vscode", "vscode-languageclient", "vscode-languageclient/node", "p-queue", "which", "fs-extra", "adm-zip"].map(stub),
	});
	const script = new vm.Script(
		"(function (exports, require, module, __filename, __dirname) {" + fs.readFileSync(out, "utf8") + "\n})",
		{ filename: out },
	);
	const run = script.runInThisContext();
	return (stubs) => {
		const module = { exports: {} };
		const req = (name) => {
			if (name in stubs) return stubs[name];
			return require(name);
		};
		run(module.exports, req, module, out, path.dirname(out));
		return module.exports;
	};
}

/** p-queue as documented: tasks start in order, at most `concurrency` at a time. */
class PQueue {
	constructor(options = {}) {
		this.concurrency = options.concurrency ?? Infinity;
		this.queue = [];
		this.pending = 0;
		this.isPaused = options.autoStart === false;
		this.idle = [];
	}
	get size() {
		return this.queue.length;
	}
	add(task) {
		return new Promise((resolve, reject) => {
			this.queue.push(async () => {
				try {
					resolve(await task({}));
				} catch (e) {
					reject(e);
				}
			});
			this.next();
		});
	}
	addAll(tasks) {
		return Promise.all(tasks.map((t) => this.add(t)));
	}
	next() {
		while (!this.isPaused && this.queue.length && this.pending < this.concurrency) {
			const task = this.queue.shift();
			this.pending++;
			task().finally(() => {
				this.pending--;
				this.next();
				if (!this.pending && !this.queue.length) this.idle.splice(0).forEach((f) => f());
			});
		}
	}
	pause() {
		this.isPaused = true;
	}
	start() {
		this.isPaused = false;
		this.next();
		return this;
	}
	clear() {
		this.queue = [];
	}
	onIdle() {
		return !this.pending && !this.queue.length ? Promise.resolve() : new Promise((f) => this.idle.push(f));
	}
	onEmpty() {
		return this.onIdle();
	}
}

/** which 4: asked not to throw, it answers null (2 does so only when it is synchronous). */
const which2 = require(TOOLS + "which");
const which = Object.assign(
	(cmd, options = {}) =>
		which2(cmd, options).catch((e) => {
			if (options.nothrow) return null;
			throw e;
		}),
	{ sync: which2.sync },
);

class EventEmitter {
	constructor() {
		this.listeners = new Set();
		this.event = (f, self) => {
			const g = self ? f.bind(self) : f;
			this.listeners.add(g);
			return { dispose: () => this.listeners.delete(g) };
		};
	}
	fire(v) {
		for (const f of [...this.listeners]) f(v);
	}
	dispose() {
		this.listeners.clear();
	}
}

const uri = (p, scheme = "file") => ({
	scheme,
	path: p,
	fsPath: p,
	toString: () => scheme + "://" + p,
});
const folder = (p, index) => ({ uri: uri(p), name: path.basename(p), index });

/** What package.json declares about the settings (their scope and default). */
function declared() {
	return JSON.parse(fs.readFileSync(path.join(CODE, "package.json"), "utf8")).contributes.configuration.properties;
}

/**
 * One session of the editor.
 * options: trusted, folders (paths), settings { key: {user, workspace, folders: {path: value}} }
 */
class Host {
	constructor(run, options) {
		this.clients = [];
		this.log = [];
		this.errors = [];
		this.commands = {};
		const host = this;
		const props = options.declared;
		const folders = (options.folders ?? []).map(folder);
		const changed = new EventEmitter();
		const inspect = (key, scope) => {
			const s = options.settings?.[key] ?? {};
			const at = scope?.uri?.fsPath ?? scope?.fsPath;
			return {
				key,
				defaultValue: props[key]?.default ?? undefined,
				globalValue: s.user,
				workspaceValue: s.workspace,
				workspaceFolderValue: at === undefined ? undefined : s.folders?.[at],
			};
		};
		const configuration = (section, scope) => {
			const full = (key) => (section ? section + "." + key : key);
			const get = (key) => {
				const i = inspect(full(key), scope);
				const user = [i.globalValue, props[full(key)]?.default];
				// VS Code disregards workspace values of application settings
				const all =
					props[full(key)]?.scope === "application" ? user : [i.workspaceFolderValue, i.workspaceValue, ...user];
				return all.find((v) => v !== undefined);
			};
			return {
				get: (key, fallback) => get(key) ?? fallback ?? get(key),
				has: (key) => full(key) in props,
				inspect: (key) => inspect(full(key), scope),
				update: async () => host.errors.push("settings were changed"),
			};
		};
		const channel = () => ({
			append: (s) => host.log.push(s),
			appendLine: (s) => host.log.push(s),
			clear() {},
			show() {},
			hide() {},
			replace() {},
			dispose() {},
		});
		const levels = {};
		for (const l of ["trace", "debug", "info", "warn", "error"]) levels[l] = (s) => host.log.push(s);
		const vscode = {
			EventEmitter,
			Uri: {
				file: (p) => uri(p),
				parse: (s) => uri(s.replace(/^[a-z]+:\/\//, ""), s.split(":")[0]),
				joinPath: (u, ...p) => uri(path.posix.join(u.path, ...p), u.scheme),
			},
			Disposable: class {
				constructor(f) {
					this.dispose = f;
				}
			},
			ConfigurationTarget: { Global: 1, Workspace: 2, WorkspaceFolder: 3 },
			ViewColumn: { One: 1, Two: 2 },
			workspace: {
				isTrusted: options.trusted ?? true,
				workspaceFolders: options.folders === undefined ? undefined : folders,
				textDocuments: [],
				getConfiguration: configuration,
				getWorkspaceFolder: (u) => folders.find((f) => u.fsPath.startsWith(f.uri.fsPath + "/")),
				onDidChangeConfiguration: changed.event,
				onDidChangeWorkspaceFolders: changed.event,
				onDidGrantWorkspaceTrust: changed.event,
				onDidChangeTextDocument: changed.event,
				onDidOpenTextDocument: changed.event,
				onDidCloseTextDocument: changed.event,
				fs: {
					stat: async (u) => {
						await fs.promises.stat(u.fsPath);
						return { type: 1 };
					},
				},
			},
			window: {
				activeTextEditor: undefined,
				visibleTextEditors: [],
				createOutputChannel: (name) => Object.assign(channel(), levels, { name }),
				onDidChangeActiveTextEditor: changed.event,
				onDidChangeVisibleTextEditors: changed.event,
				showErrorMessage: async (m) => void host.errors.push(String(m)),
				showWarningMessage: async (m) => void host.errors.push(String(m)),
				showInformationMessage: async () => undefined,
				showQuickPick: async () => undefined,
			},
			commands: {
				registerCommand: (name, f) => {
					host.commands[name] = f;
					return { dispose: () => delete host.commands[name] };
				},
				executeCommand: async (name, ...args) => host.commands[name]?.(...args),
			},
			env: {},
			extensions: { getExtension: () => undefined },
		};
		class LanguageClient {
			constructor(id, name, server, client) {
				// (id, name, serverOptions, clientOptions) or without the id
				if (typeof name !== "string") [server, client] = [name, server];
				this.server = server;
				this.options = client;
				this.state = "new";
				this.waiting = null;
				this.code2ProtocolConverter = {};
				host.clients.push(this);
			}
			#wait(state) {
				return new Promise((resolve, reject) => {
					this.state = state;
					this.waiting = (ok) => {
						this.waiting = null;
						if (state === "starting") this.state = ok ? "running" : "failed";
						else this.state = ok ? "stopped" : "lost";
						if (ok) resolve();
						else reject(new Error(state + " failed"));
					};
				});
			}
			start() {
				if (this.state !== "new" && this.state !== "stopped") host.errors.push("a client in state " + this.state + " was started");
				return this.#wait("starting");
			}
			stop() {
				if (this.state !== "running") host.errors.push("a client in state " + this.state + " was stopped");
				return this.#wait("stopping");
			}
			dispose() {
				return this.stop();
			}
			isRunning() {
				return this.state === "running";
			}
			needsStop() {
				return this.state === "starting" || this.state === "running";
			}
			onNotification() {
				return { dispose() {} };
			}
			onRequest() {
				return { dispose() {} };
			}
			onDidChangeState() {
				return { dispose() {} };
			}
			sendRequest() {
				return Promise.resolve();
			}
			sendNotification() {
				return Promise.resolve();
			}
		}
		class Type {
			constructor(method) {
				this.method = method;
			}
		}
		const lc = {
			LanguageClient,
			NotificationType: Type,
			RequestType: Type,
			ResponseError: class extends Error {},
			TransportKind: { stdio: 0, ipc: 1, pipe: 2, socket: 3 },
			State: { Stopped: 1, Running: 2, Starting: 3 },
			RevealOutputChannelOn: { Info: 1, Warn: 2, Error: 3, Never: 4 },
		};
		const context = {
			subscriptions: [],
			extensionPath: options.root,
			extensionUri: uri(options.root),
			asAbsolutePath: (p) => path.join(options.root, p),
			workspaceState: { get: () => undefined, update: async () => {} },
			globalState: { get: () => undefined, update: async () => {} },
		};
		this.extension = run({
			vscode,
			"vscode-languageclient/node": lc,
			"vscode-languageclient": lc,
			"p-queue": { __esModule: true, default: PQueue },
			which,
			"fs-extra": Object.assign({}, fs, fs.promises, {
				existsSync: fs.existsSync,
				pathExists: async (p) => {
					// (fs-extra answers later, too)
					await null;
					return fs.existsSync(p);
				},
				pathExistsSync: fs.existsSync,
			}),
			"adm-zip": {},
		});
		this.context = context;
	}
	activate() {
		this.api = this.extension.activate(this.context);
		return this.api;
	}
	deactivate() {
		return this.extension.deactivate();
	}
	/** The clients that have, or may have, a server. */
	alive() {
		return this.clients.filter((c) => ["starting", "running", "stopping"].includes(c.state));
	}
}

/** Until nothing more happens by itself. */
async function settle() {
	for (let quiet = 0; quiet < 2; ) {
		await new Promise((f) => setImmediate(f));
		const busy = process.getActiveResourcesInfo().some((r) => /FSReq|Timeout|Process|Pipe/.test(r) && !/Pipe|TTY/.test(r));
		quiet = busy ? 0 : quiet + 1;
	}
}

module.exports = { build, Host, settle, declared, CODE, TOOLS };
