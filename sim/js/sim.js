// The simulator's end inside the JavaScript engine. Everything the page's code could wait for is
// decided by the simulator.
import fs from 'node:fs';

let left = Buffer.alloc(0);
export function readLine() {
	for (;;) {
		const i = left.indexOf(10);
		if (i >= 0) { const l = left.subarray(0, i).toString(); left = left.subarray(i + 1); return JSON.parse(l); }
		const b = Buffer.alloc(1 << 16);
		let n;
		try { n = fs.readSync(0, b, 0, b.length, null); } catch (e) { if (e.code === 'EAGAIN') continue; throw e; }
		if (n === 0) process.exit(0);
		left = Buffer.concat([left, b.subarray(0, n)]);
	}
}
export function send(o) {
	let b = Buffer.from(JSON.stringify(o) + '\n');
	while (b.length) {
		try { b = b.subarray(fs.writeSync(1, b, 0, b.length)); } catch (e) { if (e.code !== 'EAGAIN') process.exit(1); }
	}
}
export const hex = s => Buffer.from(String(s), 'utf8').toString('hex');
export const unhex = s => Buffer.from(s, 'hex').toString('utf8');

/** A call into the module, answered by the simulator before anything else happens. */
export function call(fn, args) {
	send({ t: 'call', fn, b: 0, ty: 0, s: '', d: '', ...args });
	const r = readLine();
	if (r.panic) throw new WebAssembly.RuntimeError('unreachable');
	return r;
}

let next = 1;
export function restart() { next = 1; waiting.clear(); }
export const waiting = new Map();
/** Something which takes as long as the simulator likes. */
function wait(what, more) {
	const id = next++;
	send({ t: 'wait', what, id, of: 0, url: '', accept: '', method: '', ...more });
	return new Promise((ok, no) => waiting.set(id, { ok, no }));
}
globalThis.simLoad = () => wait('load', {});
globalThis.setTimeout = (f, ms, ...a) => { const id = next++; send({ t: 'wait', what: 'timer', id, of: 0, url: '', accept: '', method: '' }); waiting.set(id, { ok: () => f(...a), no: () => {} }); return id; };
globalThis.clearTimeout = id => { waiting.delete(id); };

globalThis.fetch = (url, opt = {}) => {
	const h = new Headers(opt.headers || {});
	const body = { done: false };
	if (opt.signal && opt.signal.aborted) return Promise.reject(opt.signal.reason);
	return wait('fetch', { url: hex(url), accept: hex(h.get('accept') || ''), method: opt.method || 'GET' }).then(r => {
		const take = async () => {
			if (body.done) throw new TypeError('Body is unusable: Body has already been read');
			body.done = true;
			const d = await wait('body', { of: r.id });
			return Buffer.from(d.d, 'hex');
		};
		const plain = b => b.buffer.slice(b.byteOffset, b.byteOffset + b.length);
		return {
			ok: r.status >= 200 && r.status < 300, status: r.status, statusText: '', redirected: false, url: String(url), type: 'cors',
			headers: new Headers(r.kind ? { 'content-type': r.kind } : {}),
			arrayBuffer: async () => plain(await take()),
			bytes: async () => new Uint8Array(plain(await take())),
			blob: async () => new Blob([await take()]),
			text: async () => (await take()).toString('utf8'),
			json: async () => JSON.parse((await take()).toString('utf8')),
		};
	});
};
process.on('unhandledRejection', () => {});
process.on('uncaughtException', e => { send({ t: 'uncaught', e: hex(e) }); });

