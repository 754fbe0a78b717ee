// Lookups whose queries are answered when the demonstration says so.
export const check = (c, m) => { if (!c) { console.log(m); process.exit(1); } };
const out = [];
const all = [];
globalThis.fetch = (url) => {
	all.push(String(url));
	const r = { url: String(url), status: 200 };
	r.name = Buffer.from(new URL(r.url).search.slice(5).replace(/-/g, "+").replace(/_/g, "/"), "base64").toString();
	const response = { get ok() { return r.status >= 200 && r.status < 300; }, get status() { return r.status; }, arrayBuffer: () => new Promise((ok) => { r.body = ok; }) };
	return new Promise((ok) => { out.push(r); r.headers = () => ok(response); });
};
export const settle = async () => { for (let i = 0; i < 20; i++) await new Promise((ok) => setImmediate(ok)); };
export const asked = () => all;
export const headers = async (i, status) => { const r = out[i]; if (!r || r.began) return; r.began = true; r.status = status ?? 200; r.headers(); await settle(); };
export const body = async (i) => { const r = out[i]; if (!r || r.ended || !r.body) return; r.ended = true; const b = new TextEncoder().encode(r.name); r.body(b.buffer.slice(b.byteOffset, b.byteOffset + b.length)); await settle(); };
export const answer = async (name, status) => { const i = out.findIndex((r) => r.name === name && !r.began); check(i >= 0, "no query for " + name); await headers(i, status); await body(i); };
export async function load() {
	const { lookup_doh } = await import("./doh_lookup.js");
	const lookup = (name, ty) => {
		let done = false, value;
		lookup_doh(name, ty, "https://resolver.example/dns-query").then((v) => { done = true; value = v; }, (e) => { done = true; value = '{"thrown":true}'; });
		return { result: async () => { await settle(); check(done, "lookup of " + name + " does not end"); return value; } };
	};
	return { lookup, settle, answer, asked, headers, body };
}
