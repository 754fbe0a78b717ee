// A stand-in for the compiled module. Proving x.y.z. takes a query for x.y.z., followed by ones for y.z. and z. at once.
export default async function init() {}
const enc = (s) => new TextEncoder().encode(s);
export function init_proof_builder(name, ty) { return { name, queue: [name], left: name.split(".").length - 1 }; }
export function get_next_query(b) { const q = b.queue.shift(); return q === undefined ? null : enc(q); }
export function process_query_response(b, buf) {
	const name = new TextDecoder().decode(buf);
	b.left -= 1;
	if (name === b.name) { let l = name.split("."); while (l.length > 2) { l.shift(); b.queue.push(l.join(".")); } }
}
export function get_unverified_proof(b) { return b.left === 0 ? enc(b.name) : null; }
export function verify_byte_stream(s) { return JSON.stringify({ ok: new TextDecoder().decode(s) }); }
