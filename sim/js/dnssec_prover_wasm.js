// Stands in for what wasm-bindgen generates around the compiled module: the same functions with the
// same conventions about arguments, run natively by the simulator.
import { call } from './sim.js';

let instance = 0, loads = 0;
export function reset() { instance = 0; loads = 0; }
export default async function init() {
	if (instance !== 0) return;
	await globalThis.simLoad();
	// As in what is generated: whichever finishes last is used from then on, with a memory of its own.
	instance = ++loads;
}

export class WASMProofBuilder {
	constructor(ptr) { this.ptr = ptr; this.of = instance; }
	take() { const p = this.ptr; this.ptr = 0; return p; }
	free() { const p = this.take(); if (p) call('free', { b: p }); }
}
const use = (b, moving) => {
	if (!(b instanceof WASMProofBuilder)) throw new Error('expected instance of WASMProofBuilder');
	if (b.ptr === 0) throw new Error(moving ? 'Attempt to use a moved value' : 'null pointer passed to rust');
	if (b.of !== instance) throw new WebAssembly.RuntimeError('memory access out of bounds');
	return b.ptr;
};
const up = () => { if (instance === 0) throw new TypeError("Cannot read properties of undefined (reading 'memory')"); };
const text = s => { if (typeof s !== 'string') throw new TypeError('expected a string'); return Buffer.from(s, 'utf8').toString('hex'); };
const bytes = a => Buffer.from(Uint8Array.from(a)).toString('hex');
const ret = h => h === null ? undefined : new Uint8Array(Buffer.from(h, 'hex'));

export function init_proof_builder(name, ty) {
	up();
	const r = call('init', { s: text(name), ty: ty & 0xffff }).b;
	return r === 0 ? undefined : new WASMProofBuilder(r);
}
export function process_query_response(b, response) { up(); call('process', { b: use(b), d: bytes(response) }); }
export function get_next_query(b) { up(); return ret(call('next', { b: use(b) }).d); }
export function get_unverified_proof(b) { up(); const p = use(b, true); b.take(); return ret(call('proof', { b: p }).d); }
export function verify_byte_stream(s) { up(); return Buffer.from(call('verify', { d: bytes(s) }).d, 'hex').toString('utf8'); }
