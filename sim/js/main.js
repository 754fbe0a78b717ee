// Does what the simulator says, one command at a time.
import { readLine, send, hex, unhex, waiting, restart } from './sim.js';
import { reset } from './dnssec_prover_wasm.js';
let lookup_doh, pages = 0;
const settle = () => new Promise(r => setImmediate(r));
send({ t: 'idle' });
for (;;) {
	const c = readLine();
	if (c.t === 'page') {
		// The page is loaded afresh.
		restart();
		reset();
		({ lookup_doh } = await import(process.argv[2] + '?' + ++pages));
	} else if (c.t === 'start') {
		const answer = (how, v) => send({ t: 'done', n: c.n, how, kind: typeof v, v: hex(v) });
		let p;
		try { p = lookup_doh(unhex(c.domain), unhex(c.ty), unhex(c.url)); } catch (e) { answer('throws', e); }
		if (p !== undefined) Promise.resolve(p).then(v => answer('ok', v), e => answer('rejects', e));
	} else if (waiting.has(c.id)) {
		const w = waiting.get(c.id);
		waiting.delete(c.id);
		if (c.fail) w.no(new TypeError(unhex(c.d))); else w.ok(c);
	}
	// Everything which does not wait for the simulator happens now.
	for (let i = 0; i < 3; i++) await settle();
	send({ t: 'idle' });
}
