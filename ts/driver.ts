// Runs a recorded workload against the library and writes down what came of each operation.
import "./host";
import * as fs from "fs";
import * as lib from "@src/index";
import * as utils from "@src/helpers/utils";

const quiet = () => {};
console.warn = quiet;
console.time = quiet;
console.timeEnd = quiet;
console.log = quiet;
console.error = quiet;
const host = (globalThis as any).__host;
const big = (s: string) => BigInt(s);
const buf = (s: string) => Buffer.from(s, "hex");
const hex = (b: any) => Buffer.from(b).toString("hex");
const str = (v: any): any => {
  if (typeof v === "bigint") return v.toString();
  if (v instanceof Uint8Array) return hex(v);
  if (Array.isArray(v)) return v.map(str);
  if (v === undefined) return null;
  return v;
};
const pub = (o: any) =>
  new lib.PublicInput(
    big(o.r),
    big(o.rV),
    buf(o.m),
    new lib.CircuitPubInput(big(o.root), big(o.Tx), big(o.Ty), big(o.Ux), big(o.Uy))
  );
const circFields = (c: any) => ({
  root: str(c.merkleRoot), Tx: str(c.Tx), Ty: str(c.Ty), Ux: str(c.Ux), Uy: str(c.Uy)
});
const pubFields = (p: any) => ({
  r: str(p.r), rV: str(p.rV), m: hex(p.msgHash), isBuffer: Buffer.isBuffer(p.msgHash), ...circFields(p.circuitPubInput)
});
const poseidon = new lib.Poseidon();
// helpers that are not part of the package's interface may be called otherwise, or be gone
const helper = (n: string, f: (g: any) => any) => {
  const g = (utils as any)[n];
  return typeof g === "function" ? f(g) : { missing: true };
};

const ops: Record<string, (o: any) => any> = {
  compute: o => {
    const m = buf(o.m);
    const x = lib.computeEffEcdsaPubInput(big(o.r), big(o.v), m);
    return { Tx: str(x.Tx), Ty: str(x.Ty), Ux: str(x.Ux), Uy: str(x.Uy), after: hex(m) };
  },
  fromSig: o => {
    return helper("fromSig", g => {
      const x = g(o.sig);
      return { r: str(x.r), s: str(x.s), v: str(x.v) };
    });
  },
  check: o => {
    const p = pub(o);
    const ok = lib.verifyEffEcdsaPubInput(p);
    return { ok, type: typeof ok, after: pubFields(p) };
  },
  ser: o => {
    const p = pub(o);
    const circ = p.circuitPubInput.serialize();
    const full = p.serialize();
    return { circ: hex(circ), full: hex(full), again: hex(p.serialize()), after: pubFields(p) };
  },
  deser: o => {
    // as a plain array, and as a view into the middle of a larger one
    const b = buf(o.hex);
    const big = new Uint8Array(b.length + 11);
    big.set(b, 5);
    const view = o.view ? big.subarray(5, 5 + b.length) : o.node ? b : new Uint8Array(b);
    const p = lib.PublicInput.deserialize(view);
    const before = pubFields(p);
    // what the caller does with its bytes later is its own affair
    const after = hex(view);
    if (o.scribble) view.fill(0x5a);
    return { p: before, then: pubFields(p), after };
  },
  cdeser: o => {
    const b = new Uint8Array(buf(o.hex));
    const p = lib.CircuitPubInput.deserialize(b);
    return { p: circFields(p), after: hex(b) };
  },
  b2i: o => {
    const b = new Uint8Array(buf(o.hex));
    return helper("bytesToBigInt", g => ({ n: str(g(b)), after: hex(b) }));
  },
  le2i: o => {
    const b = new Uint8Array(buf(o.hex));
    return helper("bytesLeToBigInt", g => ({ n: str(g(b)), after: hex(b) }));
  },
  i2b: o => helper("bigIntToBytes", g => ({ b: hex(g(big(o.n), o.size)) })),
  i2le: o => helper("bigIntToLeBytes", g => ({ b: hex(g(big(o.n), o.size)) })),
  hash: o => {
    const a = o.in.map(big);
    return { h: str(poseidon.hash(a)), again: str(poseidon.hash(a)), after: str(a) };
  },
  hashPubKey: o => {
    const b = buf(o.hex);
    return { h: str(poseidon.hashPubKey(b)), after: hex(b) };
  },
  tree: o => {
    const t = new lib.Tree(o.depth, poseidon);
    const res: any[] = [];
    const proofs: any[] = [];
    for (const s of o.ops) {
      let r: any;
      try {
        switch (s[0]) {
          case "insert": t.insert(big(s[1])); r = true; break;
          case "delete": t.delete(s[1]); r = true; break;
          case "root": r = str(t.root()); break;
          case "leaves": {
            const l = t.leaves();
            r = str(l);
            if (s[1]) l.push(BigInt(7));
            break;
          }
          case "depth": r = t.depth; break;
          case "indexOf": r = t.indexOf(big(s[1])); break;
          case "prove": {
            const p = t.createProof(s[1]);
            proofs.push(p);
            r = { root: str(p.root), siblings: str(p.siblings), pathIndices: p.pathIndices };
            break;
          }
          case "verify": {
            // the s[1]-th proof, possibly altered, for a leaf
            const p = proofs[s[1]];
            const q = {
              root: p.root,
              siblings: p.siblings.map((x: any) => x.slice()),
              pathIndices: p.pathIndices.slice()
            };
            const a = s[3];
            if (a) {
              if (a[0] === "root") q.root = big(a[1]);
              if (a[0] === "sibling") q.siblings[a[1]] = [big(a[2])];
              if (a[0] === "path") q.pathIndices[a[1]] = a[2];
              if (a[0] === "cut") { q.siblings = q.siblings.slice(0, a[1]); q.pathIndices = q.pathIndices.slice(0, a[1]); }
            }
            const before = JSON.stringify([str(q.root), str(q.siblings), q.pathIndices]);
            const ok = t.verifyProof(q, big(s[2]));
            r = { ok, same: before === JSON.stringify([str(q.root), str(q.siblings), q.pathIndices]), proof: JSON.parse(before) };
            break;
          }
        }
      } catch (e: any) {
        r = { error: String(e && e.message) };
      }
      res.push(r);
    }
    return res;
  }
};
const alter = (b: Uint8Array, how: any[]): Uint8Array => {
  let a = new Uint8Array(b);
  for (const h of how) {
    const at = (x: number) => (x < 0 ? a.length + x : x) % Math.max(1, a.length);
    if (h[0] === "xor") a[at(h[1])] ^= h[2];
    if (h[0] === "set") a.set(buf(h[2]).subarray(0, Math.max(0, a.length - at(h[1]))), at(h[1]));
    if (h[0] === "cut") a = a.slice(0, Math.max(0, a.length - h[1]));
    if (h[0] === "append") { const n = new Uint8Array(a.length + h[1].length / 2); n.set(a); n.set(buf(h[1]), a.length); a = n; }
    if (h[0] === "all") a = new Uint8Array(buf(h[1]));
    if (h[0] === "swap") { const x = a.slice(at(h[1]), at(h[1]) + h[3]); const y = a.slice(at(h[2]), at(h[2]) + h[3]); a.set(y, at(h[1])); a.set(x, at(h[2])); }
  }
  return a;
};
const known: any[] = [];
const byStep: any = {};
const session = async (o: any, emit: (x: any) => void) => {
  const tree = new lib.Tree(o.depth, poseidon);
  for (const m of o.members) tree.insert(o.kind === "pubkey" ? poseidon.hashPubKey(buf(m)) : big(m));
  for (const d of o.deleted) tree.delete(d);
  const prover = new lib.MembershipProver({
    circuit: o.circuit, witnessGenWasm: o.witness, enableProfiler: o.profiler, useRemoteCircuit: o.remote
  });
  const verifier = new lib.MembershipVerifier({ circuit: o.vcircuit, enableProfiler: o.profiler, useRemoteCircuit: o.remote });
  await prover.initWasm();
  await verifier.initWasm();
  const run = async (v: any, i: number) => {
    const from = known[v.by !== undefined ? byStep[v.by] : v.of === undefined ? known.length - 1 : v.of];
    if (!from) return emit({ step: i, skipped: true });
    const proof = alter(from.proof, v.proof);
    const ser = alter(from.ser, v.ser);
    let result: any = null, error: any = null;
    host.fault = v.fault || null;
    const ver = v.verifier
      ? new lib.MembershipVerifier({ circuit: v.verifier.circuit, enableProfiler: false, useRemoteCircuit: v.verifier.remote })
      : verifier;
    const [p0, s0] = [hex(proof), hex(ser)];
    try {
      result = await ver.verify({ proof, publicInputSer: ser });
    } catch (e: any) {
      error = String(e && e.message).slice(0, 200);
    } finally {
      host.fault = null;
    }
    emit({
      step: i, of: v.of === undefined ? known.length - 1 : v.of, result: result === null ? null : str(result), type: typeof result, truthy: !!result, error,
      proofSame: p0 === hex(from.proof), proof: p0 === hex(from.proof) ? null : p0, ser: s0, serSame: s0 === hex(from.ser),
      untouched: p0 === hex(proof) && s0 === hex(ser)
    });
  };
  const prove = async (p: any, i: number) => {
    let ev: any = { step: i, known: null };
    try {
      const msgHash = buf(p.m);
      const merkleProof: any = tree.createProof(p.index);
      if (p.root) merkleProof.root = big(p.root);
      const n = await prover.prove({ sig: p.sig, msgHash, merkleProof });
      const ser = n.publicInput.serialize();
      ev = { step: i, known: known.length, proof: hex(n.proof), ser: hex(ser), pub: pubFields(n.publicInput), after: hex(msgHash), root: str(tree.root()) };
      byStep[i] = known.length;
      known.push({ proof: new Uint8Array(n.proof), ser: new Uint8Array(ser) });
    } catch (e: any) {
      ev.error = String(e && (e.message || e)).slice(0, 300);
    }
    emit(ev);
  };
  for (let i = 0; i < o.steps.length; i++) {
    const st = o.steps[i];
    if (st[0] === "prove") {
      await prove(st[1], i);
    } else if (st[0] === "prove-together") {
      // several at once by one prover
      await Promise.all(st[1].map((v: any, j: number) => prove(v, i * 1000 + j)));
    } else if (st[0] === "verify") {
      await run(st[1], i);
    } else if (st[0] === "together") {
      // several at once on one verifier
      await Promise.all(st[1].map((v: any, j: number) => run(v, i * 1000 + j)));
    }
  }
};
const main = async () => {
  const fd = fs.openSync(process.env.VERIF_OUT as string, "w");
  await poseidon.initWasm();
  const lines = fs.readFileSync(process.env.VERIF_WORK as string, "utf8").split("\n").filter(x => x);
  for (let i = 0; i < lines.length; i++) {
    const o = JSON.parse(lines[i]);
    const put = (x: any) => fs.writeSync(fd, JSON.stringify({ id: i, ...x }) + "\n");
    try {
      if (o.op === "session") {
        await session(o, ev => put({ ev }));
        put({ done: true });
      } else put({ ok: ops[o.op](o) });
    } catch (e: any) {
      put({ error: String(e && (e.message || e)).slice(0, 300) });
    }
  }
  fs.writeSync(fd, JSON.stringify({ end: true, calls: host.calls, grown: host.grown, sp: host.sp }) + "\n");
};
main().then(() => process.exit(0), e => {
  process.stderr.write(String(e && e.stack) + "\n");
  process.exit(3);
});
