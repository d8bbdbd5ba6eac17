// bundle.mjs OUT: the library's TypeScript as it is, with its third-party packages stood in for
import { createRequire } from "module";
import path from "path";
import { fileURLToPath } from "url";
const req = createRequire("/opt/veriftools/node/node_modules/");
const esbuild = req("esbuild");
const here = path.dirname(fileURLToPath(import.meta.url));
const src = process.env.VERIF_LIB || "/repo/packages/lib/src";
const stub = n => path.join(here, "stubs", n);
const packages = {
  elliptic: "elliptic.js", "bn.js": "bn.js", "@ethereumjs/util": "ethereumjs-util.js",
  "@zk-kit/incremental-merkle-tree": "zk-kit.js", snarkjs: "snarkjs.js"
};
await esbuild.build({
  entryPoints: [path.join(here, "driver.ts")], outfile: process.argv[2], bundle: true, platform: "node", format: "cjs",
  target: "node20", logLevel: "error",
  tsconfigRaw: { compilerOptions: { target: "es2020", strict: true } },
  plugins: [{
    name: "standins",
    setup(b) {
      b.onResolve({ filter: /^@src(\/|$)/ }, a => b.resolve("./" + (a.path.slice(5) || "index"), { resolveDir: src, kind: a.kind, importer: a.importer }));
      b.onResolve({ filter: /\/wasmBytes(\.js)?$/ }, () => ({ path: stub("wasmBytes.js") }));
      for (const [k, v] of Object.entries(packages))
        b.onResolve({ filter: new RegExp("^" + k.replace(/[.\/]/g, "\\$&") + "$") }, () => ({ path: stub(v) }));
    }
  }]
});
