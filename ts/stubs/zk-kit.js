"use strict";
// Stand-in for @zk-kit/incremental-merkle-tree 1.0.0.
const type = (v, n, ...t) => {
  if (!t.includes(typeof v)) throw new TypeError(`Parameter '${n}' is none of these types: ${t.join(", ")}`);
};
class IncrementalMerkleTree {
  constructor(hash, depth, zeroValue, arity = 2) {
    type(hash, "hash", "function");
    type(depth, "depth", "number");
    type(zeroValue, "zeroValue", "number", "string", "bigint");
    type(arity, "arity", "number");
    if (depth < 1 || depth > 32) throw new Error("The tree depth must be between 1 and 32");
    this._hash = hash;
    this._depth = depth;
    this._zeroes = [];
    this._nodes = [];
    this._arity = arity;
    for (let i = 0; i < depth; i += 1) {
      this._zeroes.push(zeroValue);
      this._nodes[i] = [];
      zeroValue = hash(Array(arity).fill(zeroValue));
    }
    Object.freeze(this._zeroes);
    this._root = zeroValue;
  }
  get root() {
    return this._root;
  }
  get depth() {
    return this._depth;
  }
  get leaves() {
    return this._nodes[0].slice();
  }
  get zeroes() {
    return this._zeroes;
  }
  get arity() {
    return this._arity;
  }
  indexOf(leaf) {
    type(leaf, "leaf", "number", "string", "bigint");
    return this._nodes[0].indexOf(leaf);
  }
  _climb(index, node) {
    for (let level = 0; level < this._depth; level += 1) {
      const start = index - (index % this._arity);
      const children = [];
      this._nodes[level][index] = node;
      for (let i = start; i < start + this._arity; i += 1)
        children.push(i < this._nodes[level].length ? this._nodes[level][i] : this._zeroes[level]);
      node = this._hash(children);
      index = Math.floor(index / this._arity);
    }
    this._root = node;
  }
  insert(leaf) {
    type(leaf, "leaf", "number", "string", "bigint");
    if (this._nodes[0].length >= this._arity ** this._depth) throw new Error("The tree is full");
    this._climb(this._nodes[0].length, leaf);
  }
  update(index, leaf) {
    type(index, "index", "number");
    if (index < 0 || index >= this._nodes[0].length) throw new Error("The leaf does not exist in this tree");
    this._climb(index, leaf);
  }
  delete(index) {
    this.update(index, this._zeroes[0]);
  }
  createProof(index) {
    type(index, "index", "number");
    if (index < 0 || index >= this._nodes[0].length) throw new Error("The leaf does not exist in this tree");
    const siblings = [];
    const pathIndices = [];
    const leafIndex = index;
    for (let level = 0; level < this._depth; level += 1) {
      const position = index % this._arity;
      const start = index - position;
      pathIndices[level] = position;
      siblings[level] = [];
      for (let i = start; i < start + this._arity; i += 1) {
        if (i === index) continue;
        siblings[level].push(i < this._nodes[level].length ? this._nodes[level][i] : this._zeroes[level]);
      }
      index = Math.floor(index / this._arity);
    }
    return { root: this._root, leaf: this._nodes[0][leafIndex], pathIndices, siblings };
  }
  verifyProof(proof) {
    type(proof, "proof", "object");
    let node = proof.leaf;
    for (let i = 0; i < proof.siblings.length; i += 1) {
      const children = proof.siblings[i].slice();
      children.splice(proof.pathIndices[i], 0, node);
      node = this._hash(children);
    }
    return proof.root === node;
  }
}
module.exports = { IncrementalMerkleTree };
