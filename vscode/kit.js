// The JavaScript side of the shared runtime: seeded randomness, known findings, replays, evidence.
const fs = require("fs"), path = require("path");
class Rng {
  constructor(seed) { this.s = BigInt.asUintN(64, BigInt(seed) ^ 0x9e3779b97f4a7c15n); this.next(); }
  next() {
    this.s = BigInt.asUintN(64, this.s + 0x9e3779b97f4a7c15n);
    let z = this.s;
    z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n);
    z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94d049bb133111ebn);
    return Number((z ^ (z >> 31n)) & 0x1fffffffffffffn);
  }
  below(n) { return this.next() % n; }
  range(a, b) { return a + this.below(b - a + 1); }
  chance(a, b) { return this.below(b) < a; }
  pick(xs) { return xs[this.below(xs.length)]; }
}
class Ctx {
  constructor(prop) {
    this.prop = prop;
    this.verif = process.env.VERIF_DIR || "/verif";
    this.seed = parseInt(process.env.VERIF_SEED || "1") || 1;
    this.tier = process.env.VERIF_TIER === "thorough" ? "thorough" : "quick";
    this.budget = parseFloat(process.env.VERIF_BUDGET_S || (this.tier === "quick" ? "5" : "120")) * 1000;
    this.t0 = Date.now();
    let h = 7; for (const c of prop) h = (h * 31 + c.charCodeAt(0)) >>> 0;
    this.rng = new Rng(this.seed * 1000003 + h);
    this.evaluations = 0; this.distinct = new Set(); this.buckets = {}; this.samples = []; this.kinds = new Set();
    this.violations = []; this.rule = ""; this.assumptions = []; this.knownSeen = new Set();
    try { this.known = JSON.parse(fs.readFileSync(path.join(this.verif, "known_findings.json"), "utf8")).known.filter((k) => k.property === prop); } catch { this.known = []; }
  }
  timeLeft() { return this.violations.length < 20 && Date.now() - this.t0 < this.budget; }
  count(cls, ident, nontrivial = true) {
    this.evaluations++;
    this.buckets[cls] = (this.buckets[cls] || 0) + 1;
    if (nontrivial && this.distinct.size < 500000) this.distinct.add(typeof ident === "string" ? ident : JSON.stringify(ident));
  }
  sample(kind, v) { if (this.samples.length < 20 && !this.kinds.has(kind)) { this.kinds.add(kind); this.samples.push({ kind, case: v() }); } }
  fail(key, what, replay) {
    const k = this.known.find((k) => k.key === key);
    if (k) { if (!this.knownSeen.has(key)) { this.knownSeen.add(key); console.log(`KNOWN-FINDING: property=${this.prop} ${k.what} [${key}]`); } return; }
    if (this.violations.some((v) => v.key === key) || this.violations.length >= 20) return;
    const dir = path.join(this.verif, "replays");
    fs.mkdirSync(dir, { recursive: true });
    const p = path.join(dir, `${this.prop}-${this.violations.length}-${this.seed}.json`);
    fs.writeFileSync(p, JSON.stringify({ property: this.prop, seed: this.seed, key, what, case: replay }, null, 1));
    console.log("violated: " + what.slice(0, 1500));
    this.violations.push({ key, path: p });
  }
  finish() {
    const dir = path.join(this.verif, "evidence");
    fs.mkdirSync(dir, { recursive: true });
    const ev = {
      property: this.prop, tier: this.tier, seed: this.seed, level: "exploration",
      coverage: { evaluations: this.evaluations, distinct_nontrivial: this.distinct.size, rule: this.rule, samples: this.samples, observed: this.buckets },
      assumptions: this.assumptions, known_findings_seen: [...this.knownSeen], wall_s: (Date.now() - this.t0) / 1000, violations: this.violations.length,
    };
    let text = JSON.stringify(ev, null, 1);
    if (text.length > 60000) { ev.coverage.samples = ev.coverage.samples.slice(0, 3); text = JSON.stringify(ev, null, 1); }
    fs.writeFileSync(path.join(dir, this.prop + ".json"), text);
    console.log(`${this.prop}: ${this.evaluations} evaluations, ${this.distinct.size} distinct non-trivial`);
    for (const v of this.violations) console.log(`VIOLATION property=${this.prop} replay=${v.path}`);
    process.exit(this.violations.length ? 1 : 0);
  }
}
module.exports = { Rng, Ctx };
