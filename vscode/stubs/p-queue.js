// p-queue's contract: at most `concurrency` functions run at a time, in order of `add`.
class PQueue {
  constructor(o = {}) { this.max = o.concurrency ?? Infinity; this.q = []; this.running = 0; }
  get size() { return this.q.length; }
  get pending() { return this.running; }
  add(fn) {
    return new Promise((ok, no) => { this.q.push({ fn, ok, no }); this.pump(); });
  }
  pump() {
    while (this.running < this.max && this.q.length) {
      const j = this.q.shift();
      this.running++;
      Promise.resolve().then(j.fn).then(j.ok, j.no).finally(() => { this.running--; this.pump(); });
    }
  }
  async onIdle() { while (this.running || this.q.length) await new Promise((r) => setTimeout(r, 1)); }
}
module.exports = PQueue;
module.exports.default = PQueue;
