// Seeded random numbers (splitmix-seeded sfc32). All randomness of the machinery goes through this.
export class Rng {
  constructor(seed) {
    let h = 1779033703 ^ String(seed).length;
    for (const c of String(seed)) {
      h = Math.imul(h ^ c.codePointAt(0), 3432918353);
      h = (h << 13) | (h >>> 19);
    }
    const next = () => {
      h = Math.imul(h ^ (h >>> 16), 2246822507);
      h = Math.imul(h ^ (h >>> 13), 3266489909);
      return (h ^= h >>> 16) >>> 0;
    };
    this.a = next(); this.b = next(); this.c = next(); this.d = 1;
    for (let i = 0; i < 12; i++) this.u32();
  }
  u32() {
    const t = (((this.a + this.b) | 0) + this.d) | 0;
    this.d = (this.d + 1) | 0;
    this.a = this.b ^ (this.b >>> 9);
    this.b = (this.c + (this.c << 3)) | 0;
    this.c = (this.c << 21) | (this.c >>> 11);
    this.c = (this.c + t) | 0;
    return t >>> 0;
  }
  f() { return this.u32() / 4294967296; }
  /** integer in [0, n) */
  n(n) { return Math.floor(this.f() * n); }
  /** integer in [lo, hi] */
  r(lo, hi) { return lo + this.n(hi - lo + 1); }
  p(p) { return this.f() < p; }
  pick(a) { return a[this.n(a.length)]; }
  shuffle(a) {
    a = [...a];
    for (let i = a.length - 1; i > 0; i--) { const j = this.n(i + 1); [a[i], a[j]] = [a[j], a[i]]; }
    return a;
  }
  sample(a, k) { return this.shuffle(a).slice(0, k); }
  sub(tag) { return new Rng(`${this.u32()}:${tag}`); }
}
