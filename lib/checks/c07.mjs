// Twins with and without documentation: comments attached to both exports, code outside of comments identical.
import { Rng } from "../rng.mjs";
import { Gen } from "../corpus.mjs";
import { Program, ts } from "../types.mjs";
import { computeDepths, declFields } from "../spec.mjs";
import { rounds } from "./common.mjs";
import { Inconclusive, head } from "../util.mjs";

export const rule = "a case is one exported type (documented or not) of one program; distinct by (documentation, exported text)";

export default async function (report, conf) {
  report.info.programs = 2 * await rounds(conf, 420, (seed) => round(report, conf, seed), 3);
}

const SNIPPETS = ["*/", "**/", "/*", "/**", "//", "*/ export const evil = 1; /*", "*/*/", "* /", "*", "/", "\\", "\\*/", "\\n", "\"", "'", "`", "${x}", "`${1}`", "{", "}", "{{}}", "}}", "{0}", "%s", "<b>", "</script>", "@param x", "@deprecated", "#", "ünï", "漢字", "😀", "\u2028", "\u2029", "\u00a0", "\t", "z.object({})", "export type X = 1;", "Hello World", "a", "b c", "1", "r#\"x\"#", "\u200f", "\u0000", "\u007f", "*\u2028/", "*\\/", "|", "-", "\u00e9", "e\u0301", "//*/", "'use strict'", "]]>", "?>", "--", "\u0001"];
function line(rng) {
  if (rng.p(0.08)) return "";
  return Array.from({ length: rng.r(1, 4) }, () => rng.pick(SNIPPETS)).join(rng.pick(["", " ", "  "]));
}
/** [{form, text}]: the ways to write documentation in Rust */
function docs(rng) {
  const w = rng.f();
  if (w < 0.2) return [];
  const out = [];
  // paragraphs of several lines, with empty lines before, between and behind them
  if (w < 0.4) {
    const form = rng.pick(["line", "attr", "mixed"]);
    for (let k = rng.r(2, 6); k > 0; k--) {
      for (let j = rng.r(0, 3); j > 0; j--) out.push({ form: form === "mixed" ? rng.pick(["line", "attr"]) : form, text: rng.p(0.7) ? "" : " " });
      for (let j = rng.r(1, 3); j > 0; j--) out.push({ form: form === "mixed" ? rng.pick(["line", "attr"]) : form, text: `${rng.pick(["# ", "- ", "* ", "", "1. ", "    "])}paragraph ${k} line ${j} ${rng.pick(["*text*", "[link](x)", "`code`", ""])}` });
    }
    if (rng.p(0.3)) out.push({ form: "attr", text: "" });
    return out;
  }
  for (let i = rng.r(1, 5); i > 0; i--) {
    const form = rng.pick(["line", "line", "attr", "attr", "multi", "block", "raw", "other"]);
    if (form === "multi") out.push({ form: "attr", text: Array.from({ length: rng.r(1, 4) }, () => line(rng)).join(rng.p(0.8) ? "\n" : "\r\n") });
    // attributes that are no documentation
    else if (form === "other") out.push({ form, text: rng.pick(["doc(hidden)", 'doc(alias = "another_name")', "allow(unused)", 'cfg_attr(any(), doc = "never")', 'cfg_attr(all(), allow(unused))']) });
    else if (form === "raw") out.push({ form, text: Array.from({ length: rng.r(1, 3) }, () => line(rng)).join("\n").replace(/[\r\0]/g, "").replace(/[\u202a-\u202e\u2066-\u2069\u200f]/g, "") });
    else if (form === "attr") out.push({ form, text: line(rng) });
    // text that can be written as a Rust comment
    else if (form === "line") out.push({ form, text: line(rng).replace(/[\r\n\0]/g, "").replace(/[\u202a-\u202e\u2066-\u2069\u200f]/g, "") });
    else out.push({ form, text: line(rng).replace(/\*\/|\/\*|[\r\0]/g, "").replace(/[*/]/g, "x").replace(/\u200f/g, "") });
  }
  return out;
}
/** the lines that have to be found, in order */
function linesOf(ds) {
  return ds.filter((d) => d.form !== "other").flatMap((d) => d.text.split(/\r?\n/)).map((s) => s.trim()).filter((s) => s !== "");
}
/** neighbouring lines between which the documentation has an empty line (white space around an attribute is not kept) */
function paragraphs(ds) {
  const lines = ds.filter((d) => d.form !== "other").flatMap((d) => d.text.trim().split(/\r?\n/)).map((s) => s.trim());
  const out = [];
  let last = null, blank = false;
  for (const l of lines) {
    if (l === "") { blank = true; continue; }
    if (last !== null && blank) out.push([last, l]);
    last = l; blank = false;
  }
  return out;
}
/** compare ignoring white space and what is needed to keep the comment open */
const norm = (s) => s.replace(/[\s\u0085]+/gu, "").replace(/\\/g, "");

function comments(sf, text, node) {
  return (ts.getLeadingCommentRanges(text, node.getFullStart()) ?? []).map((r) => text.slice(r.pos, r.end));
}
/** tokens of the code outside of comments */
function tokens(text) {
  const sc = ts.createScanner(ts.ScriptTarget.ES2022, true, ts.LanguageVariant.Standard, text);
  const out = [];
  // template and regex literals do not occur in generated code outside of strings, except in the fixed part
  for (let t = sc.scan(); t !== ts.SyntaxKind.EndOfFileToken; t = sc.scan()) out.push(sc.getTokenText());
  return out;
}
/** {"Ns.name": {const|type: {comments, tokens}}} and the rest as tokens */
function view(code) {
  const sf = ts.createSourceFile("/api.ts", code, ts.ScriptTarget.ES2022, true);
  const out = new Map(), all = new Map();
  const errs = sf.parseDiagnostics ?? [];
  const ns = (m) => {
    const body = m.body && ts.isModuleBlock(m.body) ? m.body.statements : [];
    for (const s of body) {
      const names = ts.isVariableStatement(s) ? s.declarationList.declarations.map((d) => ["const", d.name.getText(sf)]) : ts.isInterfaceDeclaration(s) || ts.isTypeAliasDeclaration(s) ? [["type", s.name.text]] : ts.isFunctionDeclaration(s) ? [["function", s.name.text]] : [["other", s.getText(sf).slice(0, 60)]];
      for (const [kind, nm] of names) out.set(`${m.name.text}.${nm} ${kind}`, { comments: comments(sf, code, s), text: s.getText(sf) });
    }
    all.set(m.name.text, tokens(m.getText(sf)));
  };
  let prelude = "";
  for (const s of sf.statements) if (ts.isModuleDeclaration(s)) ns(s); else prelude += s.getText(sf) + "\n";
  return { errs, out, all, prelude };
}

async function round(report, conf, seed) {
  const rng = new Rng(`c07:${seed}`);
  const build = (documented) => {
    // the same declarations twice; documentation comes from its own source of randomness
    const g = new Gen(new Rng(`c07:decls:${seed}`));
    g.namespace("Alpha"); g.namespace("Beta", "beta_ns");
    const n = conf.tier === "thorough" ? 140 : 90;
    for (let i = 0; i < n; i++) g.any({ asym: i % 3 === 0 });
    g.recursive(6);
    for (let i = 0; i < 12; i++) g.method(g.namespaces[i % 2]);
    computeDepths(g.decls);
    const dr = new Rng(`c07:docs:${seed}`);
    if (documented) {
      for (const d of g.decls) {
        d.docs = docs(dr);
        if (dr.p(0.3)) d.trailingDocs = docs(dr);
        const inner = () => docs(dr).filter((x) => x.form === "attr").map((x) => `#[doc = ${rustText(x.text)}] `).join("");
        if (!d.from) {
          for (const f of declFields(d)) if (dr.p(0.3)) f.doc = inner();
          for (const v of d.variants ?? []) if (dr.p(0.3)) v.doc = inner();
        }
      }
      for (const ns of g.namespaces) { ns.docs = docs(dr).filter((d) => d.form === "attr"); for (const m of ns.methods) m.docs = docs(dr); }
    }
    const name = documented ? "c07" : "c07p";
    return [g, Program.build(name, name, g, { what: documented ? "documented types" : "types without documentation" })];
  };
  const [g, p] = build(true);
  const [, q] = build(false);
  const a = view(p.generate()), b = view(q.generate());
  for (const d of a.errs) report.violation(`the documented module is not valid TypeScript: ${ts.flattenDiagnosticMessageText(d.messageText, "\n")}`, { source: p.code.slice(Math.max(0, d.start - 300), d.start + 200) });
  if (b.errs.length) report.violation("the undocumented module is not valid TypeScript", { error: b.errs[0].messageText });
  if (a.prelude !== b.prelude) report.violation("documentation puts code outside of the namespaces", { code: head(a.prelude, 2000) });
  for (const [ns, toks] of b.all) {
    const have = sortedChunks(a, ns), want = sortedChunks(b, ns);
    report.eval(`code of ${ns} ${toks.length}`);
    report.count("tokens compared", toks.length);
    if (have !== want) { const i = firstDiff(have, want); report.violation(`documentation changes the code of namespace ${ns} at ...${want.slice(Math.max(0, i - 80), i + 80)}`, { documented: have.slice(Math.max(0, i - 200), i + 400) }); }
    if (!a.all.has(ns)) report.violation(`namespace ${ns} disappears`, {});
    else if (a.all.get(ns).length !== toks.length) report.violation(`documentation changes the number of tokens of namespace ${ns} from ${toks.length} to ${a.all.get(ns).length}`, {});
  }
  let lines = 0;
  for (const d of g.decls) {
    const docs = [...d.docs, ...(d.trailingDocs ?? [])];
    const want = linesOf(docs);
    lines += want.length;
    for (const [view, want_, who] of [[a, want, "documented"], [b, [], "undocumented"]]) {
      for (const kind of ["const", "type"]) {
        const key = `${d.ns.exported}.${d.exp} ${kind}`;
        const e = view.out.get(key);
        report.eval(`${kind} ${want_.join("|")} ${d.exp}`);
        report.count(want_.length ? "documented exports" : "exports without documentation");
        if (!e) { report.violation(`${key} is missing in the ${who} module`, { docs }); continue; }
        if (!want_.length) {
          if (e.comments.some((c) => norm(c).replace(/[/*]/g, "") !== "")) report.violation(`${key} has no documentation, but a comment: ${head(e.comments.join(), 200)}`, {});
          continue;
        }
        const have = e.comments.join("\n").split(/\r?\n/).map(norm);
        const text = have.join("");
        let at = 0, pos = 0;
        for (const l of want_) {
          const x = norm(l);
          let i = have[at]?.indexOf(x, pos) ?? -1;
          while (i < 0 && ++at < have.length) i = have[at].indexOf(x);
          if (i < 0) { report.violation(`${key}: the line ${JSON.stringify(l)} of the documentation is not in the comment (in order)`, { comment: e.comments, docs }); break; }
          pos = i + x.length;
        }
        for (const [p, q] of paragraphs(docs)) {
          const where = (l) => have.flatMap((h, i) => (h.includes(norm(l)) ? [i] : []));
          const [x, y] = [where(p), where(q)];
          if (Math.min(norm(p).length, norm(q).length) < 3 || x.length !== 1 || y.length !== 1 || x[0] > y[0]) continue;
          report.count("paragraphs");
          if (!have.slice(x[0] + 1, y[0]).some((h) => h === "" || h === "*")) { report.violation(`${key}: the empty line between ${JSON.stringify(p)} and ${JSON.stringify(q)} is lost`, { comment: e.comments, docs }); break; }
        }
        // nothing else of the program is presented as its documentation
        const extra = text.length - norm(want_.join("")).length;
        if (extra > 8 + want_.length * 2 + 4 * docs.reduce((x, y) => x + y.text.split("\n").length, 0)) report.violation(`${key}: the comment contains more than the documentation`, { comment: e.comments, docs });
      }
    }
    if (report.samples.length < 5 && want.length > 1) report.sample({ type: d.exp, docs: want, comment: a.out.get(`${d.ns.exported}.${d.exp} type`)?.comments });
  }
  report.count("documentation lines", lines);
  if (lines < 50) throw new Inconclusive("too little documentation");
}
const rustText = (s) => `"${[...s].map((c) => (c === "\\" || c === '"' ? `\\${c}` : c === "\n" ? "\\n" : c === "\r" ? "\\r" : c < " " || c === "\u007f" ? `\\u{${c.codePointAt(0).toString(16)}}` : c)).join("")}"`;
/** the order of the exports is no part of the property */
function sortedChunks(v, ns) {
  return [...v.out].filter(([k]) => k.startsWith(`${ns}.`)).sort(([x], [y]) => (x < y ? -1 : 1)).map(([k, e]) => `${k}: ${tokens(e.text).join(" ")}`).join("\n");
}
function firstDiff(a, b) { let i = 0; while (i < a.length && a[i] === b[i]) i++; return i; }
