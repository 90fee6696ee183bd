// Runs generated component scripts: one JSON string per line in, one JSON line out.
const vm = require('vm'), rl = require('readline').createInterface({input: process.stdin});
const log = [];
const comp = (n, more) => Object.assign(() => n, {$c: n}, more);
const dump = v => {
  if (v === null || v === true || v === false || typeof v === 'string') return v;
  if (typeof v === 'number') return Number.isFinite(v) ? v : {$n: {'Infinity': 'inf', '-Infinity': '-inf', 'NaN': 'nan'}[String(v)]};
  if (Array.isArray(v)) return v.map(dump);
  if (v && v.$raw) return v;
  if (v && v.$e) {
    const [t, p, ...k] = v.$e;
    return {$el: typeof t === 'string' ? t : t.$c, $tag: typeof t === 'string', $p: p == null ? {} : dump(p).$o, $k: k.map(dump)};
  }
  if (v && typeof v === 'object') return {$o: Object.fromEntries(Object.entries(v).map(([a, b]) => [a, dump(b)]))};
  return {$bad: String(v)};
};
const sort = v => Array.isArray(v) ? v.map(sort) : v && typeof v === 'object'
  ? Object.fromEntries(Object.keys(v).sort().map(k => [k, sort(v[k])])) : v;
class DocumentFragment {}
const ctx = vm.createContext({
  DocumentFragment, raw: n => ({$raw: `raw(${n})`}),
  React: {createElement: (...a) => ({$e: a})},
  ReactDOM: {render: (e, c) => log.push(['render', dump(e), c instanceof DocumentFragment])},
  document: {querySelector: q => ({after: c => log.push(['after', c instanceof DocumentFragment]), removeAttribute: a => log.push(['remove', a])})},
  Foo: comp('Foo', {Bar: comp('Foo.Bar')}), Bar: comp('Bar'), Baz: comp('Baz'),
  ns: {Sub: {Qux: comp('ns.Sub.Qux')}},
});
rl.on('line', line => {
  log.length = 0;
  let r;
  try {
    vm.runInContext(JSON.parse(line), ctx);
    r = sort(log);
  } catch (e) { r = {error: String(e)}; }
  process.stdout.write(JSON.stringify(r) + '\n');
});
