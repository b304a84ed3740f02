// A browser of the small part of the DOM and of jQuery that the pages of cshogi.web use. Reads one JSON command per
// line and answers with one line: what the page shows and what it asked for. Anything it does not know of throws
// UNSUPPORTED, which the checks do not judge.
const fs = require('fs'), vm = require('vm');
const boardSrc = fs.readFileSync(process.argv[2], 'utf8').replace(/^\uFEFF/, '');

let st;

function guard(o, what) {
  return new Proxy(o, {
    get(t, k) {
      if (k in t || typeof k === 'symbol' || k === 'then' || k === 'toJSON') return t[k];
      if (/^\d+$/.test(k)) return undefined;
      throw new Error('UNSUPPORTED ' + what + '.' + String(k));
    }
  });
}

function parse(html) {
  const out = [];
  for (const m of html.matchAll(/<(use|rect|text|tr)\b([^>]*?)\/?>/g)) {
    const at = {};
    for (const a of m[2].matchAll(/([\w:-]+)="([^"]*)"/g)) at[a[1]] = a[2];
    out.push(el(m[1], at));
  }
  return out;
}

function ctx2d() {
  return new Proxy({}, { get: (t, k) => k in t ? t[k] : () => undefined, set: (t, k, v) => { t[k] = v; return true; } });
}

function el(tag, at) {
  const e = {
    tagName: tag, at, style: {}, cls: new Set(), content: '', kids: null, value: '', props: {}, on: {}, top: 0, parent: null,
    get id() { return at.id || ''; },
    getAttribute(k) { return k in at ? at[k] : null; },
    hasAttribute(k) { return k in at; },
    setAttribute(k, v) { at[k] = String(v); },
    addEventListener(t, f) { (this.on[t] = this.on[t] || []).includes(f) || this.on[t].push(f); },
    removeEventListener(t, f) { this.on[t] = (this.on[t] || []).filter(g => g !== f); },
    getContext() { return ctx2d(); },
    get innerHTML() { return this.content; },
    set innerHTML(h) { this.content = String(h); this.kids = parse(this.content); for (const k of this.kids) k.parent = this; },
    fire(t, ev) { for (const f of (this.on[t] || []).slice()) f.call(this, ev || { type: t, target: this, preventDefault() {} }); },
  };
  return guard(e, 'element');
}

function byId(id) {
  if (!(id in st.els)) st.els[id] = el(id === 'eval-graph' ? 'canvas' : 'div', { id });
  return st.els[id];
}

function find(sel) {
  let m;
  if ((m = /^#([\w-]+)$/.exec(sel))) return [byId(m[1])];
  if ((m = /^#(table-moves|moves) (?:> )?tr$/.exec(sel))) return (byId('table-moves').kids || []).filter(e => e.tagName === 'tr');
  throw new Error('UNSUPPORTED selector ' + sel);
}

function wrap(list) {
  const o = { length: list.length };
  list.forEach((e, i) => { o[i] = e; });
  const each = f => { list.forEach(f); return w; };
  const handler = t => function (f) {
    if (typeof f === 'function') return each(e => e.addEventListener(t, f));
    return each(e => e.fire(t));
  };
  Object.assign(o, {
    html(h) { if (h === undefined) return list[0].innerHTML; return each(e => { e.innerHTML = h; }); },
    text(t) { if (t === undefined) return list[0].innerHTML.replace(/<[^>]*>/g, ''); return each(e => { e.innerHTML = String(t).replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;'); }); },
    empty() { return each(e => { e.innerHTML = ''; }); },
    append(h) { if (typeof h !== 'string') throw new Error('UNSUPPORTED append'); return each(e => { e.innerHTML = e.innerHTML + h; }); },
    eq(i) { return wrap(i < list.length ? [list[i]] : []); },
    get(i) { return list[i]; },
    first() { return wrap(list.slice(0, 1)); },
    last() { return wrap(list.slice(-1)); },
    each(f) { return each((e, i) => f.call(e, i, e)); },
    addClass(c) { return each(e => c.split(' ').forEach(x => e.cls.add(x))); },
    removeClass(c) { return each(e => c.split(' ').forEach(x => e.cls.delete(x))); },
    toggleClass(c, v) { return each(e => (v === undefined ? !e.cls.has(c) : v) ? e.cls.add(c) : e.cls.delete(c)); },
    hasClass(c) { return list.some(e => e.cls.has(c)); },
    show() { return w; }, hide() { return w; }, css() { return w; },
    height() { return list.length ? 20 : undefined; },
    scrollTop(v) { if (v === undefined) return list[0].top; return each(e => { e.top = v; }); },
    val(v) { if (v === undefined) return list[0].value; return each(e => { e.value = String(v); }); },
    attr(k, v) { if (v === undefined) return list[0].getAttribute(k); return each(e => e.setAttribute(k, v)); },
    prop(k, v) { if (v === undefined) return list[0].props[k]; return each(e => { e.props[k] = v; }); },
    is(s) { if (s === ':checked') return !!list[0].props.checked; throw new Error('UNSUPPORTED is'); },
    index() { return list[0].parent ? list[0].parent.kids.indexOf(list[0]) : 0; },
    find(s) { return wrap(find('#' + list[0].id + ' ' + s)); },
    click: handler('click'), change: handler('change'), mousedown: handler('mousedown'),
    on(t, f) { if (typeof f !== 'function') throw new Error('UNSUPPORTED on'); return each(e => e.addEventListener(t, f)); },
    off(t, f) { if (typeof f !== 'function') throw new Error('UNSUPPORTED off'); return each(e => e.removeEventListener(t, f)); },
    trigger(t) { return each(e => e.fire(t)); },
  });
  const w = guard(o, 'jQuery');
  return w;
}

function ajax(opt, more) {
  if (typeof opt === 'string') opt = Object.assign({ url: opt }, more);
  const rec = { url: opt.url, type: opt.type || opt.method || 'GET', data: opt.data || {}, done: opt.success ? [opt.success] : [] };
  st.asked.push(rec);
  const h = { done(f) { rec.done.push(f); return this; }, fail() { return this; }, always(f) { rec.done.push(f); return this; }, then(f) { rec.done.push(f); return this; } };
  return guard(h, 'jqXHR');
}

function jq(a) {
  if (typeof a === 'function') { st.ready.push(a); return; }
  if (typeof a === 'string') return wrap(find(a));
  if (a === st.document) return guard({ ready(f) { st.ready.push(f); } }, 'jQuery(document)');
  return wrap([a]);
}

function load(html) {
  st = { els: {}, ready: [], asked: [], confirms: [], timers: {}, n: 0, hit: null };
  byId('move-number').value = '0';
  const $ = Object.assign((...a) => jq(...a), {
    ajax,
    get(url, data, f) { if (typeof data === 'function') { f = data; data = {}; } const x = ajax({ url, data }); if (f) x.done(f); return x; },
    getJSON(url, data, f) { if (typeof data === 'function') { f = data; data = {}; } const x = ajax({ url, data }); if (f) x.done(f); return x; },
    confirm(o) { st.confirms.push(o); },
  });
  const gs = guard($, '$');
  st.document = guard({
    elementFromPoint() { return st.hit; },
    getElementById: byId,
    querySelector(s) { return find(s)[0] || null; },
    querySelectorAll: find,
    addEventListener(t, f) { if (t === 'DOMContentLoaded') st.ready.push(f); },
  }, 'document');
  const box = {
    $: gs, jQuery: gs, document: st.document, console: { log() { }, error() { }, warn() { } },
    setInterval(f, ms) { st.timers[++st.n] = { f }; return st.n; },
    clearInterval(i) { delete st.timers[i]; },
    setTimeout(f) { st.timers[++st.n] = { f, once: true }; return st.n; },
    clearTimeout(i) { delete st.timers[i]; },
  };
  box.window = box;
  const cx = vm.createContext(box);
  vm.runInContext(boardSrc, cx);
  st.cx = cx;
  for (const m of html.matchAll(/<script\b([^>]*)>([\s\S]*?)<\/script>/g))
    if (!/\bsrc=/.test(m[1])) vm.runInContext(m[2], cx);
  for (const f of st.ready) f();
}

function shown(q) {
  const asked = st.asked.filter(a => !a.told).map(a => { a.told = true; return { url: a.url, type: a.type, data: a.data }; });
  const h = id => byId(id).innerHTML;
  return {
    asked, confirms: st.confirms.length, timers: Object.keys(st.timers).length,
    names: h('names'), rows: q.rows ? h('table-moves') : null, board: h('board'), black: h('black-comment'), white: h('white-comment'),
    number: byId('move-number').value, active: (byId('table-moves').kids || []).map((e, i) => e.cls.has('table-active') ? i : -1).filter(i => i >= 0),
  };
}

function run(q) {
  if (q.do === 'vars') {
    const vars = {};
    for (const k of ['names', 'moves', 'isMatch', 'autoupdate', 'human'])
      vars[k] = vm.runInContext(`typeof ${k} === 'undefined' ? null : ${k}`, st.cx);
    return { vars };
  }
  switch (q.do) {
    case 'load': load(q.html); break;
    case 'click': byId(q.id).fire('click'); break;
    case 'row': byId('table-moves').kids[q.i].fire('click'); break;
    case 'type': byId('move-number').value = q.text; byId('move-number').fire('change'); break;
    case 'tick': for (const i of Object.keys(st.timers)) { const t = st.timers[i]; if (t) { if (t.once) delete st.timers[i]; t.f(); } } break;
    case 'reply': { const a = st.asked[st.asked.length - 1]; for (const f of a.done) f(q.data); break; }
    case 'press': {
      st.hit = (byId('board').kids || []).find(e => e.getAttribute('id') === q.id) || el('svg', {});
      byId('board').fire('mousedown', { type: 'mousedown', button: 0, clientX: 1, clientY: 1, shiftKey: !!q.shift, target: st.hit, preventDefault() { } });
      break;
    }
    case 'confirm': {
      const o = st.confirms.pop();
      for (const k of Object.keys(o.buttons)) {
        const b = o.buttons[k], text = b.text || k;
        if ((text === 'はい') === q.yes) { (typeof b === 'function' ? b : b.action).call(o); break; }
      }
      break;
    }
  }
  return shown(q);
}

let buf = '';
process.stdin.setEncoding('utf8');
process.stdin.on('data', d => {
  buf += d;
  let i;
  while ((i = buf.indexOf('\n')) >= 0) {
    const q = JSON.parse(buf.slice(0, i));
    buf = buf.slice(i + 1);
    let r;
    try { r = run(q); } catch (e) { r = { error: String(e && e.stack || e) }; }
    process.stdout.write(JSON.stringify(r) + '\n');
  }
});
