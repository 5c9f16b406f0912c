// Runs the demo page in a small document model, one command (a line of JSON) at a time.
// Commands: {load: html} {select: id, value} {click: id} {reply: n, status, text} {drop: n} {}
// Each is answered with one line: what the page shows and which requests are open.
'use strict';
const vm = require('vm');
const readline = require('readline');

const VOID = new Set(['meta', 'link', 'br', 'hr', 'img', 'input', 'area', 'base', 'col', 'embed', 'source', 'track', 'wbr']);
const NAMED = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0' };
const decode = s => s.replace(/&(#x[0-9a-f]+|#\d+|[a-z]+);/gi, (m, e) =>
    e[0] !== '#' ? (NAMED[e] || m) : String.fromCodePoint(e[1] === 'x' || e[1] === 'X' ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10)));
const encode = s => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;').replace(/\u00a0/g, '&nbsp;');

let page = null; // the page that is loaded
let foreign = new Set(); // elements that text from the server turned into

class Node_ {
    constructor() { this.parentNode = null; this.childNodes = []; this.listeners = {}; }
    get parentElement() { return this.parentNode; }
    get children() { return this.childNodes.filter(n => n instanceof Element_); }
    get firstChild() { return this.childNodes[0] || null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
    get firstElementChild() { return this.children[0] || null; }
    get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
    get nextSibling() { const s = this.parentNode ? this.parentNode.childNodes : []; return s[s.indexOf(this) + 1] || null; }
    hasChildNodes() { return this.childNodes.length > 0; }
    contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
    get textContent() { return this.childNodes.map(n => n.textContent).join(''); }
    set textContent(s) { this.replaceChildren(...(String(s ?? '') === '' ? [] : [new Text_(String(s))])); }
    insertBefore(n, ref) {
        if (n instanceof Fragment_) { for (const c of [...n.childNodes]) this.insertBefore(c, ref); return n; }
        n.remove();
        const i = ref ? this.childNodes.indexOf(ref) : -1;
        this.childNodes.splice(i < 0 ? this.childNodes.length : i, 0, n);
        n.parentNode = this;
        return n;
    }
    appendChild(n) { return this.insertBefore(n, null); }
    append(...ns) { for (const n of ns) this.appendChild(n instanceof Node_ ? n : new Text_(String(n))); }
    prepend(...ns) { const f = this.firstChild; for (const n of ns) this.insertBefore(n instanceof Node_ ? n : new Text_(String(n)), f); }
    removeChild(n) { n.remove(); return n; }
    replaceChildren(...ns) { for (const c of [...this.childNodes]) c.remove(); this.append(...ns); }
    replaceWith(...ns) { const p = this.parentNode; for (const n of ns) p.insertBefore(n instanceof Node_ ? n : new Text_(String(n)), this); this.remove(); }
    remove() {
        if (!this.parentNode) return;
        const s = this.parentNode.childNodes;
        s.splice(s.indexOf(this), 1);
        this.parentNode = null;
    }
    addEventListener(t, f, o) { (this.listeners[t] = this.listeners[t] || []).push({ f, once: !!(o && o.once) }); }
    removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] || []).filter(l => l.f !== f); }
    dispatchEvent(e) {
        if (!e.target) e.target = this;
        for (let n = this; n; n = e.bubbles === false ? null : n.parentNode) {
            e.currentTarget = n;
            const h = n['on' + e.type] || (n instanceof Element_ && n.inline(e.type));
            if (h) call(() => h.call(n, e));
            for (const l of [...(n.listeners[e.type] || [])]) {
                if (l.once) n.removeEventListener(e.type, l.f);
                call(() => typeof l.f === 'function' ? l.f.call(n, e) : l.f.handleEvent(e));
            }
            if (e.stopped) break;
        }
        return !e.defaultPrevented;
    }
    *all() { for (const c of this.childNodes) if (c instanceof Element_) { yield c; yield* c.all(); } }
    querySelectorAll(sel) { return [...this.all()].filter(e => e.matches(sel)); }
    querySelector(sel) { for (const e of this.all()) if (e.matches(sel)) return e; return null; }
    getElementsByTagName(t) { return [...this.all()].filter(e => t === '*' || e.tagName === t.toUpperCase()); }
    getElementsByClassName(c) { return [...this.all()].filter(e => e.classList.contains(c)); }
    getElementById(id) { for (const e of this.all()) if (e.id === id) return e; return null; }
}
class Fragment_ extends Node_ { }
class Text_ extends Node_ {
    constructor(s) { super(); this.data = s; }
    get textContent() { return this.data; }
    set textContent(s) { this.data = String(s); }
    get nodeValue() { return this.data; }
    set nodeValue(s) { this.data = String(s); }
    get html() { return encode(this.data); }
}
class Element_ extends Node_ {
    constructor(tag) { super(); this.tagName = tag.toUpperCase(); this.attrs = {}; this.style = { setProperty() { } }; this.picked = null; this.scrollTop = 0; }
    get nodeName() { return this.tagName; }
    get localName() { return this.tagName.toLowerCase(); }
    get id() { return this.attrs.id || ''; }
    set id(v) { this.attrs.id = String(v); }
    get className() { return this.attrs.class || ''; }
    set className(v) { this.attrs.class = String(v); }
    get classList() {
        const e = this, list = () => e.className.split(/\s+/).filter(Boolean), set = l => { e.className = l.join(' '); };
        return {
            contains: c => list().includes(c), add: (...cs) => set([...new Set([...list(), ...cs])]), remove: (...cs) => set(list().filter(c => !cs.includes(c))),
            toggle: (c, on) => { on = on === undefined ? !list().includes(c) : on; set(list().filter(x => x !== c).concat(on ? [c] : [])); return on; },
        };
    }
    get dataset() {
        const e = this, name = k => 'data-' + String(k).replace(/[A-Z]/g, m => '-' + m.toLowerCase());
        return new Proxy({}, { get: (_, k) => e.attrs[name(k)], set: (_, k, v) => { e.attrs[name(k)] = String(v); return true; }, has: (_, k) => name(k) in e.attrs, deleteProperty: (_, k) => delete e.attrs[name(k)] });
    }
    getAttribute(k) { return k in this.attrs ? this.attrs[k] : null; }
    setAttribute(k, v) { this.attrs[k] = String(v); }
    hasAttribute(k) { return k in this.attrs; }
    removeAttribute(k) { delete this.attrs[k]; }
    get disabled() { return 'disabled' in this.attrs; }
    set disabled(v) { if (v) this.attrs.disabled = ''; else delete this.attrs.disabled; }
    get hidden() { return 'hidden' in this.attrs; }
    set hidden(v) { if (v) this.attrs.hidden = ''; else delete this.attrs.hidden; }
    get title() { return this.attrs.title || ''; }
    set title(v) { this.attrs.title = String(v); }
    inline(type) {
        const code = this.attrs['on' + type];
        if (code === undefined) return null;
        return function (event) { return vm.runInContext(`(function (event) {${code}\n})`, page.context).call(this, event); };
    }
    get innerText() { return this.textContent; }
    set innerText(s) { this.textContent = s; }
    get html() {
        const t = this.localName, a = Object.entries(this.attrs).map(([k, v]) => ` ${k}="${encode(v).replace(/"/g, '&quot;')}"`).join('');
        return `<${t}${a}>` + (VOID.has(t) ? '' : this.innerHTML + `</${t}>`);
    }
    get outerHTML() { return this.html; }
    get innerHTML() { return this.childNodes.map(n => n.html).join(''); }
    set innerHTML(s) {
        const f = parse(String(s));
        for (const e of f.all()) if (!['span', 'option', 'br', 'div', 'b', 'i', 'em', 'strong', 'mark', 'code', 'pre', 'small', 'optgroup'].includes(e.localName) || Object.keys(e.attrs).some(k => k.startsWith('on'))) foreign.add(e.html.slice(0, 200));
        this.replaceChildren(...[...f.childNodes]);
    }
    insertAdjacentHTML(where, s) {
        const f = parse(String(s)), p = this.parentNode;
        switch (where.toLowerCase()) {
            case 'beforeend': this.append(...[...f.childNodes]); break;
            case 'afterbegin': this.prepend(...[...f.childNodes]); break;
            case 'beforebegin': for (const n of [...f.childNodes]) p.insertBefore(n, this); break;
            default: for (const n of [...f.childNodes].reverse()) p.insertBefore(n, this.nextSibling);
        }
    }
    insertAdjacentElement(where, e) { if (where === 'beforeend') this.appendChild(e); else if (where === 'afterbegin') this.prepend(e); else this.parentNode.insertBefore(e, where === 'beforebegin' ? this : this.nextSibling); return e; }
    closest(sel) { for (let e = this; e instanceof Element_; e = e.parentNode) if (e.matches(sel)) return e; return null; }
    matches(sel) {
        return sel.split(',').some(one => {
            const steps = one.trim().replace(/\s*>\s*/g, ' > ').split(/\s+/);
            const fit = (e, s) => {
                const m = s.match(/^([\w-]+|\*)?((?:[#.][\w-]+|\[[^\]]+\]|:[\w-]+(?:\([^)]*\))?)*)$/);
                if (!m) throw new Error('selector ' + sel);
                if (m[1] && m[1] !== '*' && m[1].toUpperCase() !== e.tagName) return false;
                return (m[2].match(/[#.][\w-]+|\[[^\]]+\]|:[\w-]+(\([^)]*\))?/g) || []).every(p => {
                    if (p[0] === '#') return e.id === p.slice(1);
                    if (p[0] === '.') return e.classList.contains(p.slice(1));
                    if (p === ':checked') return e.selected;
                    if (p[0] === ':') throw new Error('selector ' + sel);
                    const a = p.slice(1, -1).match(/^([\w-]+)(?:=["']?([^"']*)["']?)?$/);
                    return a && a[1] in e.attrs && (a[2] === undefined || e.attrs[a[1]] === a[2]);
                });
            };
            const up = (e, i) => {
                if (i < 0) return true;
                if (steps[i] === '>') { e = e.parentNode; return e instanceof Element_ && fit(e, steps[i - 1]) && up(e, i - 2); }
                for (e = e.parentNode; e instanceof Element_; e = e.parentNode) if (fit(e, steps[i]) && up(e, i - 1)) return true;
                return false;
            };
            return fit(this, steps[steps.length - 1]) && up(this, steps.length - 2);
        });
    }
    // select and option
    get options() {
        const o = this.getElementsByTagName('option');
        const sel = this;
        Object.defineProperty(o, 'selectedIndex', { get: () => sel.selectedIndex, set: v => { sel.selectedIndex = v; } });
        o.add = e => sel.add(e);
        o.remove = i => sel.options[i] && sel.options[i].remove();
        o.item = i => o[i] || null;
        o.namedItem = n => o.find(e => e.id === n) || null;
        return o;
    }
    get length() { return this.tagName === 'SELECT' ? this.options.length : undefined; }
    get selectedOptions() { const i = this.selectedIndex; return i < 0 ? [] : [this.options[i]]; }
    get selectedIndex() {
        const o = this.options;
        if (this.picked === 'none') return -1;
        const i = o.indexOf(this.picked);
        if (i >= 0) return i;
        const s = o.findIndex(e => 'selected' in e.attrs);
        return s >= 0 ? s : o.length ? 0 : -1;
    }
    set selectedIndex(i) { this.picked = this.options[i] || 'none'; }
    get selected() { for (let p = this.parentNode; p; p = p.parentNode) if (p.tagName === 'SELECT') return p.options[p.selectedIndex] === this; return false; }
    set selected(v) { for (let p = this.parentNode; p; p = p.parentNode) if (p.tagName === 'SELECT') { if (v) p.picked = this; else if (p.picked === this) p.picked = null; return; } if (v) this.attrs.selected = ''; }
    get value() {
        if (this.tagName === 'SELECT') { const i = this.selectedIndex; return i < 0 ? '' : this.options[i].value; }
        if (this.tagName === 'OPTION') return 'value' in this.attrs ? this.attrs.value : this.textContent.trim().replace(/\s+/g, ' ');
        return this.attrs.value || '';
    }
    set value(v) {
        if (this.tagName === 'SELECT') this.picked = this.options.find(o => o.value === String(v)) || 'none';
        else this.attrs.value = String(v);
    }
    get text() { return this.textContent; }
    set text(s) { this.textContent = s; }
    get label() { return this.attrs.label || this.textContent; }
    set label(s) { this.attrs.label = String(s); }
    get index() { return this.parentNode ? this.parentNode.options.indexOf(this) : 0; }
    add(o, before) { this.insertBefore(o, typeof before === 'number' ? this.options[before] : before || null); }
    click() { if (!this.disabled) this.dispatchEvent(new Event_('click', { bubbles: true })); }
    focus() { }
    blur() { }
    scrollIntoView() { }
}
class Event_ {
    constructor(type, o) { this.type = type; this.bubbles = !!(o && o.bubbles); this.target = null; this.detail = o && o.detail; }
    preventDefault() { this.defaultPrevented = true; }
    stopPropagation() { this.stopped = true; }
    stopImmediatePropagation() { this.stopped = true; }
}

function parse(html) {
    const root = new Fragment_();
    let at = root, i = 0;
    const text = s => { if (s) at.appendChild(new Text_(decode(s))); };
    while (i < html.length) {
        const lt = html.indexOf('<', i);
        if (lt < 0) { text(html.slice(i)); break; }
        const rest = html.slice(lt, lt + 4);
        if (!/^<([a-zA-Z/!])/.test(rest)) { text(html.slice(i, lt + 1)); i = lt + 1; continue; }
        text(html.slice(i, lt));
        if (rest.startsWith('<!--')) { const e = html.indexOf('-->', lt); i = e < 0 ? html.length : e + 3; continue; }
        if (rest[1] === '!') { i = html.indexOf('>', lt) + 1 || html.length; continue; }
        const re = /<(\/?)([a-zA-Z][^\s/>]*)((?:[^>"']|"[^"]*"|'[^']*')*)>/y;
        re.lastIndex = lt;
        const m = re.exec(html);
        if (!m) { text(html.slice(lt)); break; }
        i = re.lastIndex;
        const tag = m[2].toLowerCase();
        if (m[1]) {
            for (let p = at; p !== root; p = p.parentNode) if (p.localName === tag) { at = p.parentNode; break; }
            continue;
        }
        if (tag === 'option' && at.localName === 'option') at = at.parentNode;
        const e = new Element_(tag);
        for (const a of m[3].matchAll(/([^\s=/"']+)(?:\s*=\s*("[^"]*"|'[^']*'|[^\s"'>]+))?/g))
            e.attrs[a[1].toLowerCase()] = a[2] === undefined ? '' : decode(a[2].replace(/^(["'])([^]*)\1$/, '$2'));
        at.appendChild(e);
        if (tag === 'script' || tag === 'style') {
            const end = html.toLowerCase().indexOf('</' + tag, i);
            e.appendChild(new Text_(html.slice(i, end < 0 ? html.length : end)));
            i = end < 0 ? html.length : html.indexOf('>', end) + 1;
        } else if (!VOID.has(tag) && !m[3].endsWith('/')) at = e;
    }
    return root;
}

function call(f) {
    try { const r = f(); if (r && typeof r.then === 'function') r.then(null, e => note(e)); return r; } catch (e) { note(e); }
}
function note(e) { if (page) page.errors.push(String((e && e.stack) || e).split('\n').slice(0, 3).join(' | ')); }
process.on('unhandledRejection', e => note(e));
process.on('uncaughtException', e => note(e));

function load(html) {
    const document = new Node_();
    for (const n of [...parse(html).childNodes]) document.appendChild(n);
    page = { document, open: new Map(), count: 0, errors: [], dropped: 0, timers: new Map(), timer: 0 };
    foreign = new Set();
    const me = page;
    const known = (root, t) => root.getElementsByTagName(t)[0] || null;
    Object.assign(document, {
        createElement: t => new Element_(t), createTextNode: s => new Text_(String(s)), createDocumentFragment: () => new Fragment_(),
        readyState: 'loading', title: '', cookie: '', location: { href: 'http://localhost:8080/', search: '', hash: '', pathname: '/' },
    });
    for (const t of ['body', 'head']) Object.defineProperty(document, t, { get: () => known(document, t) });
    Object.defineProperty(document, 'documentElement', { get: () => known(document, 'html') });
    const window = new Node_();
    const set = (f, ms, ...a) => { me.timers.set(++me.timer, () => f(...a)); return me.timer; };
    const fetch_ = (url, o) => new Promise((ok, no) => {
        url = String(url && url.url || url);
        const n = ++me.count;
        const signal = o && o.signal;
        const abort = () => { me.open.delete(n); no(Object.assign(new Error('aborted'), { name: 'AbortError' })); };
        if (signal && signal.aborted) return abort();
        if (signal) signal.addEventListener('abort', abort);
        me.open.set(n, { url, ok, no });
    });
    Object.assign(window, {
        window, self: window, document, fetch: fetch_, location: document.location, console: { log() { }, warn() { }, error() { }, info() { }, debug() { } },
        setTimeout: set, clearTimeout: n => me.timers.delete(n), setInterval: () => 0, clearInterval() { }, queueMicrotask,
        requestAnimationFrame: f => set(f, 0, 0), cancelAnimationFrame: n => me.timers.delete(n),
        URL, URLSearchParams, AbortController, AbortSignal, TextDecoder, TextEncoder, structuredClone, performance,
        Event: Event_, CustomEvent: Event_, Node: Node_, Element: Element_, HTMLElement: Element_, Text: Text_, DocumentFragment: Fragment_,
        Option: function (text, value, _d, sel) { const o = new Element_('option'); if (text !== undefined) o.textContent = text; if (value !== undefined) o.attrs.value = String(value); if (sel) o.attrs.selected = ''; return o; },
        alert() { }, confirm: () => true, navigator: { userAgent: 'monitor' }, history: { pushState() { }, replaceState() { } },
        localStorage: store(), sessionStorage: store(), getComputedStyle: () => ({}), matchMedia: () => ({ matches: false, addEventListener() { } }),
    });
    window.addEventListener = Node_.prototype.addEventListener.bind(window);
    window.removeEventListener = Node_.prototype.removeEventListener.bind(window);
    window.dispatchEvent = Node_.prototype.dispatchEvent.bind(window);
    document.defaultView = window;
    me.context = vm.createContext(window);
    const scripts = document.getElementsByTagName('script');
    const run = s => { if (!s.attrs.src && (!s.attrs.type || /javascript|module/.test(s.attrs.type))) try { vm.runInContext(s.textContent, me.context, { filename: 'page' }); } catch (e) { note(e); } };
    for (const s of scripts) run(s);
    document.readyState = 'interactive';
    document.dispatchEvent(new Event_('DOMContentLoaded'));
    document.readyState = 'complete';
    for (const b of document.getElementsByTagName('body')) if (b.attrs.onload) window.onload = window.onload || b.inline('load');
    window.dispatchEvent(new Event_('load'));
}
function store() { const m = new Map(); return { getItem: k => m.has(k) ? m.get(k) : null, setItem: (k, v) => { m.set(k, String(v)); }, removeItem: k => { m.delete(k); }, clear: () => m.clear() }; }

async function settle() {
    for (let k = 0; k < 50; k++) {
        for (let i = 0; i < 4; i++) await new Promise(r => setImmediate(r));
        if (!page || page.timers.size === 0) return;
        const [n, f] = [...page.timers][0];
        page.timers.delete(n);
        call(f);
    }
}

function state() {
    const out = { open: [...page.open].map(([n, r]) => ({ n, url: r.url })), text: {}, value: {}, options: {}, disabled: {}, errors: page.errors, foreign: [...foreign] };
    for (const e of page.document.all()) {
        if (!e.id) continue;
        if (e.tagName === 'SELECT') {
            out.value[e.id] = e.value;
            out.options[e.id] = e.options.map(o => o.value);
        } else out.text[e.id] = e.textContent;
        if (e.disabled) out.disabled[e.id] = true;
    }
    page.errors = [];
    foreign = new Set();
    return out;
}

function obey(cmd) {
    if (cmd.load !== undefined) return load(cmd.load);
    if (cmd.select !== undefined) {
        const e = page.document.getElementById(cmd.select);
        if (!e || e.disabled) return;
        e.value = cmd.value;
        e.dispatchEvent(new Event_('input', { bubbles: true }));
        e.dispatchEvent(new Event_('change', { bubbles: true }));
        return;
    }
    if (cmd.click !== undefined) { const e = page.document.getElementById(cmd.click); if (e) e.click(); return; }
    if (cmd.reply !== undefined) {
        const r = page.open.get(cmd.reply);
        page.open.delete(cmd.reply);
        const later = v => new Promise(ok => setImmediate(() => ok(v)));
        r.ok({
            ok: cmd.status >= 200 && cmd.status < 300, status: cmd.status, statusText: '', url: r.url, headers: new Map([['content-type', 'text/plain; charset=utf-8']]),
            text: () => later(cmd.text), json: () => later(0).then(() => JSON.parse(cmd.text)), arrayBuffer: () => later(new TextEncoder().encode(cmd.text).buffer),
            blob: () => later({ text: () => later(cmd.text) }), clone() { return this; },
        });
        return;
    }
    if (cmd.drop !== undefined) { const r = page.open.get(cmd.drop); page.open.delete(cmd.drop); r.no(new TypeError('Failed to fetch')); }
}

const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
let queue = Promise.resolve();
rl.on('line', line => {
    queue = queue.then(async () => {
        obey(JSON.parse(line));
        await settle();
        process.stdout.write(JSON.stringify(state()) + '\n');
    });
});
rl.on('close', () => queue.then(() => process.exit(0)));
